//! Channels with crossbeam-channel's interface and semantics, scheduled by the simulator.
use crate::{block_on, lock, ChanMeta, Cond};
use std::collections::VecDeque;
use std::fmt;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(PartialEq, Eq, Clone, Copy)]
pub struct SendError<T>(pub T);
impl<T> SendError<T> {
    pub fn into_inner(self) -> T {
        self.0
    }
}
impl<T> fmt::Debug for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        "SendError(..)".fmt(f)
    }
}
impl<T> fmt::Display for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        "sending on a disconnected channel".fmt(f)
    }
}
impl<T: Send> std::error::Error for SendError<T> {}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct RecvError;
impl fmt::Display for RecvError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        "receiving on an empty and disconnected channel".fmt(f)
    }
}
impl std::error::Error for RecvError {}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum TryRecvError {
    Empty,
    Disconnected,
}
impl fmt::Display for TryRecvError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            TryRecvError::Empty => "receiving on an empty channel".fmt(f),
            TryRecvError::Disconnected => "receiving on an empty and disconnected channel".fmt(f),
        }
    }
}
impl std::error::Error for TryRecvError {}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum RecvTimeoutError {
    Timeout,
    Disconnected,
}
impl fmt::Display for RecvTimeoutError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            RecvTimeoutError::Timeout => "timed out waiting on receive operation".fmt(f),
            RecvTimeoutError::Disconnected => "channel is empty and disconnected".fmt(f),
        }
    }
}
impl std::error::Error for RecvTimeoutError {}

type Queue<T> = Arc<Mutex<VecDeque<(u64, T)>>>;

pub struct Sender<T> {
    id: usize,
    q: Queue<T>,
}
pub struct Receiver<T> {
    id: usize,
    q: Queue<T>,
}

fn channel<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
    let mut st = lock();
    st.chans.push(ChanMeta { len: 0, next_ticket: 0, taken: 0, senders: 1, receivers: 1, cap });
    let id = st.chans.len() - 1;
    let q: Queue<T> = Arc::new(Mutex::new(VecDeque::new()));
    (Sender { id, q: q.clone() }, Receiver { id, q })
}
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    channel(Some(cap))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    channel(None)
}

impl<T> Sender<T> {
    pub fn send(&self, msg: T) -> Result<(), SendError<T>> {
        let cap = lock().chans[self.id].cap;
        let first = if matches!(cap, Some(n) if n > 0) {
            Cond::Space { chan: self.id }
        } else {
            Cond::Always
        };
        let mut st = block_on(first);
        let ch = &mut st.chans[self.id];
        if ch.receivers == 0 {
            return Err(SendError(msg));
        }
        let ticket = ch.next_ticket;
        ch.next_ticket += 1;
        ch.len += 1;
        self.q.lock().unwrap().push_back((ticket, msg));
        drop(st);
        if cap == Some(0) {
            let mut st = block_on(Cond::Taken { chan: self.id, ticket });
            if st.chans[self.id].taken <= ticket {
                let mut q = self.q.lock().unwrap();
                if let Some(pos) = q.iter().position(|(t, _)| *t == ticket) {
                    let (_, msg) = q.remove(pos).unwrap();
                    st.chans[self.id].len -= 1;
                    return Err(SendError(msg));
                }
            }
        }
        Ok(())
    }
    pub fn is_empty(&self) -> bool {
        lock().chans[self.id].len == 0
    }
    pub fn len(&self) -> usize {
        lock().chans[self.id].len
    }
}

impl<T> Receiver<T> {
    fn take(&self, st: &mut crate::St) -> Option<T> {
        let (_, msg) = self.q.lock().unwrap().pop_front()?;
        let ch = &mut st.chans[self.id];
        ch.len -= 1;
        ch.taken += 1;
        Some(msg)
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        let mut st = block_on(Cond::Recv { chan: self.id, deadline: None });
        self.take(&mut st).ok_or(RecvError)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let mut st = block_on(Cond::Always);
        match self.take(&mut st) {
            Some(m) => Ok(m),
            None if st.chans[self.id].senders == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn recv_timeout(&self, timeout: Duration) -> Result<T, RecvTimeoutError> {
        let deadline = lock().world.now_ms + timeout.as_millis() as u64;
        let mut st = block_on(Cond::Recv { chan: self.id, deadline: Some(deadline) });
        match self.take(&mut st) {
            Some(m) => Ok(m),
            None if st.chans[self.id].senders == 0 => Err(RecvTimeoutError::Disconnected),
            None => {
                st.world.stats.timeouts += 1;
                Err(RecvTimeoutError::Timeout)
            }
        }
    }
    pub fn is_empty(&self) -> bool {
        lock().chans[self.id].len == 0
    }
    pub fn len(&self) -> usize {
        lock().chans[self.id].len
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter { r: self }
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter { r: self }
    }
}

pub struct Iter<'a, T> {
    r: &'a Receiver<T>,
}
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.r.recv().ok()
    }
}
pub struct TryIter<'a, T> {
    r: &'a Receiver<T>,
}
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.r.try_recv().ok()
    }
}
pub struct IntoIter<T> {
    r: Receiver<T>,
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.r.recv().ok()
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter { r: self }
    }
}

impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        lock().chans[self.id].senders += 1;
        Sender { id: self.id, q: self.q.clone() }
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        lock().chans[self.id].receivers += 1;
        Receiver { id: self.id, q: self.q.clone() }
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        lock().chans[self.id].senders -= 1;
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        lock().chans[self.id].receivers -= 1;
    }
}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Sender { .. }")
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Receiver { .. }")
    }
}
