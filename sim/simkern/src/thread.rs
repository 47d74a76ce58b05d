//! Threads under the simulator's scheduler.
use crate::{add_thread, block_on, lock, wait_turn, wake_current, Cond, INSIDE, TID};
use std::io;
use std::sync::{Arc, Mutex};

pub struct JoinHandle<T> {
    tid: usize,
    slot: Arc<Mutex<Option<std::thread::Result<T>>>>,
}

#[derive(Default)]
pub struct Builder {
    name: Option<String>,
}
impl Builder {
    pub fn new() -> Self {
        Builder::default()
    }
    pub fn name(mut self, name: String) -> Self {
        self.name = Some(name);
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let name = self.name.unwrap_or_else(|| "thread".into());
        let slot = Arc::new(Mutex::new(None));
        let slot2 = slot.clone();
        let tid = {
            let mut st = lock();
            let tid = add_thread(&mut st, name.clone());
            st.threads[tid].cond = Cond::Always;
            tid
        };
        let was = INSIDE.with(|i| i.replace(true));
        let started = std::thread::Builder::new().name(name).spawn(move || {
            TID.with(|t| t.set(tid));
            drop(wait_turn(lock(), tid));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            *slot2.lock().unwrap() = Some(r);
            let mut st = lock();
            st.threads[tid].cond = Cond::Done;
            st.schedule();
            wake_current(&st, tid);
            INSIDE.with(|i| i.set(true));
        });
        INSIDE.with(|i| i.set(was));
        let _ = started?;
        drop(block_on(Cond::Always));
        Ok(JoinHandle { tid, slot })
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> std::thread::Result<T> {
        drop(block_on(Cond::Join(self.tid)));
        self.slot.lock().unwrap().take().expect("joined once")
    }
    pub fn is_finished(&self) -> bool {
        lock().threads[self.tid].cond == Cond::Done
    }
}
