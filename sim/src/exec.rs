//! Fork-per-run execution: every simulated session runs in its own pristine, single-use process.
use crate::sys;
use std::time::Instant;

#[derive(Debug, Clone, PartialEq)]
pub enum Died {
    Signal(i32),
    Exit(i32),
    Hang,
}

pub const CPU_LIMIT_S: u64 = 20;
pub const WALL_LIMIT_MS: u128 = 60_000;

/// Runs `f` in a forked child and returns the bytes it produced.
pub fn forked(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, Died> {
    let mut fds = [0i32; 2];
    unsafe {
        if sys::pipe(fds.as_mut_ptr()) != 0 {
            panic!("pipe");
        }
        let pid = sys::fork();
        if pid < 0 {
            panic!("fork");
        }
        if pid == 0 {
            sys::close(fds[0]);
            sys::die_with_parent();
            sys::set_cpu_limit(CPU_LIMIT_S);
            sys::set_mem_limit(6 << 30);
            let out = f();
            let ok = sys::write_all(fds[1], &out);
            sys::_exit(if ok { 0 } else { 3 });
        }
        sys::close(fds[1]);
        let mut out = Vec::new();
        let mut buf = vec![0u8; 65536];
        let t0 = Instant::now();
        let mut hang = false;
        loop {
            let mut p = sys::PollFd { fd: fds[0], events: 1, revents: 0 };
            let r = sys::poll(&mut p, 1, 2000);
            if r > 0 {
                let n = sys::read(fds[0], buf.as_mut_ptr(), buf.len());
                if n <= 0 {
                    break;
                }
                out.extend_from_slice(&buf[..n as usize]);
            } else if t0.elapsed().as_millis() > WALL_LIMIT_MS {
                hang = true;
                sys::kill(pid, 9);
                break;
            }
        }
        sys::close(fds[0]);
        let mut status = 0i32;
        sys::waitpid(pid, &mut status, 0);
        if hang {
            return Err(Died::Hang);
        }
        let sig = status & 0x7f;
        if sig != 0 {
            return Err(if sig == 24 || sig == 9 { Died::Hang } else { Died::Signal(sig) });
        }
        let code = (status >> 8) & 0xff;
        if code != 0 {
            return Err(Died::Exit(code));
        }
        Ok(out)
    }
}

/// Background children whose single result is collected later.
pub struct Kid {
    pid: i32,
    fd: i32,
    out: Vec<u8>,
    open: bool,
}
pub fn spawn_all<F: FnOnce() -> Vec<u8>>(fs: impl Iterator<Item = F>) -> Vec<Kid> {
    let mut kids: Vec<Kid> = vec![];
    for f in fs {
        let mut fds = [0i32; 2];
        unsafe {
            if sys::pipe(fds.as_mut_ptr()) != 0 {
                panic!("pipe");
            }
            let pid = sys::fork();
            if pid == 0 {
                sys::close(fds[0]);
                sys::die_with_parent();
                let out = f();
                sys::write_all(fds[1], &out);
                sys::_exit(0);
            }
            sys::close(fds[1]);
            kids.push(Kid { pid, fd: fds[0], out: vec![], open: true });
        }
    }
    kids
}
/// Waits for all; once a finished result satisfies `stop`, the others get two more seconds.
pub fn collect(mut kids: Vec<Kid>, stop: impl Fn(&[u8]) -> bool) -> (Vec<Vec<u8>>, bool) {
    let mut buf = vec![0u8; 1 << 16];
    let mut stopped: Option<Instant> = None;
    while kids.iter().any(|k| k.open) {
        if stopped.is_some_and(|t| t.elapsed().as_millis() > 2000) {
            for k in kids.iter_mut().filter(|k| k.open) {
                unsafe {
                    sys::kill(k.pid, 9);
                }
            }
            stopped = Some(Instant::now());
        }
        for k in kids.iter_mut().filter(|k| k.open) {
            let mut p = sys::PollFd { fd: k.fd, events: 1, revents: 0 };
            unsafe {
                if sys::poll(&mut p, 1, 20) > 0 {
                    let n = sys::read(k.fd, buf.as_mut_ptr(), buf.len());
                    if n > 0 {
                        k.out.extend_from_slice(&buf[..n as usize]);
                    } else {
                        k.open = false;
                        sys::close(k.fd);
                        let mut st = 0;
                        sys::waitpid(k.pid, &mut st, 0);
                        if stopped.is_none() && stop(&k.out) {
                            stopped = Some(Instant::now());
                        }
                    }
                }
            }
        }
    }
    (kids.into_iter().map(|k| k.out).collect(), stopped.is_some())
}
