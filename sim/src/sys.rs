//! Thin libc bindings plus the process-level seams: randomness, clocks, sleeping and exit().
#![allow(non_camel_case_types)]
use std::sync::atomic::{AtomicU64, Ordering};

#[repr(C)]
pub struct PollFd {
    pub fd: i32,
    pub events: i16,
    pub revents: i16,
}
#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
#[repr(C)]
pub struct TimeSpec {
    pub sec: i64,
    pub nsec: i64,
}
extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    pub fn pipe(fds: *mut i32) -> i32;
    pub fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    pub fn dup2(a: i32, b: i32) -> i32;
    pub fn close(fd: i32) -> i32;
    pub fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    pub fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    pub fn lseek(fd: i32, off: i64, whence: i32) -> i64;
    fn open(path: *const u8, flags: i32, ...) -> i32;
    fn setrlimit(res: i32, lim: *const RLimit) -> i32;
    fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32;
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn __errno_location() -> *mut i32;
    fn dlsym(handle: *mut u8, name: *const u8) -> *mut u8;
    fn prctl(op: i32, ...) -> i32;
}

pub fn open_null() -> i32 {
    unsafe { open(b"/dev/null\0".as_ptr(), 2) }
}
pub fn memfd() -> i32 {
    unsafe { memfd_create(b"sim\0".as_ptr(), 0) }
}
pub fn set_cpu_limit(secs: u64) {
    let l = RLimit { cur: secs, max: secs + 2 };
    let c = RLimit { cur: 0, max: 0 };
    unsafe {
        setrlimit(0, &l);
        setrlimit(4, &c);
    }
}
pub fn set_mem_limit(bytes: u64) {
    let l = RLimit { cur: bytes, max: bytes };
    unsafe {
        setrlimit(9, &l);
    }
}
pub fn die_with_parent() {
    unsafe {
        prctl(1, 9u64, 0u64, 0u64, 0u64);
    }
}
pub fn pin(cpu: usize) {
    let mut mask = [0u64; 16];
    mask[cpu / 64] = 1 << (cpu % 64);
    unsafe {
        sched_setaffinity(0, 128, mask.as_ptr());
    }
}
pub fn write_all(fd: i32, mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let n = unsafe { write(fd, b.as_ptr(), b.len()) };
        if n <= 0 {
            return false;
        }
        b = &b[n as usize..];
    }
    true
}

/// Seed of the randomness the process under test can observe.
pub static RANDOM: AtomicU64 = AtomicU64::new(0x5EED);

/// libc's getrandom, used by std for hash seeds: deterministic, decided by the run's seed.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        let x = RANDOM.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::Relaxed);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        *buf.add(i) = (z >> 33) as u8;
    }
    len as isize
}

const SYS_CLOCK_GETTIME: i64 = 228;
const SYS_CLOCK_NANOSLEEP: i64 = 230;

/// libc's clock_gettime: the simulated clock inside the simulated process.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut TimeSpec) -> i32 {
    if simkern::active() {
        let ms = simkern::now_ms();
        (*ts).sec = 1_700_000_000 + (ms / 1000) as i64;
        (*ts).nsec = ((ms % 1000) * 1_000_000) as i64;
        return 0;
    }
    raw_syscall(SYS_CLOCK_GETTIME, clk as i64, ts as i64, 0, 0, 0, 0) as i32
}
unsafe fn sim_sleep(req: *const TimeSpec) -> bool {
    if simkern::on_sim_thread() {
        let ms = (*req).sec as u64 * 1000 + ((*req).nsec as u64).div_ceil(1_000_000);
        simkern::sleep(std::time::Duration::from_millis(ms));
        return true;
    }
    false
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const TimeSpec, rem: *mut TimeSpec) -> i32 {
    if sim_sleep(req) {
        return 0;
    }
    raw_syscall(SYS_CLOCK_NANOSLEEP, 1, 0, req as i64, rem as i64, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: i32,
    flags: i32,
    req: *const TimeSpec,
    rem: *mut TimeSpec,
) -> i32 {
    if flags == 0 && sim_sleep(req) {
        return 0;
    }
    raw_syscall(SYS_CLOCK_NANOSLEEP, clk as i64, flags as i64, req as i64, rem as i64, 0, 0) as i32
}
/// libc's exit: ends the simulated process instead of the simulator.
#[no_mangle]
pub unsafe extern "C" fn exit(code: i32) -> ! {
    if simkern::on_sim_thread() {
        simkern::process_exit(code)
    }
    _exit(code)
}

unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
const SYS_FUTEX: i64 = 202;
const ETIMEDOUT: i32 = 110;
/// libc's syscall: futex waits of the simulated process (std mutexes, condition variables, thread parking) are
/// blocking points of the simulator.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let op = b & 127;
    if n == SYS_FUTEX && (op == 0 || op == 9) && simkern::intercept() {
        let deadline = (d as *const TimeSpec).as_ref().map(|t| {
            let ms = ((t.sec as u64) * 1000).saturating_add((t.nsec as u64).div_ceil(1_000_000));
            if op == 9 { ms.saturating_sub(1_700_000_000_000) } else { simkern::now_ms().saturating_add(ms) }
        });
        match simkern::futex_wait(a as usize, c as u32, deadline) {
            Some(true) => return 0,
            Some(false) => {
                *__errno_location() = ETIMEDOUT;
                return -1;
            }
            None => {}
        }
    }
    raw_syscall(n, a, b, c, d, e, f)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if simkern::intercept() {
        simkern::yield_now();
        return 0;
    }
    raw_syscall(24, 0, 0, 0, 0, 0, 0) as i32
}

type Start = extern "C" fn(*mut u8) -> *mut u8;
type Create = unsafe extern "C" fn(*mut usize, *const u8, Start, *mut u8) -> i32;
type Join = unsafe extern "C" fn(usize, *mut *mut u8) -> i32;
struct Adopted {
    tid: usize,
    start: Start,
    arg: *mut u8,
}
static ADOPTED: std::sync::Mutex<Vec<(usize, usize)>> = std::sync::Mutex::new(vec![]);
unsafe fn next(name: &'static [u8]) -> *mut u8 {
    dlsym(-1isize as *mut u8, name.as_ptr())
}
extern "C" fn start_adopted(p: *mut u8) -> *mut u8 {
    let a = unsafe { Box::from_raw(p as *mut Adopted) };
    simkern::run_adopted(a.tid, || (a.start)(a.arg))
}
/// Threads the simulated process starts by itself (std::thread) run under the scheduler, too.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut usize, attr: *const u8, start: Start, arg: *mut u8) -> i32 {
    let real: Create = std::mem::transmute(next(b"pthread_create\0"));
    if !simkern::intercept() {
        return real(t, attr, start, arg);
    }
    let tid = simkern::adopt();
    let boxed = Box::into_raw(Box::new(Adopted { tid, start, arg }));
    let r = real(t, attr, start_adopted, boxed as *mut u8);
    if r == 0 {
        ADOPTED.lock().unwrap_or_else(|e| e.into_inner()).push((*t, tid));
        simkern::yield_now();
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: usize, out: *mut *mut u8) -> i32 {
    let real: Join = std::mem::transmute(next(b"pthread_join\0"));
    if simkern::intercept() {
        let tid = ADOPTED.lock().unwrap_or_else(|e| e.into_inner()).iter().rev().find(|a| a.0 == t).map(|a| a.1);
        if let Some(tid) = tid {
            simkern::join_adopted(tid);
        }
    }
    real(t, out)
}
