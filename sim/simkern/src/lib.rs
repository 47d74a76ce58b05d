//! Deterministic simulation kernel.
//!
//! Real OS threads run strictly one at a time: every channel operation, pipe read or write, spawn
//! and join is a scheduling point at which a seeded scheduler picks the next actor among the
//! runnable threads and the enabled environment (client, pipe, clock, fault) actions. Nothing else
//! decides an interleaving, a chunk size, a time or a fault.

pub mod chan;
pub mod io;
pub mod thread;

use std::cell::Cell;
use std::collections::VecDeque;
use std::sync::{Arc, Condvar, Mutex, MutexGuard, OnceLock};
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() >> 11) as u128 * n as u128 >> 53) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, per_mille: u32) -> bool {
        self.below(1000) < per_mille as u64
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.usize(items.len())]
    }
}

#[derive(Clone, Debug, PartialEq)]
pub(crate) enum Cond {
    Always,
    Recv { chan: usize, deadline: Option<u64> },
    Taken { chan: usize, ticket: u64 },
    Space { chan: usize },
    Stdin,
    Stdout,
    Join(usize),
    Sleep(u64),
    /// a futex of the simulated process: blocked while the word has this value
    Futex { addr: usize, val: u32, deadline: Option<u64> },
    Running,
    Done,
}

pub(crate) struct Th {
    pub cond: Cond,
    pub cv: Arc<Condvar>,
    pub name: String,
    pub prio: u64,
}

pub(crate) struct ChanMeta {
    pub len: usize,
    pub next_ticket: u64,
    pub taken: u64,
    pub senders: usize,
    pub receivers: usize,
    pub cap: Option<usize>,
}

/// Tuning of one run: everything the scheduler may vary.
#[derive(Clone, Debug)]
pub struct Knobs {
    pub seed: u64,
    /// 0: weighted random, 1: priorities with random change points, 2: fixed round order (lockstep)
    pub policy: u32,
    /// weights for server main / reader / writer threads
    pub w_thread: [u32; 4],
    pub w_client: u32,
    pub w_deliver: u32,
    pub w_drain: u32,
    /// per-mille probability weight of advancing the clock although something is runnable
    pub w_clock: u32,
    pub change_pm: u32,
    pub eintr_pm: u32,
    /// maximum bytes per read/write/deliver/drain; 0 means unlimited
    pub in_chunk: u32,
    pub out_chunk: u32,
    pub deliver_chunk: u32,
    pub drain_chunk: u32,
    pub stdin_cap: usize,
    pub stdout_cap: usize,
    pub bufreader_cap: usize,
    pub max_steps: u64,
    pub trace: bool,
}
impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            seed: 0,
            policy: 2,
            w_thread: [4, 4, 4, 4],
            w_client: 4,
            w_deliver: 4,
            w_drain: 4,
            w_clock: 0,
            change_pm: 20,
            eintr_pm: 0,
            in_chunk: 0,
            out_chunk: 0,
            deliver_chunk: 0,
            drain_chunk: 0,
            stdin_cap: 1 << 16,
            stdout_cap: 1 << 16,
            bufreader_cap: 8192,
            max_steps: 2_000_000,
            trace: false,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// main returned Ok / Err
    Exit(i32, String),
    /// main panicked
    Panic(String),
    /// nothing is runnable and no timer is pending
    Deadlock(String),
    StepLimit,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub choices: u64,
    pub sched_hash: u64,
    pub sim_ms: u64,
    pub clock_jumps: u64,
    pub eintr: u64,
    pub short_reads: u64,
    pub short_writes: u64,
    pub stdout_full: u64,
    pub stdin_eof: u64,
    pub epipe: u64,
    pub timeouts: u64,
    pub bytes_in: u64,
    pub bytes_out: u64,
    /// the step of the latest write to stdout
    pub last_out: u64,
    pub foreign_threads: u64,
}

pub struct World {
    pub now_ms: u64,
    pub stdin: VecDeque<u8>,
    pub stdin_eof: bool,
    pub stdout: VecDeque<u8>,
    pub stdout_broken: bool,
    pub knobs: Knobs,
    pub rng: Rng,
    pub stats: Stats,
    pub trace: Vec<String>,
    pub end: Option<End>,
}
impl World {
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.knobs.trace && self.trace.len() < 20_000 {
            let s = format!("{:>6} t={}ms {}", self.stats.steps, self.now_ms, f());
            if std::env::var_os("WATSIM_LIVE").is_some() {
                eprintln!("{s}");
            }
            self.trace.push(s);
        }
    }
}

/// The simulated surroundings of the process: the client at the other end of the pipes, plus
/// everything that can go wrong between the two.
pub trait Env: Send {
    /// Push `(action, weight)` for every action enabled now.
    fn enabled(&mut self, w: &mut World, out: &mut Vec<(u32, u32)>);
    fn perform(&mut self, w: &mut World, action: u32);
    /// Next simulated instant at which a disabled action becomes enabled.
    fn next_timer(&self, w: &World) -> Option<u64>;
    fn into_any(self: Box<Self>) -> Box<dyn std::any::Any>;
}

pub(crate) struct St {
    pub threads: Vec<Th>,
    pub cur: Option<usize>,
    pub chans: Vec<ChanMeta>,
    pub world: World,
    pub env: Option<Box<dyn Env>>,
    pub env_prio: Vec<u64>,
    pub panic_msg: String,
}

pub(crate) struct Kernel {
    pub m: Mutex<St>,
    pub done_cv: Condvar,
}

pub(crate) static K: OnceLock<Kernel> = OnceLock::new();
thread_local! {
    pub(crate) static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    /// set while the simulator itself uses the operating system on this thread
    pub(crate) static INSIDE: Cell<bool> = const { Cell::new(false) };
}

pub(crate) fn k() -> &'static Kernel {
    K.get().expect("simulation kernel not running")
}
pub(crate) fn lock() -> MutexGuard<'static, St> {
    k().m.lock().unwrap_or_else(|e| e.into_inner())
}

const ENV_BASE: u64 = 1 << 32;
const CLOCK: u64 = 1 << 40;

impl St {
    fn cond_ready(&self, c: &Cond) -> bool {
        match c {
            Cond::Always => true,
            Cond::Recv { chan, deadline } => {
                let ch = &self.chans[*chan];
                ch.len > 0 || ch.senders == 0 || deadline.is_some_and(|d| self.world.now_ms >= d)
            }
            Cond::Taken { chan, ticket } => {
                let ch = &self.chans[*chan];
                ch.taken > *ticket || ch.receivers == 0
            }
            Cond::Space { chan } => {
                let ch = &self.chans[*chan];
                ch.receivers == 0 || ch.cap.map_or(true, |cap| ch.len < cap)
            }
            Cond::Stdin => !self.world.stdin.is_empty() || self.world.stdin_eof,
            Cond::Stdout => {
                self.world.stdout_broken || self.world.stdout.len() < self.world.knobs.stdout_cap
            }
            Cond::Join(t) => self.threads[*t].cond == Cond::Done,
            Cond::Sleep(t) => self.world.now_ms >= *t,
            Cond::Futex { addr, val, deadline } => {
                futex_word(*addr) != *val || deadline.is_some_and(|d| self.world.now_ms >= d)
            }
            Cond::Running | Cond::Done => false,
        }
    }

    fn next_timer(&self) -> Option<u64> {
        let mut next: Option<u64> = None;
        let now = self.world.now_ms;
        let mut add = |t: u64| {
            if t > now {
                next = Some(next.map_or(t, |n: u64| n.min(t)));
            }
        };
        for th in &self.threads {
            match th.cond {
                Cond::Recv { deadline: Some(d), .. } => add(d),
                Cond::Sleep(d) => add(d),
                Cond::Futex { deadline: Some(d), .. } => add(d),
                _ => {}
            }
        }
        if let Some(env) = &self.env {
            if let Some(t) = env.next_timer(&self.world) {
                add(t);
            }
        }
        next
    }

    fn finish(&mut self, end: End) {
        if self.world.end.is_none() {
            self.world.log(|| format!("END {end:?}"));
            self.world.stats.sim_ms = self.world.now_ms;
            self.world.end = Some(end);
        }
        self.cur = None;
        k().done_cv.notify_all();
    }

    /// Runs the scheduler until some thread is chosen (or the run ends).
    pub(crate) fn schedule(&mut self) {
        let mut cands: Vec<(u64, u32)> = Vec::with_capacity(8);
        let mut acts: Vec<(u32, u32)> = Vec::with_capacity(8);
        loop {
            if self.world.end.is_some() {
                self.cur = None;
                return;
            }
            self.world.stats.steps += 1;
            // a long answer trickling out in tiny pieces is not a livelock
            let (st, max) = (&self.world.stats, self.world.knobs.max_steps);
            if st.steps > max && (st.steps - st.last_out > max / 10 || st.steps > 6 * max) {
                self.finish(End::StepLimit);
                return;
            }
            cands.clear();
            acts.clear();
            for (i, th) in self.threads.iter().enumerate() {
                if self.cond_ready(&th.cond) {
                    let w = self.world.knobs.w_thread[i.min(3)];
                    cands.push((i as u64, w.max(1)));
                } else if th.cond == Cond::Stdout {
                    self.world.stats.stdout_full += 1;
                }
            }
            let mut env = self.env.take().expect("env");
            env.enabled(&mut self.world, &mut acts);
            for (a, w) in &acts {
                cands.push((ENV_BASE + *a as u64, (*w).max(1)));
            }
            self.env = Some(env);
            let timer = self.next_timer();
            if cands.is_empty() {
                match timer {
                    Some(t) => {
                        self.world.log(|| format!("clock -> {t}ms (idle)"));
                        self.world.now_ms = t;
                        NOW_MS.store(t, std::sync::atomic::Ordering::Relaxed);
                        continue;
                    }
                    None => {
                        let d = self
                            .threads
                            .iter()
                            .map(|t| format!("{}:{:?}", t.name, t.cond))
                            .collect::<Vec<_>>()
                            .join(" ");
                        self.finish(End::Deadlock(d));
                        return;
                    }
                }
            }
            let w_clock = self.world.knobs.w_clock;
            if w_clock > 0 && timer.is_some() {
                cands.push((CLOCK, w_clock));
            }
            let pick = self.choose(&cands);
            if cands.len() > 1 {
                self.world.stats.choices += 1;
                let h = self.world.stats.sched_hash ^ pick;
                self.world.stats.sched_hash = h.wrapping_mul(0x100_0000_01b3).rotate_left(5);
            }
            if pick == CLOCK {
                let t = timer.unwrap();
                self.world.stats.clock_jumps += 1;
                self.world.log(|| format!("clock -> {t}ms (jump)"));
                self.world.now_ms = t;
                NOW_MS.store(t, std::sync::atomic::Ordering::Relaxed);
                continue;
            }
            if pick >= ENV_BASE {
                let mut env = self.env.take().expect("env");
                env.perform(&mut self.world, (pick - ENV_BASE) as u32);
                self.env = Some(env);
                continue;
            }
            let tid = pick as usize;
            self.cur = Some(tid);
            return;
        }
    }

    fn choose(&mut self, cands: &[(u64, u32)]) -> u64 {
        if cands.len() == 1 {
            return cands[0].0;
        }
        let w = &mut self.world;
        match w.knobs.policy {
            2 => cands.iter().find(|c| c.0 != CLOCK).unwrap_or(&cands[0]).0,
            1 => {
                // PCT-like: fixed random priorities, re-drawn at random change points.
                if w.rng.chance(w.knobs.change_pm) {
                    let i = w.rng.usize(cands.len());
                    let c = cands[i].0;
                    let p = w.rng.next() >> 32;
                    self.set_prio(c, p);
                }
                let mut best = None;
                for c in cands {
                    if c.0 == CLOCK {
                        continue;
                    }
                    let p = self.prio(c.0);
                    if best.map_or(true, |(bp, _)| p > bp) {
                        best = Some((p, c.0));
                    }
                }
                let (_, c) = best.unwrap_or((0, cands[0].0));
                // avoid starving forever: demote after each pick with small probability
                if self.world.rng.chance(150) {
                    let p = self.world.rng.next() >> 32;
                    self.set_prio(c, p);
                }
                c
            }
            _ => {
                let total: u64 = cands.iter().map(|c| c.1 as u64).sum();
                let mut r = w.rng.below(total);
                for c in cands {
                    if r < c.1 as u64 {
                        return c.0;
                    }
                    r -= c.1 as u64;
                }
                cands[0].0
            }
        }
    }
    fn prio(&self, c: u64) -> u64 {
        if c < ENV_BASE {
            self.threads[c as usize].prio
        } else {
            self.env_prio[((c - ENV_BASE) as usize) % 16]
        }
    }
    fn set_prio(&mut self, c: u64, p: u64) {
        if c < ENV_BASE {
            self.threads[c as usize].prio = p;
        } else if c < CLOCK {
            self.env_prio[((c - ENV_BASE) as usize) % 16] = p;
        }
    }
}

/// Registers a thread the simulator did not spawn (defensive: keeps such code schedulable).
fn current_tid(st: &mut MutexGuard<'static, St>) -> usize {
    let t = TID.with(|t| t.get());
    if t != usize::MAX {
        return t;
    }
    let tid = add_thread(st, "foreign".into());
    st.world.stats.foreign_threads += 1;
    TID.with(|t| t.set(tid));
    tid
}

pub(crate) fn add_thread(st: &mut St, name: String) -> usize {
    let prio = st.world.rng.next() >> 32;
    st.threads.push(Th { cond: Cond::Running, cv: Arc::new(Condvar::new()), name, prio });
    st.threads.len() - 1
}

pub(crate) fn wait_turn(
    mut st: MutexGuard<'static, St>,
    tid: usize,
) -> MutexGuard<'static, St> {
    let cv = st.threads[tid].cv.clone();
    let was = INSIDE.with(|i| i.replace(true));
    while st.cur != Some(tid) {
        st = cv.wait(st).unwrap_or_else(|e| e.into_inner());
    }
    INSIDE.with(|i| i.set(was));
    st.threads[tid].cond = Cond::Running;
    st
}

pub(crate) fn wake_current(st: &St, me: usize) {
    if let Some(c) = st.cur {
        if c != me {
            st.threads[c].cv.notify_one();
        }
    }
}

/// A scheduling point: the calling thread is resumed, holding the kernel lock, once `cond` holds
/// and the scheduler picks it.
pub(crate) fn block_on(cond: Cond) -> MutexGuard<'static, St> {
    let mut st = lock();
    let tid = current_tid(&mut st);
    st.threads[tid].cond = cond;
    if st.cur.is_some() && st.cur != Some(tid) {
        // a foreign thread: it simply becomes schedulable
        return wait_turn(st, tid);
    }
    st.schedule();
    if st.cur == Some(tid) {
        st.threads[tid].cond = Cond::Running;
        return st;
    }
    wake_current(&st, tid);
    wait_turn(st, tid)
}

/// Mirror of the simulated clock that can be read without the kernel lock.
pub static NOW_MS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// True once a simulated process exists in this OS process.
pub fn active() -> bool {
    K.get().is_some()
}
/// True on threads that belong to the simulated process.
pub fn on_sim_thread() -> bool {
    active() && TID.with(|t| t.get()) != usize::MAX
}

/// True where a blocking call belongs to the simulated process and not to the simulator.
pub fn intercept() -> bool {
    on_sim_thread() && !INSIDE.with(|i| i.get())
}
fn futex_word(addr: usize) -> u32 {
    // the thread that waits on it keeps it alive
    unsafe { (*(addr as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) }
}
/// A futex wait of the simulated process (std's mutexes, condition variables and parking). None: it is the
/// simulator's own lock. Otherwise whether it was woken (and not timed out).
pub fn futex_wait(addr: usize, val: u32, deadline: Option<u64>) -> Option<bool> {
    let base = &K as *const _ as usize;
    if !intercept() || (base..base + std::mem::size_of_val(&K)).contains(&addr) {
        return None;
    }
    drop(block_on(Cond::Futex { addr, val, deadline }));
    Some(futex_word(addr) != val)
}
pub fn yield_now() {
    drop(block_on(Cond::Always));
}
/// Registers a thread that the simulated process is about to start by itself.
pub fn adopt() -> usize {
    let mut st = lock();
    st.world.stats.foreign_threads += 1;
    let tid = add_thread(&mut st, "foreign".into());
    st.threads[tid].cond = Cond::Always;
    tid
}
/// Runs such a thread under the scheduler.
pub fn run_adopted<T>(tid: usize, f: impl FnOnce() -> T) -> T {
    TID.with(|t| t.set(tid));
    drop(wait_turn(lock(), tid));
    let r = f();
    let mut st = lock();
    st.threads[tid].cond = Cond::Done;
    st.schedule();
    wake_current(&st, tid);
    INSIDE.with(|i| i.set(true));
    r
}
pub fn join_adopted(tid: usize) {
    drop(block_on(Cond::Join(tid)));
}

/// Simulated clock reading.
pub fn now_ms() -> u64 {
    NOW_MS.load(std::sync::atomic::Ordering::Relaxed)
}

/// `exit(3)` called by the simulated process: the process ends, its threads never run again.
pub fn process_exit(code: i32) -> ! {
    {
        let mut st = lock();
        st.finish(End::Exit(code, "exit() called".into()));
    }
    loop {
        std::thread::park();
    }
}

pub fn sleep(d: Duration) {
    let t = lock().world.now_ms + d.as_millis() as u64;
    drop(block_on(Cond::Sleep(t)));
}

pub struct Outcome {
    pub end: End,
    pub world: World,
    pub env: Box<dyn Env>,
}

/// Runs `main` as the process under simulation; returns when that process has ended.
pub fn run(knobs: Knobs, env: Box<dyn Env>, main: fn() -> Result<(), String>) -> Outcome {
    let mut rng = Rng::new(knobs.seed);
    let env_prio = (0..16).map(|_| rng.next() >> 32).collect();
    let world = World {
        now_ms: 0,
        stdin: VecDeque::new(),
        stdin_eof: false,
        stdout: VecDeque::new(),
        stdout_broken: false,
        rng,
        knobs,
        stats: Stats::default(),
        trace: vec![],
        end: None,
    };
    let st = St {
        threads: vec![],
        cur: None,
        chans: vec![],
        world,
        env: Some(env),
        env_prio,
        panic_msg: String::new(),
    };
    if K.set(Kernel { m: Mutex::new(st), done_cv: Condvar::new() }).is_err() {
        panic!("one simulation per process");
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}");
        let name = std::thread::current().name().unwrap_or("?").to_string();
        if let Ok(mut st) = k().m.try_lock() {
            if st.panic_msg.len() < 4000 {
                st.panic_msg.push_str(&format!("[{name}] {msg}; "));
            }
        }
    }));
    let tid = {
        let mut st = lock();
        let tid = add_thread(&mut st, "main".into());
        st.threads[tid].cond = Cond::Always;
        tid
    };
    // Detached on purpose: the simulated process may end while this thread is parked.
    let _ = std::thread::Builder::new()
        .name("main".into())
        .stack_size(8 << 20)
        .spawn(move || {
            TID.with(|t| t.set(tid));
            let st = lock();
            drop(wait_turn(st, tid));
            let r = std::panic::catch_unwind(main);
            let mut st = lock();
            st.threads[tid].cond = Cond::Done;
            let end = match r {
                Ok(Ok(())) => End::Exit(0, String::new()),
                Ok(Err(e)) => End::Exit(1, e),
                Err(_) => End::Panic(st.panic_msg.clone()),
            };
            st.finish(end);
        })
        .expect("spawn main");
    let mut st = lock();
    st.schedule();
    if let Some(c) = st.cur {
        st.threads[c].cv.notify_one();
    }
    while st.world.end.is_none() {
        st = k().done_cv.wait(st).unwrap_or_else(|e| e.into_inner());
    }
    let end = st.world.end.clone().unwrap();
    let placeholder = World {
        now_ms: 0,
        stdin: VecDeque::new(),
        stdin_eof: true,
        stdout: VecDeque::new(),
        stdout_broken: true,
        knobs: Knobs::default(),
        rng: Rng::new(0),
        stats: Stats::default(),
        trace: vec![],
        end: Some(End::StepLimit),
    };
    let world = std::mem::replace(&mut st.world, placeholder);
    let env = st.env.take().expect("env");
    Outcome { end, world, env }
}
