//! Deterministic simulation runtime: coroutines on one OS thread, a seeded scheduler,
//! a simulated clock, and one recorded decision stream.
#![allow(static_mut_refs)]
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

pub mod interpose;
pub mod rng;
pub use rng::Rng;

/// Classes of scheduling points.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Kind {
    Load = 0,
    Store = 1,
    Rmw = 2,
    LockAcq = 3,
    LockRel = 4,
    ChanSend = 5,
    ChanRecv = 6,
    Pin = 7,
    Unpin = 8,
    Defer = 9,
    Clock = 10,
    User = 11,
    OpBoundary = 12,
    PtrLoad = 13,
    PtrCas = 14,
    Task = 15,
}
pub const NKINDS: usize = 16;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dec {
    /// Run coroutine `.0` next.
    Switch(u32),
    /// The clock jumps forward by `.0` ns.
    Jump(u64),
    /// The current coroutine is stalled for `.0` steps (and another one runs).
    Stall(u32),
    /// A weak compare-exchange fails spuriously.
    WeakFail,
    /// Spurious wake of task `.0`.
    Spurious(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Decision {
    pub step: u64,
    pub dec: Dec,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    Running,
    AllDone,
    Deadlock,
    StepBudget,
    /// A coroutine had to block while unwinding a panic; the run is not judged.
    Discarded,
    /// Replay only: aborted by the embedder.
    Aborted,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Runnable,
    Blocked(usize),
    Sleeping(u64),
    /// Waiting with a timeout.
    BlockedUntil(usize, u64),
    Done,
}

struct Stack {
    base: *mut u8,
    len: usize,
}

struct Co {
    sp: *mut u8,
    stack: Option<Stack>,
    st: St,
    stalled_until: u64,
    prio: u32,
    entry: Option<Box<dyn FnOnce()>>,
    name: String,
    what: &'static str,
    timed_out: bool,
    switches_in: u64,
    user: u64,
}

#[derive(Clone, Debug)]
pub struct SchedCfg {
    /// Probability (out of 2^32) of considering a switch at a scheduling point, by kind.
    pub probs: [u32; NKINDS],
    /// PCT mode: number of priority change points (0: random mode).
    pub pct_depth: u32,
    pub pct_horizon: u64,
    /// ns added at every scheduling point.
    pub tick: u64,
    /// ns added at every clock reading.
    pub clock_tick: u64,
    /// Probability (out of 2^32) of a clock jump at a scheduling point.
    pub p_jump: u32,
    pub jumps: Vec<u64>,
    pub p_stall: u32,
    pub stall_len: u32,
    /// Probability (out of 2^32) that a weak CAS fails spuriously.
    pub p_weak_fail: u32,
    pub max_steps: u64,
    pub fair_after: u64,
}

impl Default for SchedCfg {
    fn default() -> Self {
        Self {
            probs: [0; NKINDS],
            pct_depth: 0,
            pct_horizon: 10_000,
            tick: 3,
            clock_tick: 11,
            p_jump: 0,
            jumps: vec![],
            p_stall: 0,
            stall_len: 1000,
            p_weak_fail: 0,
            max_steps: 3_000_000,
            fair_after: 1_000_000,
        }
    }
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub jumps: u64,
    pub jumped_ns: u64,
    pub stalls: u64,
    pub weak_fails: u64,
    pub idle_jumps: u64,
    pub lock_blocks: u64,
    pub futex_blocks: u64,
    pub sleeps: u64,
    pub gc_deferred: u64,
    pub gc_executed: u64,
    pub forced_fair: u64,
}

pub struct Rt {
    cos: Vec<Co>,
    cur: usize,
    cfg: SchedCfg,
    rng: Rng,
    replay: Option<(Vec<Decision>, usize)>,
    trace: Vec<Decision>,
    step: u64,
    time: u64,
    next_wake: u64,
    outcome: Outcome,
    pct_points: Vec<u64>,
    pct_low: u32,
    pub stats: Stats,
    no_jumps: bool,
    last_clock: u64,
    sched_hash: u64,
    hash_acc: u64,
    last_dump: Vec<String>,
    fair: bool,
    nosched: u32,
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static mut RT: Option<Box<Rt>> = None;
static mut STACK_POOL: Vec<Stack> = Vec::new();

#[inline(always)]
#[allow(clippy::mut_from_ref)]
fn rt() -> &'static mut Rt {
    unsafe {
        match &mut RT {
            Some(b) => &mut *(&mut **b as *mut Rt),
            None => std::process::abort(),
        }
    }
}

#[inline(always)]
pub fn active() -> bool {
    ACTIVE.load(Relaxed)
}

const STACK_LEN: usize = 512 * 1024;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}

fn new_stack() -> Stack {
    unsafe {
        if let Some(s) = STACK_POOL.pop() {
            return s;
        }
        // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
        let p = mmap(std::ptr::null_mut(), STACK_LEN, 3, 0x2 | 0x20 | 0x4000, -1, 0);
        assert!(p as isize != -1, "mmap stack");
        mprotect(p, 4096, 0);
        Stack { base: p, len: STACK_LEN }
    }
}

std::arch::global_asm!(
    ".global simrt_switch",
    "simrt_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "sub rsp, 8",
    "stmxcsr [rsp]",
    "fnstcw [rsp+4]",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "ldmxcsr [rsp]",
    "fldcw [rsp+4]",
    "add rsp, 8",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".global simrt_tramp",
    "simrt_tramp:",
    "mov rdi, r12",
    "xor ebp, ebp",
    "call r13",
    "ud2",
);
extern "C" {
    fn simrt_switch(save: *mut *mut u8, to: *mut u8);
    fn simrt_tramp();
}

extern "C" fn co_main(id: usize) {
    let f = rt().cos[id].entry.take().unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    if r.is_err() {
        // Clients catch their own panics; one that gets here is a harness error.
        eprintln!("HARNESS-ERROR: panic escaped from coroutine {id}");
        std::process::exit(70);
    }
    let rt = rt();
    rt.cos[id].st = St::Done;
    on_exit_hook(id);
    rt.leave(true);
    unreachable!()
}

static mut EXIT_HOOKS: Vec<fn(usize)> = Vec::new();
static mut RESET_HOOKS: Vec<fn()> = Vec::new();
pub fn add_exit_hook(f: fn(usize)) {
    unsafe {
        if !EXIT_HOOKS.iter().any(|g| *g as usize == f as usize) {
            EXIT_HOOKS.push(f)
        }
    }
}
pub fn add_reset_hook(f: fn()) {
    unsafe {
        if !RESET_HOOKS.iter().any(|g| *g as usize == f as usize) {
            RESET_HOOKS.push(f)
        }
    }
}
fn on_exit_hook(id: usize) {
    unsafe {
        for f in EXIT_HOOKS.iter() {
            f(id)
        }
    }
}

impl Rt {
    fn runnable(&self, i: usize) -> bool {
        self.cos[i].st == St::Runnable
    }

    fn wake_sleepers(&mut self) {
        let now = self.time;
        let mut next = u64::MAX;
        for c in self.cos.iter_mut() {
            match c.st {
                St::Sleeping(t) => {
                    if t <= now {
                        c.st = St::Runnable;
                    } else {
                        next = next.min(t);
                    }
                }
                St::BlockedUntil(_, t) => {
                    if t <= now {
                        c.st = St::Runnable;
                        c.timed_out = true;
                    } else {
                        next = next.min(t);
                    }
                }
                _ => {}
            }
        }
        self.next_wake = next;
    }

    /// Candidates other than `except`; prefers unstalled ones.
    fn candidates(&mut self, except: usize, out: &mut [usize; 64]) -> usize {
        let mut n = 0;
        for i in 1..self.cos.len() {
            if i != except && self.runnable(i) && self.cos[i].stalled_until <= self.step && n < 64 {
                out[n] = i;
                n += 1;
            }
        }
        n
    }

    fn record(&mut self, dec: Dec) {
        self.trace.push(Decision { step: self.step, dec });
    }

    /// The next coroutine to run when the current one cannot continue (or None).
    fn pick_forced(&mut self) -> Option<usize> {
        loop {
            self.wake_sleepers();
            let cur = self.cur;
            let mut any = 0usize;
            let mut buf = [0usize; 64];
            let mut n = self.candidates(usize::MAX, &mut buf);
            if n == 0 {
                // Everybody runnable is stalled: release the stalled ones.
                for i in 1..self.cos.len() {
                    if self.runnable(i) {
                        self.cos[i].stalled_until = 0;
                        any += 1;
                    }
                }
                if any > 0 {
                    n = self.candidates(usize::MAX, &mut buf);
                }
            }
            if n > 0 {
                let _ = cur;
                if let Some((decs, idx)) = &mut self.replay {
                    // A recorded forced choice, if there is one for this step.
                    while *idx < decs.len() && decs[*idx].step < self.step {
                        *idx += 1;
                    }
                    if *idx < decs.len() && decs[*idx].step == self.step {
                        if let Dec::Switch(t) = decs[*idx].dec {
                            *idx += 1;
                            let t = t as usize;
                            if t < self.cos.len() && self.runnable(t) {
                                self.record(Dec::Switch(t as u32));
                                return Some(t);
                            }
                        }
                    }
                    return Some(buf[0]);
                }
                let t = if self.cfg.pct_depth > 0 && !self.fair {
                    let mut best = buf[0];
                    for &c in &buf[..n] {
                        if self.cos[c].prio > self.cos[best].prio {
                            best = c;
                        }
                    }
                    best
                } else {
                    buf[self.rng.below(n as u64) as usize]
                };
                if t != buf[0] {
                    self.record(Dec::Switch(t as u32));
                }
                return Some(t);
            }
            // Nobody is runnable: advance the clock to the earliest sleeper.
            if self.next_wake != u64::MAX {
                self.stats.idle_jumps += 1;
                self.time = self.time.max(self.next_wake);
                continue;
            }
            return None;
        }
    }

    /// The current coroutine cannot continue: run another one or return to main.
    fn leave(&mut self, done: bool) {
        self.step += 1;
        let me = self.cur;
        match self.pick_forced() {
            Some(t) => {
                if t == me && !done {
                    return;
                }
                self.switch_to(t);
            }
            None => {
                let all_done = self.cos.iter().skip(1).all(|c| c.st == St::Done);
                self.finish(if all_done { Outcome::AllDone } else { Outcome::Deadlock });
            }
        }
    }

    fn finish(&mut self, o: Outcome) {
        self.outcome = o;
        self.dump();
        self.switch_to(0);
    }

    fn dump(&mut self) {
        self.last_dump = self
            .cos
            .iter()
            .skip(1)
            .filter(|c| c.st != St::Done)
            .map(|c| format!("{}: {} ({})", c.name, match c.st {
                St::Runnable => "runnable",
                St::Blocked(_) => "blocked",
                St::Sleeping(_) => "sleeping",
                St::BlockedUntil(..) => "blocked with timeout",
                St::Done => "done",
            }, c.what))
            .collect();
    }

    fn switch_to(&mut self, t: usize) {
        let me = self.cur;
        if t == me {
            return;
        }
        self.cur = t;
        self.stats.switches += 1;
        self.cos[t].switches_in += 1;
        // Order-sensitive hash of the switch points: the measure of distinct interleavings.
        self.sched_hash = (self.sched_hash ^ ((self.step << 8) | t as u64)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
        let save: *mut *mut u8 = &mut self.cos[me].sp;
        let to = self.cos[t].sp;
        unsafe { simrt_switch(save, to) };
    }

    #[inline(never)]
    fn slow_yield(&mut self, kind: Kind) {
        // Called with step already advanced.
        if self.step > self.cfg.max_steps {
            if std::thread::panicking() {
                return;
            }
            self.finish(Outcome::StepBudget);
            return;
        }
        if self.nosched > 0 || self.cur == 0 {
            return;
        }
        if self.step > self.cfg.fair_after && !self.fair {
            self.fair = true;
            self.stats.forced_fair += 1;
            for c in self.cos.iter_mut() {
                c.stalled_until = 0;
            }
        }
        if self.replay.is_some() {
            self.replay_yield();
            return;
        }
        let r = self.rng.next_u64();
        let r1 = r as u32;
        let r2 = (r >> 32) as u32;
        if !self.no_jumps && self.cfg.p_jump != 0 && r2 < self.cfg.p_jump && !self.cfg.jumps.is_empty() {
            let k = self.rng.below(self.cfg.jumps.len() as u64) as usize;
            let max = self.cfg.jumps[k].max(1);
            let dt = 1 + self.rng.below(max);
            self.do_jump(dt);
        }
        if std::thread::panicking() {
            return;
        }
        let me = self.cur;
        if self.cfg.p_stall != 0 && r2.wrapping_mul(0x9E37_79B1) < self.cfg.p_stall && !self.fair {
            let mut buf = [0usize; 64];
            if self.candidates(me, &mut buf) > 0 {
                let len = 1 + self.rng.below(self.cfg.stall_len as u64) as u32;
                self.do_stall(len);
                return;
            }
        }
        if self.fair {
            if r1 < (1 << 28) {
                let mut buf = [0usize; 64];
                let n = self.candidates(me, &mut buf);
                if n > 0 {
                    let t = buf[self.rng.below(n as u64) as usize];
                    self.record(Dec::Switch(t as u32));
                    self.switch_to(t);
                }
            }
            return;
        }
        if self.cfg.pct_depth > 0 {
            while let Some(&p) = self.pct_points.last() {
                if p <= self.step {
                    self.pct_points.pop();
                    self.pct_low = self.pct_low.saturating_sub(1);
                    self.cos[me].prio = self.pct_low;
                } else {
                    break;
                }
            }
            let mut best = me;
            for i in 1..self.cos.len() {
                if self.runnable(i) && self.cos[i].stalled_until <= self.step && self.cos[i].prio > self.cos[best].prio {
                    best = i;
                }
            }
            if best != me {
                self.record(Dec::Switch(best as u32));
                self.switch_to(best);
            }
            return;
        }
        if r1 < self.cfg.probs[kind as usize] {
            let mut buf = [0usize; 64];
            let n = self.candidates(me, &mut buf);
            if n > 0 {
                let t = buf[self.rng.below(n as u64) as usize];
                self.record(Dec::Switch(t as u32));
                self.switch_to(t);
            }
        }
    }

    fn do_jump(&mut self, dt: u64) {
        self.record(Dec::Jump(dt));
        self.stats.jumps += 1;
        self.stats.jumped_ns = self.stats.jumped_ns.saturating_add(dt);
        self.time = self.time.saturating_add(dt).min(1 << 61);
        self.wake_sleepers();
    }

    fn do_stall(&mut self, len: u32) {
        let me = self.cur;
        self.record(Dec::Stall(len));
        self.stats.stalls += 1;
        self.cos[me].stalled_until = self.step + len as u64;
        // `leave` picks somebody else (the current one is still runnable but stalled).
        if let Some(t) = self.pick_forced() {
            self.switch_to(t);
        }
    }

    fn replay_yield(&mut self) {
        loop {
            let (decs, idx) = self.replay.as_mut().unwrap();
            while *idx < decs.len() && decs[*idx].step < self.step {
                *idx += 1;
            }
            if *idx >= decs.len() || decs[*idx].step != self.step {
                return;
            }
            let d = decs[*idx].dec;
            if let Dec::WeakFail | Dec::Spurious(_) = d {
                return; // consumed elsewhere
            }
            *idx += 1;
            match d {
                Dec::Jump(dt) => {
                    self.do_jump(dt);
                    continue;
                }
                Dec::Stall(len) => {
                    if std::thread::panicking() {
                        return;
                    }
                    let mut buf = [0usize; 64];
                    if self.candidates(self.cur, &mut buf) > 0 {
                        self.do_stall(len);
                    }
                    return;
                }
                Dec::Switch(t) => {
                    if std::thread::panicking() {
                        return;
                    }
                    let t = t as usize;
                    if t < self.cos.len() && t != self.cur && self.runnable(t) {
                        self.record(Dec::Switch(t as u32));
                        self.switch_to(t);
                    }
                    return;
                }
                _ => return,
            }
        }
    }
}

/// A scheduling point.
#[inline]
pub fn yield_point(kind: Kind) {
    if !active() {
        return;
    }
    let rt = rt();
    rt.step += 1;
    rt.time += if rt.cfg.tick == 0 && rt.step > rt.cfg.fair_after { 1 } else { rt.cfg.tick };
    if rt.time >= rt.next_wake {
        rt.wake_sleepers();
    }
    rt.slow_yield(kind);
}

/// Whether a weak compare-exchange should fail spuriously now.
pub fn weak_fail() -> bool {
    if !active() {
        return false;
    }
    let rt = rt();
    if rt.cur == 0 {
        return false;
    }
    rt.step += 1;
    if let Some((decs, idx)) = &mut rt.replay {
        while *idx < decs.len() && decs[*idx].step < rt.step {
            *idx += 1;
        }
        if *idx < decs.len() && decs[*idx].step == rt.step && decs[*idx].dec == Dec::WeakFail {
            *idx += 1;
            rt.record(Dec::WeakFail);
            rt.stats.weak_fails += 1;
            return true;
        }
        return false;
    }
    if rt.cfg.p_weak_fail != 0 && (rt.rng.next_u64() as u32) < rt.cfg.p_weak_fail && !rt.fair {
        rt.record(Dec::WeakFail);
        rt.stats.weak_fails += 1;
        return true;
    }
    false
}

/// A general in-run decision with probability `p` (out of 2^32) and payload chosen by `pick`.
pub fn decide_spurious(p: u32, n: u32) -> Option<u32> {
    if !active() || n == 0 {
        return None;
    }
    let rt = rt();
    rt.step += 1;
    if let Some((decs, idx)) = &mut rt.replay {
        while *idx < decs.len() && decs[*idx].step < rt.step {
            *idx += 1;
        }
        if *idx < decs.len() && decs[*idx].step == rt.step {
            if let Dec::Spurious(t) = decs[*idx].dec {
                *idx += 1;
                rt.record(Dec::Spurious(t));
                return Some(t % n);
            }
        }
        return None;
    }
    if p != 0 && (rt.rng.next_u64() as u32) < p {
        let t = rt.rng.below(n as u64) as u32;
        rt.record(Dec::Spurious(t));
        return Some(t);
    }
    None
}

/// Blocks the current coroutine until `wake(key)`. May return spuriously.
pub fn block(key: usize, what: &'static str) {
    if !active() || rt().cur == 0 {
        eprintln!("HARNESS-ERROR: blocking outside of a simulated thread ({what})");
        std::process::exit(70);
    }
    let rt = rt();
    if std::thread::panicking() {
        rt.finish(Outcome::Discarded);
        return;
    }
    let c = rt.cur;
    rt.stats.lock_blocks += 1;
    rt.cos[c].st = St::Blocked(key);
    rt.cos[c].what = what;
    rt.leave(false);
}

/// Blocks with a timeout; returns true if it timed out.
pub fn block_timeout(key: usize, dur: u64, what: &'static str) -> bool {
    let rt = rt();
    if std::thread::panicking() {
        rt.finish(Outcome::Discarded);
        return true;
    }
    let c = rt.cur;
    let t = rt.time.saturating_add(dur.max(1));
    rt.cos[c].st = St::BlockedUntil(key, t);
    rt.cos[c].timed_out = false;
    rt.cos[c].what = what;
    rt.leave(false);
    let c = rt.cur;
    std::mem::take(&mut rt.cos[c].timed_out)
}

pub fn wake(key: usize) {
    if !active() {
        return;
    }
    for c in rt().cos.iter_mut() {
        match c.st {
            St::Blocked(k) | St::BlockedUntil(k, _) if k == key => c.st = St::Runnable,
            _ => {}
        }
    }
}

/// Wakes at most `n`; returns how many.
pub fn wake_n(key: usize, n: usize) -> usize {
    let mut k = 0;
    if active() {
        for c in rt().cos.iter_mut() {
            if k >= n {
                break;
            }
            match c.st {
                St::Blocked(q) | St::BlockedUntil(q, _) if q == key => {
                    c.st = St::Runnable;
                    k += 1;
                }
                _ => {}
            }
        }
    }
    k
}

pub fn sleep_ns(d: u64) {
    if !active() || rt().cur == 0 {
        return;
    }
    let rt = rt();
    if std::thread::panicking() {
        rt.time += d;
        return;
    }
    rt.stats.sleeps += 1;
    let c = rt.cur;
    rt.cos[c].st = St::Sleeping(rt.time.saturating_add(d.max(1)));
    rt.cos[c].what = "sleep";
    rt.next_wake = 0;
    rt.leave(false);
}

/// Allows or suppresses the scheduler's own clock jumps.
pub fn set_jumps(on: bool) {
    if active() {
        rt().no_jumps = !on;
    }
}

/// Advances the clock (an explicit time step of the workload).
pub fn advance(d: u64) {
    if !active() {
        return;
    }
    let rt = rt();
    rt.time = rt.time.saturating_add(d).min(1 << 61);
    rt.wake_sleepers();
}

pub fn now_ns() -> u64 {
    rt().time
}
/// Reading of the simulated clock (advances it a little, so that readings are distinct).
pub fn clock_read() -> u64 {
    let rt = rt();
    rt.time += rt.cfg.clock_tick;
    rt.last_clock = rt.time;
    rt.time
}
/// What the last reading of the clock returned.
pub fn last_clock() -> u64 {
    rt().last_clock
}
pub fn step() -> u64 {
    rt().step
}
pub fn cur() -> usize {
    if active() {
        rt().cur
    } else {
        0
    }
}
pub fn stats_mut() -> Option<&'static mut Stats> {
    if active() {
        Some(&mut rt().stats)
    } else {
        None
    }
}
pub fn in_sim() -> bool {
    active() && rt().cur != 0
}
static KNOBS: [std::sync::atomic::AtomicU64; 2] = [const { std::sync::atomic::AtomicU64::new(0) }; 2];
/// Sizes the run uses instead of those in the code: log channels divided by
/// `chan`, at most `batch` entries per eviction pass (0: as in the code).
pub fn set_knobs(chan: u64, batch: u64) {
    KNOBS[0].store(chan, std::sync::atomic::Ordering::Relaxed);
    KNOBS[1].store(batch, std::sync::atomic::Ordering::Relaxed);
}
pub fn chan_scale() -> usize {
    (KNOBS[0].load(std::sync::atomic::Ordering::Relaxed) as usize).max(1)
}
pub fn batch() -> u32 {
    KNOBS[1].load(std::sync::atomic::Ordering::Relaxed) as u32
}
/// Memory used by the records of the simulator itself.
pub fn own_bytes() -> usize {
    rt().trace.capacity() * std::mem::size_of::<Decision>() + DROPS.lock().unwrap().capacity() * 8
}
static DROPS: std::sync::Mutex<Vec<u64>> = std::sync::Mutex::new(Vec::new());
/// A message of a lossy channel was thrown away because the channel was full.
pub fn note_drop() {
    if active() {
        let u = user();
        DROPS.lock().unwrap().push(u);
    }
}
pub fn take_drops() -> Vec<u64> {
    std::mem::take(&mut DROPS.lock().unwrap())
}
pub fn set_user(v: u64) {
    let rt = rt();
    let c = rt.cur;
    rt.cos[c].user = v;
}
pub fn user() -> u64 {
    let rt = rt();
    rt.cos[rt.cur].user
}
/// Suppresses scheduling while the harness itself runs (nestable).
pub fn nosched_enter() {
    if active() {
        rt().nosched += 1
    }
}
pub fn nosched_leave() {
    if active() {
        rt().nosched -= 1
    }
}
pub fn mix_hash(v: u64) {
    if active() {
        let rt = rt();
        rt.hash_acc = (rt.hash_acc ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(31);
    }
}

pub fn spawn(name: &str, f: impl FnOnce() + 'static) -> usize {
    let rt = rt();
    let id = rt.cos.len();
    assert!(id < 64);
    let stack = new_stack();
    unsafe {
        let top = stack.base.add(stack.len) as usize & !15;
        let mut sp = top as *mut usize;
        // `simrt_tramp` starts with a 16-byte aligned stack pointer.
        sp = sp.sub(2);
        *sp = 0;
        sp = sp.sub(1);
        *sp = simrt_tramp as *const () as usize; // return address
        // rbp, rbx, r12, r13, r14, r15 in push order
        sp = sp.sub(1);
        *sp = 0; // rbp
        sp = sp.sub(1);
        *sp = 0; // rbx
        sp = sp.sub(1);
        *sp = id; // r12
        sp = sp.sub(1);
        *sp = co_main as *const () as usize; // r13
        sp = sp.sub(1);
        *sp = 0; // r14
        sp = sp.sub(1);
        *sp = 0; // r15
        sp = sp.sub(1);
        *sp = 0x1F80 | (0x037F << 32); // mxcsr, x87 cw
        let prio = 1000 + rt.rng.below(1_000_000) as u32;
        rt.cos.push(Co {
            sp: sp as *mut u8,
            stack: Some(stack),
            st: St::Runnable,
            stalled_until: 0,
            prio,
            entry: Some(Box::new(f)),
            name: name.to_string(),
            what: "start",
            timed_out: false,
            switches_in: 0,
            user: 0,
        });
    }
    id
}

pub struct RunResult {
    pub outcome: Outcome,
    pub trace: Vec<Decision>,
    pub stats: Stats,
    pub time: u64,
    pub step: u64,
    pub sched_hash: u64,
    pub hash_acc: u64,
    pub dump: Vec<String>,
    pub forced_fair: bool,
}

/// Starts a simulation context. `start_time` is the initial clock value in ns.
pub fn begin(seed: u64, cfg: SchedCfg, replay: Option<Vec<Decision>>, start_time: u64) {
    unsafe {
        for f in RESET_HOOKS.iter() {
            f()
        }
    }
    let mut rng = Rng::new(seed ^ 0x5C4E_D01E_5EED);
    let mut pct_points: Vec<u64> = (0..cfg.pct_depth).map(|_| 1 + rng.below(cfg.pct_horizon.max(1))).collect();
    pct_points.sort_unstable_by(|a, b| b.cmp(a));
    let main = Co {
        sp: std::ptr::null_mut(),
        stack: None,
        st: St::Blocked(usize::MAX),
        stalled_until: 0,
        prio: 0,
        entry: None,
        name: "main".into(),
        what: "",
        timed_out: false,
        switches_in: 0,
        user: 0,
    };
    let r = Rt {
        cos: vec![main],
        cur: 0,
        cfg,
        rng,
        replay: replay.map(|v| (v, 0)),
        trace: Vec::new(),
        step: 0,
        time: start_time,
        next_wake: u64::MAX,
        outcome: Outcome::Running,
        pct_points,
        pct_low: 999,
        stats: Stats::default(),
        no_jumps: false,
        last_clock: 0,
        sched_hash: 0,
        hash_acc: 0,
        last_dump: vec![],
        fair: false,
        nosched: 0,
    };
    unsafe { RT = Some(Box::new(r)) };
    ACTIVE.store(true, Relaxed);
}

/// Runs all spawned coroutines until they are done (or the run cannot continue).
pub fn run_all() -> Outcome {
    let r = rt();
    assert_eq!(r.cur, 0);
    r.outcome = Outcome::Running;
    r.step += 1;
    if let Some(t) = r.pick_forced() {
        r.switch_to(t);
    } else {
        let all_done = r.cos.iter().skip(1).all(|c| c.st == St::Done);
        r.outcome = if all_done { Outcome::AllDone } else { Outcome::Deadlock };
    }
    r.outcome.clone()
}

pub fn end() -> RunResult {
    ACTIVE.store(false, Relaxed);
    let mut r = unsafe { RT.take().unwrap() };
    for c in r.cos.iter_mut() {
        if let Some(s) = c.stack.take() {
            if c.st == St::Done {
                unsafe { STACK_POOL.push(s) };
            } else {
                // An abandoned coroutine: its frames are leaked on purpose.
                if let Some(e) = c.entry.take() {
                    std::mem::forget(e);
                }
            }
        }
    }
    r.stats.steps = r.step;
    RunResult {
        outcome: r.outcome.clone(),
        trace: std::mem::take(&mut r.trace),
        stats: r.stats,
        time: r.time,
        step: r.step,
        sched_hash: r.sched_hash,
        hash_acc: r.hash_acc,
        dump: std::mem::take(&mut r.last_dump),
        forced_fair: r.fair,
    }
}

/// Abandons the run from inside a coroutine.
pub fn abort_run() -> ! {
    rt().finish(Outcome::Aborted);
    unreachable!()
}
