//! Simulated `crossbeam-epoch`: the real pointer types over atomics that are scheduling
//! points, and a simulated collector with two modes.
//!
//! * `Aggressive`: a deferred function runs as soon as every guard that was live when it was
//!   deferred is gone. That is the earliest moment the epoch contract allows.
//! * `Epochs`: the real crate's algorithm (per-participant bags of 64, a global epoch, a
//!   collection on flush and every 128 pins).
#![allow(static_mut_refs)]
extern crate alloc;

macro_rules! const_fn {
    (const_if: #[cfg($($cfg:tt)+)]; $(#[$($attr:tt)*])* $vis:vis const $($rest:tt)*) => {
        $(#[$($attr)*])* $vis const $($rest)*
    };
}

mod atomic;
pub use crate::atomic::{Atomic, CompareExchangeError, Owned, Pointable, Pointer, Shared};
#[allow(deprecated)]
pub use crate::atomic::{CompareAndSetError, CompareAndSetOrdering};

use simrt::{weak_fail, yield_point, Kind};
use std::collections::VecDeque;
use std::fmt;
pub(crate) use std::sync::atomic::Ordering;

pub(crate) mod guard {
    pub(crate) use crate::Guard;
}

#[repr(transparent)]
pub(crate) struct AtomicUsize(std::sync::atomic::AtomicUsize);
impl AtomicUsize {
    pub(crate) const fn new(v: usize) -> Self {
        Self(std::sync::atomic::AtomicUsize::new(v))
    }
    pub(crate) fn into_inner(self) -> usize {
        self.0.into_inner()
    }
    pub(crate) fn load(&self, o: Ordering) -> usize {
        yield_point(Kind::PtrLoad);
        self.0.load(o)
    }
    pub(crate) fn load_consume(&self) -> usize {
        self.load(Ordering::Acquire)
    }
    pub(crate) fn store(&self, v: usize, o: Ordering) {
        yield_point(Kind::PtrCas);
        self.0.store(v, o)
    }
    pub(crate) fn swap(&self, v: usize, o: Ordering) -> usize {
        yield_point(Kind::PtrCas);
        self.0.swap(v, o)
    }
    pub(crate) fn compare_exchange(&self, a: usize, b: usize, s: Ordering, f: Ordering) -> Result<usize, usize> {
        yield_point(Kind::PtrCas);
        self.0.compare_exchange(a, b, s, f)
    }
    pub(crate) fn compare_exchange_weak(&self, a: usize, b: usize, s: Ordering, f: Ordering) -> Result<usize, usize> {
        yield_point(Kind::PtrCas);
        if weak_fail() {
            return Err(self.0.load(f));
        }
        self.0.compare_exchange(a, b, s, f)
    }
    pub(crate) fn fetch_and(&self, v: usize, o: Ordering) -> usize {
        yield_point(Kind::PtrCas);
        self.0.fetch_and(v, o)
    }
    pub(crate) fn fetch_or(&self, v: usize, o: Ordering) -> usize {
        yield_point(Kind::PtrCas);
        self.0.fetch_or(v, o)
    }
    pub(crate) fn fetch_xor(&self, v: usize, o: Ordering) -> usize {
        yield_point(Kind::PtrCas);
        self.0.fetch_xor(v, o)
    }
}

type Deferred = Box<dyn FnOnce()>;
const BAG: usize = 64;
const PINS: u64 = 128;
const MAX: usize = 64;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Aggressive,
    Epochs,
}

#[derive(Default)]
struct Part {
    guards: usize,
    seq: u64,
    epoch: u64,
    pins: u64,
    bag: Vec<Deferred>,
}
struct State {
    mode: Mode,
    seq: u64,
    epoch: u64,
    parts: Vec<Part>,
    garbage: VecDeque<(u64, Vec<Deferred>)>,
    collecting: bool,
}
static mut STATE: Option<State> = None;
fn st() -> &'static mut State {
    unsafe {
        STATE.get_or_insert_with(|| State {
            mode: Mode::Aggressive,
            seq: 1,
            epoch: 0,
            parts: (0..MAX).map(|_| Part::default()).collect(),
            garbage: VecDeque::new(),
            collecting: false,
        })
    }
}
fn reset() {
    let s = st();
    for p in s.parts.iter_mut() {
        // Garbage of an abandoned run is leaked.
        std::mem::forget(std::mem::take(&mut p.bag));
        *p = Part::default();
    }
    std::mem::forget(std::mem::take(&mut s.garbage));
    s.seq = 1;
    s.epoch = 0;
    s.collecting = false;
}
fn on_exit(id: usize) {
    let s = st();
    if s.mode == Mode::Epochs && !s.parts[id].bag.is_empty() {
        let b = std::mem::take(&mut s.parts[id].bag);
        s.garbage.push_back((s.epoch, b));
    }
}
/// Called by the harness once per process.
pub fn sim_install() {
    simrt::add_reset_hook(reset);
    simrt::add_exit_hook(on_exit);
}
pub fn sim_set_mode(m: Mode) {
    st().mode = m;
}
/// Number of live guards.
pub fn sim_live_guards() -> usize {
    st().parts.iter().map(|p| p.guards).sum()
}
/// Runs all remaining deferred functions (no guard may be live).
pub fn sim_drain() {
    loop {
        let s = st();
        let mut all: Vec<Deferred> = Vec::new();
        for (_, b) in s.garbage.drain(..) {
            all.extend(b);
        }
        for p in s.parts.iter_mut() {
            all.append(&mut p.bag);
        }
        if all.is_empty() {
            return;
        }
        for f in all {
            exec(f);
        }
    }
}
fn exec(f: Deferred) {
    if let Some(s) = simrt::stats_mut() {
        s.gc_executed += 1;
    }
    f()
}

fn collect_aggressive() {
    if std::thread::panicking() {
        return;
    }
    loop {
        let s = st();
        let min = s.parts.iter().filter(|p| p.guards > 0).map(|p| p.seq).min().unwrap_or(u64::MAX);
        match s.garbage.front() {
            Some((t, _)) if *t < min => {
                let (_, b) = s.garbage.pop_front().unwrap();
                for f in b {
                    exec(f);
                }
            }
            _ => return,
        }
    }
}
fn collect_epochs() {
    if std::thread::panicking() {
        return;
    }
    let s = st();
    if s.parts.iter().all(|p| p.guards == 0 || p.epoch == s.epoch) {
        s.epoch += 1;
    }
    for _ in 0..8 {
        let s = st();
        match s.garbage.front() {
            Some((e, _)) if s.epoch - *e >= 2 => {
                let (_, b) = s.garbage.pop_front().unwrap();
                for f in b {
                    exec(f);
                }
            }
            _ => return,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Collector(());
impl Default for Collector {
    fn default() -> Self {
        Collector(())
    }
}
static COLLECTOR: Collector = Collector(());
pub fn default_collector() -> &'static Collector {
    &COLLECTOR
}
impl Collector {
    pub fn new() -> Self {
        Collector(())
    }
    pub fn register(&self) -> LocalHandle {
        LocalHandle(())
    }
}
pub struct LocalHandle(());
impl LocalHandle {
    pub fn pin(&self) -> Guard {
        pin()
    }
    pub fn is_pinned(&self) -> bool {
        is_pinned()
    }
    pub fn collector(&self) -> &Collector {
        &COLLECTOR
    }
}

/// `id == usize::MAX` is the unprotected guard.
pub struct Guard {
    id: usize,
    _nosend: std::marker::PhantomData<*const ()>,
}

pub fn is_pinned() -> bool {
    st().parts[simrt::cur()].guards > 0
}

pub fn pin() -> Guard {
    yield_point(Kind::Pin);
    let id = simrt::cur();
    let s = st();
    s.parts[id].guards += 1;
    if s.parts[id].guards == 1 {
        s.seq += 1;
        s.parts[id].seq = s.seq;
        s.parts[id].epoch = s.epoch;
        s.parts[id].pins += 1;
        if s.mode == Mode::Epochs && s.parts[id].pins % PINS == 0 {
            collect_epochs();
        }
    }
    Guard { id, _nosend: std::marker::PhantomData }
}

/// # Safety
/// As in the real crate.
pub unsafe fn unprotected() -> &'static Guard {
    struct W(Guard);
    unsafe impl Sync for W {}
    static U: W = W(Guard { id: usize::MAX, _nosend: std::marker::PhantomData });
    &U.0
}

impl Guard {
    pub fn defer<F, R>(&self, f: F)
    where
        F: FnOnce() -> R + Send + 'static,
    {
        unsafe { self.defer_unchecked(f) }
    }
    /// # Safety
    /// As in the real crate.
    pub unsafe fn defer_unchecked<F, R>(&self, f: F)
    where
        F: FnOnce() -> R,
    {
        if self.id == usize::MAX {
            drop(f());
            return;
        }
        let f: Box<dyn FnOnce() + '_> = Box::new(move || {
            drop(f());
        });
        let f: Deferred = std::mem::transmute(f);
        let s = st();
        if let Some(x) = simrt::stats_mut() {
            x.gc_deferred += 1;
        }
        match s.mode {
            Mode::Aggressive => {
                let t = s.seq;
                match s.garbage.back_mut() {
                    Some((q, b)) if *q == t => b.push(f),
                    _ => s.garbage.push_back((t, vec![f])),
                }
            }
            Mode::Epochs => {
                let e = s.epoch;
                let p = &mut s.parts[self.id];
                if p.bag.len() >= BAG {
                    let b = std::mem::take(&mut p.bag);
                    s.garbage.push_back((e, b));
                }
                s.parts[self.id].bag.push(f);
            }
        }
        yield_point(Kind::Defer);
    }
    /// # Safety
    /// As in the real crate.
    pub unsafe fn defer_destroy<T: ?Sized + Pointable>(&self, ptr: Shared<'_, T>) {
        self.defer_unchecked(move || ptr.into_owned());
    }
    pub fn flush(&self) {
        if self.id == usize::MAX {
            return;
        }
        let s = st();
        if s.mode == Mode::Epochs {
            let e = s.epoch;
            let b = std::mem::take(&mut s.parts[self.id].bag);
            if !b.is_empty() {
                s.garbage.push_back((e, b));
            }
            collect_epochs();
        }
    }
    pub fn repin(&mut self) {
        if self.id == usize::MAX {
            return;
        }
        let s = st();
        if s.parts[self.id].guards == 1 {
            s.seq += 1;
            s.parts[self.id].seq = s.seq;
            s.parts[self.id].epoch = s.epoch;
            if s.mode == Mode::Aggressive {
                collect_aggressive();
            }
        }
    }
    pub fn repin_after<F, R>(&mut self, f: F) -> R
    where
        F: FnOnce() -> R,
    {
        if self.id == usize::MAX {
            return f();
        }
        unpin(self.id);
        let r = f();
        std::mem::forget(pin());
        r
    }
    pub fn collector(&self) -> Option<&Collector> {
        (self.id != usize::MAX).then_some(&COLLECTOR)
    }
}
fn unpin(id: usize) {
    let s = st();
    s.parts[id].guards -= 1;
    if s.parts[id].guards == 0 {
        if s.mode == Mode::Aggressive {
            collect_aggressive();
        }
        yield_point(Kind::Unpin);
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        if self.id != usize::MAX {
            unpin(self.id);
        }
    }
}
impl fmt::Debug for Guard {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Guard { .. }")
    }
}
