//! Runs one scenario against the real cache under the simulator.
#![allow(static_mut_refs, deprecated)]
use crate::scen::*;
use crate::world::*;
use moka::notification::RemovalCause;
use moka::ops::compute;
use moka::policy::EvictionPolicy;
use moka::Expiry;
use simrt::Kind;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

pub type SC = moka::sync::Cache<K, V, SimBuild>;
pub type GC = moka::sync::SegmentedCache<K, V, SimBuild>;
pub type FC = moka::future::Cache<K, V, SimBuild>;

#[derive(Clone)]
pub enum H {
    S(SC),
    G(GC),
    F(FC),
}

// ---------------------------------------------------------------- callbacks

fn cause(c: RemovalCause) -> Cause {
    match c {
        RemovalCause::Expired => Cause::Expired,
        RemovalCause::Explicit => Cause::Explicit,
        RemovalCause::Replaced => Cause::Replaced,
        RemovalCause::Size => Cause::Size,
    }
}

fn lis_start(k: &Arc<K>, v: &V, c: RemovalCause) -> (usize, bool) {
    let key = k.id();
    let vid = v.vid();
    let wd = w();
    wd.listener_calls += 1;
    let n = wd.listener_calls;
    let (start, start_t, op) = (wd.tick(), now(), wd.cur_op());
    wd.lis.push(LRec { key, vid, cause: cause(c), start, start_t, end: INF, panicked: false, op });
    let i = wd.lis.len() - 1;
    (i, wd.cfg.lis_panic != 0 && n == wd.cfg.lis_panic as u64)
}
fn lis_end(i: usize, panicked: bool) {
    let wd = w();
    let e = wd.tick();
    wd.lis[i].end = e;
    wd.lis[i].panicked = panicked;
    if panicked {
        wd.panics += 1;
    }
}
fn listener_sync(k: Arc<K>, v: V, c: RemovalCause) {
    let (i, p) = lis_start(&k, &v, c);
    let slow = w().cfg.lis_slow;
    for _ in 0..slow {
        simrt::yield_point(Kind::User);
    }
    let sl = w().cfg.lis_sleep;
    if sl > 0 && !std::thread::panicking() && w().lis.len() % 16 == 1 {
        std::thread::sleep(Duration::from_nanos(sl));
    }
    if p {
        lis_end(i, true);
        panic_any(SimPanic);
    }
    lis_end(i, false);
}
struct LisFut {
    k: Arc<K>,
    v: V,
    c: RemovalCause,
    i: usize,
    p: bool,
    left: u8,
}
impl Future for LisFut {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.i == usize::MAX {
            let (i, p) = lis_start(&self.k, &self.v, self.c);
            self.i = i;
            self.p = p;
            if self.left > 8 && i % 16 != 0 {
                self.left = 1;
            }
        }
        simrt::yield_point(Kind::User);
        if self.left > 0 {
            self.left -= 1;
            w().suspends += 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        lis_end(self.i, self.p);
        if self.p {
            panic_any(SimPanic);
        }
        Poll::Ready(())
    }
}
fn listener_async(k: Arc<K>, v: V, c: RemovalCause) -> moka::notification::ListenerFuture {
    let left = w().cfg.lis_slow;
    Box::pin(LisFut { k, v, c, i: usize::MAX, p: false, left })
}

fn weigh(k: &K, v: &V) -> u32 {
    let _ = k.id();
    w().weigher_calls += 1;
    w().vals[v.vid() as usize].spec.w
}

struct Ex;
fn cb(kind: CbK, k: &K, v: &V, t: Instant, dur: Option<Duration>, lm: Option<Instant>) -> Option<Duration> {
    let (key, vid) = (k.id(), v.vid());
    let wd = w();
    let m = &wd.vals[vid as usize];
    let dur_ns = dur.map(|d| d.as_nanos() as u64);
    let u = match kind {
        CbK::Create => ExpU::Set(m.spec.create),
        CbK::Update => m.spec.upd,
        CbK::Read => m.spec.read,
    };
    let ret = match u {
        ExpU::Keep => dur_ns,
        ExpU::Set(x) => x,
    };
    let rec = CbRec {
        kind,
        key,
        vid,
        now: wd.to_sim(t),
        dur: dur_ns,
        lm: lm.map(|l| wd.to_sim(l)).unwrap_or(0),
        ret,
        seq: wd.tick(),
        t: simrt::now_ns(),
        op: wd.cur_op(),
    };
    wd.cbs.push(rec);
    simrt::yield_point(Kind::User);
    match u {
        ExpU::Keep => dur,
        ExpU::Set(x) => x.map(Duration::from_nanos),
    }
}
impl Expiry<K, V> for Ex {
    fn expire_after_create(&self, k: &K, v: &V, t: Instant) -> Option<Duration> {
        cb(CbK::Create, k, v, t, None, None)
    }
    fn expire_after_read(&self, k: &K, v: &V, t: Instant, d: Option<Duration>, lm: Instant) -> Option<Duration> {
        cb(CbK::Read, k, v, t, d, Some(lm))
    }
    fn expire_after_update(&self, k: &K, v: &V, t: Instant, d: Option<Duration>) -> Option<Duration> {
        cb(CbK::Update, k, v, t, d, None)
    }
}

pub fn pred(kind: u8, m: u8, r: u8, key: u32, tag: u8) -> bool {
    if kind == 0 {
        key % m as u32 == r as u32
    } else {
        tag % m == r
    }
}

// ---------------------------------------------------------------- building

macro_rules! cfg_builder {
    ($b:expr, $c:expr) => {{
        let mut b = $b;
        if let Some(n) = $c.cap {
            b = b.max_capacity(n);
        }
        if let Some(n) = $c.init_cap {
            b = b.initial_capacity(n);
        }
        if $c.weigher {
            b = b.weigher(weigh);
        }
        if $c.lru {
            b = b.eviction_policy(EvictionPolicy::lru());
        }
        if let Some(n) = $c.ttl {
            b = b.time_to_live(Duration::from_nanos(n));
        }
        if let Some(n) = $c.tti {
            b = b.time_to_idle(Duration::from_nanos(n));
        }
        if $c.expiry {
            b = b.expire_after(Ex);
        }
        if $c.closures {
            b = b.support_invalidation_closures();
        }
        b
    }};
}

pub fn build_cache(c: &Cfg) -> H {
    let hb = SimBuild { mode: c.hash };
    match c.kind {
        Kd::Sync => {
            let mut b = cfg_builder!(moka::sync::Cache::builder(), c);
            if c.lis != Lis::No {
                b = b.eviction_listener(listener_sync);
            }
            H::S(b.build_with_hasher(hb))
        }
        Kd::Seg(n) => {
            let mut b = cfg_builder!(moka::sync::Cache::builder(), c).segments(n);
            if c.lis != Lis::No {
                b = b.eviction_listener(listener_sync);
            }
            H::G(b.build_with_hasher(hb))
        }
        Kd::Fut => {
            let mut b = cfg_builder!(moka::future::Cache::builder(), c);
            match c.lis {
                Lis::No => {}
                Lis::Sync => b = b.eviction_listener(listener_sync),
                Lis::Async => b = b.async_eviction_listener(listener_async),
            }
            H::F(b.build_with_hasher(hb))
        }
    }
}

// ---------------------------------------------------------------- closures of operations

#[derive(Debug)]
pub struct E(pub u32);

/// Records one run of an initializer or compute closure.
struct ClosGuard {
    op: u32,
    i: usize,
}
impl ClosGuard {
    fn start(op: u32, compute: bool, saw: u32) -> ClosGuard {
        let wd = w();
        let (s, t) = (wd.tick(), now());
        let c = &mut wd.ops[op as usize].cls;
        c.push(Clos { compute, start: s, start_t: t, end: INF, end_t: INF, saw, out: COut::Running });
        ClosGuard { op, i: c.len() - 1 }
    }
    fn end(&self, out: COut) {
        let wd = w();
        let (s, t) = (wd.tick(), now());
        let c = &mut wd.ops[self.op as usize].cls[self.i];
        if c.out == COut::Running {
            c.end = s;
            c.end_t = t;
            c.out = out;
        }
        if out == COut::Panic {
            wd.panics += 1;
        }
    }
}
impl Drop for ClosGuard {
    fn drop(&mut self) {
        if has_world() {
            self.end(COut::Dropped);
        }
    }
}

/// Suspends `n` times.
struct YieldN(u8);
impl Future for YieldN {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        w().suspends += 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
fn spin(n: u8) {
    for _ in 0..n {
        simrt::yield_point(Kind::User);
    }
}

fn init_finish(g: ClosGuard, op: u32) -> Result<V, E> {
    let (k, out, v, f) = match w().ops[op as usize].op {
        Op::GetWith { k, out, v, f, .. } => (k, out, v, f),
        _ => unreachable!(),
    };
    match out {
        IO::Panic => {
            g.end(COut::Panic);
            panic_any(SimPanic)
        }
        IO::Fail => {
            g.end(if f.group() == 1 { COut::Err } else { COut::None });
            Err(E(op))
        }
        IO::Ok => {
            let v = w().new_val(k, v);
            w().ops[op as usize].vid = v.vid();
            g.end(COut::Val(v.vid()));
            Ok(v)
        }
    }
}
/// The `replace_if` closure.
fn replaces(op: u32, v: &V, t: u8) -> bool {
    let o = &mut w().ops[op as usize];
    if let Op::GetWith { out: IO::Panic, y, .. } = o.op {
        if y % 2 == 1 {
            o.rep_panic = true;
            w().panics += 1;
            panic_any(SimPanic)
        }
    }
    w().vals[v.vid() as usize].spec.tag % 2 == t
}
fn init_sync(op: u32, y: u8) -> Result<V, E> {
    let g = ClosGuard::start(op, false, NONE);
    spin(y);
    init_finish(g, op)
}
async fn init_fut(op: u32, y: u8) -> Result<V, E> {
    let g = ClosGuard::start(op, false, NONE);
    simrt::yield_point(Kind::User);
    YieldN(y).await;
    simrt::yield_point(Kind::User);
    init_finish(g, op)
}

fn comp_finish(g: ClosGuard, op: u32, existed: bool) -> Result<compute::Op<V>, E> {
    let (k, act, v) = match w().ops[op as usize].op {
        Op::Compute { k, act, v, .. } => (k, act, v),
        _ => unreachable!(),
    };
    let act = match act {
        CA::Toggle => {
            if existed {
                CA::Remove
            } else {
                CA::Put
            }
        }
        a => a,
    };
    match act {
        CA::Panic => {
            g.end(COut::Panic);
            panic_any(SimPanic)
        }
        CA::Err => {
            g.end(COut::Err);
            Err(E(op))
        }
        CA::Put | CA::Toggle => {
            let v = w().new_val(k, v);
            w().ops[op as usize].vid = v.vid();
            g.end(COut::Val(v.vid()));
            Ok(compute::Op::Put(v))
        }
        CA::Remove => {
            g.end(COut::Remove);
            Ok(compute::Op::Remove)
        }
        CA::Nop => {
            g.end(COut::Nop);
            Ok(compute::Op::Nop)
        }
    }
}
fn ent_vid(op: u32, e: &Option<moka::Entry<K, V>>) -> u32 {
    match e {
        Some(e) => {
            let v = e.value().vid();
            let k = e.key().id();
            check_key(op, k);
            v
        }
        None => NONE,
    }
}
fn check_key(op: u32, k: u32) {
    let wd = w();
    if wd.ops[op as usize].op.key() != Some(k) {
        wd.violation("wrong-key", &["C01", "C03", "C22"], format!("op {op} got key {k}"));
    }
}
fn comp_sync(op: u32, y: u8, e: Option<moka::Entry<K, V>>) -> Result<compute::Op<V>, E> {
    let saw = ent_vid(op, &e);
    let g = ClosGuard::start(op, true, saw);
    spin(y);
    drop(e);
    comp_finish(g, op, saw != NONE)
}
/// A closure may also panic before it returns its future.
fn comp_early(op: u32, y: u8, e: &Option<moka::Entry<K, V>>) {
    if y == 0 && matches!(w().ops[op as usize].op, Op::Compute { act: CA::Panic, .. }) {
        let g = ClosGuard::start(op, true, ent_vid(op, e));
        g.end(COut::Panic);
        panic_any(SimPanic)
    }
}
async fn comp_fut(op: u32, y: u8, e: Option<moka::Entry<K, V>>) -> Result<compute::Op<V>, E> {
    let saw = ent_vid(op, &e);
    let g = ClosGuard::start(op, true, saw);
    simrt::yield_point(Kind::User);
    YieldN(y).await;
    simrt::yield_point(Kind::User);
    drop(e);
    comp_finish(g, op, saw != NONE)
}

// ---------------------------------------------------------------- operations

fn entry_res(op: u32, e: moka::Entry<K, V>) -> Res {
    check_key(op, e.key().id());
    Res::Ent(e.value().vid(), e.is_fresh())
}
fn comp_res(op: u32, r: compute::CompResult<K, V>) -> Res {
    use compute::CompResult::*;
    let (c, e) = match r {
        StillNone(k) => {
            check_key(op, k.id());
            return Res::Comp(CR::StillNone, NONE);
        }
        Unchanged(e) => (CR::Unchanged, e),
        Inserted(e) => (CR::Inserted, e),
        ReplacedWith(e) => (CR::Replaced, e),
        Removed(e) => (CR::Removed, e),
    };
    check_key(op, e.key().id());
    Res::Comp(c, e.value().vid())
}

macro_rules! aw {
    (s, $e:expr) => {
        $e
    };
    (f, $e:expr) => {
        $e.await
    };
}
macro_rules! init {
    (s, $op:expr, $y:expr, |$r:ident| $m:expr) => {
        || {
            let $r = init_sync($op, $y);
            $m
        }
    };
    (f, $op:expr, $y:expr, |$r:ident| $m:expr) => {
        async {
            let $r = init_fut($op, $y).await;
            $m
        }
    };
}
macro_rules! comp {
    (s, $op:expr, $y:expr, |$r:ident| $m:expr) => {
        |e: Option<moka::Entry<K, V>>| {
            let $r = comp_sync($op, $y, e);
            $m
        }
    };
    (f, $op:expr, $y:expr, |$r:ident| $m:expr) => {
        |e: Option<moka::Entry<K, V>>| {
            comp_early($op, $y, &e);
            async {
                let $r = comp_fut($op, $y, e).await;
                $m
            }
        }
    };
}
macro_rules! try_nobody {
    (s, $s:expr, $op:expr, $y:expr) => {
        unreachable!()
    };
    (f, $s:expr, $op:expr, $y:expr) => {
        match $s.and_try_compute_if_nobody_else(comp!(f, $op, $y, |r| r)).await {
            Ok(compute::CompResult::StillNone(k)) => comp_res($op, compute::CompResult::StillNone(k)),
            Ok(r) => comp_res($op, r),
            Err(_) => {
                if w().ops[$op as usize].cls.is_empty() {
                    Res::Comp(CR::TryAgain, NONE)
                } else {
                    Res::Comp(CR::Err, NONE)
                }
            }
        }
    };
}
macro_rules! selector_op {
    ($m:tt, $k:ident, $sel:expr, $op:expr, $o:expr) => {{
        let s = $sel;
        match $o {
            Op::GetWith { f, y, .. } => match f {
                GW::EWith => entry_res($op, aw!($m, s.or_insert_with(init!($m, $op, y, |r| r.ok().unwrap())))),
                GW::EWithIf(t) => {
                    let rep = |v: &V| replaces($op, v, t);
                    entry_res($op, aw!($m, s.or_insert_with_if(init!($m, $op, y, |r| r.ok().unwrap()), rep)))
                }
                GW::ETry => match aw!($m, s.or_try_insert_with(init!($m, $op, y, |r| r))) {
                    Ok(e) => entry_res($op, e),
                    Err(e) => Res::Err(e.0),
                },
                GW::EOpt => match aw!($m, s.or_optionally_insert_with(init!($m, $op, y, |r| r.ok()))) {
                    Some(e) => entry_res($op, e),
                    None => Res::Val(None),
                },
                _ => unreachable!(),
            },
            Op::OrInsert { k, v, dflt, .. } => {
                if dflt {
                    entry_res($op, aw!($m, s.or_default()))
                } else {
                    let val = w().new_val(k, v);
                    w().ops[$op as usize].vid = val.vid();
                    entry_res($op, aw!($m, s.or_insert(val)))
                }
            }
            Op::Compute { f, y, .. } => match f {
                CF::Comp => comp_res($op, aw!($m, s.and_compute_with(comp!($m, $op, y, |r| r.ok().unwrap())))),
                CF::Try => match aw!($m, s.and_try_compute_with(comp!($m, $op, y, |r| r))) {
                    Ok(r) => comp_res($op, r),
                    Err(_) => Res::Comp(CR::Err, NONE),
                },
                CF::TryNobody => try_nobody!($m, s, $op, y),
                CF::Upsert => {
                    let e = aw!(
                        $m,
                        s.and_upsert_with(comp!($m, $op, y, |r| match r {
                            Ok(compute::Op::Put(v)) => v,
                            _ => unreachable!(),
                        }))
                    );
                    check_key($op, e.key().id());
                    let c = if e.is_old_value_replaced() { CR::Replaced } else { CR::Inserted };
                    Res::Comp(c, e.value().vid())
                }
            },
            _ => unreachable!(),
        }
    }};
}
macro_rules! cache_op {
    ($m:tt, $c:expr, $op:expr, $o:expr, $reclone:expr) => {{
        let c = $c;
        match $o {
            Op::Get(k) => {
                let r = aw!($m, c.get(&KQ(k)));
                Res::Val(r.map(|v| v.vid()))
            }
            Op::Contains(k) => Res::Bool(c.contains_key(&KQ(k))),
            Op::Insert(k, s) => {
                let v = w().new_val(k, s);
                w().ops[$op as usize].vid = v.vid();
                aw!($m, c.insert(K::new(k), v));
                Res::Unit
            }
            Op::Remove(k) => {
                let r = aw!($m, c.remove(&KQ(k)));
                Res::Val(r.map(|v| v.vid()))
            }
            Op::Invalidate(k) => {
                aw!($m, c.invalidate(&KQ(k)));
                Res::Unit
            }
            Op::GetWith { k, f, by_ref, y, .. } => match f {
                GW::With => {
                    let v = if by_ref {
                        aw!($m, c.get_with_by_ref(&KQ(k), init!($m, $op, y, |r| r.ok().unwrap())))
                    } else {
                        aw!($m, c.get_with(K::new(k), init!($m, $op, y, |r| r.ok().unwrap())))
                    };
                    Res::Val(Some(v.vid()))
                }
                GW::WithIf(t) => {
                    let rep = |v: &V| replaces($op, v, t);
                    let v = aw!($m, c.get_with_if(K::new(k), init!($m, $op, y, |r| r.ok().unwrap()), rep));
                    Res::Val(Some(v.vid()))
                }
                GW::Try => {
                    let r = if by_ref {
                        aw!($m, c.try_get_with_by_ref(&KQ(k), init!($m, $op, y, |r| r)))
                    } else {
                        aw!($m, c.try_get_with(K::new(k), init!($m, $op, y, |r| r)))
                    };
                    match r {
                        Ok(v) => Res::Val(Some(v.vid())),
                        Err(e) => Res::Err(e.0),
                    }
                }
                GW::Opt => {
                    let r = if by_ref {
                        aw!($m, c.optionally_get_with_by_ref(&KQ(k), init!($m, $op, y, |r| r.ok())))
                    } else {
                        aw!($m, c.optionally_get_with(K::new(k), init!($m, $op, y, |r| r.ok())))
                    };
                    Res::Val(r.map(|v| v.vid()))
                }
                _ => {
                    if by_ref {
                        { let q = KQ(k); selector_op!($m, q, c.entry_by_ref(&q), $op, $o) }
                    } else {
                        selector_op!($m, k, c.entry(K::new(k)), $op, $o)
                    }
                }
            },
            Op::OrInsert { k, by_ref, .. } | Op::Compute { k, by_ref, .. } => {
                if by_ref {
                    { let q = KQ(k); selector_op!($m, q, c.entry_by_ref(&q), $op, $o) }
                } else {
                    selector_op!($m, k, c.entry(K::new(k)), $op, $o)
                }
            }
            Op::InvAll => {
                c.invalidate_all();
                Res::Unit
            }
            Op::InvIf { kind, m, r } => {
                let p = move |k: &K, v: &V| {
                    let (key, tag) = (k.id(), w().vals[v.vid() as usize].spec.tag);
                    w().pred_calls += 1;
                    simrt::yield_point(Kind::User);
                    let hit = pred(kind, m, r, key, tag);
                    if hit {
                        // What is about to be removed may change now.
                        simrt::yield_point(Kind::User);
                        simrt::yield_point(Kind::OpBoundary);
                    }
                    hit
                };
                if c.invalidate_entries_if(p).is_err() {
                    w().violation("predicate-refused", &["C15"], "invalidate_entries_if failed".into());
                }
                Res::Unit
            }
            Op::Iter { max } => {
                let mut it = c.iter();
                let mut n = 0;
                while n < max {
                    simrt::yield_point(Kind::User);
                    let wd = w();
                    let (lo, lo_t) = (wd.tick(), now());
                    match it.next() {
                        Some((k, v)) => {
                            let wd = w();
                            let (hi, hi_t) = (wd.tick(), now());
                            wd.ops[$op as usize].items.push(Item { key: k.id(), vid: v.vid(), lo, hi, lo_t, hi_t });
                        }
                        None => {
                            w().ops[$op as usize].iter_done = true;
                            break;
                        }
                    }
                    n += 1;
                }
                Res::Unit
            }
            Op::Run => {
                aw!($m, c.run_pending_tasks());
                Res::Unit
            }
            Op::Counts => Res::Counts(c.entry_count(), c.weighted_size()),
            Op::Advance(n) => {
                simrt::advance(n);
                simrt::yield_point(Kind::User);
                Res::Unit
            }
            Op::Reclone => {
                $reclone = true;
                Res::Unit
            }
            Op::Yield(n) => {
                spin(n);
                Res::Unit
            }
        }
    }};
}

async fn do_op(h: &RefCell<Option<H>>, op: u32) -> Res {
    let hc: *const H = h.borrow().as_ref().unwrap();
    // The handle is only replaced between operations of this client.
    let hr: &H = unsafe { &*hc };
    let o = w().ops[op as usize].op;
    let mut reclone = false;
    if let Op::Yield(n) = o {
        YieldN(if matches!(hr, H::F(_)) { n } else { 0 }).await;
    }
    let r = match hr {
        H::S(c) => cache_op!(s, c, op, o, reclone),
        H::G(c) => cache_op!(s, c, op, o, reclone),
        H::F(c) => cache_op!(f, c, op, o, reclone),
    };
    if reclone {
        let n = h.borrow().as_ref().unwrap().clone();
        let old = h.replace(Some(n));
        simrt::yield_point(Kind::User);
        drop(old);
    }
    r
}

pub fn begin_op(client: u32, s: &OpSpec) -> u32 {
    let wd = w();
    let (inv, inv_t) = (wd.tick(), now());
    let id = wd.ops.len() as u32;
    wd.ops.push(OpRec {
        id,
        client,
        op: s.op,
        inv,
        inv_t,
        ret: INF,
        ret_t: INF,
        status: Status::Pending,
        res: Res::Unit,
        vid: NONE,
        cls: vec![],
        rep_panic: false,
        items: vec![],
        iter_done: false,
        pend: 0,
    });
    id
}
pub fn end_op(id: u32, st: Status, res: Res) {
    let wd = w();
    let (ret, ret_t) = (wd.tick(), now());
    let o = &mut wd.ops[id as usize];
    o.ret = ret;
    o.ret_t = ret_t;
    o.status = st;
    o.res = res;
    simrt::mix_hash(hash_res(&res) ^ ((id as u64) << 40) ^ st as u64);
}
fn hash_res(r: &Res) -> u64 {
    match r {
        Res::Unit => 1,
        Res::Val(None) => 2,
        Res::Val(Some(v)) => 3 + ((*v as u64) << 8),
        Res::Bool(b) => 4 + *b as u64,
        Res::Err(e) => 6 + ((*e as u64) << 8),
        Res::Ent(v, f) => 7 + *f as u64 + ((*v as u64) << 8),
        Res::Comp(c, v) => 16 + *c as u64 + ((*v as u64) << 8),
        Res::Counts(a, b) => 32 + (a << 8) + (b << 20),
    }
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else if i.payload().is::<SimPanic>() {
            return;
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{msg} at {loc}"));
        if !simrt::in_sim() {
            eprintln!("PANIC outside of a simulated thread: {msg} at {loc}");
        }
    }));
}
/// Judges a panic that reached an operation's caller.
pub fn caught_panic(op: u32, p: Box<dyn std::any::Any + Send>) {
    if p.is::<SimPanic>() {
        let o = &w().ops[op as usize];
        let own = o.rep_panic || o.cls.iter().any(|c| c.out == COut::Panic);
        if !own {
            w().violation(
                "foreign-panic",
                &["C13", "C04", "C05"],
                format!("an injected callback panic reached the caller of op {op}, which did not invoke that callback"),
            );
        }
    } else {
        let m = LAST_PANIC.with(|l| l.borrow().clone());
        w().generic("unexpected-panic", format!("op {op} panicked: {m}"));
    }
}

/// Polls one operation; supports dropping it at a chosen suspension.
struct OpFut<'a> {
    fut: Option<Pin<Box<dyn Future<Output = Res> + 'a>>>,
    op: u32,
    cancel: Option<(u8, bool)>,
    late: bool,
}
impl Future for OpFut<'_> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let me = &mut *self;
        let op = me.op;
        simrt::set_user(op as u64 + 1);
        if me.late {
            w().late_cancels += 1;
            me.abandon();
            return Poll::Ready(());
        }
        let f = me.fut.as_mut().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(cx)));
        match r {
            Ok(Poll::Ready(r)) => {
                me.fut = None;
                end_op(op, Status::Done, r);
                simrt::set_user(0);
                Poll::Ready(())
            }
            Ok(Poll::Pending) => {
                w().ops[op as usize].pend += 1;
                if let Some((n, late)) = me.cancel {
                    if w().ops[op as usize].pend >= n as u32 {
                        if late {
                            me.late = true;
                        } else {
                            me.abandon();
                            return Poll::Ready(());
                        }
                    }
                }
                simrt::set_user(0);
                Poll::Pending
            }
            Err(p) => {
                let r = catch_unwind(AssertUnwindSafe(|| me.fut = None));
                if let Err(p) = r {
                    caught_panic(op, p);
                }
                caught_panic(op, p);
                end_op(op, Status::Panicked, Res::Unit);
                simrt::set_user(0);
                Poll::Ready(())
            }
        }
    }
}
impl OpFut<'_> {
    fn abandon(&mut self) {
        w().cancels += 1;
        // A closure that is still running ends here: its own drop may come after
        // other fields of the operation's future have been dropped.
        let n = w().ops[self.op as usize].cls.len();
        if n > 0 {
            ClosGuard { op: self.op, i: n - 1 }.end(COut::Dropped);
        }
        let r = catch_unwind(AssertUnwindSafe(|| self.fut = None));
        if let Err(p) = r {
            caught_panic(self.op, p);
        }
        end_op(self.op, Status::Cancelled, Res::Unit);
        simrt::set_user(0);
    }
}

pub async fn run_one(h: &RefCell<Option<H>>, client: u32, s: &OpSpec) -> u32 {
    simrt::yield_point(Kind::OpBoundary);
    let id = begin_op(client, s);
    OpFut { fut: Some(Box::pin(do_op(h, id))), op: id, cancel: s.cancel, late: false }.await;
    id
}

async fn client_main(h: H, client: u32, list: Vec<OpSpec>) {
    let h = RefCell::new(Some(h));
    for s in &list {
        run_one(&h, client, s).await;
        simrt::set_user(0);
    }
    simrt::yield_point(Kind::OpBoundary);
    let r = catch_unwind(AssertUnwindSafe(|| drop(h.take())));
    if let Err(p) = r {
        handle_drop_panic(p);
    }
}
fn handle_drop_panic(p: Box<dyn std::any::Any + Send>) {
    if p.is::<SimPanic>() {
        w().violation("foreign-panic", &["C13"], "an injected panic came out of dropping a cache handle".into());
    } else {
        let m = LAST_PANIC.with(|l| l.borrow().clone());
        w().generic("unexpected-panic", format!("dropping a cache handle panicked: {m}"));
    }
}

// ---------------------------------------------------------------- executor

struct Task {
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    queued: bool,
    running: bool,
    done: bool,
}
struct Exec {
    tasks: Vec<Task>,
    q: VecDeque<usize>,
    left: usize,
}
static mut EXEC: Option<Exec> = None;
const EXEC_KEY: usize = 0xE8EC;
fn ex() -> &'static mut Exec {
    unsafe { EXEC.as_mut().unwrap() }
}
struct TW(usize);
fn wake_task(i: usize) {
    unsafe {
        if let Some(e) = EXEC.as_mut() {
            if i < e.tasks.len() && !e.tasks[i].done && !e.tasks[i].queued {
                e.tasks[i].queued = true;
                if !e.tasks[i].running {
                    e.q.push_back(i);
                    simrt::wake(EXEC_KEY);
                }
            }
        }
    }
}
impl Wake for TW {
    fn wake(self: Arc<Self>) {
        wake_task(self.0);
        simrt::yield_point(Kind::Task);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        wake_task(self.0);
        simrt::yield_point(Kind::Task);
    }
}
fn worker() {
    loop {
        simrt::yield_point(Kind::Task);
        let e = ex();
        if e.left == 0 {
            simrt::wake(EXEC_KEY);
            return;
        }
        let Some(i) = e.q.pop_front() else {
            simrt::block(EXEC_KEY, "idle worker");
            continue;
        };
        let t = &mut e.tasks[i];
        t.queued = false;
        t.running = true;
        let mut f = t.fut.take().unwrap();
        let wk = Waker::from(Arc::new(TW(i)));
        let mut cx = Context::from_waker(&wk);
        let r = f.as_mut().poll(&mut cx);
        let e = ex();
        let t = &mut e.tasks[i];
        t.running = false;
        match r {
            Poll::Ready(()) => {
                t.done = true;
                e.left -= 1;
                drop(f);
            }
            Poll::Pending => {
                t.fut = Some(f);
                if t.queued {
                    e.q.push_back(i);
                    simrt::wake(EXEC_KEY);
                }
            }
        }
        let p = w().cfg.p_spurious;
        let n = ex().tasks.len() as u32;
        if let Some(s) = simrt::decide_spurious(p, n) {
            w().spurious += 1;
            wake_task(s as usize);
        }
    }
}
/// Runs the given tasks to completion: one coroutine each, or on `workers` executor coroutines.
fn run_tasks(futs: Vec<Pin<Box<dyn Future<Output = ()>>>>, fut: bool, workers: u32) -> simrt::Outcome {
    if fut {
        let n = futs.len();
        unsafe {
            EXEC = Some(Exec {
                tasks: futs.into_iter().map(|f| Task { fut: Some(f), queued: true, running: false, done: false }).collect(),
                q: (0..n).collect(),
                left: n,
            });
        }
        for i in 0..workers {
            simrt::spawn(&format!("worker{i}"), worker);
        }
    } else {
        for (i, mut f) in futs.into_iter().enumerate() {
            simrt::spawn(&format!("client{i}"), move || {
                let wk = Waker::noop();
                let mut cx = Context::from_waker(wk);
                if f.as_mut().poll(&mut cx).is_pending() {
                    eprintln!("HARNESS-ERROR: a sync operation suspended");
                    std::process::exit(70);
                }
            });
        }
    }
    simrt::run_all()
}

// ---------------------------------------------------------------- quiescence

pub async fn run_one_op(h: &RefCell<Option<H>>, op: Op) -> u32 {
    run_one(h, 1000, &OpSpec { id: u32::MAX, op, cancel: None }).await
}
pub fn counts_of(id: u32) -> (u64, u64) {
    match w().ops[id as usize].res {
        Res::Counts(a, b) => (a, b),
        _ => (u64::MAX, u64::MAX),
    }
}
/// Unrecorded operations, for long sequential scenarios.
pub async fn raw_insert(h: &RefCell<Option<H>>, k: u32, s: VSpec) {
    let v = w().new_val(k, s);
    let c = h.borrow().as_ref().unwrap().clone();
    match &c {
        H::S(c) => c.insert(K::new(k), v),
        H::G(c) => c.insert(K::new(k), v),
        H::F(c) => c.insert(K::new(k), v).await,
    }
}
pub async fn raw_get(h: &RefCell<Option<H>>, k: u32) -> Option<u32> {
    let c = h.borrow().as_ref().unwrap().clone();
    let r = match &c {
        H::S(c) => c.get(&KQ(k)),
        H::G(c) => c.get(&KQ(k)),
        H::F(c) => c.get(&KQ(k)).await,
    };
    let r = r.map(|v| v.vid());
    simrt::mix_hash(((k as u64) << 32) ^ r.unwrap_or(NONE) as u64);
    r
}
pub async fn raw_has(h: &RefCell<Option<H>>, k: u32) -> bool {
    let b = raw_has1(h, k);
    simrt::mix_hash(((k as u64) << 32) ^ b as u64);
    b
}
fn raw_has1(h: &RefCell<Option<H>>, k: u32) -> bool {
    match h.borrow().as_ref().unwrap() {
        H::S(c) => c.contains_key(&KQ(k)),
        H::G(c) => c.contains_key(&KQ(k)),
        H::F(c) => c.contains_key(&KQ(k)),
    }
}
pub async fn raw_run(h: &RefCell<Option<H>>) {
    let c = h.borrow().as_ref().unwrap().clone();
    match &c {
        H::S(c) => c.run_pending_tasks(),
        H::G(c) => c.run_pending_tasks(),
        H::F(c) => c.run_pending_tasks().await,
    }
}

/// Runs maintenance until nothing changes any more; then records a snapshot.
pub async fn quiesce(h: &RefCell<Option<H>>) {
    let mut last = (0, 0, 0);
    let mut same = 0;
    let mut stable = false;
    simrt::set_jumps(false);
    // A maintenance run that removes nothing examines one batch of entries for the
    // invalidation predicates, twice if a predicate came during the first pass.
    let batch = if w().cfg.knobs.1 == 0 { 384 } else { w().cfg.knobs.1 };
    let more = if w().cfg.closures { 2 * (w().cfg.keys as u64).div_ceil(batch) as usize } else { 0 };
    for _ in 0..40 + more {
        run_one_op(h, Op::Run).await;
        if !w().cfg.epochs {
            crossbeam_epoch::sim_drain();
        }
        let c = run_one_op(h, Op::Counts).await;
        let (a, b) = counts_of(c);
        // Epoch garbage is collected a bag at a time.
        let cur = (a, b, if w().cfg.epochs { 0 } else { w().live_vals });
        if cur == last {
            same += 1;
            if same >= 3 + more {
                stable = true;
                break;
            }
        } else {
            same = 0;
            last = cur;
        }
    }
    let it = run_one_op(h, Op::Iter { max: u32::MAX }).await;
    if w().cfg.epochs {
        crossbeam_epoch::sim_drain();
        run_one_op(h, Op::Run).await;
        crossbeam_epoch::sim_drain();
    }
    let c = run_one_op(h, Op::Counts).await;
    snapshot(it, c, stable, false);
    simrt::set_jumps(true);
}
pub fn snapshot(it: u32, c: u32, stable: bool, dropped: bool) {
    let wd = w();
    let (ec, ws) = if dropped { (0, 0) } else { counts_of(c) };
    let items = if dropped { vec![] } else { wd.ops[it as usize].items.iter().map(|i| (i.key, i.vid)).collect() };
    let live = wd.vals.iter().enumerate().filter(|(_, m)| m.live != 0).map(|(i, m)| (i as u32, m.live)).collect();
    let keys = wd.key_live.iter().filter(|x| *x.1 != 0).map(|x| (*x.0, *x.1)).collect();
    let (seq, t) = (wd.tick(), now());
    wd.snaps.push(Snap { keys, seq, t, ec, ws, items, live, cache_dropped: dropped, stable, iter_op: it });
}

async fn epilogue(h: H, list: Vec<OpSpec>) {
    let h = RefCell::new(Some(h));
    for s in &list {
        run_one(&h, 999, s).await;
    }
    quiesce(&h).await;
    let keys = w().cfg.keys;
    for adv in w().cfg.epi_advance.clone() {
        run_one_op(&h, Op::Advance(adv)).await;
        quiesce(&h).await;
    }
    for k in 0..keys {
        run_one_op(&h, Op::Get(k)).await;
    }
    if w().cfg.epi_invalidate {
        run_one_op(&h, Op::InvAll).await;
        run_one_op(&h, Op::Advance(MS)).await;
        quiesce(&h).await;
    }
    for k in 0..keys {
        run_one_op(&h, Op::Contains(k)).await;
    }
    simrt::set_user(0);
    let r = catch_unwind(AssertUnwindSafe(|| drop(h.take())));
    if let Err(p) = r {
        handle_drop_panic(p);
    }
}

// ---------------------------------------------------------------- one run

pub struct RunOut {
    pub world: Box<World>,
    pub rr: simrt::RunResult,
}

fn failed(o: &simrt::Outcome) -> bool {
    *o != simrt::Outcome::AllDone
}

pub fn run_here(sc: &Scenario, sched_seed: u64, replay: Option<Vec<simrt::Decision>>) -> RunOut {
    new_world(sc.cfg.clone());
    simrt::interpose::seed_getrandom(sc.seed);
    crossbeam_epoch::sim_install();
    crossbeam_epoch::sim_set_mode(if sc.cfg.epochs { crossbeam_epoch::Mode::Epochs } else { crossbeam_epoch::Mode::Aggressive });
    crate::alloc::begin(sc.cfg.alloc);
    simrt::set_knobs(sc.cfg.knobs.0, sc.cfg.knobs.1);
    simrt::take_drops();
    simrt::begin(sched_seed, sc.cfg.sched.clone(), replay, sc.cfg.start);
    let out = phases(sc);
    let rr0 = out;
    w().lost_reads = simrt::take_drops().iter().map(|u| (*u as u32).wrapping_sub(1)).collect();
    crate::alloc::end();
    unsafe {
        // Tasks of an unfinished run are leaked: they refer to leaked coroutines.
        if let Some(e) = EXEC.take() {
            if failed(&rr0) {
                std::mem::forget(e);
            }
        }
    }
    let mut rr = simrt::end();
    rr.outcome = rr0.clone();
    let wd = w();
    match rr0 {
        simrt::Outcome::Deadlock => {
            let pend: Vec<String> =
                wd.ops.iter().filter(|o| o.status == Status::Pending).map(|o| format!("op {} {:?} (client {})", o.id, o.op, o.client)).collect();
            wd.generic("deadlock", format!("nobody can run; pending: {}; {}", pend.join(", "), rr.dump.join("; ")));
        }
        simrt::Outcome::StepBudget => {
            let pend: Vec<String> =
                wd.ops.iter().filter(|o| o.status == Status::Pending).map(|o| format!("op {} {:?} (client {})", o.id, o.op, o.client)).collect();
            wd.generic("no-progress", format!("step budget exhausted under a fair schedule; pending: {}; {}", pend.join(", "), rr.dump.join("; ")));
        }
        _ => {}
    }
    RunOut { world: take_world(), rr }
}

fn phases(sc: &Scenario) -> simrt::Outcome {
    let cfg = &sc.cfg;
    let fut = cfg.kind == Kd::Fut;
    let slot: Rc<RefCell<Option<H>>> = Rc::new(RefCell::new(None));
    {
        let slot2 = slot.clone();
        let cfg = cfg.clone();
        let pro = sc.prologue.clone();
        let f = async move {
            let b = Instant::now();
            let wd = w();
            wd.base_instant = Some(b);
            wd.base_t = simrt::last_clock();
            let h = build_cache(&cfg);
            *slot2.borrow_mut() = Some(h.clone());
            client_main(h, 998, pro).await;
        };
        let o = run_tasks(vec![Box::pin(f)], fut, 1);
        if failed(&o) {
            std::mem::forget(slot.borrow_mut().take());
            return o;
        }
    }
    if cfg.special != 0 {
        let h = slot.borrow_mut().take().unwrap();
        let o = run_tasks(vec![Box::pin(crate::special::run(sc.clone(), h))], fut, 1);
        if failed(&o) {
            return o;
        }
        return finish_drop();
    }
    let mut futs: Vec<Pin<Box<dyn Future<Output = ()>>>> = vec![];
    let main = slot.borrow_mut().take().unwrap();
    for (i, l) in sc.clients.iter().enumerate() {
        futs.push(Box::pin(client_main(main.clone(), i as u32, l.clone())));
    }
    let main = if cfg.drop_main {
        if sc.clients.is_empty() {
            futs.push(Box::pin(client_main(main, 0, vec![])));
        } else {
            // Dropped by the main context before the clients start.
            drop(main);
        }
        None
    } else {
        Some(main)
    };
    let o = run_tasks(futs, fut, cfg.workers);
    if failed(&o) {
        std::mem::forget(main);
        return o;
    }
    if let Some(h) = main {
        let o = run_tasks(vec![Box::pin(epilogue(h, sc.epilogue.clone()))], fut, 1);
        if failed(&o) {
            return o;
        }
    }
    finish_drop()
}

fn finish_drop() -> simrt::Outcome {
    // All handles are gone: everything must be released once pending destructors have run.
    let o = run_tasks(
        vec![Box::pin(async {
            for _ in 0..4 {
                crossbeam_epoch::sim_drain();
            }
        })],
        false,
        1,
    );
    if !failed(&o) {
        snapshot(0, 0, true, true);
        let wd = w();
        let guards = crossbeam_epoch::sim_live_guards();
        if guards != 0 {
            wd.violation("leaked-guard", &["C17"], format!("{guards} epoch guards are still alive after all operations"));
        }
        if wd.live_vals != 0 || wd.live_keys != 0 {
            let which: Vec<u32> = wd.vals.iter().enumerate().filter(|m| m.1.live != 0).map(|m| m.0 as u32).take(8).collect();
            wd.violation(
                "leak",
                &["C17"],
                format!("after the last handle was dropped {} values {:?} and {} keys are still alive", wd.live_vals, which, wd.live_keys),
            );
        }
    }
    o
}

/// Runs a scenario on a fresh OS thread (fresh thread locals).
pub fn run(sc: &Scenario, sched_seed: u64, replay: Option<Vec<simrt::Decision>>) -> RunOut {
    struct Send1<T>(T);
    unsafe impl<T> Send for Send1<T> {}
    let a = Send1((sc as *const Scenario, replay));
    let h = std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            let a = a;
            let Send1((sc, replay)) = a;
            Send1(run_here(unsafe { &*sc }, sched_seed, replay))
        })
        .unwrap();
    match h.join() {
        Ok(Send1(o)) => o,
        Err(e) => resume_unwind(e),
    }
}
