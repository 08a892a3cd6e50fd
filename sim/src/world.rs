//! The simulated world: instrumented keys and values, the recorded history, violations.
#![allow(static_mut_refs)]
use crate::scen::*;
use simrt::Kind;
use std::borrow::Borrow;
use std::hash::{BuildHasher, Hash, Hasher};

pub const NONE: u32 = u32::MAX;
pub const INF: u64 = u64::MAX;
pub const CL: u64 = 0x11FE_11FE_0000_0000;
pub const CD: u64 = 0xDEAD_DEAD_0000_0000;
pub const CKEY: u64 = 0x4B45_4B45_0000_0000;

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub props: Vec<&'static str>,
    pub msg: String,
    pub generic: bool,
}

#[derive(Clone, Debug)]
pub struct VMeta {
    pub key: u32,
    pub spec: VSpec,
    pub live: i32,
    pub op: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Status {
    Pending,
    Done,
    Cancelled,
    Panicked,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Unit,
    Val(Option<u32>),
    Bool(bool),
    /// An error shared from the initializer of op `.0`.
    Err(u32),
    /// Entry returned by an `or_insert`-style call: value, is_fresh.
    Ent(u32, bool),
    Comp(CR, u32),
    Counts(u64, u64),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CR {
    StillNone,
    Unchanged,
    Inserted,
    Replaced,
    Removed,
    Err,
    TryAgain,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum COut {
    Running,
    Val(u32),
    Err,
    None,
    Panic,
    Nop,
    Remove,
    Dropped,
}
#[derive(Clone, Copy, Debug)]
pub struct Clos {
    pub compute: bool,
    pub start: u64,
    pub start_t: u64,
    pub end: u64,
    pub end_t: u64,
    pub saw: u32,
    pub out: COut,
}
#[derive(Clone, Copy, Debug)]
pub struct Item {
    pub key: u32,
    pub vid: u32,
    pub lo: u64,
    pub hi: u64,
    pub lo_t: u64,
    pub hi_t: u64,
}

#[derive(Clone, Debug)]
pub struct OpRec {
    pub id: u32,
    pub client: u32,
    pub op: Op,
    pub inv: u64,
    pub inv_t: u64,
    pub ret: u64,
    pub ret_t: u64,
    pub status: Status,
    pub res: Res,
    /// Value prepared by the op (insert, or_insert).
    pub vid: u32,
    pub cls: Vec<Clos>,
    pub rep_panic: bool,
    pub items: Vec<Item>,
    pub iter_done: bool,
    pub pend: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cause {
    Expired,
    Explicit,
    Replaced,
    Size,
}
#[derive(Clone, Copy, Debug)]
pub struct LRec {
    pub key: u32,
    pub vid: u32,
    pub cause: Cause,
    pub start: u64,
    pub start_t: u64,
    pub end: u64,
    pub panicked: bool,
    pub op: u32,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CbK {
    Create,
    Read,
    Update,
}
#[derive(Clone, Copy, Debug)]
pub struct CbRec {
    pub kind: CbK,
    pub key: u32,
    pub vid: u32,
    pub now: i64,
    pub dur: Option<u64>,
    pub lm: i64,
    pub ret: Option<u64>,
    pub seq: u64,
    pub t: u64,
    pub op: u32,
}
#[derive(Clone, Debug)]
pub struct Snap {
    pub seq: u64,
    pub t: u64,
    pub ec: u64,
    pub ws: u64,
    pub items: Vec<(u32, u32)>,
    /// (vid, live instances) for all values with live != 0.
    pub live: Vec<(u32, i32)>,
    /// (key, live instances).
    pub keys: Vec<(u32, i32)>,
    pub cache_dropped: bool,
    pub stable: bool,
    pub iter_op: u32,
}

pub struct World {
    pub cfg: Cfg,
    pub gen: u32,
    pub seq: u64,
    pub vals: Vec<VMeta>,
    /// Operations whose message about a read was thrown away.
    pub lost_reads: Vec<u32>,
    pub live_vals: i64,
    pub live_keys: i64,
    /// Instances of each key alive.
    pub key_live: std::collections::HashMap<u32, i32>,
    pub ops: Vec<OpRec>,
    pub lis: Vec<LRec>,
    pub cbs: Vec<CbRec>,
    pub snaps: Vec<Snap>,
    pub viol: Vec<Viol>,
    pub listener_calls: u64,
    pub base_instant: Option<std::time::Instant>,
    pub base_t: u64,
    pub panics: u64,
    pub cancels: u64,
    pub late_cancels: u64,
    pub suspends: u64,
    pub corrupted: bool,
    pub spurious: u64,
    pub in_maint_listener: u32,
    pub pred_calls: u64,
    pub weigher_calls: u64,
    pub max_seen: u64,
}

pub static mut W: Option<Box<World>> = None;
static mut GEN: u32 = 0;
#[inline]
pub fn w() -> &'static mut World {
    unsafe { W.as_mut().expect("no world") }
}
pub fn has_world() -> bool {
    unsafe { W.is_some() }
}
pub fn new_world(cfg: Cfg) {
    unsafe {
        GEN = GEN.wrapping_add(1);
        W = Some(Box::new(World {
            cfg,
            gen: GEN,
            seq: 0,
            vals: vec![],
            live_vals: 0,
            lost_reads: vec![],
            live_keys: 0,
            key_live: Default::default(),
            ops: vec![],
            lis: vec![],
            cbs: vec![],
            snaps: vec![],
            viol: vec![],
            listener_calls: 0,
            base_instant: None,
            base_t: 0,
            panics: 0,
            cancels: 0,
            late_cancels: 0,
            suspends: 0,
            corrupted: false,
            spurious: 0,
            in_maint_listener: 0,
            pred_calls: 0,
            weigher_calls: 0,
            max_seen: 0,
        }));
    }
}
pub fn take_world() -> Box<World> {
    unsafe { W.take().unwrap() }
}

pub fn now() -> u64 {
    simrt::now_ns()
}

impl World {
    pub fn tick(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }
    pub fn violation(&mut self, class: &str, props: &[&'static str], msg: String) {
        if self.viol.len() < 40 {
            self.viol.push(Viol { class: class.to_string(), props: props.to_vec(), msg, generic: false });
        }
    }
    pub fn generic(&mut self, class: &str, msg: String) {
        if self.viol.len() < 40 {
            self.viol.push(Viol { class: class.to_string(), props: vec![], msg, generic: true });
        }
    }
    pub fn cur_op(&self) -> u32 {
        if simrt::active() {
            (simrt::user() as u32).wrapping_sub(1)
        } else {
            NONE
        }
    }
    pub fn new_val(&mut self, key: u32, spec: VSpec) -> V {
        let vid = self.vals.len() as u32;
        let op = self.cur_op();
        self.vals.push(VMeta { key, spec, live: 1, op });
        self.live_vals += 1;
        V { canary: CL ^ vid as u64, vid, gen: self.gen }
    }
    pub fn to_sim(&self, i: std::time::Instant) -> i64 {
        let b = self.base_instant.unwrap();
        match i.checked_duration_since(b) {
            Some(d) => self.base_t as i64 + d.as_nanos() as i64,
            None => self.base_t as i64 - b.duration_since(i).as_nanos() as i64,
        }
    }
}

fn corrupt(what: &str, vid: u64) {
    if has_world() {
        let wd = w();
        wd.corrupted = true;
        wd.violation(
            "memory-corruption",
            &["C17"],
            format!("{what} (stored {vid:#x})"),
        );
        wd.viol.last_mut().unwrap().generic = true;
        if simrt::in_sim() {
            simrt::abort_run();
        }
    }
    eprintln!("HARNESS: memory corruption outside of a run: {what}");
    std::process::exit(71);
}

// ---------------------------------------------------------------- values

pub struct V {
    canary: u64,
    vid: u32,
    gen: u32,
}
impl V {
    pub fn vid(&self) -> u32 {
        self.check("read");
        self.vid
    }
    #[inline]
    fn check(&self, what: &str) {
        let c = unsafe { std::ptr::read_volatile(&self.canary) };
        let v = unsafe { std::ptr::read_volatile(&self.vid) };
        if c != CL ^ v as u64 {
            if c == CD ^ v as u64 {
                corrupt(&format!("value {v} used after it was dropped: {what}"), c);
            } else {
                corrupt(&format!("value used after its memory was freed: {what}"), c);
            }
        }
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        self.check("clone");
        simrt::yield_point(Kind::User);
        self.check("clone (while being cloned)");
        let wd = w();
        if self.gen != wd.gen {
            corrupt("value of another run", self.gen as u64);
        }
        wd.vals[self.vid as usize].live += 1;
        wd.live_vals += 1;
        V { canary: self.canary, vid: self.vid, gen: self.gen }
    }
}
impl Drop for V {
    fn drop(&mut self) {
        if !has_world() {
            return;
        }
        self.check("drop");
        let wd = w();
        if self.gen != wd.gen {
            return;
        }
        unsafe { std::ptr::write_volatile(&mut self.canary, CD ^ self.vid as u64) };
        let m = &mut wd.vals[self.vid as usize];
        m.live -= 1;
        let neg = m.live < 0;
        wd.live_vals -= 1;
        if neg {
            corrupt("value dropped more often than created", self.vid as u64);
        }
        simrt::yield_point(Kind::User);
    }
}
impl Default for V {
    fn default() -> V {
        let wd = w();
        let op = wd.cur_op();
        let rec = &wd.ops[op as usize];
        let (k, spec) = (rec.op.key().unwrap_or(0), rec.op.vspec());
        let v = wd.new_val(k, spec);
        w().ops[op as usize].vid = v.vid;
        v
    }
}

// ---------------------------------------------------------------- keys

pub struct KQ(pub u32);
pub struct K {
    q: KQ,
    gen: u32,
    canary: u64,
}
impl K {
    pub fn new(k: u32) -> K {
        let wd = w();
        wd.live_keys += 1;
        *wd.key_live.entry(k).or_default() += 1;
        K { q: KQ(k), gen: wd.gen, canary: CKEY ^ k as u64 }
    }
    #[inline]
    fn check(&self, what: &str) {
        let c = unsafe { std::ptr::read_volatile(&self.canary) };
        if c != CKEY ^ self.q.0 as u64 {
            corrupt(&format!("key used after its memory was freed or dropped: {what}"), c);
        }
    }
    pub fn id(&self) -> u32 {
        self.check("read");
        self.q.0
    }
}
impl Drop for K {
    fn drop(&mut self) {
        if !has_world() {
            return;
        }
        self.check("drop");
        let wd = w();
        if self.gen != wd.gen {
            return;
        }
        unsafe { std::ptr::write_volatile(&mut self.canary, CD ^ self.q.0 as u64) };
        wd.live_keys -= 1;
        *wd.key_live.entry(self.q.0).or_default() -= 1;
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.check("compare");
        o.check("compare");
        self.q.0 == o.q.0
    }
}
impl Eq for K {}
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.check("hash");
        h.write_u32(self.q.0)
    }
}
impl PartialEq for KQ {
    fn eq(&self, o: &KQ) -> bool {
        self.0 == o.0
    }
}
impl Eq for KQ {}
impl Hash for KQ {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u32(self.0)
    }
}
impl Borrow<KQ> for K {
    fn borrow(&self) -> &KQ {
        self.check("borrow");
        &self.q
    }
}
impl ToOwned for KQ {
    type Owned = K;
    fn to_owned(&self) -> K {
        K::new(self.0)
    }
}

// ---------------------------------------------------------------- hashing

#[derive(Clone, Copy, Default)]
pub struct SimBuild {
    pub mode: u8,
}
pub struct SimHasher {
    mode: u8,
    k: u64,
    /// Other data hashed along (e.g. a TypeId).
    extra: u64,
}
impl BuildHasher for SimBuild {
    type Hasher = SimHasher;
    fn build_hasher(&self) -> SimHasher {
        SimHasher { mode: self.mode, k: 0, extra: 0 }
    }
}
fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Hasher for SimHasher {
    fn finish(&self) -> u64 {
        let k = self.k;
        let h = match self.mode {
            0 => mix(k.wrapping_add(0x9E37_79B9_7F4A_7C15)),
            1 => 0xABCD_0000_0000_0005 | (k << 24),
            2 => 0x1234_5678_9ABC_DEF0,
            3 => mix((k % 3).wrapping_add(0x77)),
            // Segments taken from both ends.
            4 => (if k & 1 == 0 { k >> 1 } else { !(k >> 1) } << 58) | 7,
            _ => 0x5A00_0000_0000_0000 | k,
        };
        if self.extra != 0 && self.mode == 0 {
            mix(h ^ self.extra)
        } else {
            h
        }
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.extra = self.extra.wrapping_mul(31).wrapping_add(*c as u64 + 1);
        }
    }
    fn write_u32(&mut self, i: u32) {
        self.k = i as u64;
    }
    fn write_u64(&mut self, _i: u64) {
        // TypeIds are hashed this way; their values differ between compilations, so that using
        // them would make runs depend on the build.
    }
}

/// Payload of an injected panic.
pub struct SimPanic;
