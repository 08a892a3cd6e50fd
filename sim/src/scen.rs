//! Scenario generation: a scenario is a pure function of (profile, seed).
use simrt::{Rng, SchedCfg, NKINDS};

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const S: u64 = 1_000_000_000;
pub const DAY: u64 = 86_400 * S;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kd {
    Sync,
    Seg(usize),
    Fut,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ExpU {
    Keep,
    Set(Option<u64>),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct VSpec {
    pub w: u32,
    pub tag: u8,
    pub create: Option<u64>,
    pub upd: ExpU,
    pub read: ExpU,
}
impl VSpec {
    pub const ZERO: VSpec = VSpec { w: 1, tag: 0, create: None, upd: ExpU::Keep, read: ExpU::Keep };
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum GW {
    With,
    Try,
    Opt,
    EWith,
    /// replace_if: tag % 2 == .0
    EWithIf(u8),
    ETry,
    EOpt,
    WithIf(u8),
}
impl GW {
    pub fn group(self) -> u8 {
        match self {
            GW::With | GW::EWith | GW::EWithIf(_) | GW::WithIf(_) => 0,
            GW::Try | GW::ETry => 1,
            GW::Opt | GW::EOpt => 2,
        }
    }
    pub fn replace_if(self) -> Option<u8> {
        match self {
            GW::EWithIf(t) | GW::WithIf(t) => Some(t),
            _ => None,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IO {
    Ok,
    Fail,
    Panic,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CF {
    Comp,
    Try,
    Upsert,
    TryNobody,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CA {
    Put,
    Remove,
    Nop,
    Err,
    Panic,
    /// Put if absent, else Remove.
    Toggle,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Get(u32),
    Contains(u32),
    Insert(u32, VSpec),
    Remove(u32),
    Invalidate(u32),
    GetWith { k: u32, f: GW, by_ref: bool, out: IO, v: VSpec, y: u8 },
    OrInsert { k: u32, by_ref: bool, v: VSpec, dflt: bool },
    Compute { k: u32, f: CF, by_ref: bool, act: CA, v: VSpec, y: u8 },
    InvAll,
    /// kind 0: key % m == r; kind 1: tag % m == r
    InvIf { kind: u8, m: u8, r: u8 },
    Iter { max: u32 },
    Run,
    Advance(u64),
    Counts,
    Reclone,
    Yield(u8),
}
impl Op {
    pub fn key(&self) -> Option<u32> {
        match *self {
            Op::Get(k) | Op::Contains(k) | Op::Insert(k, _) | Op::Remove(k) | Op::Invalidate(k) => Some(k),
            Op::GetWith { k, .. } | Op::OrInsert { k, .. } | Op::Compute { k, .. } => Some(k),
            _ => None,
        }
    }
    pub fn vspec(&self) -> VSpec {
        match *self {
            Op::Insert(_, v) | Op::GetWith { v, .. } | Op::OrInsert { v, .. } | Op::Compute { v, .. } => v,
            _ => VSpec::ZERO,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct OpSpec {
    pub id: u32,
    pub op: Op,
    /// Drop the future at its `.0`-th suspension; `.1`: only when it is about to be polled again.
    pub cancel: Option<(u8, bool)>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lis {
    No,
    Sync,
    Async,
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub kind: Kd,
    pub workers: u32,
    pub clients: u32,
    pub keys: u32,
    pub cap: Option<u64>,
    pub weigher: bool,
    pub lru: bool,
    pub init_cap: Option<usize>,
    pub ttl: Option<u64>,
    pub tti: Option<u64>,
    pub expiry: bool,
    pub lis: Lis,
    /// Listener: number of suspension/scheduling points inside.
    pub lis_slow: u8,
    /// The listener panics at this invocation (1-based; 0: never).
    pub lis_panic: u32,
    pub lis_sleep: u64,
    pub closures: bool,
    pub hash: u8,
    pub epochs: bool,
    /// Freed memory: 0 long quarantine, 1 short, 2 immediate reuse.
    pub alloc: u8,
    pub start: u64,
    pub p_spurious: u32,
    pub drop_main: bool,
    pub sched: SchedCfg,
    /// Final clock advances, each followed by maintenance and checks.
    pub epi_advance: Vec<u64>,
    pub epi_invalidate: bool,
    /// Rare special scenario (see `special.rs`), instead of clients.
    pub special: u8,
    pub maint_every_op: bool,
    /// Time passes only by explicit steps: exact boundaries.
    pub frozen: bool,
    /// Log channels divided by `.0`, eviction batches of `.1` (0: as in the code).
    pub knobs: (u64, u64),
}
#[derive(Clone, Debug)]
pub struct Scenario {
    pub profile: String,
    pub seed: u64,
    pub cfg: Cfg,
    pub prologue: Vec<OpSpec>,
    pub clients: Vec<Vec<OpSpec>>,
    pub epilogue: Vec<OpSpec>,
}

pub struct G {
    pub r: Rng,
    pub c: Cfg,
    next: u32,
    /// (op weight table)
    pub mix: Vec<(u32, u8)>,
    pub cancel_pct: u64,
    pub tags: u64,
    pub panic_pct: u64,
    pub fail_pct: u64,
    pub weights: Vec<u32>,
    pub durs: Vec<u64>,
    pub advs: Vec<u64>,
    pub yields: u8,
}

pub const O_GET: u8 = 0;
pub const O_CONT: u8 = 1;
pub const O_INS: u8 = 2;
pub const O_REM: u8 = 3;
pub const O_INV: u8 = 4;
pub const O_GW: u8 = 5;
pub const O_ORI: u8 = 6;
pub const O_COMP: u8 = 7;
pub const O_INVALL: u8 = 8;
pub const O_INVIF: u8 = 9;
pub const O_ITER: u8 = 10;
pub const O_RUN: u8 = 11;
pub const O_ADV: u8 = 12;
pub const O_CNT: u8 = 13;
pub const O_RECL: u8 = 14;
pub const O_YIELD: u8 = 15;
/// The scenario repeats one fixed group/form of get_with or compute.
pub const O_GWFIX: u8 = 16;
pub const O_COMPFIX: u8 = 17;

impl G {
    pub fn new(seed: u64) -> G {
        let mut r = Rng::new(seed);
        let kind = match r.below(10) {
            0..=3 => Kd::Sync,
            4..=5 => Kd::Seg(r.pick(&[1usize, 2, 4, 8, 3, 5])),
            _ => Kd::Fut,
        };
        let clients = r.range(2, 4) as u32;
        let c = Cfg {
            kind,
            workers: 1 + r.below(4) as u32,
            clients,
            keys: r.range(1, 4) as u32,
            cap: None,
            weigher: false,
            lru: false,
            init_cap: if r.chance(1, 4) { Some(r.pick(&[0usize, 1, 16, 100, 1000])) } else { None },
            ttl: None,
            tti: None,
            expiry: false,
            lis: Lis::No,
            lis_slow: 0,
            lis_panic: 0,
            lis_sleep: 0,
            closures: false,
            hash: r.pick(&[0u8, 0, 1, 2, 3, 4, 5]),
            epochs: r.chance(1, 4),
            alloc: r.below(3) as u8,
            start: r.pick(&[S, S, 12_345 * S + 6789, 3 * DAY]),
            p_spurious: 0,
            drop_main: false,
            sched: SchedCfg::default(),
            epi_advance: vec![],
            epi_invalidate: false,
            special: 0,
            maint_every_op: false,
            frozen: false,
            knobs: (0, 0),
        };
        let fut = kind == Kd::Fut;
        let mut g = G {
            r,
            c,
            next: 0,
            mix: vec![],
            cancel_pct: 0,
            tags: 6,
            panic_pct: 0,
            fail_pct: 10,
            weights: vec![1],
            durs: vec![],
            advs: vec![],
            yields: 2,
        };
        if fut && g.r.chance(1, 2) {
            g.cancel_pct = g.r.pick(&[5u64, 15, 40]);
            g.c.p_spurious = if g.r.chance(1, 3) { 1 << 29 } else { 0 };
        }
        g
    }
    pub fn is_fut(&self) -> bool {
        self.c.kind == Kd::Fut
    }
    pub fn listener(&mut self, slow: bool) {
        self.c.lis = if self.is_fut() && self.r.chance(2, 3) { Lis::Async } else { Lis::Sync };
        if slow {
            self.c.lis_slow = self.r.pick(&[0u8, 1, 3]);
        }
    }
    pub fn exp(&mut self) -> Option<u64> {
        if self.r.chance(1, 5) || self.durs.is_empty() {
            None
        } else {
            let d = self.r.pick(&self.durs.clone());
            Some(d)
        }
    }
    pub fn expu(&mut self) -> ExpU {
        if self.r.chance(1, 2) {
            ExpU::Keep
        } else {
            ExpU::Set(self.exp())
        }
    }
    pub fn vspec(&mut self) -> VSpec {
        let w = if self.c.weigher { self.r.pick(&self.weights.clone()) } else { 1 };
        let tag = self.r.below(self.tags) as u8;
        if self.c.expiry {
            VSpec { w, tag, create: self.exp(), upd: self.expu(), read: self.expu() }
        } else {
            VSpec { w, tag, ..VSpec::ZERO }
        }
    }
    pub fn key(&mut self) -> u32 {
        let n = self.c.keys as u64;
        if self.r.chance(1, 4) {
            0
        } else {
            self.r.below(n) as u32
        }
    }
    pub fn io(&mut self) -> IO {
        if self.r.below(100) < self.panic_pct {
            IO::Panic
        } else if self.r.below(100) < self.fail_pct {
            IO::Fail
        } else {
            IO::Ok
        }
    }
    pub fn op(&mut self) -> Op {
        let tot: u32 = self.mix.iter().map(|m| m.0).sum();
        let mut x = self.r.below(tot as u64) as u32;
        let mut which = self.mix[0].1;
        for (wt, o) in &self.mix {
            if x < *wt {
                which = *o;
                break;
            }
            x -= wt;
        }
        let y = if self.r.chance(1, 3) { 0 } else { self.r.below(self.yields as u64 + 1) as u8 };
        match which {
            O_GET => Op::Get(self.key()),
            O_CONT => Op::Contains(self.key()),
            O_INS => {
                let k = self.key();
                Op::Insert(k, self.vspec())
            }
            O_REM => Op::Remove(self.key()),
            O_INV => Op::Invalidate(self.key()),
            O_GW | O_GWFIX => {
                let t = self.r.below(2) as u8;
                let f = if which == O_GWFIX {
                    self.r.pick(&[GW::With, GW::EWith])
                } else {
                    self.r.pick(&[GW::With, GW::With, GW::Try, GW::Opt, GW::EWith, GW::EWithIf(t), GW::ETry, GW::EOpt, GW::WithIf(t)])
                };
                let mut out = self.io();
                if f.group() == 0 && out == IO::Fail {
                    out = IO::Ok;
                }
                let by_ref = self.r.chance(1, 3) && !matches!(f, GW::WithIf(_));
                Op::GetWith { k: self.key(), f, by_ref, out, v: self.vspec(), y }
            }
            O_ORI => Op::OrInsert { k: self.key(), by_ref: self.r.chance(1, 3), v: self.vspec(), dflt: self.r.chance(1, 3) },
            O_COMP | O_COMPFIX => {
                let mut f = if which == O_COMPFIX {
                    CF::Comp
                } else {
                    self.r.pick(&[CF::Comp, CF::Comp, CF::Try, CF::Upsert, CF::TryNobody])
                };
                if f == CF::TryNobody && !self.is_fut() {
                    f = CF::Try;
                }
                let mut act = self.r.pick(&[CA::Put, CA::Put, CA::Put, CA::Remove, CA::Nop, CA::Toggle]);
                if self.r.below(100) < self.panic_pct {
                    act = CA::Panic;
                } else if self.r.below(100) < self.fail_pct && (f == CF::Try || f == CF::TryNobody) {
                    act = CA::Err;
                }
                if f == CF::Upsert && act != CA::Panic {
                    act = CA::Put;
                }
                Op::Compute { k: self.key(), f, by_ref: self.r.chance(1, 3), act, v: self.vspec(), y }
            }
            O_INVALL => Op::InvAll,
            O_INVIF => {
                let m = 1 + self.r.below(3) as u8;
                Op::InvIf { kind: self.r.below(2) as u8, m, r: self.r.below(m as u64) as u8 }
            }
            O_ITER => Op::Iter { max: if self.r.chance(1, 5) { self.r.below(3) as u32 } else { u32::MAX } },
            O_RUN => Op::Run,
            O_ADV => {
                let m = if self.advs.is_empty() { MS } else { self.r.pick(&self.advs.clone()) };
                if self.c.frozen && self.r.chance(2, 3) {
                    Op::Advance(m.max(1))
                } else {
                    Op::Advance(1 + self.r.below(m))
                }
            }
            O_CNT => Op::Counts,
            O_RECL => Op::Reclone,
            _ => Op::Yield(1 + self.r.below(5) as u8),
        }
    }
    pub fn spec(&mut self, cancel: bool) -> OpSpec {
        let op = self.op();
        self.wrap(op, cancel)
    }
    pub fn wrap(&mut self, op: Op, cancel: bool) -> OpSpec {
        let id = self.next;
        self.next += 1;
        let cancel = if cancel && self.is_fut() && self.r.below(100) < self.cancel_pct {
            Some((1 + self.r.below(4) as u8, self.r.chance(1, 2)))
        } else {
            None
        };
        OpSpec { id, op, cancel }
    }
    pub fn list(&mut self, n: u64, cancel: bool) -> Vec<OpSpec> {
        (0..n).map(|_| self.spec(cancel)).collect()
    }

    /// Scheduling policy of the run.
    pub fn sched(&mut self, nops: usize) {
        let mut s = SchedCfg::default();
        let mode = self.r.below(10);
        let horizon = 200 + nops as u64 * 150;
        if mode < 4 {
            s.pct_depth = 1 + self.r.below(6) as u32;
            s.pct_horizon = horizon.max(500);
        } else if mode < 9 {
            let base = self.r.pick(&[1u32 << 29, 1 << 28, 1 << 27, 1 << 26, 1 << 25]);
            s.probs = [base; NKINDS];
            if self.r.chance(1, 2) {
                // Concentrate on a few kinds.
                let mut p = [base >> 4; NKINDS];
                for _ in 0..(1 + self.r.below(4)) {
                    p[self.r.below(NKINDS as u64) as usize] = 1 << 30;
                }
                s.probs = p;
            }
        } else {
            s.probs = [1 << 22; NKINDS];
            s.probs[11] = 1 << 31;
            s.probs[12] = 1 << 31;
            s.probs[15] = 1 << 31;
        }
        if self.r.chance(1, 3) {
            s.p_stall = 1 << self.r.range(19, 24);
            s.stall_len = self.r.pick(&[50u32, 500, 5000]);
        }
        s.p_weak_fail = if self.r.chance(1, 4) { 1 << 28 } else { 0 };
        s.tick = self.r.pick(&[1u64, 3, 20]);
        s.clock_tick = self.r.pick(&[1u64, 11, 100]);
        if !self.advs.is_empty() && self.r.chance(1, 2) {
            s.p_jump = 1 << self.r.range(20, 25);
            let mut j = vec![US, MS, 120 * MS, 400 * MS];
            j.extend(self.advs.iter().copied());
            s.jumps = j;
        } else if self.r.chance(1, 4) {
            s.p_jump = 1 << self.r.range(20, 25);
            s.jumps = vec![US, MS, 120 * MS, 400 * MS];
        }
        if self.c.frozen {
            s.tick = 0;
            s.clock_tick = 0;
            s.p_jump = 0;
            s.jumps = vec![];
        }
        s.max_steps = 24_000_000;
        s.fair_after = 3_000_000;
        self.c.sched = s;
    }
    pub fn finish(mut self, profile: &str, seed: u64, pro: Vec<OpSpec>, clients: Vec<Vec<OpSpec>>, epi: Vec<OpSpec>) -> Scenario {
        let n: usize = clients.iter().map(|c| c.len()).sum();
        if !matches!(profile, "lru" | "lfu" | "hot" | "bulk" | "wrap" | "churn") && self.r.chance(1, 3) {
            self.c.knobs = (self.r.pick(&[0, 16, 48, 96, 192]), self.r.pick(&[0, 0, 2, 5, 16]));
        }
        self.sched(n);
        Scenario { profile: profile.into(), seed, cfg: self.c, prologue: pro, clients, epilogue: epi }
    }
    pub fn standard(mut self, profile: &str, seed: u64, pro_n: u64, ops_total: u64) -> Scenario {
        let pro = self.list(pro_n, false);
        let n = self.c.clients as u64;
        let mut cl = vec![];
        for _ in 0..n {
            let k = 1 + self.r.below((2 * ops_total / n).max(1));
            cl.push(self.list(k, true));
        }
        let k = self.r.below(4);
        let epi = self.list(k, false);
        self.finish(profile, seed, pro, cl, epi)
    }
    /// Expiration policies whose deadlines are never reached: bookkeeping only.
    pub fn far_deadlines(&mut self) {
        match self.r.below(8) {
            0 => self.c.ttl = Some(300 * DAY),
            1 => self.c.tti = Some(300 * DAY),
            2 | 3 => {
                self.c.expiry = true;
                self.durs = vec![100 * DAY, 200 * DAY, 300 * DAY];
            }
            _ => {}
        }
    }
    pub fn timed(&mut self) {
        self.c.frozen = self.r.chance(1, 6);
        // Whole families of magnitudes: sub-microsecond to years.
        let fam = self.r.below(8);
        let unit = match fam {
            0 => 5 * US,
            1 => MS,
            2 => 100 * MS,
            3 | 4 => S,
            5 => 70 * S,
            6 => 3 * 3600 * S,
            _ => 3 * DAY,
        };
        self.durs = vec![unit, 2 * unit, 3 * unit, 7 * unit, unit / 2];
        if self.r.chance(1, 4) {
            self.durs.extend([S, 65 * S, 4000 * S, 2 * DAY, 10 * DAY, 0, 1]);
        }
        self.advs = vec![unit / 4, unit, 2 * unit, 4 * unit, unit / 50 + 1];
        if self.c.frozen {
            // Just before and at the deadline.
            self.advs = vec![unit / 2, unit, unit - 1, 1, 2 * unit];
        }
        if self.r.chance(1, 3) {
            self.c.ttl = None;
        }
    }
}

pub fn default_mix() -> Vec<(u32, u8)> {
    vec![(20, O_GET), (4, O_CONT), (20, O_INS), (8, O_REM), (6, O_INV), (6, O_GW), (3, O_ORI), (5, O_COMP), (1, O_ITER), (4, O_RUN), (1, O_YIELD), (1, O_CNT)]
}

pub const PROFILES: &[&str] = &[
    "strict", "resize", "evict", "expire", "mixed", "single", "compute", "inval", "iter", "listen", "panic", "cancel", "progress",
    "mem", "timer", "flood", "clones", "lru", "lfu", "hot", "bulk", "callbacks", "wrap", "live", "churn",
];

pub fn build(profile: &str, seed: u64) -> Scenario {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in profile.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    let mut g = G::new(seed ^ h);
    g.mix = default_mix();
    match profile {
        // No capacity, no expiration: a plain concurrent map.
        "strict" => {
            if g.r.chance(1, 3) {
                let sl = g.r.chance(1, 2);
                g.listener(sl);
            }
            if g.r.chance(1, 4) {
                g.mix = vec![(10, O_GET), (10, O_INS), (5, O_REM), (5, O_INV), (2, O_RUN), (1, O_COMP), (1, O_GW)];
            }
            g.c.lru = g.r.chance(1, 3);
            if g.r.chance(1, 4) {
                g.c.cap = Some(1_000_000);
            }
            let p = g.r.below(4);
            let n = g.r.range(4, 24);
            g.standard(profile, seed, p, n)
        }
        // Many keys in one table segment, growing and shrinking.
        "resize" => {
            g.c.hash = g.r.pick(&[1u8, 5, 5, 5, 3, 2, 4]);
            g.c.init_cap = g.r.pick(&[None, Some(0), Some(1)]);
            g.c.keys = g.r.pick(&[6u32, 12, 24, 60]);
            g.mix = vec![(10, O_GET), (2, O_CONT), (30, O_INS), (12, O_REM), (12, O_INV), (1, O_ITER), (2, O_RUN), (1, O_COMP), (1, O_GW)];
            if g.r.chance(1, 4) {
                g.listener(false);
            }
            g.c.clients = g.r.range(2, 5) as u32;
            let p = g.r.below(g.c.keys as u64 * 2);
            let n = g.r.range(8, 80);
            g.standard(profile, seed, p, n)
        }
        "evict" => {
            g.c.keys = g.r.range(2, 8) as u32;
            g.c.cap = Some(g.r.range(0, g.c.keys as u64));
            if g.r.chance(1, 2) {
                g.c.weigher = true;
                g.weights = vec![0, 1, 1, 2, 3, 7];
                g.c.cap = Some(g.r.range(0, 10));
            }
            g.c.lru = g.r.chance(1, 2);
            if g.r.chance(1, 2) {
                g.listener(true);
            }
            if g.r.chance(1, 4) {
                g.advs = vec![MS, 120 * MS, 400 * MS];
                g.mix.push((3, O_ADV));
            }
            if g.r.chance(1, 6) {
                // Everything fits, just so.
                g.c.clients = 1;
                let per = g.weights.iter().max().copied().unwrap() as u64;
                let n = if let Kd::Seg(n) = g.c.kind { n.next_power_of_two() as u64 } else { 1 };
                let sum = g.c.keys as u64 * per;
                g.c.cap = Some(sum * n - g.r.below(n));
            }
            let p = g.r.below(8);
            let n = g.r.range(4, 30);
            g.standard(profile, seed, p, n)
        }
        "expire" | "live" | "mixed" | "callbacks" => {
            g.timed();
            g.c.keys = g.r.range(1, 5) as u32;
            loop {
                g.c.ttl = if g.r.chance(1, 3) { Some(g.r.pick(&g.durs.clone()).max(1)) } else { None };
                g.c.tti = if g.r.chance(1, 3) { Some(g.r.pick(&g.durs.clone()).max(1)) } else { None };
                g.c.expiry = g.r.chance(1, 2) || (profile == "callbacks" && g.r.chance(4, 5));
                if g.c.ttl.is_some() || g.c.tti.is_some() || g.c.expiry {
                    break;
                }
            }
            g.mix = vec![(20, O_GET), (5, O_CONT), (16, O_INS), (4, O_REM), (2, O_INV), (4, O_GW), (2, O_ORI), (4, O_COMP), (1, O_ITER), (6, O_RUN), (10, O_ADV), (1, O_YIELD)];
            if g.r.chance(1, 3) {
                g.listener(true);
            }
            if profile == "live" && g.r.chance(1, 2) {
                g.mix = vec![(20, O_GET), (20, O_INS), (10, O_RUN), (6, O_ADV), (2, O_COMP), (2, O_REM)];
            }
            if profile == "mixed" {
                g.c.cap = Some(g.r.range(0, g.c.keys as u64));
                if g.r.chance(1, 2) {
                    g.c.weigher = true;
                    g.weights = vec![0, 1, 1, 2, 3, 7];
                    g.c.cap = Some(g.r.range(0, 10));
                }
                g.c.lru = g.r.chance(1, 2);
                if g.r.chance(1, 2) {
                    g.mix.push((2, O_INVALL));
                }
                if g.r.chance(1, 3) {
                    g.c.closures = true;
                    g.mix.push((2, O_INVIF));
                }
            } else if g.r.chance(1, 4) {
                g.c.cap = Some(1_000_000);
            }
            if profile == "callbacks" && g.r.chance(1, 2) {
                // One client: exact argument checks.
                g.c.clients = 1;
            }
            let mx = g.durs.iter().copied().max().unwrap_or(0).max(g.c.ttl.unwrap_or(0)).max(g.c.tti.unwrap_or(0));
            if g.r.chance(1, 2) {
                g.c.epi_advance = vec![mx / 2, mx + 3 * S];
            }
            let p = g.r.below(6);
            let n = g.r.range(4, 26);
            g.standard(profile, seed, p, n)
        }
        "single" => {
            g.c.keys = g.r.range(1, 2) as u32;
            g.c.clients = g.r.range(2, 5) as u32;
            g.tags = g.r.pick(&[2u64, 6]);
            g.mix = vec![(30, O_GW), (4, O_GET), (4, O_INS), (4, O_REM), (3, O_INV), (2, O_COMP), (1, O_RUN), (1, O_ORI)];
            if g.r.chance(1, 3) {
                g.mix = vec![(30, O_GWFIX), (2, O_GET), (2, O_INS), (4, O_INV)];
            }
            g.panic_pct = g.r.pick(&[0u64, 0, 10, 30]);
            g.fail_pct = g.r.pick(&[0u64, 20, 50]);
            if g.r.chance(1, 4) {
                g.listener(true);
            }
            if g.r.chance(1, 5) {
                g.c.cap = Some(g.r.pick(&[0u64, 1, 2]));
            }
            if g.r.chance(1, 4) {
                g.timed();
                g.c.ttl = Some(g.durs[0].max(1));
                g.mix.push((4, O_ADV));
            }
            let n = g.r.range(3, 18);
            g.standard(profile, seed, 0, n)
        }
        "compute" => {
            g.c.keys = g.r.range(1, 2) as u32;
            g.c.clients = g.r.range(2, 5) as u32;
            g.mix = vec![(30, O_COMP), (4, O_GET), (4, O_INS), (3, O_REM), (2, O_INV), (3, O_GW), (1, O_RUN)];
            if g.r.chance(1, 3) {
                g.mix = vec![(30, O_COMPFIX), (2, O_GET)];
            }
            g.panic_pct = g.r.pick(&[0u64, 0, 10, 30]);
            g.fail_pct = g.r.pick(&[0u64, 20]);
            if g.r.chance(1, 4) {
                g.listener(true);
            }
            if g.r.chance(1, 6) {
                g.timed();
                g.c.ttl = Some(g.durs[0].max(1));
                g.mix.push((4, O_ADV));
            }
            let n = g.r.range(3, 18);
            g.standard(profile, seed, 0, n)
        }
        "inval" => {
            g.c.keys = g.r.range(1, 4) as u32;
            g.mix.push((8, O_INVALL));
            if g.r.chance(1, 3) {
                g.mix.push((6, O_ITER));
            }
            g.c.frozen = g.r.chance(1, 8);
            if g.r.chance(2, 3) {
                g.c.closures = true;
                g.mix.push((8, O_INVIF));
                if g.r.chance(1, 2) {
                    g.mix.retain(|m| m.1 != O_INVALL);
                }
            }
            for m in g.mix.iter_mut() {
                if m.1 == O_RUN {
                    m.0 = 8;
                }
            }
            if g.r.chance(1, 3) {
                g.listener(true);
            }
            match g.r.below(6) {
                0 => {
                    g.timed();
                    g.c.ttl = Some(g.durs[0].max(1));
                    g.mix.push((4, O_ADV));
                }
                1 => {
                    g.timed();
                    g.c.tti = Some(g.durs[0].max(1));
                    g.mix.push((4, O_ADV));
                }
                2 => g.c.cap = Some(g.r.range(1, 4)),
                3 => {
                    g.c.keys = 30;
                    g.mix.push((40, O_INS));
                }
                _ => {}
            }
            if g.c.closures && g.r.chance(1, 4) {
                // Overwrites racing with the scan for the predicates.
                g.c.keys = 1;
                g.mix = vec![(10, O_INS), (8, O_RUN), (4, O_INVIF), (3, O_GET)];
                if matches!(g.c.kind, Kd::Seg(_)) {
                    g.c.kind = g.r.pick(&[Kd::Sync, Kd::Fut]);
                }
                let n = g.r.range(3, 10);
                return g.standard(profile, seed, 0, n);
            }
            let p = g.r.below(6);
            let n = g.r.range(4, 26);
            g.standard(profile, seed, p, n)
        }
        "iter" => {
            g.c.keys = g.r.range(2, 20) as u32;
            g.c.hash = g.r.pick(&[0u8, 1, 4, 5, 5]);
            g.mix = vec![(20, O_ITER), (14, O_INS), (6, O_REM), (4, O_INV), (4, O_GET), (2, O_RUN)];
            match g.r.below(7) {
                0 | 1 | 2 => {
                    g.timed();
                    match g.r.below(4) {
                        0 => g.c.ttl = Some(g.durs[0].max(1)),
                        1 => g.c.tti = Some(g.durs[0].max(1)),
                        _ => g.c.expiry = true,
                    }
                    g.mix.push((g.r.range(3, 12) as u32, O_ADV));
                }
                3 => g.c.cap = Some(g.r.range(1, 8)),
                4 => g.mix.push((4, O_INVALL)),
                _ => {}
            }
            if g.r.chance(1, 4) {
                g.listener(false);
            }
            let p = g.r.below(24);
            let n = g.r.range(3, 40);
            g.standard(profile, seed, p, n)
        }
        "listen" => {
            g.listener(true);
            g.c.keys = g.r.range(1, 4) as u32;
            g.mix = vec![(8, O_GET), (26, O_INS), (12, O_REM), (8, O_INV), (3, O_GW), (4, O_COMP), (8, O_RUN), (1, O_ITER)];
            if g.r.chance(1, 2) {
                g.c.cap = Some(g.r.range(0, g.c.keys as u64));
                g.c.lru = g.r.chance(1, 2);
                if g.r.chance(1, 3) {
                    g.c.weigher = true;
                    g.weights = vec![0, 1, 2, 5];
                }
            }
            if g.r.chance(1, 2) {
                g.timed();
                match g.r.below(3) {
                    0 => g.c.ttl = Some(g.durs[0].max(1)),
                    1 => g.c.tti = Some(g.durs[0].max(1)),
                    _ => g.c.expiry = true,
                }
                g.mix.push((8, O_ADV));
                let mx = g.durs.iter().copied().max().unwrap();
                g.c.epi_advance = vec![mx + 3 * S];
            }
            if g.r.chance(1, 3) {
                g.mix.push((4, O_INVALL));
            }
            if g.r.chance(1, 4) {
                g.c.closures = true;
                g.mix.push((4, O_INVIF));
            }
            g.c.epi_invalidate = g.r.chance(1, 3);
            let p = g.r.below(4);
            let n = g.r.range(4, 26);
            g.standard(profile, seed, p, n)
        }
        "panic" => {
            g.c.keys = g.r.range(1, 3) as u32;
            g.mix = vec![(10, O_GET), (20, O_INS), (8, O_REM), (4, O_INV), (14, O_GW), (14, O_COMP), (6, O_RUN)];
            g.panic_pct = g.r.pick(&[10u64, 40]);
            if g.r.chance(2, 3) {
                g.listener(true);
                g.c.lis_panic = g.r.range(1, 6) as u32;
            }
            if g.r.chance(1, 3) {
                g.c.cap = Some(g.r.range(0, 2));
            }
            if g.r.chance(1, 3) {
                g.timed();
                g.c.ttl = Some(g.durs[0].max(1));
                g.mix.push((6, O_ADV));
            }
            let p = g.r.below(4);
            let n = g.r.range(4, 24);
            g.standard(profile, seed, p, n)
        }
        "cancel" => {
            g.c.kind = Kd::Fut;
            g.cancel_pct = g.r.pick(&[15u64, 40, 80]);
            g.c.p_spurious = if g.r.chance(1, 3) { 1 << 29 } else { 0 };
            g.c.keys = g.r.range(1, 3) as u32;
            g.mix = vec![(6, O_GET), (26, O_INS), (10, O_REM), (8, O_INV), (10, O_GW), (8, O_COMP), (10, O_RUN)];
            if g.r.chance(4, 5) {
                g.c.lis = Lis::Async;
                g.c.lis_slow = g.r.pick(&[1u8, 2, 4]);
            }
            if g.r.chance(1, 2) {
                g.c.cap = Some(g.r.range(0, 3));
                g.c.lru = g.r.chance(1, 2);
            }
            if g.r.chance(1, 3) {
                g.timed();
                match g.r.below(3) {
                    0 => g.c.ttl = Some(g.durs[0].max(1)),
                    1 => g.c.tti = Some(g.durs[0].max(1)),
                    _ => g.c.expiry = true,
                }
                g.mix.push((8, O_ADV));
            }
            g.panic_pct = g.r.pick(&[0u64, 0, 10]);
            let p = g.r.below(4);
            let n = g.r.range(3, 24);
            g.standard(profile, seed, p, n)
        }
        // Full channels: many writes against a stalled maintenance.
        "progress" | "flood" => {
            g.c.clients = g.r.range(2, 5) as u32;
            g.c.keys = g.r.pick(&[40u32, 600, 1200]);
            g.c.hash = 0;
            g.c.cap = if profile == "flood" { Some(g.r.pick(&[0u64, 1, 10, 100])) } else { g.r.pick(&[None, Some(10)]) };
            g.c.lru = g.r.chance(1, 2);
            g.mix = vec![(30, O_INS), (3, O_GET), (2, O_REM)];
            if g.r.chance(1, 3) {
                g.mix = vec![(30, O_GET), (5, O_INS)];
            }
            if g.r.chance(2, 3) {
                g.listener(true);
                g.c.lis_sleep = g.r.pick(&[0u64, 0, MS, 200 * MS]);
            }
            if !g.is_fut() {
                g.c.lis_slow = g.c.lis_slow.min(1);
            }
            if g.is_fut() && g.c.lis == Lis::Async && g.r.chance(1, 2) {
                g.c.lis_slow = g.r.pick(&[20u8, 100, 250]);
            }
            g.cancel_pct = g.r.pick(&[0u64, 0, 15, 50]);
            let n = g.r.pick(&[60u64, 500, 1200]);
            let mut s = g.standard(profile, seed, 0, n);
            // Long stalls, few switches: one client in maintenance, the others flooding.
            s.cfg.sched.p_stall = 1 << 17;
            s.cfg.sched.stall_len = 60_000;
            s
        }
        "mem" => {
            g.c.keys = g.r.range(1, 6) as u32;
            g.mix = default_mix();
            g.mix.push((4, O_ITER));
            g.mix.push((4, O_RECL));
            g.c.drop_main = g.r.chance(1, 2);
            if g.r.chance(1, 3) {
                g.c.cap = Some(g.r.range(0, 4));
                g.c.lru = g.r.chance(1, 2);
            }
            if g.r.chance(1, 3) {
                g.timed();
                match g.r.below(3) {
                    0 => g.c.ttl = Some(g.durs[0].max(1)),
                    1 => g.c.tti = Some(g.durs[0].max(1)),
                    _ => g.c.expiry = true,
                }
                g.mix.push((8, O_ADV));
            }
            if g.r.chance(1, 3) {
                g.listener(true);
            }
            if g.r.chance(1, 2) {
                g.c.hash = g.r.pick(&[1u8, 5]);
                g.c.keys = g.r.range(4, 20) as u32;
            }
            g.panic_pct = g.r.pick(&[0u64, 0, 10]);
            let p = g.r.below(10);
            let n = g.r.range(4, 40);
            g.standard(profile, seed, p, n)
        }
        // Timer wheel: many deadlines over all levels, sequential-ish.
        "timer" => {
            g.c.keys = g.r.range(2, 40) as u32;
            g.c.expiry = true;
            g.durs = vec![];
            for _ in 0..12 {
                let mag = g.r.below(57);
                let d = 1 + g.r.below(1u64 << mag);
                g.durs.push(d);
            }
            g.durs.extend([1 << 30, (1 << 30) * 64, (1 << 30) * 64 * 64, (1 << 30) * 64 * 64 * 32, 0]);
            g.advs = g.durs.iter().map(|d| (d / 2).max(1)).collect();
            g.advs.extend([1 << 30, 1 << 31, 66 << 30]);
            if g.r.chance(1, 4) {
                g.c.tti = Some(g.r.pick(&g.durs.clone()).max(1));
            }
            if g.r.chance(1, 4) {
                g.c.ttl = Some(g.r.pick(&g.durs.clone()).max(1));
            }
            g.mix = vec![(14, O_INS), (6, O_GET), (10, O_ADV), (10, O_RUN), (2, O_REM), (1, O_INV)];
            if g.r.chance(1, 2) {
                g.listener(false);
            }
            g.c.clients = g.r.range(1, 2) as u32;
            g.c.epi_advance = (0..g.r.below(4)).map(|_| g.r.pick(&g.advs.clone())).collect();
            g.c.epi_advance.push(1 << 58);
            let p = g.r.below(20);
            let n = g.r.range(10, 80);
            g.standard(profile, seed, p, n)
        }
        "clones" => {
            g.c.kind = if g.r.chance(1, 4) { Kd::Fut } else { Kd::Seg(g.r.pick(&[1usize, 2, 3, 4, 8, 16])) };
            g.c.keys = g.r.range(1, 12) as u32;
            g.mix = default_mix();
            g.mix.extend([(6, O_RECL), (3, O_ITER), (3, O_CNT)]);
            if g.r.chance(1, 3) {
                g.mix.push((3, O_INVALL));
            }
            if g.r.chance(1, 4) {
                g.c.closures = true;
                g.mix.push((3, O_INVIF));
            }
            if g.r.chance(1, 3) {
                g.c.weigher = true;
                g.weights = vec![0, 1, 2, 3];
            }
            if g.r.chance(1, 4) {
                g.c.cap = Some(g.r.range(0, 16));
            }
            if g.r.chance(1, 5) {
                g.timed();
                g.c.ttl = Some(g.durs[0].max(1));
                g.mix.push((4, O_ADV));
            }
            if g.r.chance(1, 3) {
                g.listener(false);
            }
            let p = g.r.below(12);
            let n = g.r.range(4, 40);
            g.standard(profile, seed, p, n)
        }
        // Sequential reference-model scenarios (judged in special.rs).
        "lru" => {
            g.c.special = 1;
            g.c.lru = true;
            g.c.clients = 1;
            g.c.keys = g.r.range(2, 12) as u32;
            g.c.cap = Some(g.r.range(1, 10));
            if g.r.chance(1, 2) {
                g.c.weigher = true;
                g.weights = vec![0, 1, 1, 2, 3, 5];
            }
            if g.r.chance(1, 2) {
                g.listener(false);
            }
            if matches!(g.c.kind, Kd::Seg(_)) {
                g.c.kind = Kd::Seg(1);
            }
            g.cancel_pct = 0;
            g.c.maint_every_op = true;
            g.mix = vec![(20, O_GET), (3, O_CONT), (24, O_INS), (3, O_REM), (2, O_INV), (2, O_ITER), (2, O_ADV), (2, O_GWFIX), (2, O_COMPFIX)];
            g.advs = vec![MS, S];
            g.far_deadlines();
            let n = g.r.range(10, 70);
            let l = g.list(n, false);
            g.finish(profile, seed, vec![], vec![l], vec![])
        }
        "lfu" => {
            g.c.special = 2;
            g.c.lru = false;
            g.c.clients = 1;
            g.c.hash = 0;
            g.c.keys = g.r.range(2, 14) as u32;
            g.c.cap = Some(g.r.range(2, 10));
            if g.r.chance(1, 2) {
                g.c.weigher = true;
                g.weights = vec![0, 1, 1, 2, 3, 5];
            }
            if g.r.chance(1, 2) {
                g.listener(false);
            }
            if matches!(g.c.kind, Kd::Seg(_)) {
                g.c.kind = Kd::Seg(1);
            }
            g.cancel_pct = 0;
            g.c.maint_every_op = true;
            let ins = g.r.pick(&[8, 16, 30]);
            g.mix = vec![(30, O_GET), (2, O_CONT), (ins, O_INS), (2, O_REM), (1, O_INV), (1, O_ITER), (1, O_ADV), (2, O_GWFIX), (2, O_COMPFIX)];
            g.advs = vec![MS, S];
            g.far_deadlines();
            let n = g.r.range(10, 90);
            let l = g.list(n, false);
            g.finish(profile, seed, vec![], vec![l], vec![])
        }
        // More entries than one maintenance batch takes, then a mass retirement.
        "bulk" => {
            g.c.keys = g.r.pick(&[300u32, 380, 390, 500, 770, 1200]);
            g.c.hash = 0;
            g.c.clients = g.r.range(1, 2) as u32;
            g.cancel_pct = g.cancel_pct.min(10);
            g.mix = vec![(6, O_INS), (6, O_GET), (2, O_REM), (4, O_RUN), (1, O_CNT)];
            let mode = g.r.below(6);
            g.durs = vec![100 * S];
            g.advs = vec![S, 60 * S, 110 * S];
            match mode {
                0 => g.c.ttl = Some(100 * S),
                1 => g.c.tti = Some(100 * S),
                2 => g.c.expiry = true,
                3 => {
                    g.c.closures = true;
                    g.mix.push((3, O_INVIF));
                }
                4 => g.mix.push((3, O_INVALL)),
                _ => {
                    g.c.cap = Some(g.c.keys as u64 + 5);
                    g.c.weigher = true;
                    g.c.lru = g.r.chance(1, 2);
                    g.weights = vec![1];
                }
            }
            if mode < 3 || g.r.chance(1, 4) {
                g.mix.push((3, O_ADV));
            }
            if mode > 2 && g.r.chance(1, 4) {
                g.c.ttl = Some(100 * S);
            }
            if g.r.chance(1, 3) {
                g.listener(false);
                g.c.lis_slow = 0;
                g.c.lis_sleep = 0;
            }
            let mut pro = vec![];
            let every = g.r.pick(&[0u32, 1, 50, 200]);
            for k in 0..g.c.keys {
                let mut o = g.spec(false);
                let mut v = VSpec { w: 1, tag: (k % 6) as u8, create: Some(100 * S), upd: ExpU::Keep, read: ExpU::Keep };
                if !g.c.expiry {
                    v.create = None;
                }
                o.op = Op::Insert(k, v);
                o.cancel = None;
                pro.push(o);
                if every != 0 && k % every == 0 && g.r.chance(1, 2) {
                    let mut o = g.spec(false);
                    o.op = Op::Run;
                    o.cancel = None;
                    pro.push(o);
                }
            }
            if mode == 5 {
                g.weights = vec![1, 2, 300, 600];
            }
            let n = g.r.range(6, 40);
            let mut cl = vec![];
            for _ in 0..g.c.clients {
                let k = 1 + g.r.below(n);
                cl.push(g.list(k, true));
            }
            let k = g.r.below(3);
            let epi = g.list(k, false);
            if mode < 3 {
                g.c.epi_advance = vec![110 * S];
            }
            g.c.epi_invalidate = mode == 4;
            g.finish(profile, seed, pro, cl, epi)
        }
        "hot" => {
            g.c.special = 5;
            g.c.clients = 1;
            g.c.hash = 0;
            g.c.keys = 1;
            g.c.cap = Some(g.r.range(20, 200));
            if matches!(g.c.kind, Kd::Seg(_)) {
                g.c.kind = Kd::Seg(1);
            }
            g.cancel_pct = 0;
            let mut s = g.finish(profile, seed, vec![], vec![vec![]], vec![]);
            s.cfg.sched = SchedCfg { max_steps: 200_000_000, fair_after: u64::MAX, ..SchedCfg::default() };
            s
        }
        // Rounds of operations on new keys; the memory in use must not grow.
        "churn" => {
            g.c.special = 6;
            g.c.clients = 1;
            g.c.keys = 1;
            g.c.hash = g.r.pick(&[0, 0, 0, 5]);
            g.c.cap = g.r.pick(&[None, Some(5), Some(40), Some(1000)]);
            g.c.weigher = g.r.chance(1, 3);
            g.c.lru = g.r.chance(1, 2);
            g.c.closures = g.r.chance(1, 3);
            if g.r.chance(1, 3) {
                g.c.ttl = Some(g.r.pick(&[S, 100 * S]));
            }
            if g.r.chance(1, 3) {
                g.c.tti = Some(g.r.pick(&[S, 100 * S]));
            }
            g.c.expiry = g.r.chance(1, 3);
            if g.r.chance(1, 3) {
                g.listener(false);
            }
            g.cancel_pct = 0;
            let mut s = g.finish(profile, seed, vec![], vec![vec![]], vec![]);
            s.cfg.epochs = false;
            s.cfg.sched = SchedCfg { max_steps: 200_000_000, fair_after: u64::MAX, ..SchedCfg::default() };
            s
        }
        // One entry updated more often than any generation counter can count.
        "wrap" => {
            g.c.special = 3;
            g.c.clients = 1;
            g.c.keys = 6;
            if matches!(g.c.kind, Kd::Seg(_)) {
                g.c.kind = Kd::Seg(1);
            }
            g.c.cap = Some(3);
            g.c.lru = g.r.chance(1, 2);
            if g.r.chance(1, 2) {
                g.c.expiry = true;
            } else {
                g.c.ttl = Some(1000 * S);
            }
            if g.r.chance(1, 4) {
                g.c.tti = Some(2000 * S);
            }
            g.cancel_pct = 0;
            let mut s = g.finish(profile, seed, vec![], vec![vec![]], vec![]);
            s.cfg.sched = SchedCfg { max_steps: 2_000_000_000, fair_after: u64::MAX, ..SchedCfg::default() };
            s
        }
        p => panic!("unknown profile {p}"),
    }
}
