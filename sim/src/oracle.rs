//! Judges a recorded history against the properties.
use crate::lin::{self, LEv, May, Verdict, LK};
use crate::scen::*;
use crate::world::*;

const TRUNC: u64 = 4_200;
/// Longest delay between a per-entry deadline and its timer firing (in maintenance).
const TICK: u64 = 2_300_000_000;

#[derive(Clone, Debug)]
pub struct WI {
    pub key: u32,
    pub lo: u64,
    pub hi: u64,
    pub lo_t: u64,
    pub hi_t: u64,
    pub opt: bool,
    pub op: u32,
}
/// A read-like look at a key.
#[derive(Clone, Debug)]
struct GL {
    op: u32,
    lo: u64,
    hi: u64,
    lo_t: u64,
    hi_t: u64,
    /// Definitely returned this value.
    hit: u32,
}
#[derive(Clone, Copy)]
struct At {
    lo: u64,
    hi: u64,
    hi_t: u64,
    lo_t: u64,
    op: u32,
}
struct Inv {
    lo: u64,
    lo_t: u64,
    hi: u64,
    hi_t: u64,
    kind: Option<(u8, u8, u8)>,
}

pub struct Judge<'a> {
    w: &'a World,
    c: &'a Cfg,
    wi: Vec<Option<WI>>,
    gl: Vec<Vec<GL>>,
    cbk: Vec<Vec<usize>>,
    invs: Vec<Inv>,
    /// Mutating operations per key: (lo, hi, op).
    muts: Vec<Vec<(u64, u64, u32)>>,
    pub out: Vec<Viol>,
    evictable: bool,
    disabled: bool,
    nkeys: usize,
    pub lin_checked: u64,
    pub lin_unknown: u64,
    pub feats: Vec<&'static str>,
}

fn is_write(o: &Op) -> bool {
    matches!(o, Op::Insert(..) | Op::GetWith { .. } | Op::OrInsert { .. } | Op::Compute { .. })
}

impl<'a> Judge<'a> {
    pub fn new(w: &'a World) -> Judge<'a> {
        let c = &w.cfg;
        let nkeys = c.keys.max(w.vals.iter().map(|v| v.key + 1).max().unwrap_or(0)) as usize;
        let mut feats = vec![];
        if matches!(c.kind, Kd::Seg(_)) {
            feats.push("C22");
        }
        if w.cancels > 0 {
            feats.push("C18");
        }
        if w.panics > 0 {
            feats.push("C13");
        }
        let mut j = Judge {
            w,
            c,
            wi: vec![None; w.vals.len()],
            gl: (0..nkeys).map(|_| vec![]).collect(),
            cbk: (0..nkeys).map(|_| vec![]).collect(),
            invs: vec![],
            muts: (0..nkeys).map(|_| vec![]).collect(),
            out: vec![],
            evictable: false,
            disabled: c.cap == Some(0),
            nkeys,
            lin_checked: 0,
            lin_unknown: 0,
            feats,
        };
        if let Some(cap) = c.cap {
            let mut mx = vec![0u64; nkeys];
            for v in &w.vals {
                let x = &mut mx[v.key as usize];
                *x = (*x).max(v.spec.w as u64);
            }
            // Every segment of a segmented cache has its share of the capacity.
            let share = match c.kind {
                Kd::Seg(n) => cap.div_ceil((n as u64).next_power_of_two()),
                _ => cap,
            };
            // A key may be counted more than once while messages are on their way.
            let copies = if c.clients <= 1 && c.special == 0 && w.cancels == 0 { 1 } else { 3 };
            j.evictable = share < copies * mx.iter().sum::<u64>();
        }
        j.prepare();
        j
    }

    fn v(&mut self, class: &str, props: &[&'static str], msg: String) {
        if self.out.len() > 30 {
            return;
        }
        let mut p = props.to_vec();
        for f in &self.feats {
            if !p.contains(f) && !matches!(class, "stale-read-overlaps-inflight-overwrite" | "expired-not-reclaimed-after-dropped-read") {
                p.push(f);
            }
        }
        self.out.push(Viol { class: class.into(), props: p, msg, generic: false });
    }

    fn prepare(&mut self) {
        let w = self.w;
        for o in &w.ops {
            let (ret, ret_t) = (o.ret, o.ret_t);
            let opt = o.status != Status::Done;
            let Some(k) = o.op.key() else {
                match o.op {
                    Op::InvAll => self.invs.push(Inv { lo: o.inv, lo_t: o.inv_t, hi: ret, hi_t: ret_t, kind: None }),
                    Op::InvIf { kind, m, r } => self.invs.push(Inv { lo: o.inv, lo_t: o.inv_t, hi: ret, hi_t: ret_t, kind: Some((kind, m, r)) }),
                    _ => {}
                }
                continue;
            };
            let ku = k as usize;
            let mut wr = |vid: u32, lo: u64, lo_t: u64, opt: bool| {
                if vid != NONE {
                    self.wi[vid as usize] = Some(WI { key: k, lo, hi: ret, lo_t, hi_t: ret_t, opt, op: o.id });
                }
            };
            match o.op {
                Op::Insert(..) => wr(o.vid, o.inv, o.inv_t, opt),
                Op::OrInsert { .. } => match o.res {
                    Res::Ent(v, true) if !opt => wr(v, o.inv, o.inv_t, false),
                    _ if opt => wr(o.vid, o.inv, o.inv_t, true),
                    _ => {}
                },
                Op::GetWith { .. } | Op::Compute { .. } => {
                    for c in &o.cls {
                        if let COut::Val(v) = c.out {
                            wr(v, c.end, c.end_t, opt);
                        }
                    }
                }
                _ => {}
            }
            match o.op {
                Op::Insert(..) | Op::Remove(_) | Op::Invalidate(_) | Op::OrInsert { .. } => self.muts[ku].push((o.inv, ret, o.id)),
                Op::GetWith { .. } | Op::Compute { .. } => {
                    for c in &o.cls {
                        if matches!(c.out, COut::Val(_) | COut::Remove) {
                            self.muts[ku].push((c.end, ret, o.id));
                        }
                    }
                }
                _ => {}
            }
            // Looks at the key that may extend its life.
            let g = |lo, hi, lo_t, hi_t, hit| GL { op: o.id, lo, hi, lo_t, hi_t, hit };
            match o.op {
                Op::Get(_) => match o.res {
                    Res::Val(Some(v)) if !opt => self.gl[ku].push(g(o.inv, ret, o.inv_t, ret_t, v)),
                    _ if opt => self.gl[ku].push(g(o.inv, ret, o.inv_t, ret_t, NONE)),
                    _ => {}
                },
                Op::GetWith { .. } => {
                    if o.cls.is_empty() || opt {
                        self.gl[ku].push(g(o.inv, ret, o.inv_t, ret_t, NONE))
                    } else {
                        let c = o.cls[0];
                        self.gl[ku].push(g(o.inv, c.start, o.inv_t, c.start_t, NONE))
                    }
                }
                Op::OrInsert { .. } => match o.res {
                    Res::Ent(v, false) if !opt => self.gl[ku].push(g(o.inv, ret, o.inv_t, ret_t, v)),
                    _ => self.gl[ku].push(g(o.inv, ret, o.inv_t, ret_t, NONE)),
                },
                Op::Compute { .. } => match o.cls.first() {
                    Some(c) => {
                        if c.saw != NONE {
                            self.gl[ku].push(g(o.inv, c.start, o.inv_t, c.start_t, c.saw))
                        }
                    }
                    None => self.gl[ku].push(g(o.inv, ret, o.inv_t, ret_t, NONE)),
                },
                _ => {}
            }
        }
        for (i, c) in w.cbs.iter().enumerate() {
            if (c.key as usize) < self.nkeys {
                self.cbk[c.key as usize].push(i);
            }
        }
    }

    fn expiring(&self) -> bool {
        self.c.ttl.is_some() || self.c.tti.is_some() || self.c.expiry
    }

    /// Earliest and latest possible deadline of `v` as seen at `at`.
    fn deadline(&self, vid: u32, at: At) -> (u64, u64) {
        let Some(wi) = &self.wi[vid as usize] else { return (0, INF) };
        let (mut dmin, mut dmax) = (INF, INF);
        if let Some(ttl) = self.c.ttl {
            dmin = dmin.min(wi.lo_t.saturating_add(ttl));
            dmax = dmax.min(wi.hi_t.saturating_add(ttl));
        }
        if let Some(tti) = self.c.tti {
            let g = &self.gl[wi.key as usize];
            let mut hi = wi.hi_t;
            for x in g {
                if x.op != at.op && x.hi >= wi.lo && x.lo <= at.hi {
                    hi = hi.max(x.hi_t);
                }
            }
            dmax = dmax.min(hi.saturating_add(tti));
            let mut cur = wi.lo_t.saturating_add(tti);
            let mut hits: Vec<&GL> = g.iter().filter(|x| x.hit == vid && x.hi < at.lo && x.op != at.op).collect();
            hits.sort_by_key(|x| x.hi);
            for x in hits {
                if x.hi_t < cur {
                    cur = cur.max(x.lo_t.saturating_add(tti));
                }
            }
            dmin = dmin.min(cur);
        }
        if self.c.expiry {
            let (a, b) = self.cb_deadline(vid, wi, at);
            dmin = dmin.min(a.saturating_sub(TRUNC));
            dmax = dmax.min(b);
        }
        (dmin, dmax)
    }

    /// Possible per-entry deadlines, from the callbacks that may be in effect.
    fn cb_deadline(&self, vid: u32, wi: &WI, at: At) -> (u64, u64) {
        let mut cand: Vec<(u64, u64, u64, u32, u64)> = vec![]; // (cb seq, op ret, deadline, value, op ret time)
        let mut has_own = false;
        let mut own_lo = INF;
        for &i in &self.cbk[wi.key as usize] {
            let c = &self.w.cbs[i];
            if c.seq <= at.hi && c.op == at.op {
                // What the operation itself set can end the entry before it is over,
                // but does not speak for what it had found.
                if let Some(d) = c.ret {
                    own_lo = own_lo.min((c.now.max(0) as u64).saturating_add(d));
                }
            }
            if c.seq > at.hi || c.op == at.op {
                continue;
            }
            let opret = if c.op == NONE { INF } else { self.w.ops[c.op as usize].ret };
            let relevant = c.vid == vid || opret >= wi.lo;
            if !relevant {
                continue;
            }
            let own = c.vid == vid && c.kind != CbK::Read;
            has_own |= own;
            if c.ret.is_some() && c.ret == c.dur && c.kind != CbK::Create {
                continue; // Keeps what was in effect.
            }
            let d = match c.ret {
                None => INF,
                Some(d) => (c.now.max(0) as u64).saturating_add(d),
            };
            let ot = if c.op == NONE { INF } else { self.w.ops[c.op as usize].ret_t };
                cand.push((c.seq, opret, d, c.vid, ot));
        }
        if !has_own || at.lo <= wi.hi {
            // The entry may still carry what it had before, or nothing.
            return (0, INF);
        }
        // An overwrite that kept the deadline inherits the older ones: look further back.
        let own_keep = self.cbk[wi.key as usize].iter().any(|&i| {
            let c = &self.w.cbs[i];
            c.vid == vid && c.kind == CbK::Update && c.ret.is_some() && c.ret == c.dur && c.op != at.op
        });
        if own_keep {
            for &i in &self.cbk[wi.key as usize] {
                let c = &self.w.cbs[i];
                if c.seq > at.hi || c.op == at.op || c.vid == vid {
                    continue;
                }
                let opret = if c.op == NONE { INF } else { self.w.ops[c.op as usize].ret };
                if opret >= wi.lo || (c.ret.is_some() && c.ret == c.dur && c.kind != CbK::Create) {
                    continue;
                }
                let d = match c.ret {
                    None => INF,
                    Some(d) => (c.now.max(0) as u64).saturating_add(d),
                };
                let ot = if c.op == NONE { INF } else { self.w.ops[c.op as usize].ret_t };
                cand.push((c.seq, opret, d, c.vid, ot));
            }
        }
        let (mut lo, mut hi) = (INF, 0);
        let mut any = false;
        for a in &cand {
            // A callback for another value may have been about an older entry of the key.
            let superseded = cand.iter().any(|b| a.1 < b.0 && b.1 < at.lo && (b.3 == vid || b.3 == a.3));
            if !superseded {
                lo = lo.min(a.2);
                hi = hi.max(a.2);
                any = true;
            } else if cand.iter().any(|b| a.1 < b.0 && a.2.saturating_sub(TRUNC) <= b.4) {
                // It passed before the operation that replaced it was over.
                lo = lo.min(a.2);
            }
        }
        if !any {
            return (own_lo, INF);
        }
        (lo.min(own_lo), hi)
    }

    fn inv_matches(&self, i: &Inv, vid: u32) -> bool {
        match i.kind {
            None => true,
            Some((k, m, r)) => {
                let v = &self.w.vals[vid as usize];
                crate::exec::pred(k, m, r, v.key, v.spec.tag)
            }
        }
    }
    /// With a clock that stands still: written at the very instant of the invalidation.
    fn same_instant(&self, wi: &WI, i: &Inv) -> bool {
        self.c.frozen && wi.hi_t >= i.lo_t
    }
    /// Some(is_predicate) if `vid` must be invisible at `at`.
    fn must_inval(&self, vid: u32, at: At) -> Option<bool> {
        let wi = self.wi[vid as usize].as_ref()?;
        for i in &self.invs {
            // The write of a dropped future may take effect later than a predicate.
            if wi.hi < i.lo && i.hi < at.lo && !self.same_instant(wi, i) && !(wi.opt && i.kind.is_some()) && self.inv_matches(i, vid) {
                return Some(i.kind.is_some());
            }
        }
        None
    }
    /// As `must_inval`, for an entry that no operation touched while it was being
    /// invalidated: such an operation can put it behind valid ones in the queues.
    fn must_reclaim_inval(&self, vid: u32, at: At) -> Option<bool> {
        let wi = self.wi[vid as usize].as_ref()?;
        if self.c.frozen {
            // Valid entries of the very instant may be ahead in the queues.
            return None;
        }
        for i in &self.invs {
            if wi.hi < i.lo && i.hi < at.lo && !self.same_instant(wi, i) && self.inv_matches(i, vid) {
                let busy = self.w.ops.iter().any(|o| o.op.key() == Some(wi.key) && o.inv < i.hi && (o.ret > i.lo || o.status == Status::Cancelled));
                if !busy {
                    return Some(i.kind.is_some());
                }
            }
        }
        None
    }
    /// When maintenance has to find `vid` expired at the latest. The queues for TTL
    /// and TTI are only examined up to the first entry that has not expired, and an
    /// entry's place in them is given by when the operations on it sent their logs.
    fn reclaim_by(&self, vid: u32, at: At) -> u64 {
        let Some(wi) = &self.wi[vid as usize] else { return INF };
        let mut due = INF;
        if let Some(ttl) = self.c.ttl {
            let mut e = wi.hi_t;
            for o in &self.w.ops {
                if o.op.key() == Some(wi.key) && o.inv < at.lo {
                    e = if o.status == Status::Cancelled { INF } else { e.max(o.ret_t) };
                    if e == INF {
                        break;
                    }
                }
            }
            due = due.min(e.saturating_add(ttl));
        }
        if let Some(tti) = self.c.tti {
            let mut e = wi.hi_t;
            for o in &self.w.ops {
                if o.op.key().is_some() && o.inv < at.lo {
                    e = e.max(o.ret_t);
                }
            }
            due = due.min(e.saturating_add(tti));
        }
        if self.c.expiry {
            // A timer set when its time had passed fires at the next tick.
            let (mut e, mut dropped) = (wi.hi, false);
            for o in &self.w.ops {
                if o.op.key() == Some(wi.key) && o.inv < at.lo {
                    e = e.max(o.ret);
                    dropped |= o.status == Status::Cancelled;
                }
            }
            let set = self.w.ops.iter().filter(|o| matches!(o.op, Op::Run) && o.inv > e && o.status == Status::Done).map(|o| o.ret_t).min();
            if let (Some(set), false) = (set, dropped) {
                due = due.min(self.cb_deadline(vid, wi, at).1.max(set).saturating_add(TICK));
            }
        }
        due
    }
    fn may_inval(&self, vid: u32, hi: u64) -> bool {
        let Some(wi) = &self.wi[vid as usize] else { return true };
        self.invs.iter().any(|i| {
            i.lo < hi
                && (wi.lo < i.hi || (self.c.frozen && i.kind.is_some() && wi.lo_t <= i.hi_t))
                && (self.inv_matches(i, vid)
                    || (self.c.frozen
                        && i.kind.is_some()
                        && self.wi.iter().enumerate().any(|(v, x)| {
                            // A predicate's scan tells entries of a key apart by the time.
                            x.as_ref().is_some_and(|x| x.key == wi.key && x.lo_t <= wi.hi_t && x.hi_t >= wi.lo_t) && self.inv_matches(i, v as u32)
                        })))
        })
    }
    fn may_expire(&self, vid: u32, at: At) -> bool {
        self.expiring() && self.deadline(vid, at).0 <= at.hi_t
    }
    fn must_expire(&self, vid: u32, at: At) -> bool {
        self.expiring() && self.deadline(vid, at).1 <= at.lo_t
    }
    fn may_none(&self, vid: u32, at: At) -> May {
        let keep = self.may_expire(vid, at) || self.may_inval(vid, at.hi);
        match (keep, self.evictable) {
            (false, false) => May::No,
            (true, false) => May::Keep,
            (false, true) => May::Gone,
            (true, true) => May::Both,
        }
    }
    /// Another operation that may be overwriting `key` while `at` runs.
    fn overwrite_in_flight(&self, key: u32, at: At) -> bool {
        self.w.ops.iter().any(|o| {
            o.id != at.op && o.op.key() == Some(key) && is_write(&o.op) && o.inv < at.hi && o.ret > at.lo
        })
    }

    /// Is `op`'s result possibly the shared outcome of another caller's initializer?
    fn shared_from(&self, o: &OpRec, want: COut) -> bool {
        let Op::GetWith { k, f, .. } = o.op else { return false };
        self.w.ops.iter().any(|p| {
            let Op::GetWith { k: k2, f: f2, .. } = p.op else { return false };
            k2 == k
                && f2.group() == f.group()
                && p.id != o.id
                && p.cls.iter().any(|c| (c.out == want) && c.start < o.ret && p.ret > o.inv)
        })
    }

    /// Where the look at the entry behind a `get_with` that ran no initializer may
    /// have begun: a caller that joined another caller's flight shares what that
    /// one found, and that one may have looked before this one was called.
    fn look_from(&self, o: &OpRec, v: u32) -> (u64, u64) {
        let Op::GetWith { k, f, .. } = o.op else { return (o.inv, o.inv_t) };
        let (mut lo, mut lo_t) = (o.inv, o.inv_t);
        for p in &self.w.ops {
            let Op::GetWith { k: k2, f: f2, .. } = p.op else { continue };
            if k2 != k || f2.group() != f.group() || p.id == o.id || !p.cls.is_empty() {
                continue;
            }
            if p.inv >= lo || p.ret < o.inv {
                continue;
            }
            if matches!(p.res, Res::Val(Some(x)) | Res::Ent(x, _) if x == v) || p.status != Status::Done {
                lo = p.inv;
                lo_t = p.inv_t;
            }
        }
        (lo, lo_t)
    }

    pub fn judge(&mut self) {
        let complete = self.w.ops.iter().all(|o| o.status != Status::Pending);
        if self.c.special <= 2 {
            self.values();
            self.single_flight();
            self.computes();
            if complete {
                self.linear();
            }
            self.iters();
            self.listener();
            self.callbacks();
            self.flood();
        }
        if complete && self.c.special <= 2 {
            self.snaps();
        }
        let v: Vec<Viol> = self.w.viol.clone();
        for mut x in v {
            for f in &self.feats {
                if !x.props.contains(f) {
                    x.props.push(f);
                }
            }
            self.out.push(x);
        }
    }

    /// Every value handed out: right key, not expired, not invalidated, not reported as gone.
    fn values(&mut self) {
        let w = self.w;
        let mut seen: Vec<(u32, At, u32, &'static str)> = vec![];
        for o in &w.ops {
            let at = At { lo: o.inv, hi: o.ret, lo_t: o.inv_t, hi_t: o.ret_t, op: o.id };
            let done = o.status == Status::Done;
            match (o.op, o.res) {
                (Op::Get(k), Res::Val(Some(v))) if done => seen.push((v, at, k, "get")),
                (Op::Remove(k), Res::Val(Some(v))) if done => seen.push((v, at, k, "remove")),
                (Op::OrInsert { k, .. }, Res::Ent(v, false)) if done => seen.push((v, at, k, "or_insert")),
                (Op::GetWith { k, .. }, Res::Val(Some(v)) | Res::Ent(v, _)) if done && o.cls.is_empty() => {
                    if !self.shared_from(o, COut::Val(v)) {
                        let (lo, lo_t) = self.look_from(o, v);
                        seen.push((v, At { lo, lo_t, ..at }, k, "get_with"))
                    }
                }
                (Op::Compute { k, .. }, _) => {
                    if let Some(c) = o.cls.first() {
                        if c.saw != NONE {
                            let a = At { hi: c.start, hi_t: c.start_t, ..at };
                            seen.push((c.saw, a, k, "compute"));
                        }
                    }
                }
                _ => {}
            }
            for it in &o.items {
                seen.push((it.vid, At { lo: it.lo, hi: it.hi, lo_t: it.lo_t, hi_t: it.hi_t, op: o.id }, it.key, "iter"));
            }
        }
        for (v, at, k, what) in seen {
            if v as usize >= w.vals.len() || w.vals[v as usize].key != k {
                self.v("wrong-value", &["C01", "C02", "C03", "C16", "C17"], format!("op {} ({what}) on key {k} got value {v}, which was never written to that key", at.op));
                continue;
            }
            if self.wi[v as usize].is_none() {
                self.v("never-written", &["C01", "C03", "C04"], format!("op {} ({what}) on key {k} got value {v}, which no operation stored", at.op));
                continue;
            }
            if what == "remove" {
                // The removed value may be an expired one.
            } else {
                if self.must_expire(v, at) {
                    let d = self.deadline(v, at);
                    let m = format!(
                        "op {} ({what}) on key {k} at t={}..{} returned value {v}, whose latest possible deadline was {} (written t={}..{})",
                        at.op, at.lo_t, at.hi_t, d.1, self.wi[v as usize].as_ref().unwrap().lo_t, self.wi[v as usize].as_ref().unwrap().hi_t
                    );
                    let mut p = vec!["C06", "C03"];
                    if what == "iter" {
                        p.push("C16");
                    }
                    let c = if self.overwrite_in_flight(k, at) { "stale-read-overlaps-inflight-overwrite" } else { "expired-returned" };
                    self.v(c, &p, m);
                }
                if let Some(is_pred) = self.must_inval(v, at) {
                    let p: &[&'static str] = if is_pred { &["C15", "C03", "C16"] } else { &["C14", "C03", "C16"] };
                    let p: Vec<&'static str> = p.iter().copied().filter(|x| *x != "C16" || what == "iter").collect();
                    let c = if self.overwrite_in_flight(k, at) { "stale-read-overlaps-inflight-overwrite" } else if is_pred { "predicate-invalidated-returned" } else { "invalidated-returned" };
                    self.v(c, &p, format!("op {} ({what}) on key {k} returned value {v}, which had been invalidated before the call", at.op));
                }
            }
            if let Some(l) = w.lis.iter().find(|l| l.vid == v && l.start < at.lo) {
                let m = format!("op {} ({what}) on key {k} returned value {v} after the listener had been told it was gone ({:?})", at.op, l.cause);
                self.v("returned-after-notified", &["C03", "C11", "C12"], m);
            }
        }
        if self.disabled {
            for o in &w.ops {
                let hit = match (o.op, o.res) {
                    (Op::Get(_) | Op::Remove(_), Res::Val(Some(_))) => true,
                    (Op::Contains(_), Res::Bool(true)) => true,
                    _ => !o.items.is_empty(),
                };
                if hit {
                    self.v("stored-in-zero-capacity", &["C09"], format!("op {} {:?} found an entry in a zero-capacity cache: {:?}", o.id, o.op, o.res));
                }
            }
        }
    }

    fn single_flight(&mut self) {
        let w = self.w;
        let mut runs: Vec<(u32, u8, Clos, u32)> = vec![];
        for o in &w.ops {
            let Op::GetWith { k, f, .. } = o.op else { continue };
            for c in &o.cls {
                runs.push((k, f.group(), *c, o.id));
            }
            if o.cls.len() > 1 {
                self.v("initializer-ran-twice", &["C04"], format!("op {} ran its initializer {} times", o.id, o.cls.len()));
            }
            if o.status != Status::Done {
                continue;
            }
            let own = o.cls.first().map(|c| c.out);
            if let (Some(t), Res::Val(Some(v)) | Res::Ent(v, _), None) = (f.replace_if(), o.res, own) {
                let alone = !w.ops.iter().any(|p| p.id != o.id && matches!(p.op, Op::GetWith { k: x, .. } if x == k) && p.inv < o.ret && p.ret > o.inv);
                if alone && w.vals.get(v as usize).is_some_and(|x| x.spec.tag == t) {
                    self.v("ignored-value-returned", &["C04"], format!("op {} returned value {v}, which its replace_if predicate rejects, without running its initializer", o.id));
                }
            }
            let ok = match (o.res, own) {
                (Res::Val(Some(v)) | Res::Ent(v, _), Some(COut::Val(x))) => v == x,
                (Res::Err(e), Some(COut::Err)) => e == o.id,
                (Res::Val(None), Some(COut::None)) => true,
                (_, Some(_)) => false,
                (Res::Val(Some(_)) | Res::Ent(..), None) => true, // judged elsewhere
                (Res::Err(e), None) => {
                    // The error must come from an initializer of the same kind that overlapped.
                    (e as usize) < w.ops.len() && {
                        let p = &w.ops[e as usize];
                        let same = matches!((p.op, o.op), (Op::GetWith{k:a,f:x,..}, Op::GetWith{k:b,f:y,..}) if a==b && x.group()==y.group());
                        same && p.cls.iter().any(|c| c.out == COut::Err && c.start < o.ret && p.ret > o.inv)
                    }
                }
                (Res::Val(None), None) => f.group() == 2 && self.shared_from(o, COut::None),
                _ => false,
            };
            if !ok {
                self.v("wrong-init-result", &["C04"], format!("op {} {:?} returned {:?} although its initializer's outcome was {:?}", o.id, o.op, o.res, own));
            }
            if let (Res::Ent(_, fresh), own) = (o.res, own) {
                let ran = matches!(own, Some(COut::Val(_)));
                if ran != fresh {
                    self.v("wrong-freshness", &["C04"], format!("op {} returned an entry with is_fresh={fresh} but its initializer ran={ran}", o.id));
                }
            }
        }
        for i in 0..runs.len() {
            for j in i + 1..runs.len() {
                let (a, b) = (&runs[i], &runs[j]);
                if a.0 == b.0 && a.1 == b.1 && a.2.start < b.2.end && b.2.start < a.2.end {
                    self.v("concurrent-initializers", &["C04"], format!("initializers of ops {} and {} on key {} ran at the same time", a.3, b.3, a.0));
                }
            }
        }
    }

    fn computes(&mut self) {
        let w = self.w;
        let mut runs: Vec<(u32, Clos, u32)> = vec![];
        for o in &w.ops {
            let Op::Compute { k, .. } = o.op else { continue };
            for c in &o.cls {
                runs.push((k, *c, o.id));
            }
            if o.status != Status::Done {
                continue;
            }
            let Res::Comp(cr, v) = o.res else { continue };
            if o.cls.len() > 1 {
                self.v("closure-ran-twice", &["C05"], format!("op {} ran its closure {} times", o.id, o.cls.len()));
            }
            let Some(c) = o.cls.first() else {
                // and_try_compute_if_nobody_else may find somebody else.
                let other = w.ops.iter().any(|p| {
                    p.id != o.id && matches!(p.op, Op::Compute { k: k2, .. } if k2 == k) && p.inv < o.ret && p.ret > o.inv
                });
                let nobody = matches!(o.op, Op::Compute { f: CF::TryNobody, .. }) && matches!(cr, CR::StillNone | CR::Unchanged);
                if !nobody || !other {
                    self.v("closure-not-run", &["C05"], format!("op {} {:?} returned {:?} without running its closure", o.id, o.op, o.res));
                }
                continue;
            };
            let ok = match (c.out, cr) {
                (COut::Val(x), CR::Inserted) => c.saw == NONE && v == x,
                (COut::Val(x), CR::Replaced) => c.saw != NONE && v == x,
                (COut::Nop, CR::StillNone) => c.saw == NONE,
                (COut::Nop, CR::Unchanged) => c.saw != NONE && v == c.saw,
                (COut::Remove, CR::StillNone) => true,
                (COut::Remove, CR::Removed) => true,
                (COut::Err, CR::Err) => true,
                _ => false,
            };
            if !ok {
                self.v("wrong-compute-result", &["C05"], format!("op {} {:?}: closure saw {:?} and returned {:?}, but the call returned {:?}", o.id, o.op, c.saw, c.out, o.res));
            }
        }
        for i in 0..runs.len() {
            for j in i + 1..runs.len() {
                let (a, b) = (&runs[i], &runs[j]);
                if a.0 == b.0 && a.1.start < b.1.end && b.1.start < a.1.end {
                    self.v("concurrent-computes", &["C05"], format!("compute closures of ops {} and {} on key {} ran at the same time", a.2, b.2, a.0));
                }
            }
        }
    }

    fn key_events(&self, k: u32) -> Vec<LEv> {
        let w = self.w;
        let mut ev: Vec<LEv> = vec![];
        // (event index, group: 0..2 init kinds, 9 compute; closure start/end) for order edges
        let mut wr: Vec<(usize, u8, u64)> = vec![]; // writes of a group: closure end
        let mut rd: Vec<(usize, u8, u64)> = vec![]; // reads of a group: closure start
        let nw = !self.disabled;
        for o in &w.ops {
            for it in &o.items {
                if it.key == k {
                    ev.push(LEv { lo: it.lo, hi: it.hi, lo_t: it.lo_t, hi_t: it.hi_t, k: LK::Read(it.vid), opt: false, preds: vec![], op: o.id });
                }
            }
            if o.op.key() != Some(k) {
                continue;
            }
            let done = o.status == Status::Done;
            let base = LEv { lo: o.inv, hi: o.ret, lo_t: o.inv_t, hi_t: o.ret_t, k: LK::ReadNone, opt: !done, preds: vec![], op: o.id };
            match o.op {
                Op::Get(_) if done => match o.res {
                    Res::Val(Some(v)) => ev.push(LEv { k: LK::Read(v), ..base }),
                    _ => ev.push(base),
                },
                Op::Contains(_) if done => match o.res {
                    Res::Bool(true) => ev.push(LEv { k: LK::Has, ..base }),
                    _ => ev.push(base),
                },
                Op::Insert(..) => {
                    if nw && o.vid != NONE {
                        ev.push(LEv { k: LK::Write(o.vid), ..base })
                    }
                }
                Op::Remove(_) => {
                    let kd = match o.res {
                        _ if !done => LK::Remove,
                        Res::Val(Some(v)) => LK::Take(v),
                        _ => LK::TakeNone,
                    };
                    ev.push(LEv { k: kd, ..base })
                }
                Op::Invalidate(_) => ev.push(LEv { k: LK::Remove, ..base }),
                Op::OrInsert { .. } => {
                    if !done {
                        if nw && o.vid != NONE {
                            ev.push(LEv { k: LK::Write(o.vid), ..base });
                        }
                    } else if let Res::Ent(v, fresh) = o.res {
                        if fresh {
                            ev.push(base.clone());
                            if nw {
                                let p = ev.len() - 1;
                                ev.push(LEv { k: LK::Write(v), preds: vec![p], ..base });
                            }
                        } else {
                            ev.push(LEv { k: LK::Read(v), ..base });
                        }
                    }
                }
                Op::GetWith { f, .. } => {
                    if let Some(c) = o.cls.first() {
                        // The initializer was started: nothing was there.
                        if f.replace_if().is_none() {
                            ev.push(LEv { hi: c.start, hi_t: c.start_t, opt: false, ..base.clone() });
                            rd.push((ev.len() - 1, f.group(), c.start));
                        }
                        if let (COut::Val(v), true) = (c.out, nw) {
                            ev.push(LEv { lo: c.end, lo_t: c.end_t, k: LK::Write(v), ..base });
                            wr.push((ev.len() - 1, f.group(), c.end));
                        }
                    } else if done {
                        if let Res::Val(Some(v)) | Res::Ent(v, _) = o.res {
                            if !self.shared_from(o, COut::Val(v)) {
                                let (lo, lo_t) = self.look_from(o, v);
                                ev.push(LEv { lo, lo_t, k: LK::Read(v), ..base });
                            }
                        }
                    }
                }
                Op::Compute { .. } => {
                    if let Some(c) = o.cls.first() {
                        let kd = if c.saw == NONE { LK::ReadNone } else { LK::Read(c.saw) };
                        ev.push(LEv { hi: c.start, hi_t: c.start_t, k: kd, opt: false, ..base.clone() });
                        rd.push((ev.len() - 1, 9, c.start));
                        match c.out {
                            COut::Val(v) if nw => {
                                ev.push(LEv { lo: c.end, lo_t: c.end_t, k: LK::Write(v), ..base });
                                wr.push((ev.len() - 1, 9, c.end));
                            }
                            COut::Remove => {
                                let kd = match o.res {
                                    _ if !done => LK::Remove,
                                    Res::Comp(CR::Removed, v) => LK::Take(v),
                                    _ => LK::TakeNone,
                                };
                                ev.push(LEv { lo: c.end, lo_t: c.end_t, k: kd, ..base });
                                wr.push((ev.len() - 1, 9, c.end));
                            }
                            _ => {}
                        }
                    } else if done {
                        // Somebody else was computing: a plain look at the entry.
                        match o.res {
                            Res::Comp(CR::Unchanged, v) => ev.push(LEv { k: LK::Read(v), ..base }),
                            Res::Comp(CR::StillNone, _) => ev.push(base),
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
        // A later run of the same kind starts only after the effect of the earlier one.
        for r in &rd {
            for x in &wr {
                if x.1 == r.1 && x.2 < r.2 && !ev[x.0].opt {
                    ev[r.0].preds.push(x.0);
                }
            }
        }
        // Sort by lo, remapping the edges.
        let mut idx: Vec<usize> = (0..ev.len()).collect();
        idx.sort_by_key(|i| ev[*i].lo);
        let mut inv = vec![0; ev.len()];
        for (n, o) in idx.iter().enumerate() {
            inv[*o] = n;
        }
        idx.iter()
            .map(|o| {
                let mut e = ev[*o].clone();
                for p in e.preds.iter_mut() {
                    *p = inv[*p];
                }
                e
            })
            .collect()
    }

    fn linear(&mut self) {
        for k in 0..self.nkeys as u32 {
            let ev = self.key_events(k);
            if ev.is_empty() {
                continue;
            }
            let ats: Vec<At> = ev.iter().map(|e| At { lo: e.lo, hi: e.hi, lo_t: e.lo_t, hi_t: e.hi_t, op: e.op }).collect();
            let me: &Judge = self;
            let mut mc = std::collections::HashMap::new();
            let mut may = |v: u32, i: usize| *mc.entry((v, i)).or_insert_with(|| me.may_none(v, ats[i]));
            let mut dead = |v: u32, i: usize| (me.must_expire(v, ats[i]) || me.must_inval(v, ats[i]).is_some()) && !me.overwrite_in_flight(k, ats[i]);
            let r = lin::check(&ev, &mut may, &mut dead, 60_000);
            match r {
                Verdict::Ok => self.lin_checked += 1,
                Verdict::Unknown => self.lin_unknown += 1,
                Verdict::Fail { best } => {
                    // What kind of failure is it?
                    let lost = matches!(lin::check(&ev, &mut |_, _| May::Both, &mut dead, 60_000), Verdict::Ok);
                    let strict = !self.evictable && !self.expiring() && self.invs.is_empty();
                    let nopreds: Vec<LEv> = ev.iter().cloned().map(|mut e| { e.preds.clear(); e }).collect();
                    let edges = matches!(lin::check(&nopreds, &mut may, &mut dead, 60_000), Verdict::Ok);
                    let nodead = matches!(lin::check(&ev, &mut may, &mut |_, _| false, 60_000), Verdict::Ok);
                    let mut props: Vec<&'static str> = vec![];
                    let has = |f: &dyn Fn(&Op) -> bool| self.w.ops.iter().any(|o| o.op.key() == Some(k) && f(&o.op));
                    let mut class = if lost { "lost-entry" } else { "stale-or-phantom" };
                    if edges {
                        class = "group-order";
                        if has(&|o| matches!(o, Op::GetWith { .. })) {
                            props.push("C04");
                        }
                        if has(&|o| matches!(o, Op::Compute { .. })) {
                            props.push("C05");
                        }
                    } else if nodead {
                        class = "dead-entry-contained";
                        if self.expiring() {
                            props.push("C06");
                        }
                        props.push("C03");
                        if self.invs.iter().any(|i| i.kind.is_none()) {
                            props.push("C14");
                        }
                        if self.invs.iter().any(|i| i.kind.is_some()) {
                            props.push("C15");
                        }
                        // contains_key during an overwrite of the same key
                        let only_inflight = ev.iter().zip(ats.iter()).filter(|(e, _)| e.k == LK::Has).all(|(_, a)| {
                            let anydead = (0..self.w.vals.len() as u32).filter(|v| self.wi[*v as usize].as_ref().is_some_and(|x| x.key == k)).any(|v| self.must_expire(v, *a) || self.must_inval(v, *a).is_some());
                            !anydead || self.overwrite_in_flight(k, *a)
                        });
                        if only_inflight {
                            class = "stale-read-overlaps-inflight-overwrite";
                        }
                    } else {
                        if strict {
                            props.push("C01");
                        }
                        if self.c.keys >= 6 && self.c.hash != 0 {
                            props.push("C02");
                        }
                        if !strict {
                            props.push("C03");
                        }
                        if lost && !self.evictable {
                            props.push("C07");
                        }
                        if has(&|o| matches!(o, Op::GetWith { .. })) {
                            props.push("C04");
                        }
                        if has(&|o| matches!(o, Op::Compute { .. })) {
                            props.push("C05");
                        }
                        if self.invs.iter().any(|i| i.kind.is_none()) {
                            props.push("C14");
                        }
                        if self.invs.iter().any(|i| i.kind.is_some()) {
                            props.push("C15");
                        }
                        if self.w.ops.iter().any(|o| o.client < 900 && matches!(o.op, Op::Iter { .. })) {
                            props.push("C16");
                        }
                    }
                    let mut d = String::new();
                    for e in ev.iter().take(60) {
                        d += &format!("\n    [{}..{}] op {} {:?}{}", e.lo, e.hi as i64, e.op, e.k, if e.opt { " (may or may not have happened)" } else { "" });
                    }
                    let p = props.clone();
                    self.v(class, &p, format!("history of key {k} has no valid order ({best} of {} events placed):{d}", ev.len()));
                }
            }
        }
    }

    fn iters(&mut self) {
        let w = self.w;
        for o in &w.ops {
            let Op::Iter { .. } = o.op else { continue };
            for (i, a) in o.items.iter().enumerate() {
                if o.items[..i].iter().any(|b| b.key == a.key) {
                    self.v("iter-duplicate", &["C16", "C02"], format!("op {} yielded key {} twice", o.id, a.key));
                }
            }
            if !o.iter_done || o.status != Status::Done || self.disabled {
                continue;
            }
            let at = At { lo: o.inv, hi: o.ret, lo_t: o.inv_t, hi_t: o.ret_t, op: o.id };
            for k in 0..self.nkeys as u32 {
                if o.items.iter().any(|i| i.key == k) {
                    continue;
                }
                // The last write before the iteration, with nothing else around.
                let m = &self.muts[k as usize];
                let Some(last) = m.iter().filter(|x| x.1 < o.inv).max_by_key(|x| x.1) else { continue };
                let alone = m.iter().all(|x| x.2 == last.2 || x.1 < last.0 || x.0 > o.ret);
                let vid = w.vals.iter().enumerate().find(|(i, _)| self.wi[*i].as_ref().is_some_and(|x| x.op == last.2 && !x.opt)).map(|x| x.0 as u32);
                let Some(vid) = vid else { continue };
                if w.ops[last.2 as usize].status != Status::Done || !alone {
                    continue;
                }
                if self.may_none(vid, at) == May::No {
                    self.v("iter-missed", &["C16"], format!("op {} did not yield key {k} (value {vid}), which stayed in the cache throughout", o.id));
                }
            }
        }
    }

    fn listener(&mut self) {
        let w = self.w;
        let lis = &w.lis;
        if self.c.lis == Lis::No {
            return;
        }
        let panicked = lis.iter().find(|l| l.panicked);
        if let Some(p) = panicked {
            // The call may have been resumed (and have panicked) in a later operation.
            let gate = if p.op == NONE || p.end == 0 { INF } else { w.ops.iter().filter(|o| o.inv <= p.end && o.ret >= p.start).map(|o| o.ret).max().unwrap_or(INF) };
            for l in lis {
                if l.start > gate {
                    self.v("listener-called-after-panic", &["C13"], format!("the listener was called for value {} after a call to it had panicked (op {})", l.vid, p.op));
                    break;
                }
            }
        }
        let final_snap = w.snaps.iter().rfind(|s| !s.cache_dropped && s.stable);
        let mut cnt = vec![0u32; w.vals.len()];
        for l in lis {
            if l.vid as usize >= w.vals.len() || w.vals[l.vid as usize].key != l.key {
                self.v("wrong-notification-key", &["C11"], format!("value {} was notified with key {}", l.vid, l.key));
                continue;
            }
            cnt[l.vid as usize] += 1;
            if cnt[l.vid as usize] == 2 {
                self.v("notified-twice", &["C11"], format!("value {} of key {} was notified twice", l.vid, l.key));
            }
            match &self.wi[l.vid as usize] {
                None => {
                    self.v("notified-never-stored", &["C11"], format!("value {} was notified but no operation stored it", l.vid));
                    continue;
                }
                Some(wi) => {
                    if l.start < wi.lo {
                        self.v("notified-before-written", &["C11"], format!("value {} was notified before it was written", l.vid));
                    }
                }
            }
            self.cause(l);
        }
        let complete = w.ops.iter().all(|o| o.status != Status::Pending);
        if let (Some(s), true) = (final_snap, complete) {
            for l in lis {
                if l.end == INF && l.start < s.seq {
                    self.v("listener-call-cut-short", &["C11", "C18"], format!("the future of the listener for value {} of key {} was polled but never completed (op {})", l.vid, l.key, l.op as i32));
                }
            }
        }
        if let (Some(s), None, true) = (final_snap, panicked, complete) {
            let observed: std::collections::HashSet<u32> = w
                .ops
                .iter()
                .flat_map(|o| {
                    let mut v: Vec<u32> = o.items.iter().map(|i| i.vid).collect();
                    if o.status == Status::Done && o.op.key().is_some() && !is_write(&o.op) {
                        if let Res::Val(Some(x)) = o.res {
                            v.push(x)
                        }
                    }
                    v
                })
                .collect();
            for vid in 0..w.vals.len() as u32 {
                let Some(wi) = &self.wi[vid as usize] else { continue };
                if self.disabled || wi.hi > s.seq {
                    continue;
                }
                if wi.opt && !observed.contains(&vid) {
                    continue;
                }
                let live = s.live.iter().any(|l| l.0 == vid);
                let n = lis.iter().filter(|l| l.vid == vid && l.start < s.seq).count();
                let key = wi.key;
                if !live && n == 0 {
                    self.v("never-notified", &["C11"], format!("value {vid} of key {key} left the cache without a notification"));
                }
                if live && n > 0 {
                    self.v("notified-but-held", &["C11", "C17"], format!("value {vid} of key {key} was notified but is still held by the cache"));
                }
            }
        }
        // Order and overlap per key. A mutation whose future is dropped gives up the
        // key while its notification is still due; that one is delivered later.
        let dropped = |key: u32, before: u64| {
            w.ops.iter().any(|o| o.status == Status::Cancelled && o.op.key() == Some(key) && o.inv < before)
        };
        for i in 0..lis.len() {
            for j in i + 1..lis.len() {
                let (a, b) = (&lis[i], &lis[j]);
                if a.key != b.key || dropped(a.key, a.end.max(b.start)) {
                    continue;
                }
                if b.start < a.end {
                    self.v("overlapping-notifications", &["C12"], format!("notifications of key {} overlap: value {} ({:?}) from op {} and value {} ({:?}) from op {}", a.key, a.vid, a.cause, a.op as i32, b.vid, b.cause, b.op as i32));
                }
                if let (Some(wa), Some(wb)) = (&self.wi[a.vid as usize], &self.wi[b.vid as usize]) {
                    if wb.hi < wa.lo {
                        self.v("notification-order", &["C12"], format!("key {}: value {} was notified before the older value {}", a.key, a.vid, b.vid));
                    }
                }
            }
        }
    }

    fn cause(&mut self, l: &LRec) {
        let w = self.w;
        let Some(wi) = self.wi[l.vid as usize].clone() else { return };
        let at = At { lo: l.start, hi: l.start, lo_t: l.start_t, hi_t: l.start_t, op: NONE };
        let k = l.key;
        match l.cause {
            Cause::Replaced => {
                let other = self.wi.iter().enumerate().any(|(i, x)| {
                    i as u32 != l.vid && x.as_ref().is_some_and(|x| x.key == k && x.lo < l.start && x.hi > wi.lo)
                });
                if !other {
                    self.v("false-cause", &["C12"], format!("value {} of key {k} was notified as Replaced but nothing could have replaced it", l.vid));
                }
                // An entry dead by TTL/TTI or invalidate_all before the overwrite began is not "replaced".
                if l.op != NONE && w.ops[l.op as usize].op.key() == Some(k) {
                    let o = &w.ops[l.op as usize];
                    let before = At { lo: o.inv, hi: l.start, lo_t: o.inv_t, hi_t: l.start_t, op: l.op };
                    if self.must_inval(l.vid, before) == Some(false) && !self.overwrite_in_flight(k, before) {
                        self.v("false-cause", &["C12"], format!("value {} of key {k} had been invalidated by invalidate_all before op {} overwrote it but was notified as Replaced", l.vid, l.op));
                    }
                }
                if l.op != NONE && w.ops[l.op as usize].op.key() == Some(k) && !self.c.expiry {
                    let o = &w.ops[l.op as usize];
                    let before = At { lo: o.inv, hi: l.start, lo_t: o.inv_t, hi_t: l.start_t, op: l.op };
                    if self.must_expire(l.vid, before) && !self.overwrite_in_flight(k, before) {
                        self.v("false-cause", &["C12"], format!("value {} of key {k} had expired before op {} overwrote it but was notified as Replaced", l.vid, l.op));
                    }
                }
            }
            Cause::Explicit => {
                let rem = w.ops.iter().any(|o| match o.op {
                    Op::Remove(x) | Op::Invalidate(x) => x == k && o.inv < l.start && o.ret > wi.lo,
                    Op::Compute { k: x, .. } => x == k && o.cls.iter().any(|c| c.out == COut::Remove && c.end < l.start) && o.ret > wi.lo,
                    _ => false,
                });
                if !rem && !self.may_inval(l.vid, l.start) {
                    self.v("false-cause", &["C12"], format!("value {} of key {k} was notified as Explicit but nobody removed or invalidated it", l.vid));
                }
                // What had expired before the removal began was not removed by it.
                if l.op != NONE && w.ops[l.op as usize].op.key() == Some(k) && matches!(w.ops[l.op as usize].op, Op::Remove(_) | Op::Invalidate(_)) && !self.c.expiry {
                    let o = &w.ops[l.op as usize];
                    let before = At { lo: o.inv, hi: l.start, lo_t: o.inv_t, hi_t: l.start_t, op: l.op };
                    if self.must_expire(l.vid, before) && !self.overwrite_in_flight(k, before) {
                        self.v("false-cause", &["C12"], format!("value {} of key {k} had expired before op {} removed it but was notified as Explicit", l.vid, l.op));
                    }
                }
            }
            Cause::Expired => {
                // An overwrite takes the times of what it replaces early on.
                let lo = w.ops.iter().filter(|o| o.op.key() == Some(k) && is_write(&o.op) && o.inv < l.start && (o.ret > l.start || o.status == Status::Cancelled)).map(|o| o.inv).min();
                let at = At { lo: lo.unwrap_or(at.lo), ..at };
                if !self.may_expire(l.vid, at) {
                    let d = self.deadline(l.vid, at);
                    self.v("false-cause", &["C12", "C07"], format!("value {} of key {k} was notified as Expired at t={} before its earliest deadline {}", l.vid, l.start_t, d.0));
                }
            }
            Cause::Size => {
                if !self.evictable {
                    self.v("false-cause", &["C12", "C07"], format!("value {} of key {k} was notified as Size although the cache has room", l.vid));
                }
            }
        }
        // The value a removal returned: Explicit (or Expired).
        if matches!(l.cause, Cause::Replaced | Cause::Size) {
            let by = w.ops.iter().any(|o| matches!((o.op, o.res), (Op::Remove(x), Res::Val(Some(v))) if x == k && v == l.vid && o.status == Status::Done));
            if by {
                self.v("false-cause", &["C12"], format!("value {} of key {k} was returned by remove but notified as {:?}", l.vid, l.cause));
            }
        }
    }

    fn callbacks(&mut self) {
        if !self.c.expiry {
            return;
        }
        let w = self.w;
        let slack = 2;
        let mut per_vid: Vec<(u32, u32)> = vec![(0, 0); w.vals.len()]; // (create/update, read)
        let mut per_op: std::collections::HashMap<u32, Vec<usize>> = Default::default();
        for (i, c) in w.cbs.iter().enumerate() {
            if w.vals[c.vid as usize].key != c.key {
                self.v("callback-wrong-key", &["C23"], format!("{:?} callback got key {} with value {} of key {}", c.kind, c.key, c.vid, w.vals[c.vid as usize].key));
                continue;
            }
            per_op.entry(c.op).or_default().push(i);
            if c.op == NONE {
                self.v("callback-outside-op", &["C23"], format!("{:?} callback for value {} outside of any operation", c.kind, c.vid));
                continue;
            }
            let o = &w.ops[c.op as usize];
            if c.kind == CbK::Read {
                per_vid[c.vid as usize].1 += 1;
            } else {
                per_vid[c.vid as usize].0 += 1;
            }
            let t = c.now;
            if t + slack < o.inv_t as i64 || t > c.t as i64 + slack {
                self.v("callback-time", &["C23"], format!("{:?} callback of op {} got current time {} outside of the call ({}..{})", c.kind, c.op, t, o.inv_t, c.t));
            }
            if o.op.key() != Some(c.key) {
                self.v("callback-wrong-op", &["C23"], format!("{:?} callback for key {} during op {} {:?}", c.kind, c.key, c.op, o.op));
                continue;
            }
            let wi = self.wi[c.vid as usize].clone();
            let Some(wi) = wi else {
                self.v("callback-unknown-value", &["C23"], format!("{:?} callback with value {} that was not stored", c.kind, c.vid));
                continue;
            };
            if c.kind != CbK::Read && wi.op != c.op {
                self.v("callback-wrong-op", &["C23"], format!("{:?} callback for value {} came from op {}, not from its writer {}", c.kind, c.vid, c.op, wi.op));
            }
            // Nothing else is happening on the key: exact arguments.
            let alone = w.ops.iter().all(|p| p.id == o.id || p.op.key() != Some(c.key) || p.ret < o.inv || p.inv > o.ret);
            if c.kind == CbK::Read {
                if c.lm > t {
                    self.v("callback-lm", &["C23"], format!("read callback of op {} got a last-modified time {} after the current time {t}", c.op, c.lm));
                }
                if alone && (c.lm + slack < wi.lo_t as i64 || c.lm > wi.hi_t as i64 + slack) {
                    self.v("callback-lm", &["C23"], format!("read callback of op {} got last-modified {} but value {} was written at {}..{}", c.op, c.lm, c.vid, wi.lo_t, wi.hi_t));
                }
            }
            if !alone {
                continue;
            }
            // Create or update?
            let prev = self.muts[c.key as usize].iter().filter(|m| m.1 < o.inv).max_by_key(|m| m.1).copied();
            if c.kind != CbK::Read {
                let overl = prev.is_some_and(|p| self.muts[c.key as usize].iter().any(|m| m.2 != p.2 && m.1 < o.inv && m.1 > p.0));
                if let Some(p) = prev {
                    let po = &w.ops[p.2 as usize];
                    if !overl && po.status == Status::Done {
                        let pv = self.wi.iter().enumerate().find(|x| x.1.as_ref().is_some_and(|y| y.op == p.2)).map(|x| x.0 as u32);
                        let at = At { lo: o.inv, hi: o.ret, lo_t: o.inv_t, hi_t: o.ret_t, op: o.id };
                        match pv {
                            None => {
                                let removed = matches!(po.op, Op::Remove(_) | Op::Invalidate(_)) || matches!((po.op, po.res), (Op::Compute { .. }, Res::Comp(CR::Removed, _)));
                                if removed && c.kind != CbK::Create {
                                    self.v("callback-kind", &["C23"], format!("op {} inserted an absent key but the {:?} callback was called", o.id, c.kind));
                                }
                            }
                            Some(pv) => {
                                // The operation's own read may have set a deadline that has passed since.
                                let own = w.cbs.iter().any(|r| r.op == c.op && r.kind == CbK::Read && r.key == c.key);
                                if !own && self.may_none(pv, at) == May::No && c.kind != CbK::Update {
                                    self.v("callback-kind", &["C23"], format!("op {} overwrote value {pv} but the {:?} callback was called", o.id, c.kind));
                                }
                            }
                        }
                    }
                } else if c.kind != CbK::Create {
                    self.v("callback-kind", &["C23"], format!("op {} was the first insert of its key but the {:?} callback was called", o.id, c.kind));
                }
            }
            // Remaining duration.
            let now = t.max(0) as u64;
            if c.kind == CbK::Read {
                let at = At { lo: o.inv, hi: c.seq, lo_t: o.inv_t, hi_t: c.t, op: o.id };
                let clean = wi.hi < o.inv && !self.w.ops.iter().any(|p| p.op.key() == Some(c.key) && p.status != Status::Done);
                if clean {
                    let (a, b) = self.deadline(c.vid, at);
                    self.check_dur(c, now, a, b);
                }
            } else if c.kind == CbK::Update {
                if let Some(p) = prev {
                    let pv = self.wi.iter().enumerate().find(|x| x.1.as_ref().is_some_and(|y| y.op == p.2)).map(|x| x.0 as u32);
                    let clean = !self.w.ops.iter().any(|p| p.op.key() == Some(c.key) && p.status != Status::Done);
                    let others = self.muts[c.key as usize].iter().any(|m| m.2 != p.2 && m.1 < o.inv && m.1 > p.0);
                    if let (Some(pv), true, false) = (pv, clean, others) {
                        let pw = self.wi[pv as usize].clone().unwrap();
                        let at = At { lo: o.inv, hi: c.seq, lo_t: o.inv_t, hi_t: c.t, op: o.id };
                        let (mut a, mut b) = self.cb_deadline(pv, &pw, at);
                        // The operation itself may have read the old value first.
                        for r in &w.cbs {
                            if r.op == c.op && r.kind == CbK::Read && r.seq < c.seq && r.key == c.key && !(r.ret.is_some() && r.ret == r.dur) {
                                a = r.ret.map_or(INF, |d| (r.now.max(0) as u64).saturating_add(d));
                                b = a;
                            }
                        }
                        if b < now && b != INF {
                            // Its per-entry deadline has passed: nothing remains.
                            if c.dur.is_some() && b + TRUNC < now {
                                self.v("callback-duration", &["C23"], format!("update callback of op {} got remaining {:?} although the per-entry deadline {b} had passed at {now}", c.op, c.dur));
                            }
                            continue;
                        }
                        if a <= now + TRUNC {
                            continue; // Too close to call.
                        }
                        if a != INF {
                            a = a.saturating_sub(TRUNC);
                        }
                        for d in [self.c.ttl, self.c.tti].into_iter().flatten() {
                            a = a.min(now + d);
                            b = b.min(now + d);
                        }
                        self.check_dur(c, now, a, b);
                    }
                }
            }
        }
        for o in &w.ops {
            if o.status != Status::Done || self.disabled {
                continue;
            }
            let list: Vec<&CbRec> = per_op.get(&o.id).map(|v| v.iter().map(|i| &w.cbs[*i]).collect()).unwrap_or_default();
            let reads = list.iter().filter(|c| c.kind == CbK::Read).count();
            let writes = list.iter().filter(|c| c.kind != CbK::Read).count();
            let (er, ew): (Option<usize>, usize) = match (o.op, o.res) {
                (Op::Get(_), Res::Val(x)) => (Some(x.is_some() as usize), 0),
                (Op::Insert(..), _) => (Some(0), 1),
                (Op::OrInsert { .. }, Res::Ent(_, fresh)) => (Some(!fresh as usize), fresh as usize),
                (Op::GetWith { f, .. }, _) => {
                    let ran = matches!(o.cls.first().map(|c| c.out), Some(COut::Val(_)));
                    let er = if ran && f.replace_if().is_none() { Some(0) } else { None };
                    (er, ran as usize)
                }
                (Op::Compute { .. }, _) => match o.cls.first() {
                    Some(c) => (Some((c.saw != NONE) as usize), matches!(c.out, COut::Val(_)) as usize),
                    None => (None, 0), // Somebody else was computing: a plain look.
                },
                _ => (Some(0), 0),
            };
            if er.is_some_and(|e| e != reads) || reads > 1 {
                self.v("callback-count", &["C23"], format!("op {} {:?} -> {:?} called the read callback {reads} times", o.id, o.op, o.res));
            }
            if ew != writes {
                self.v("callback-count", &["C23"], format!("op {} {:?} -> {:?} called the create/update callbacks {writes} times", o.id, o.op, o.res));
            }
            if let (Op::Get(_), Res::Val(Some(v))) = (o.op, o.res) {
                if list.iter().any(|c| c.vid != v) {
                    self.v("callback-wrong-value", &["C23"], format!("op {} returned value {v} but its read callback got another one", o.id));
                }
            }
        }
        for (vid, n) in per_vid.iter().enumerate() {
            if n.0 > 1 {
                self.v("callback-count", &["C23"], format!("value {vid} got {} create/update callbacks", n.0));
            }
        }
    }

    fn check_dur(&mut self, c: &CbRec, now: u64, dmin: u64, dmax: u64) {
        match c.dur {
            None => {
                if dmax != INF {
                    self.v("callback-duration", &["C23"], format!("{:?} callback of op {} got no remaining duration although the deadline was {dmin}..{dmax} at {now}", c.kind, c.op));
                }
            }
            Some(d) => {
                let e = now.saturating_add(d);
                if e.saturating_add(4) < dmin || e > dmax.saturating_add(4) {
                    self.v("callback-duration", &["C23"], format!("{:?} callback of op {} got remaining {d} at {now}, i.e. deadline {e}, but it is {dmin}..{dmax}", c.kind, c.op));
                }
            }
        }
    }

    /// Overshoot bound while running.
    fn flood(&mut self) {
        let Some(cap) = self.c.cap else { return };
        if self.c.weigher {
            return;
        }
        let segs = if let Kd::Seg(n) = self.c.kind { n as u64 } else { 1 };
        let f = self.c.knobs.0.max(1);
        let bound = cap + segs * ((384 / f).max(1) * 2 + (64 / f).max(1)) + self.c.clients as u64 * 2 + 8;
        if self.w.max_seen > bound {
            self.v("overshoot", &["C09"], format!("{} values were in the cache at once; capacity {cap}, bound {bound}", self.w.max_seen));
        }
    }

    fn snaps(&mut self) {
        let w = self.w;
        for s in &w.snaps {
            if s.cache_dropped {
                continue;
            }
            if !s.stable {
                self.v("not-quiescent", &["C10", "C08", "C19"], format!("counts still changed after 40 rounds of maintenance (snapshot {})", s.seq));
                continue;
            }
            let at = At { lo: s.seq, hi: s.seq, lo_t: s.t, hi_t: s.t, op: NONE };
            let itop = &w.ops[s.iter_op as usize];
            let atm = At { lo: itop.inv, hi: s.seq, lo_t: itop.inv_t, hi_t: s.t, op: NONE };
            let mut unrec = 0u64;
            let mut unrec_w = 0u64;
            for &(vid, n) in &s.live {
                let in_items = s.items.iter().any(|i| i.1 == vid);
                let key = w.vals[vid as usize].key;
                if n > 1 {
                    self.v("extra-copies", &["C17"], format!("{n} copies of value {vid} are alive at rest"));
                }
                if in_items {
                    continue;
                }
                let wt = if self.c.weigher { w.vals[vid as usize].spec.w as u64 } else { 1 };
                unrec += 1;
                unrec_w += wt;
                if self.wi[vid as usize].is_none() {
                    self.v("value-held", &["C17"], format!("value {vid} of key {key} is alive at rest but was never stored"));
                    continue;
                }
                let d = if self.expiring() { self.deadline(vid, at) } else { (INF, INF) };
                let due = self.reclaim_by(vid, at);
                // Reclaimable since before the last maintenance round began?
                let last_run = w.ops.iter().filter(|o| matches!(o.op, Op::Run) && o.ret < s.seq).map(|o| o.inv_t).max().unwrap_or(0);
                if due < last_run {
                    let wlo = self.wi[vid as usize].as_ref().unwrap().lo;
                    let lost = self.c.expiry
                        && w.lost_reads.iter().any(|&o| o != NONE && (o as usize) < w.ops.len() && w.ops[o as usize].op.key() == Some(key) && w.ops[o as usize].ret > wlo);
                    let class = if lost { "expired-not-reclaimed-after-dropped-read" } else { "expired-not-reclaimed" };
                    self.v(class, &["C08", "C17", "C10"], format!("value {vid} of key {key} expired at {due} at the latest, maintenance ran at {last_run}, and it is still held"));
                } else if let Some(p) = self.must_reclaim_inval(vid, at) {
                    let ps: &[&'static str] = if p { &["C15", "C08", "C17"] } else { &["C14", "C08", "C17"] };
                    self.v("invalidated-not-reclaimed", ps, format!("value {vid} of key {key} was invalidated and maintenance ran, but it is still held"));
                } else if !(self.expiring() && d.0 <= s.t) && !self.may_inval(vid, s.seq) {
                    self.v("value-held", &["C17", "C10", "C16"], format!("value {vid} of key {key} is not in the cache but still held at rest"));
                }
            }
            // The map holds one instance of a key (also as the marker of a removed entry),
            // a live entry's bookkeeping may hold another, and so do the maps of per-key
            // locks and of waiters (one per kind of initializer).
            for &(k, n) in &s.keys {
                let mut g = 0u32;
                for o in &w.ops {
                    match o.op {
                        Op::GetWith { k: x, f, .. } if x == k => g |= 1 << f.group(),
                        Op::Compute { k: x, .. } if x == k => g |= 1 << 9,
                        _ => {}
                    }
                }
                if n > 3 + g.count_ones() as i32 {
                    self.v("keys-retained", &["C17", "C08"], format!("{n} instances of key {k} are alive at rest"));
                }
            }
            let mut wsum = 0;
            let mut n = 0u64;
            for &(_, vid) in &s.items {
                let gone = !s.live.iter().any(|l| l.0 == vid);
                if gone && self.wi[vid as usize].is_some() && self.may_expire(vid, at) {
                    // It expired between the iteration and the end of the snapshot.
                    continue;
                }
                n += 1;
                wsum += if self.c.weigher { w.vals[vid as usize].spec.w as u64 } else { 1 };
                if gone {
                    self.v("value-vanished", &["C17", "C03"], format!("value {vid} was yielded at rest but no copy of it is alive"));
                }
            }
            let _ = atm;
            if s.ec != n + unrec && s.ec != n {
                self.v("entry-count", &["C10"], format!("entry_count is {} but {} entries are in the cache", s.ec, n + unrec));
            } else if unrec == 0 && s.ec != n {
                self.v("entry-count", &["C10"], format!("entry_count is {} but {} entries are in the cache", s.ec, n));
            }
            if s.ws != wsum + unrec_w && s.ws != wsum {
                self.v("weighted-size", &["C10", "C09"], format!("weighted_size is {} but the entries weigh {}", s.ws, wsum + unrec_w));
            }
            if let Some(cap) = self.c.cap {
                // Segments divide the capacity (rounded up).
                let lim = match self.c.kind {
                    Kd::Seg(k) => {
                        let k = k.next_power_of_two() as u64;
                        cap.div_ceil(k) * k
                    }
                    _ => cap,
                };
                if wsum > lim || s.ws > lim {
                    self.v("over-capacity", &["C09"], format!("the cache holds weight {wsum} (weighted_size {}) at rest; capacity {lim}", s.ws));
                }
            }
        }
    }
}
