//! Sequential scenarios judged against a reference model of the eviction policy.
use crate::exec::*;
use crate::scen::*;
use crate::world::*;
use simrt::Rng;
use std::cell::RefCell;
use std::collections::HashMap;

type HR = RefCell<Option<H>>;

/// The policy as documented: entries in order of use; LRU admits every newcomer and evicts
/// from the least recently used end; TinyLFU admits a newcomer to a full cache only if it was
/// requested more often than the entries it would displace were, together.
struct Model {
    lru: bool,
    cap: u64,
    /// Least recently used first: (key, value id, weight).
    order: Vec<(u32, u32, u64)>,
    freq: HashMap<u32, u32>,
    counting: bool,
    evicted: Vec<u32>,
}
impl Model {
    fn total(&self) -> u64 {
        self.order.iter().map(|e| e.2).sum()
    }
    fn pos(&self, k: u32) -> Option<usize> {
        self.order.iter().position(|e| e.0 == k)
    }
    fn read(&mut self, k: u32) {
        if self.counting {
            let f = self.freq.entry(k).or_default();
            *f = (*f + 1).min(15);
        }
        if let Some(p) = self.pos(k) {
            let e = self.order.remove(p);
            self.order.push(e);
        }
    }
    fn f(&self, k: u32) -> u32 {
        self.freq.get(&k).copied().unwrap_or(0)
    }
    fn shrink(&mut self) {
        let over = self.total().saturating_sub(self.cap);
        let mut gone = 0;
        while gone < over {
            let e = self.order.remove(0);
            gone += e.2;
            self.evicted.push(e.1);
        }
    }
    fn write(&mut self, k: u32, vid: u32, w: u64) {
        if let Some(p) = self.pos(k) {
            self.order.remove(p);
            self.order.push((k, vid, w));
        } else if self.total() + w <= self.cap {
            self.order.push((k, vid, w));
        } else if w > self.cap {
            self.evicted.push(vid);
        } else if self.lru {
            self.order.push((k, vid, w));
        } else {
            let (mut vw, mut vf, mut n) = (0, 0, 0);
            while vw < w && n < self.order.len() {
                vw += self.order[n].2;
                vf += self.f(self.order[n].0);
                n += 1;
            }
            if vw >= w && self.f(k) > vf {
                let v: Vec<u32> = self.order.drain(..n).map(|e| e.1).collect();
                self.evicted.extend(v);
                self.order.push((k, vid, w));
            } else {
                self.evicted.push(vid);
            }
        }
        self.settle();
    }
    fn remove(&mut self, k: u32) {
        if let Some(p) = self.pos(k) {
            self.order.remove(p);
        }
        self.settle();
    }
    fn settle(&mut self) {
        if !self.lru && !self.counting && self.total() >= self.cap / 2 {
            self.counting = true;
        }
        self.shrink();
    }
}

async fn step(h: &HR, op: Op, cancel: Option<(u8, bool)>) {
    run_one(h, 1000, &OpSpec { id: u32::MAX, op, cancel }).await;
}

pub async fn run(sc: Scenario, h: H) {
    let h = RefCell::new(Some(h));
    match sc.cfg.special {
        1 | 2 => policy(&sc, &h).await,
        3 => wrap(&sc, &h).await,
        5 => hot(&sc, &h).await,
        6 => churn(&sc, &h).await,
        _ => {}
    }
    drop(h.take());
}

fn wt(sc: &Scenario, v: VSpec) -> u64 {
    if sc.cfg.weigher {
        v.w as u64
    } else {
        1
    }
}

async fn policy(sc: &Scenario, h: &HR) {
    let mut r = Rng::new(sc.seed ^ 0x51);
    let lazy = r.below(4);
    let props: &[&'static str] = if sc.cfg.lru { &["C20"] } else { &["C21"] };
    let what = if sc.cfg.lru { "lru" } else { "lfu" };
    let mut m = Model { lru: sc.cfg.lru, cap: sc.cfg.cap.unwrap(), order: vec![], freq: HashMap::new(), counting: false, evicted: vec![] };
    let mut lis_seen = 0;
    let big = sc.cfg.keys > 40;
    for (n, s) in sc.clients[0].iter().enumerate() {
        let k = s.op.key().unwrap_or(0);
        let present = m.pos(k).map(|p| m.order[p].1);
        let id = run_one(h, 0, s).await;
        simrt::set_user(0);
        let o = w().ops[id as usize].clone();
        let (mut wrote, mut removed) = (None, false);
        let mut found = None;
        match (o.op, o.res) {
            (Op::Get(_), Res::Val(v)) => {
                m.read(k);
                found = Some(v);
            }
            (Op::Contains(_), Res::Bool(b)) => {
                if b != present.is_some() {
                    w().violation(&format!("{what}-contents"), props, format!("op {id}: contains_key({k}) is {b}, the reference cache says {present:?}"));
                }
            }
            (Op::Insert(_, v), _) => wrote = Some((o.vid, v)),
            (Op::Remove(_), Res::Val(v)) => {
                removed = true;
                found = Some(v);
            }
            (Op::Invalidate(_), _) => removed = true,
            (Op::OrInsert { v, .. } | Op::GetWith { v, .. }, Res::Ent(vid, fresh)) => {
                m.read(k);
                if !fresh {
                    found = Some(Some(vid));
                } else {
                    wrote = Some((vid, v));
                }
            }
            (Op::GetWith { v, .. }, Res::Val(Some(vid))) => {
                m.read(k);
                if o.cls.iter().any(|c| c.out == COut::Val(vid)) {
                    wrote = Some((vid, v));
                } else {
                    found = Some(Some(vid));
                }
            }
            (Op::Compute { v, .. }, Res::Comp(cr, vid)) => {
                m.read(k);
                match cr {
                    CR::Inserted | CR::Replaced => wrote = Some((vid, v)),
                    CR::Removed => removed = true,
                    _ => {}
                }
            }
            _ => {}
        }
        if let Some(f) = found {
            if f != present {
                w().violation(&format!("{what}-contents"), props, format!("op {id} {:?} found {f:?}, the reference cache has {present:?}", o.op));
                return;
            }
        }
        if wrote.is_none() && !removed && r.below(4) < lazy {
            // Reads may wait for the next maintenance.
            continue;
        }
        run_one_op(h, Op::Run).await;
        if let Some((vid, v)) = wrote {
            m.write(k, vid, wt(sc, v));
        } else if removed {
            m.remove(k);
        } else {
            m.settle();
        }
        if big && n % 16 != 0 && m.evicted.is_empty() {
            continue;
        }
        let c = run_one_op(h, Op::Counts).await;
        if counts_of(c).1 > m.cap {
            w().violation("over-capacity", &["C09"], format!("after op {id} {:?} and maintenance weighted_size is {}, the capacity {}", o.op, counts_of(c).1, m.cap));
            return;
        }
        let mut got = vec![];
        for k in 0..sc.cfg.keys {
            if raw_has(h, k).await {
                got.push(k);
            }
        }
        let mut want: Vec<u32> = m.order.iter().map(|e| e.0).collect();
        want.sort_unstable();
        if got != want {
            let fr: Vec<(u32, u32)> = m.order.iter().map(|e| (e.0, m.f(e.0))).collect();
            w().violation(
                &format!("{what}-contents"),
                props,
                format!("after op {id} {:?} (requests of its key {}) the cache holds keys {got:?}, the reference cache {want:?}; (key, requests) least recently used first {fr:?}", o.op, m.f(k)),
            );
            return;
        }
        let cc = counts_of(c);
        let want = (m.order.len() as u64, m.total());
        if cc != want {
            w().violation("policy-counts", &["C10", "C09"], format!("after op {id} {:?} entry_count and weighted_size are {cc:?}, expected {want:?}", o.op));
            return;
        }
        if m.total() > m.cap {
            w().violation("over-capacity", &["C09"], format!("weight {} over capacity {}", m.total(), m.cap));
        }
        let ev = std::mem::take(&mut m.evicted);
        if sc.cfg.lis != Lis::No {
            let l: Vec<u32> = w().lis[lis_seen..].iter().filter(|l| l.cause == Cause::Size).map(|l| l.vid).collect();
            lis_seen = w().lis.len();
            if l != ev {
                w().violation(&format!("{what}-eviction-order"), props, format!("op {id} {:?} evicted values {l:?}, the reference cache {ev:?}", o.op));
                return;
            }
        }
    }
    quiesce(h).await;
}

/// One entry updated more often than any generation counter can count, then retired.
async fn wrap(sc: &Scenario, h: &HR) {
    let mut r = Rng::new(sc.seed ^ 0x77);
    let n = 65_536 + r.pick(&[-2i64, -1, 0, 1, 2, 63, 700]);
    let every = r.pick(&[1u64, 7, 61, 1000]);
    let before = r.below(3);
    let v = VSpec { w: 1, tag: 0, create: Some(S), upd: ExpU::Keep, read: ExpU::Keep };
    for _ in 0..before {
        run_one_op(h, Op::Insert(0, v)).await;
        run_one_op(h, Op::Run).await;
    }
    let mut last = 0;
    for i in 0..n as u64 {
        // Bypass the records: only the last write matters.
        last = w().vals.len() as u32;
        raw_insert(h, 0, v).await;
        if i % every == 0 {
            raw_run(h).await;
        }
    }
    raw_run(h).await;
    let id = run_one_op(h, Op::Get(0)).await;
    if w().ops[id as usize].res != Res::Val(Some(last)) {
        w().violation("wrap-lost-update", &["C01", "C03", "C07", "C08"], format!("after {n} updates a lookup gave {:?}, expected value {last}", w().ops[id as usize].res));
    }
    let mode = r.below(4);
    match mode {
        0 => {
            run_one_op(h, Op::Advance(3000 * S)).await;
        }
        1 => {
            run_one_op(h, Op::InvAll).await;
            run_one_op(h, Op::Advance(MS)).await;
        }
        2 => {
            run_one_op(h, Op::Invalidate(0)).await;
        }
        _ => {
            // Evict it with newer entries.
            for k in 1..6 {
                for _ in 0..20 {
                    run_one_op(h, Op::Get(k)).await;
                    raw_run(h).await;
                }
                raw_insert(h, k, VSpec { w: 1, tag: 0, create: None, upd: ExpU::Keep, read: ExpU::Keep }).await;
                raw_run(h).await;
            }
        }
    }
    for _ in 0..6 {
        raw_run(h).await;
        crossbeam_epoch::sim_drain();
    }
    let c = run_one_op(h, Op::Counts).await;
    let (ec, ws) = counts_of(c);
    let it = run_one_op(h, Op::Iter { max: u32::MAX }).await;
    let items = w().ops[it as usize].items.len() as u64;
    let want = if mode == 3 { 3 } else { 0 };
    let live = w().live_vals;
    if ec != items || ws != ec || items != want || live != want as i64 {
        w().violation(
            "wrap-not-reclaimed",
            &["C08", "C09", "C10", "C17"],
            format!("after {n} updates of one entry ({every} per maintenance) and {}: {ec} entries, weight {ws}, {items} iterated, {live} values alive; expected {want}", ["its expiration", "invalidate_all", "invalidate", "eviction by newer ones"][mode as usize]),
        );
    }
}

/// TinyLFU at scale: scan resistance, admission of popular keys, aging.
async fn hot(sc: &Scenario, h: &HR) {
    let mut r = Rng::new(sc.seed ^ 0x99);
    let cap = sc.cfg.cap.unwrap() as u32;
    let v = VSpec { w: 1, tag: 0, create: None, upd: ExpU::Keep, read: ExpU::Keep };
    for k in 0..cap {
        raw_insert(h, k, v).await;
        if k % 20 == 0 {
            raw_run(h).await;
        }
    }
    raw_run(h).await;
    let times = r.range(3, 6);
    for _ in 0..times {
        for k in 0..cap {
            raw_get(h, k).await;
            if k % 32 == 0 {
                raw_run(h).await;
            }
        }
    }
    raw_run(h).await;
    // A scan of keys seen once must leave them alone.
    let scan = r.range(10, 40) as u32;
    let mut next = 10_000 + r.below(1000) as u32;
    let batch = r.pick(&[1u32, 5, 20]);
    for i in 0..scan {
        raw_get(h, next).await;
        raw_insert(h, next, v).await;
        next += 1;
        if i % batch == 0 {
            raw_run(h).await;
        }
    }
    raw_run(h).await;
    let mut left = 0;
    for k in 0..cap {
        left += raw_has(h, k).await as u32;
    }
    if left + cap / 8 + 2 < cap {
        w().violation("scan-flushed", &["C21"], format!("{} of {cap} entries requested {times} times were lost to a scan of {scan} keys seen once", cap - left));
        return;
    }
    // Keys requested more often than the residents get in.
    let pop = r.range(4, 10) as u32;
    for _ in 0..14 {
        for k in 0..pop {
            raw_get(h, 20_000 + k).await;
        }
        raw_run(h).await;
    }
    for k in 0..pop {
        raw_insert(h, 20_000 + k, v).await;
        raw_run(h).await;
    }
    let mut inn = 0;
    for k in 0..pop {
        inn += raw_has(h, 20_000 + k).await as u32;
    }
    if inn + 1 < pop {
        w().violation("popular-rejected", &["C21"], format!("only {inn} of {pop} keys requested 14 times were admitted over entries requested about {times} times"));
        return;
    }
    if !r.chance(1, 12) {
        return;
    }
    // Aging: saturate the residents, then let a long stream of other requests pass.
    for _ in 0..20 {
        for k in 0..cap {
            raw_get(h, k).await;
            if k % 32 == 0 {
                raw_run(h).await;
            }
        }
    }
    // (Few enough keys that the estimates of others stay close to their true counts.)
    let others = 2 * cap.max(128);
    for i in 0..30 * others {
        raw_get(h, 100_000 + i % others).await;
        if i % 32 == 0 {
            raw_run(h).await;
        }
    }
    for _ in 0..4 {
        for k in 0..pop {
            raw_get(h, 30_000 + k).await;
        }
        raw_run(h).await;
    }
    for k in 0..pop {
        raw_insert(h, 30_000 + k, v).await;
        raw_run(h).await;
    }
    let mut inn = 0;
    for k in 0..pop {
        inn += raw_has(h, 30_000 + k).await as u32;
    }
    if inn * 2 < pop {
        w().violation("popularity-never-fades", &["C21"], format!("only {inn} of {pop} keys requested 4 times were admitted long after the residents had last been requested"));
    }
}

/// Rounds of operations on keys never used before, each followed by the removal of everything:
/// the memory held in between must not grow with the number of rounds.
async fn churn(sc: &Scenario, h: &HR) {
    let mut r = Rng::new(sc.seed ^ 0xbb);
    let c = &sc.cfg;
    let per = r.range(100, 600);
    // What the operations of this run are made of.
    let kinds = r.pick(&[&[0u8][..], &[1], &[2], &[3], &[4], &[5], &[0, 1, 2, 3, 4, 5, 6], &[0, 1, 2, 3, 4, 5, 6], &[7]]);
    let end = r.below(3);
    let fut = matches!(c.kind, Kd::Fut);
    let mut mem = vec![];
    let mut base = 0u32;
    let mut made = 0;
    // Removed keys stay in the tables until these are cleaned up: let that settle first.
    let (mut before, mut since) = (0, 0);
    while mem.len() < 60 && (made < 9000 || since < 6) {
        let mut i = 0;
        while i < per {
            i += 1;
            let k = base + r.below(per) as u32;
            let e = if c.expiry { Some(r.pick(&[MS, S, 100 * S])) } else { None };
            let v = VSpec { w: r.below(4) as u32, tag: r.below(8) as u8, create: e, upd: ExpU::Keep, read: ExpU::Keep };
            let out = r.pick(&[IO::Ok, IO::Ok, IO::Fail, IO::Panic]);
            let y = if fut { r.below(3) as u8 } else { 0 };
            let op = match r.pick(kinds) {
                0 => {
                    step(h, Op::Insert(k, v), None).await;
                    if r.chance(1, 2) { Op::Invalidate(k) } else { Op::Remove(k) }
                }
                1 => {
                    let f = r.pick(&[GW::With, GW::Try, GW::Opt, GW::EWithIf(0)]);
                    let out = if out == IO::Fail && !matches!(f, GW::Try | GW::Opt) { IO::Ok } else { out };
                    Op::GetWith { k, f, by_ref: r.chance(1, 2), out, v, y }
                }
                2 => Op::Compute { k, f: r.pick(&[CF::Comp, CF::Comp, CF::Try]), by_ref: r.chance(1, 2), act: r.pick(&[CA::Put, CA::Remove, CA::Nop, CA::Toggle, CA::Panic]), v, y },
                3 => {
                    step(h, Op::Insert(k, v), None).await;
                    if r.chance(1, 8) { Op::Advance(r.pick(&[MS, S, 30 * S])) } else { Op::Get(k) }
                }
                4 => Op::Insert(base + r.below(per / 4) as u32, v),
                5 => {
                    if r.chance(1, 10) { Op::InvAll } else if c.closures && r.chance(1, 10) { Op::InvIf { kind: 0, m: 2, r: r.below(2) as u8 } } else { Op::Insert(k, v) }
                }
                6 => Op::Iter { max: 3 },
                _ => Op::Get(k),
            };
            let cancel = if fut && r.chance(1, 6) { Some((r.below(3) as u8, r.chance(1, 2))) } else { None };
            step(h, op, cancel).await;
            if r.chance(1, 20) {
                raw_run(h).await;
            }
        }
        base += per as u32;
        // Remove everything.
        if end != 1 || (c.ttl.is_none() && c.tti.is_none()) {
            step(h, Op::InvAll, None).await;
        }
        step(h, Op::Advance(1000 * S), None).await;
        let mut tries = 0;
        loop {
            raw_run(h).await;
            crossbeam_epoch::sim_drain();
            tries += 1;
            let wd = w();
            if tries >= 8 && wd.live_vals == 0 {
                break;
            }
            if tries > 60 {
                wd.violation("churn-values-held", &["C08", "C14", "C17"], format!("{} values are still alive after everything was invalidated or expired and maintenance ran {tries} times", wd.live_vals));
                return;
            }
        }
        let wd = w();
        made += wd.vals.len();
        wd.vals = vec![];
        wd.ops = vec![];
        wd.lis = vec![];
        wd.cbs = vec![];
        wd.snaps = vec![];
        wd.lost_reads = vec![];
        wd.key_live.retain(|_, n| *n != 0);
        wd.key_live.shrink_to_fit();
        mem.push((crate::alloc::live_bytes() - simrt::own_bytes() as isize, wd.live_keys));
        if made >= 3000 || mem.len() >= 20 {
            since += 1;
            if since <= 3 {
                before = before.max(mem.last().unwrap().0);
            }
        }
    }
    let after = mem[mem.len() - 3..].iter().min().unwrap().0;
    // (The tables may settle at the next size.)
    if since > 5 && after > before + before / 8 + 4096 + 64 * per as isize {
        w().violation(
            "memory-grows",
            &["C17"],
            format!("bytes in use (and keys alive) with nothing in the cache, after each of {} rounds of {per} operations of kinds {kinds:?} on new keys: {mem:?}", mem.len()),
        );
    }
}
