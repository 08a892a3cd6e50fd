//! Command line: exploration by worker processes, minimisation, replay, evidence.
use crate::exec;
use crate::oracle::Judge;
use crate::scen::*;
use crate::world::*;
use simrt::{Dec, Decision, Outcome, Rng};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, Read, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
    "C19", "C20", "C21", "C22", "C23",
];

/// Which scenario profiles a property is explored with: (profile, weight).
fn mix(prop: &str) -> Vec<(&'static str, u32)> {
    match prop {
        "C01" => vec![("strict", 700), ("resize", 200), ("single", 50), ("compute", 50)],
        "C02" => vec![("resize", 900), ("iter", 100)],
        "C03" => vec![("mixed", 350), ("evict", 350), ("expire", 200), ("cancel", 50), ("inval", 50)],
        "C04" => vec![("single", 1000)],
        "C05" => vec![("compute", 1000)],
        "C06" => vec![("expire", 500), ("mixed", 150), ("timer", 100), ("callbacks", 150), ("live", 100)],
        "C07" => vec![("live", 400), ("evict", 100), ("expire", 300), ("timer", 150), ("callbacks", 100), ("inval", 50)],
        "C08" => vec![("expire", 1000), ("timer", 1000), ("live", 800), ("inval", 250), ("bulk", 50), ("wrap", 1)],
        "C09" => vec![("evict", 600), ("flood", 60), ("mixed", 240), ("lru", 80), ("bulk", 20)],
        "C10" => vec![("evict", 350), ("mixed", 250), ("strict", 100), ("cancel", 100), ("clones", 100), ("timer", 50), ("inval", 50), ("flood", 10)],
        "C11" => vec![("listen", 800), ("cancel", 150), ("evict", 50)],
        "C12" => vec![("listen", 900), ("inval", 50), ("expire", 50)],
        "C13" => vec![("panic", 1000)],
        "C14" => vec![("inval", 980), ("bulk", 20)],
        "C15" => vec![("inval", 980), ("bulk", 20)],
        "C16" => vec![("iter", 1000)],
        "C17" => vec![("mem", 600), ("resize", 150), ("evict", 100), ("cancel", 100), ("iter", 50), ("churn", 8)],
        "C18" => vec![("cancel", 960), ("flood", 40)],
        "C19" => vec![("progress", 60), ("cancel", 250), ("single", 150), ("compute", 150), ("strict", 150), ("listen", 150), ("panic", 90)],
        "C20" => vec![("lru", 1000)],
        "C21" => vec![("lfu", 3900), ("hot", 100)],
        "C22" => vec![("clones", 1000)],
        "C23" => vec![("callbacks", 1000)],
        _ => vec![],
    }
}

pub struct Judged {
    pub viols: Vec<Viol>,
    pub out: exec::RunOut,
    pub lin_unknown: u64,
    pub lin_checked: u64,
}

pub fn run_judged(sc: &Scenario, sched_seed: u64, replay: Option<Vec<Decision>>) -> Judged {
    let out = exec::run(sc, sched_seed, replay);
    if out.rr.outcome == Outcome::Discarded {
        return Judged { viols: vec![], out, lin_unknown: 0, lin_checked: 0 };
    }
    if out.rr.outcome == Outcome::Aborted {
        let v = out.world.viol.clone();
        return Judged { viols: v, out, lin_unknown: 0, lin_checked: 0 };
    }
    let mut j = Judge::new(&out.world);
    j.judge();
    let viols = std::mem::take(&mut j.out);
    let (a, b) = (j.lin_unknown, j.lin_checked);
    drop(j);
    Judged { viols, out, lin_unknown: a, lin_checked: b }
}

fn relevant(v: &Viol, prop: &str) -> bool {
    v.generic || prop == "*" || v.props.contains(&prop)
}

pub fn sched_seed(seed: u64) -> u64 {
    seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x5EED
}

// ---------------------------------------------------------------- known findings

/// `finding property=<id> class=<class> [kind=..] <text>`
struct Known {
    prop: String,
    class: String,
    text: String,
}
fn known() -> Vec<Known> {
    let p = std::env::var("MOKASIM_KNOWN").unwrap_or_else(|_| "/verif/known_findings.txt".into());
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    let mut out = vec![];
    for l in s.lines() {
        let Some(r) = l.strip_prefix("finding: ") else { continue };
        let mut prop = String::new();
        let mut class = String::new();
        let mut rest = vec![];
        for t in r.split(' ') {
            if let Some(x) = t.strip_prefix("property=") {
                prop = x.into()
            } else if let Some(x) = t.strip_prefix("class=") {
                class = x.into()
            } else {
                rest.push(t)
            }
        }
        out.push(Known { prop, class, text: rest.join(" ") });
    }
    out
}

// ---------------------------------------------------------------- replay files

#[derive(Clone, Debug, Default)]
pub struct Case {
    pub prop: String,
    pub class: String,
    pub profile: String,
    pub seed: u64,
    pub sched: u64,
    pub drop: Vec<u32>,
    pub decisions: Option<Vec<Decision>>,
    pub whole: bool,
}
impl Case {
    pub fn scenario(&self) -> Scenario {
        let mut s = build(&self.profile, self.seed);
        let d: HashSet<u32> = self.drop.iter().copied().collect();
        s.prologue.retain(|o| !d.contains(&o.id));
        s.epilogue.retain(|o| !d.contains(&o.id));
        for c in s.clients.iter_mut() {
            c.retain(|o| !d.contains(&o.id));
        }
        s
    }
    fn text(&self, extra: &str) -> String {
        let mut t = String::new();
        let _ = writeln!(t, "# mokasim replay: /verif/check.sh replay <this file>");
        let _ = writeln!(t, "property {}", self.prop);
        let _ = writeln!(t, "class {}", self.class);
        let _ = writeln!(t, "profile {}", self.profile);
        let _ = writeln!(t, "seed {}", self.seed);
        let _ = writeln!(t, "sched {}", self.sched);
        if !self.drop.is_empty() {
            let d: Vec<String> = self.drop.iter().map(|x| x.to_string()).collect();
            let _ = writeln!(t, "drop {}", d.join(" "));
        }
        if let Some(ds) = &self.decisions {
            let _ = writeln!(t, "decisions {}", ds.len());
            for d in ds {
                let (n, v) = match d.dec {
                    Dec::Switch(x) => ("switch", x as u64),
                    Dec::Jump(x) => ("jump", x),
                    Dec::Stall(x) => ("stall", x as u64),
                    Dec::WeakFail => ("weakfail", 0),
                    Dec::Spurious(x) => ("spurious", x as u64),
                };
                let _ = writeln!(t, "d {} {n} {v}", d.step);
            }
        }
        for l in extra.lines() {
            let _ = writeln!(t, "# {l}");
        }
        t
    }
    fn parse(s: &str) -> Case {
        let mut c = Case { whole: true, ..Default::default() };
        for l in s.lines() {
            let mut it = l.split(' ');
            let k = it.next().unwrap_or("");
            let rest: Vec<&str> = it.collect();
            match k {
                "property" => c.prop = rest[0].into(),
                "class" => c.class = rest[0].into(),
                "profile" => c.profile = rest[0].into(),
                "seed" => c.seed = rest[0].parse().unwrap(),
                "sched" => c.sched = rest[0].parse().unwrap(),
                "drop" => c.drop = rest.iter().map(|x| x.parse().unwrap()).collect(),
                "decisions" => c.decisions = Some(vec![]),
                "d" => {
                    let v: u64 = rest[2].parse().unwrap();
                    let dec = match rest[1] {
                        "switch" => Dec::Switch(v as u32),
                        "jump" => Dec::Jump(v),
                        "stall" => Dec::Stall(v as u32),
                        "weakfail" => Dec::WeakFail,
                        _ => Dec::Spurious(v as u32),
                    };
                    c.decisions.as_mut().unwrap().push(Decision { step: rest[0].parse().unwrap(), dec });
                }
                _ => {}
            }
        }
        c
    }
    fn run(&self) -> Judged {
        run_judged(&self.scenario(), self.sched, self.decisions.clone())
    }
    fn fails(&self, j: &Judged) -> bool {
        j.viols.iter().any(|v| v.class == self.class && relevant(v, &self.prop))
    }
}

// ---------------------------------------------------------------- worker

#[derive(Default)]
struct Sum {
    c: BTreeMap<&'static str, u64>,
}
impl Sum {
    fn add(&mut self, k: &'static str, n: u64) {
        *self.c.entry(k).or_default() += n;
    }
}

fn pick_profile(mix: &[(&'static str, u32)], seed: u64) -> &'static str {
    let tot: u32 = mix.iter().map(|m| m.1).sum();
    let mut x = Rng::new(seed ^ 0xF00D).below(tot as u64) as u32;
    for (p, n) in mix {
        if x < *n {
            return p;
        }
        x -= n;
    }
    mix[0].0
}

fn worker(a: &[String]) {
    // prop seed0 idx n millis hashfile [profile]
    let prop = a[0].as_str();
    let seed0: u64 = a[1].parse().unwrap();
    let (idx, n): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    let ms: u64 = a[4].parse().unwrap();
    let hf = &a[5];
    let skip: u64 = a[6].parse().unwrap();
    let prof = a.get(7).map(|s| s.as_str()).filter(|s| !s.is_empty());
    let mx: Vec<(&'static str, u32)> = match prof {
        Some(p) => vec![(PROFILES.iter().find(|x| **x == p).expect("profile"), 1)],
        None => mix(prop),
    };
    let kn = known();
    let t0 = Instant::now();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut s = Sum::default();
    let so = std::io::stdout();
    let mut so = so.lock();
    let mut i = skip;
    let mut fails = 0;
    while t0.elapsed() < Duration::from_millis(ms) {
        let seed = {
            let mut r = Rng::new(seed0.wrapping_mul(0x1000_0001).wrapping_add(i * n + idx));
            r.next_u64() >> 16
        };
        let p = pick_profile(&mx, seed);
        let _ = writeln!(so, "B {i} {p} {seed}");
        let _ = so.flush();
        let sc = build(p, seed);
        let j = run_judged(&sc, sched_seed(seed), None);
        i += 1;
        s.add("runs", 1);
        let st = &j.out.rr.stats;
        let w = &j.out.world;
        match j.out.rr.outcome {
            Outcome::Discarded => s.add("discarded", 1),
            _ => s.add("judged", 1),
        }
        s.add(PNAMES.iter().find(|x| x.0 == p).unwrap().1, 1);
        match sc.cfg.kind {
            Kd::Sync => s.add("kind_sync", 1),
            Kd::Seg(_) => s.add("kind_segmented", 1),
            Kd::Fut => s.add("kind_future", 1),
        }
        s.add("steps", st.steps);
        s.add("sim_us", (j.out.rr.time.saturating_sub(sc.cfg.start)) / 1000);
        s.add("preemptions", st.switches);
        s.add("clock_jumps", st.jumps);
        s.add("stalls", st.stalls);
        s.add("weak_cas_failures", st.weak_fails);
        s.add("idle_clock_advances", st.idle_jumps);
        s.add("lock_waits", st.lock_blocks + st.futex_blocks);
        s.add("backoff_sleeps", st.sleeps);
        s.add("gc_destructors_deferred", st.gc_deferred);
        s.add("callback_panics", w.panics);
        s.add("futures_dropped_at_suspension", w.cancels - w.late_cancels.min(w.cancels));
        s.add("futures_dropped_before_repoll", w.late_cancels);
        s.add("suspensions", w.suspends);
        s.add("spurious_wakes", w.spurious);
        s.add("operations", w.ops.len() as u64);
        s.add("listener_calls", w.listener_calls);
        s.add("expiry_callbacks", w.cbs.len() as u64);
        s.add("predicate_calls", w.pred_calls);
        s.add("key_histories_linearized", j.lin_checked);
        s.add("key_histories_too_large", j.lin_unknown);
        s.add("quiescent_snapshots", w.snaps.len() as u64);
        if st.forced_fair > 0 {
            s.add("forced_fair", 1);
        }
        let done = w.ops.iter().filter(|o| o.status == Status::Done && o.client < 900).count();
        let nontrivial = j.out.rr.outcome != Outcome::Discarded
            && if sc.cfg.special >= 3 { w.vals.len() >= 5 } else if sc.cfg.special != 0 || sc.cfg.clients == 1 { w.ops.len() >= 5 } else { done >= 2 && st.switches > 0 };
        if nontrivial {
            hashes.insert(j.out.rr.sched_hash.rotate_left(17) ^ j.out.rr.hash_acc ^ seed_shape(&sc));
        }
        if i % 499 == 250 {
            let k = run_judged(&sc, sched_seed(seed), None);
            s.add("determinism_reruns", 1);
            if k.out.rr.sched_hash != j.out.rr.sched_hash || k.out.rr.hash_acc != j.out.rr.hash_acc || k.out.rr.step != j.out.rr.step {
                s.add("determinism_failures", 1);
                let _ = writeln!(so, "N {p} {seed}");
            }
        }
        let mut stop = j.out.rr.outcome == Outcome::Aborted;
        for v in &j.viols {
            if !relevant(v, prop) {
                s.add("alarms_of_other_properties", 1);
                continue;
            }
            if kn.iter().any(|k| k.prop == prop && k.class == v.class) {
                s.add("known_finding_hits", 1);
                let _ = writeln!(so, "K {}", v.class);
                continue;
            }
            let m = v.msg.replace('\n', "\\n");
            let _ = writeln!(so, "V {p} {seed} {} {m}", v.class);
            fails += 1;
            break;
        }
        if fails >= 3 && prop != "*" {
            stop = true;
        }
        if stop {
            break;
        }
    }
    s.add("wall_ms", t0.elapsed().as_millis() as u64);
    let mut b = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        b.extend_from_slice(&h.to_le_bytes());
    }
    if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(hf) {
        let _ = f.write_all(&b);
    }
    for (k, v) in &s.c {
        let _ = writeln!(so, "S {k} {v}");
    }
    let _ = writeln!(so, "E");
    let _ = so.flush();
    std::process::exit(0);
}

/// Distinguishes scenarios whose schedules happen to be equal.
fn seed_shape(sc: &Scenario) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    let mut f = |x: u64| h = (h ^ x).wrapping_mul(0x100_0000_01b3);
    for l in sc.clients.iter().chain([&sc.prologue, &sc.epilogue]) {
        for o in l {
            let d = format!("{:?}", o.op);
            for b in d.bytes() {
                f(b as u64);
            }
        }
        f(77);
    }
    h
}

const PNAMES: &[(&str, &str)] = &[
    ("strict", "profile_strict"),
    ("resize", "profile_resize"),
    ("evict", "profile_evict"),
    ("expire", "profile_expire"),
    ("mixed", "profile_mixed"),
    ("single", "profile_single"),
    ("compute", "profile_compute"),
    ("inval", "profile_inval"),
    ("iter", "profile_iter"),
    ("listen", "profile_listen"),
    ("panic", "profile_panic"),
    ("cancel", "profile_cancel"),
    ("progress", "profile_progress"),
    ("mem", "profile_mem"),
    ("timer", "profile_timer"),
    ("flood", "profile_flood"),
    ("clones", "profile_clones"),
    ("lru", "profile_lru"),
    ("lfu", "profile_lfu"),
    ("hot", "profile_hot"),
    ("bulk", "profile_bulk"),
    ("callbacks", "profile_callbacks"),
    ("wrap", "profile_wrap"),
    ("live", "profile_live"),
    ("churn", "profile_churn"),
];

// ---------------------------------------------------------------- parent

struct Found {
    profile: String,
    seed: u64,
    class: String,
    msg: String,
}
struct Explored {
    sums: BTreeMap<String, u64>,
    found: Vec<Found>,
    known: BTreeMap<String, u64>,
    distinct: u64,
    nondet: Vec<String>,
    harness: Vec<String>,
}

fn explore(prop: &str, seed0: u64, ms: u64, profile: &str, stop_early: bool) -> Explored {
    let n: u64 = std::env::var("MOKASIM_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let hf = format!("/tmp/mokasim-{}-{prop}.hashes", std::process::id()).replace('*', "all");
    let _ = std::fs::remove_file(&hf);
    let exe = std::env::current_exe().unwrap();
    enum M {
        Line(u64, String),
        Eof(u64),
    }
    let (tx, rx) = mpsc::channel();
    let spawn = |idx: u64, ms: u64, skip: u64| {
        let mut c = Command::new(&exe)
            .args(["worker", prop, &seed0.to_string(), &idx.to_string(), &n.to_string(), &ms.to_string(), &hf, &skip.to_string(), profile])
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        let o = c.stdout.take().unwrap();
        let e = c.stderr.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in std::io::BufReader::new(o).lines() {
                let Ok(l) = l else { break };
                if tx.send(M::Line(idx, l)).is_err() {
                    break;
                }
            }
            let _ = tx.send(M::Eof(idx));
        });
        let err = std::thread::spawn(move || {
            let mut s = String::new();
            let _ = std::io::BufReader::new(e).take(20_000).read_to_string(&mut s);
            s
        });
        (c, Some(err))
    };
    let t0 = Instant::now();
    let mut ws: Vec<_> = (0..n).map(|i| spawn(i, ms, 0)).collect();
    let mut last: Vec<(u64, String, u64)> = vec![(0, String::new(), 0); n as usize];
    let mut seen_at = vec![Instant::now(); n as usize];
    let mut ended = vec![false; n as usize];
    let mut live = n;
    let mut ex = Explored { sums: BTreeMap::new(), found: vec![], known: BTreeMap::new(), distinct: 0, nondet: vec![], harness: vec![] };
    let mut crashes = 0;
    let hang = Duration::from_secs(100);
    while live > 0 {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(M::Line(i, l)) => {
                let i = i as usize;
                seen_at[i] = Instant::now();
                let mut it = l.splitn(5, ' ');
                match it.next().unwrap_or("") {
                    "B" => {
                        let k = it.next().unwrap().parse().unwrap();
                        let p = it.next().unwrap().to_string();
                        let s = it.next().unwrap().parse().unwrap();
                        last[i] = (k, p, s);
                    }
                    "V" => {
                        let p = it.next().unwrap().to_string();
                        let s = it.next().unwrap().parse().unwrap();
                        let c = it.next().unwrap().to_string();
                        ex.found.push(Found { profile: p, seed: s, class: c, msg: it.next().unwrap_or("").replace("\\n", "\n") });
                    }
                    "K" => *ex.known.entry(it.next().unwrap().to_string()).or_default() += 1,
                    "N" => ex.nondet.push(l),
                    "S" => {
                        let k = it.next().unwrap().to_string();
                        let v: u64 = it.next().unwrap().parse().unwrap();
                        *ex.sums.entry(k).or_default() += v;
                    }
                    "E" => ended[i] = true,
                    _ => {}
                }
            }
            Ok(M::Eof(i)) => {
                let iu = i as usize;
                let st = ws[iu].0.wait().ok();
                let err = ws[iu].1.take().and_then(|e| e.join().ok()).unwrap_or_default();
                if !ended[iu] {
                    let (k, p, s) = last[iu].clone();
                    if err.contains("HARNESS") || p.is_empty() {
                        ex.harness.push(format!("worker {i} at {p} {s}: {st:?} {err}"));
                    } else {
                        let tail: String = err.chars().rev().take(600).collect::<String>().chars().rev().collect();
                        ex.found.push(Found { profile: p, seed: s, class: "crash".into(), msg: format!("the process died: {st:?}\n{tail}") });
                    }
                    crashes += 1;
                    let left = ms.saturating_sub(t0.elapsed().as_millis() as u64);
                    if left > 500 && crashes < 20 && !(stop_early && !ex.found.is_empty()) {
                        ws[iu] = spawn(i, left, k + 1);
                        seen_at[iu] = Instant::now();
                        continue;
                    }
                }
                live -= 1;
            }
            Err(_) => {}
        }
        for i in 0..n as usize {
            if !ended[i] && seen_at[i].elapsed() > hang && ws[i].1.is_some() {
                let (_, p, s) = last[i].clone();
                ex.found.push(Found { profile: p, seed: s, class: "hang".into(), msg: "a run did not end".into() });
                seen_at[i] = Instant::now() + Duration::from_secs(3600);
                ended[i] = true;
                let _ = ws[i].0.kill();
            }
        }
        if stop_early && !ex.found.is_empty() {
            // Give the others a moment, then stop.
            for (i, w) in ws.iter_mut().enumerate() {
                if !ended[i] {
                    ended[i] = true;
                    let _ = w.0.kill();
                }
            }
        }
    }
    if let Ok(b) = std::fs::read(&hf) {
        let mut v: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        v.sort_unstable();
        v.dedup();
        ex.distinct = v.len() as u64;
    }
    let _ = std::fs::remove_file(&hf);
    ex
}

fn child(args: &[&str], secs: u64) -> (Option<i32>, String) {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe).args(args).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let mut o = c.stdout.take().unwrap();
    let t = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = o.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    let st = loop {
        if let Ok(Some(s)) = c.try_wait() {
            break s.code();
        }
        if t0.elapsed() > Duration::from_secs(secs) {
            let _ = c.kill();
            let _ = c.wait();
            break Some(124);
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    (st, t.join().unwrap_or_default())
}

/// Minimises in this process; writes the best case found so far after every success.
fn minimize(c: &mut Case, path: &str, secs: u64) -> bool {
    let t0 = Instant::now();
    let over = || t0.elapsed() > Duration::from_secs(secs);
    let j = c.run();
    if !c.fails(&j) {
        return false;
    }
    let save = |c: &Case, j: &Judged| {
        let _ = std::fs::write(path, c.text(&report(c, j)));
    };
    save(c, &j);
    let cost = j.out.rr.step;
    // Drop operations: chunks, several schedules each.
    let tries = if cost > 200_000 { 2 } else { 40 };
    let mut best = c.clone();
    let all = {
        let s = best.scenario();
        let mut v: Vec<u32> = s.prologue.iter().chain(s.epilogue.iter()).map(|o| o.id).collect();
        for l in &s.clients {
            v.extend(l.iter().map(|o| o.id));
        }
        v
    };
    let mut keep = all.clone();
    let mut chunk = (keep.len() / 2).max(1);
    let mut r = Rng::new(c.seed ^ 1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < keep.len() && !over() {
            let cand: Vec<u32> = keep[i..(i + chunk).min(keep.len())].to_vec();
            let mut d = best.drop.clone();
            d.extend(&cand);
            let mut ok = false;
            for t in 0..tries {
                if over() {
                    break;
                }
                let cc = Case { drop: d.clone(), sched: if t == 0 { best.sched } else { r.next_u64() }, ..best.clone() };
                let j = cc.run();
                if j.out.rr.outcome == Outcome::Aborted && t > 3 {
                    break;
                }
                if cc.fails(&j) {
                    best = cc;
                    ok = true;
                    save(&best, &j);
                    break;
                }
            }
            if ok {
                keep.retain(|x| !cand.contains(x));
                any = true;
            } else {
                i += chunk;
            }
        }
        if over() || (chunk == 1 && !any) {
            break;
        }
        if chunk > 1 {
            chunk = (chunk / 2).max(1);
        }
    }
    // Fix the schedule as a list of decisions and drop decisions.
    let j = best.run();
    if best.fails(&j) {
        let cc = Case { decisions: Some(j.out.rr.trace.clone()), ..best.clone() };
        let k = cc.run();
        if cc.fails(&k) {
            best = cc;
            save(&best, &k);
            let mut ds = best.decisions.clone().unwrap();
            let mut chunk = (ds.len() / 2).max(1);
            let t1 = Instant::now();
            loop {
                let mut i = 0;
                let mut any = false;
                while i < ds.len() && t1.elapsed() < Duration::from_secs(secs / 2 + 3) {
                    let e = (i + chunk).min(ds.len());
                    let mut nd = ds.clone();
                    nd.drain(i..e);
                    let cc = Case { decisions: Some(nd.clone()), ..best.clone() };
                    let j = cc.run();
                    if cc.fails(&j) {
                        ds = nd;
                        best = cc;
                        any = true;
                        save(&best, &j);
                    } else {
                        i = e;
                    }
                }
                if t1.elapsed() >= Duration::from_secs(secs / 2 + 3) || (chunk == 1 && !any) {
                    break;
                }
                if chunk > 1 {
                    chunk = (chunk / 2).max(1);
                }
            }
        }
    }
    *c = best;
    true
}

pub fn report(c: &Case, j: &Judged) -> String {
    let mut t = String::new();
    for v in &j.viols {
        let _ = writeln!(t, "violation [{}] {:?}: {}", v.class, if v.generic { vec!["all"] } else { v.props.clone() }, v.msg);
    }
    let w = &j.out.world;
    let sc = c.scenario();
    let mut cf = sc.cfg.clone();
    cf.sched = Default::default();
    let _ = writeln!(t, "config {cf:?}");
    for o in w.ops.iter().take(400) {
        let _ = writeln!(
            t,
            "op {:3} client {:3} [{}..{}] t={}..{} {:?} -> {:?} {:?} vid {}{}{}",
            o.id,
            o.client,
            o.inv,
            o.ret as i64,
            o.inv_t,
            o.ret_t as i64,
            o.op,
            o.status,
            o.res,
            o.vid as i32,
            o.cls.iter().map(|c| format!(" closure[{}..{} saw {} -> {:?}]", c.start, c.end as i64, c.saw as i32, c.out)).collect::<String>(),
            if o.items.is_empty() { String::new() } else { format!(" items {:?}", o.items.iter().map(|i| (i.key, i.vid)).collect::<Vec<_>>()) },
        );
    }
    for l in w.lis.iter().take(200) {
        let _ = writeln!(t, "listener [{}..{}] t={} key {} value {} {:?}{} during op {}", l.start, l.end as i64, l.start_t, l.key, l.vid, l.cause, if l.panicked { " PANIC" } else { "" }, l.op as i32);
    }
    for l in w.cbs.iter().take(200) {
        let _ = writeln!(t, "callback [{}] {:?} key {} value {} now {} dur {:?} lm {} -> {:?} during op {}", l.seq, l.kind, l.key, l.vid, l.now, l.dur, l.lm, l.ret, l.op as i32);
    }
    for s in &w.snaps {
        let _ = writeln!(t, "snapshot [{}] t={} entries {} weight {} items {:?} live {:?} dropped={} stable={}", s.seq, s.t, s.ec, s.ws, s.items.iter().take(40).collect::<Vec<_>>(), s.live.iter().take(40).collect::<Vec<_>>(), s.cache_dropped, s.stable);
    }
    t
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o + "\""
}

fn sample(prop: &str, seed0: u64) -> Vec<String> {
    let mx = mix(prop);
    let mut out = vec![];
    for i in 0..2u64 {
        let mut r = Rng::new(seed0.wrapping_mul(0x1000_0001).wrapping_add(i));
        let seed = r.next_u64() >> 16;
        let p = pick_profile(&mx, seed);
        if p == "wrap" {
            continue;
        }
        let sc = build(p, seed);
        let mut t = format!("profile {p} seed {seed}: {:?} cap {:?} lru {} ttl {:?} tti {:?} per-entry expiry {} listener {:?}; ", sc.cfg.kind, sc.cfg.cap, sc.cfg.lru, sc.cfg.ttl, sc.cfg.tti, sc.cfg.expiry, sc.cfg.lis);
        for (k, l) in sc.clients.iter().enumerate() {
            let ops: Vec<String> = l.iter().take(8).map(|o| format!("{:?}{}", o.op, if o.cancel.is_some() { " (to be cancelled)" } else { "" })).collect();
            let _ = write!(t, "client {k}: {}{}; ", ops.join(", "), if l.len() > 8 { ", ..." } else { "" });
        }
        t.truncate(3000);
        out.push(t);
    }
    out
}

fn check(prop: &str) -> i32 {
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed0: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ms: u64 = std::env::var("MOKASIM_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 600_000 } else { 45_000 });
    let t0 = Instant::now();
    let ex = explore(prop, seed0, ms, "", true);
    let kn = known();
    let mut code = 0;
    let mut lines = vec![];
    let mut unreproduced = 0;
    let dir = std::env::var("MOKASIM_REPLAYS").unwrap_or_else(|_| "/verif/replays".into());
    let _ = std::fs::create_dir_all(&dir);
    // Smallest-looking first; at most a few attempts.
    for (n, f) in ex.found.iter().take(6).enumerate() {
        let path = format!("{dir}/{prop}-{}-{}.txt", f.class, f.seed);
        let c = Case { prop: prop.into(), class: f.class.clone(), profile: f.profile.clone(), seed: f.seed, sched: sched_seed(f.seed), whole: true, ..Default::default() };
        let _ = std::fs::write(&path, c.text(&f.msg));
        let crash = f.class == "crash" || f.class == "hang";
        if !crash {
            let _ = child(&["minimize", &path, "20"], 90);
        }
        let (st, _) = child(&["replay", &path], 130);
        let again = st == Some(1) || (crash && (st.is_none() || st == Some(124) || st.is_some_and(|x| x != 0)));
        if again || f.class == "memory-corruption" || crash {
            lines.push(format!("VIOLATION property={prop} replay={path}"));
            println!("[{}] profile {} seed {}: {}", f.class, f.profile, f.seed, f.msg);
            code = 1;
            break;
        }
        unreproduced += 1;
        eprintln!("not reproduced ({n}): {} {} {}", f.class, f.profile, f.seed);
    }
    for (k, n) in &ex.known {
        if let Some(x) = kn.iter().find(|x| x.prop == prop && x.class == *k) {
            println!("KNOWN-FINDING: property={prop} {} (seen in {n} runs of this exploration)", x.text);
        }
    }
    for x in kn.iter().filter(|x| x.prop == prop && !ex.known.contains_key(&x.class)) {
        println!("KNOWN-FINDING: property={prop} {} (not met in this exploration)", x.text);
    }
    for l in &lines {
        println!("{l}");
    }
    // Evidence.
    let g = |k: &str| ex.sums.get(k).copied().unwrap_or(0);
    let wall = t0.elapsed().as_secs_f64();
    let mut e = String::from("{\n");
    let _ = writeln!(e, " \"property\": {}, \"tier\": {}, \"seed\": {seed0}, \"level\": \"exploration\",", json_str(prop), json_str(&tier));
    let _ = writeln!(e, " \"coverage\": {{");
    let _ = writeln!(e, "  \"evaluations\": {}, \"distinct_nontrivial\": {},", g("runs"), ex.distinct);
    let _ = writeln!(e, "  \"rule\": {},", json_str("One evaluation is one simulated execution of a generated scenario (cache configuration, client programs, faults) under one seeded schedule, judged by the oracles of this property. It is non-trivial if at least two client operations completed and the scheduler preempted at least once (single-client reference-model profiles: at least five operations), and the run was not discarded; distinct by the hash of its scheduling and fault decisions, results and client programs."));
    let _ = writeln!(e, "  \"runs_per_hour\": {},", if wall > 0.0 { (g("runs") as f64 * 3_600_000.0 / (ms.max(1) as f64)) as u64 } else { 0 });
    let _ = writeln!(e, "  \"simulated_seconds\": {},", g("sim_us") / 1_000_000);
    let mut first = true;
    let _ = write!(e, "  \"injected\": {{");
    let injected = ["preemptions", "clock_jumps", "idle_clock_advances", "stalls", "weak_cas_failures", "spurious_wakes", "callback_panics", "futures_dropped_at_suspension", "futures_dropped_before_repoll", "suspensions", "lock_waits", "backoff_sleeps", "gc_destructors_deferred"];
    for k in injected {
        let _ = write!(e, "{}{}: {}", if first { "" } else { ", " }, json_str(k), g(k));
        first = false;
    }
    let _ = writeln!(e, "}},");
    first = true;
    let _ = write!(e, "  \"counts\": {{");
    for (k, v) in ex.sums.iter().filter(|x| !injected.contains(&x.0.as_str()) && x.0 != "runs" && x.0 != "sim_us") {
        let _ = write!(e, "{}{}: {v}", if first { "" } else { ", " }, json_str(k));
        first = false;
    }
    let _ = writeln!(e, "}},");
    let _ = writeln!(e, "  \"unreproduced_alarms\": {unreproduced},");
    let _ = writeln!(e, "  \"real_components\": [\"moka (all of src/, compiled with cfg(moka_sim))\", \"tagptr\", \"smallvec\", \"async-lock, event-listener (futex and std primitives interposed)\", \"std (clock, sleep, futex interposed)\"],");
    let _ = writeln!(e, "  \"stub_components\": [\"crossbeam-epoch (simulated reclamation)\", \"crossbeam-channel (simulated bounded channel)\", \"parking_lot (simulated locks)\", \"portable-atomic (std atomics)\", \"async executor\", \"system clock, threads, scheduler, getrandom\"],");
    let sm: Vec<String> = sample(prop, seed0).iter().map(|s| json_str(s)).collect();
    let _ = writeln!(e, "  \"samples\": [{}]", sm.join(", "));
    let _ = writeln!(e, " }},");
    let _ = writeln!(e, " \"assumptions\": [\"Sequentially consistent memory: weak-memory reorderings are not simulated.\", \"Preemption happens at atomic, lock, channel, clock, epoch, callback and suspension points only.\", \"The stubs named under stub_components behave as the real crates do.\"],");
    let _ = writeln!(e, " \"wall_s\": {wall:.2}, \"violations\": {}", if code == 1 { 1 } else { 0 });
    e += "}\n";
    let dir = std::env::var("MOKASIM_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{dir}/{prop}.json"), e);
    println!(
        "{prop}: {} runs ({} distinct non-trivial, {} discarded), {} operations, {} preemptions, {:.0} simulated s, {:.1} s wall",
        g("runs"), ex.distinct, g("discarded"), g("operations"), g("preemptions"), g("sim_us") as f64 / 1e6, wall
    );
    for x in &ex.harness {
        eprintln!("HARNESS-ERROR {x}");
    }
    for x in ex.nondet.iter().take(5) {
        eprintln!("NONDETERMINISTIC {x}");
    }
    if code == 0 && (!ex.harness.is_empty() || g("runs") == 0) {
        return 2;
    }
    code
}

/// Developer mode: everything, grouped.
fn hunt(a: &[String]) {
    // hunt seconds profile seed [prop]
    let secs: u64 = a[0].parse().unwrap();
    let prof = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let seed0: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let prop = a.get(3).map(|s| s.as_str()).unwrap_or("*");
    let ex = explore(prop, seed0, secs * 1000, prof, false);
    let mut by: BTreeMap<(String, String), Vec<&Found>> = BTreeMap::new();
    for f in &ex.found {
        by.entry((f.class.clone(), f.profile.clone())).or_default().push(f);
    }
    for (k, v) in &by {
        println!("== {:?}: {} runs, e.g. seeds {:?}\n   {}", k, v.len(), v.iter().take(4).map(|f| f.seed).collect::<Vec<_>>(), v[0].msg.chars().take(700).collect::<String>());
    }
    for x in &ex.harness {
        println!("HARNESS {x}");
    }
    for x in ex.nondet.iter().take(5) {
        println!("NONDET {x}");
    }
    println!("{:?} distinct {} known {:?}", ex.sums, ex.distinct, ex.known);
}

pub fn main() {
    exec::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("check") => std::process::exit(check(&a[1])),
        Some("worker") => worker(&a[1..]),
        Some("hunt") => {
            let a = if a[2..].first().is_some_and(|p| p == "-") {
                let mut b = a.clone();
                b[2] = String::new();
                b
            } else {
                a
            };
            hunt(&a[1..])
        }
        Some("show") => {
            // show profile seed
            let c = Case { prop: "*".into(), profile: a[1].clone(), seed: a[2].parse().unwrap(), sched: sched_seed(a[2].parse().unwrap()), ..Default::default() };
            let j = c.run();
            println!("{:?} steps {} {:?}", j.out.rr.outcome, j.out.rr.step, j.out.rr.stats);
            print!("{}", report(&c, &j));
        }
        Some("min") => {
            // min profile seed class secs out
            let c0 = Case { prop: "*".into(), class: a[3].clone(), profile: a[1].clone(), seed: a[2].parse().unwrap(), sched: sched_seed(a[2].parse().unwrap()), ..Default::default() };
            let mut c = c0;
            let out = a.get(5).map(|s| s.as_str()).unwrap_or("/tmp/min.txt");
            let ok = minimize(&mut c, out, a.get(4).and_then(|s| s.parse().ok()).unwrap_or(20));
            println!("reproduced {ok}");
            if ok {
                print!("{}", std::fs::read_to_string(out).unwrap());
            }
        }
        Some("minimize") => {
            let mut c = Case::parse(&std::fs::read_to_string(&a[1]).expect("replay file"));
            let ok = minimize(&mut c, &a[1], a[2].parse().unwrap());
            std::process::exit(if ok { 0 } else { 3 });
        }
        Some("replay") => {
            let path = &a[1];
            let c = Case::parse(&std::fs::read_to_string(path).expect("replay file"));
            let j = c.run();
            print!("{}", report(&c, &j));
            let hit = c.fails(&j);
            if hit {
                println!("VIOLATION property={} replay={path}", c.prop);
            } else {
                println!("not reproduced");
            }
            std::process::exit(if hit { 1 } else { 0 });
        }
        _ => {
            eprintln!("usage: mokasim check <property> | replay <file> | hunt <secs> <profile|-> [seed] [property]");
            std::process::exit(64);
        }
    }
}
