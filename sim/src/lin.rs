//! Linearizability of the history of one key: a depth-first search with memoisation.
use std::collections::HashSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum LK {
    /// Value seen.
    Read(u32),
    ReadNone,
    /// contains_key returned true.
    Has,
    Write(u32),
    /// remove returned the value.
    Take(u32),
    TakeNone,
    /// A removal with unknown result.
    Remove,
}
#[derive(Clone, Debug)]
pub struct LEv {
    pub lo: u64,
    pub hi: u64,
    pub lo_t: u64,
    pub hi_t: u64,
    pub k: LK,
    pub opt: bool,
    pub preds: Vec<usize>,
    pub op: u32,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum May {
    No,
    /// The value may be hidden but the state is unchanged.
    Keep,
    /// The value may have left the cache for good.
    Gone,
    Both,
}
pub const ABSENT: u32 = u32::MAX;

pub enum Verdict {
    Ok,
    Fail { best: usize },
    Unknown,
}

/// `may(v, i)`: may event `i` find nothing although `v` was the last value written?
/// `dead(v, i)`: must event `i` not see `v`?
pub fn check(ev: &[LEv], may: &mut dyn FnMut(u32, usize) -> May, dead: &mut dyn FnMut(u32, usize) -> bool, budget: u64) -> Verdict {
    let n = ev.len();
    if n > 1500 {
        return Verdict::Unknown;
    }
    // `ev` is sorted by lo.
    let words = n.div_ceil(64).max(1);
    let mut done = vec![0u64; words];
    let mut seen: HashSet<(Vec<u64>, u32)> = HashSet::new();
    let mut steps = 0u64;
    let mut best = 0usize;
    // Explicit stack: (state, list of next moves, position, event applied to get here)
    struct Fr {
        moves: Vec<(usize, u32)>,
        pos: usize,
        applied: usize,
    }
    let mandatory = ev.iter().filter(|e| !e.opt).count();
    let mut ndone = 0usize;
    let get = |d: &Vec<u64>, i: usize| d[i / 64] >> (i % 64) & 1 == 1;

    let gen = |done: &Vec<u64>, state: u32, may: &mut dyn FnMut(u32, usize) -> May, dead: &mut dyn FnMut(u32, usize) -> bool| -> Vec<(usize, u32)> {
        let mut min_hi = u64::MAX;
        let mut max_lo = 0;
        let mut first = usize::MAX;
        for i in 0..n {
            if get(done, i) {
                max_lo = max_lo.max(ev[i].lo);
            } else if !ev[i].opt {
                if first == usize::MAX {
                    first = i;
                }
                if ev[i].lo > min_hi {
                    // Sorted by lo: later ones have larger hi than this lo.
                    break;
                }
                min_hi = min_hi.min(ev[i].hi);
            }
        }
        let mut out: Vec<(usize, u32)> = vec![];
        for i in 0..n {
            if ev[i].lo > min_hi {
                break;
            }
            if get(done, i) || ev[i].hi < max_lo {
                continue;
            }
            if ev[i].preds.iter().any(|p| !ev[*p].opt && !get(done, *p)) {
                continue;
            }
            let mut push = |s: u32| {
                if !out.contains(&(i, s)) {
                    out.push((i, s))
                }
            };
            match ev[i].k {
                LK::Read(v) => {
                    if state == v {
                        push(state)
                    }
                }
                LK::Has => {
                    if state != ABSENT && !dead(state, i) {
                        push(state)
                    }
                }
                LK::ReadNone | LK::TakeNone => {
                    if state == ABSENT {
                        push(ABSENT)
                    } else {
                        match may(state, i) {
                            May::No => {}
                            May::Keep => push(state),
                            May::Gone => push(ABSENT),
                            May::Both => {
                                push(state);
                                push(ABSENT)
                            }
                        }
                    }
                }
                LK::Write(v) => push(v),
                LK::Take(v) => {
                    if state == v {
                        push(ABSENT)
                    }
                }
                LK::Remove => push(ABSENT),
            }
        }
        // Observations first: they do not constrain anything else.
        out.sort_by_key(|(i, _)| (matches!(ev[*i].k, LK::Write(_) | LK::Remove | LK::Take(_)) as u8, ev[*i].hi));
        out
    };

    if mandatory == 0 {
        return Verdict::Ok;
    }
    let mv = gen(&done, ABSENT, may, dead);
    let mut stack = vec![Fr { moves: mv, pos: 0, applied: usize::MAX }];
    loop {
        let Some(f) = stack.last_mut() else {
            return Verdict::Fail { best };
        };
        if f.pos >= f.moves.len() {
            let a = f.applied;
            stack.pop();
            if a != usize::MAX {
                done[a / 64] &= !(1 << (a % 64));
                if !ev[a].opt {
                    ndone -= 1;
                }
            }
            continue;
        }
        let (i, s) = f.moves[f.pos];
        f.pos += 1;
        done[i / 64] |= 1 << (i % 64);
        if !ev[i].opt {
            ndone += 1;
            best = best.max(ndone);
        }
        if ndone == mandatory {
            return Verdict::Ok;
        }
        steps += 1;
        if steps > budget {
            return Verdict::Unknown;
        }
        if seen.insert((done.clone(), s)) {
            let mv = gen(&done, s, may, dead);
            stack.push(Fr { moves: mv, pos: 0, applied: i });
        } else {
            done[i / 64] &= !(1 << (i % 64));
            if !ev[i].opt {
                ndone -= 1;
            }
        }
    }
}
