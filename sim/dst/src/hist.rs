//! The recorded history and its oracle: a per-key linearizability search against a sequential
//! register, generalised to operations whose effect is only partly determined by their result
//! (sweeps), plus bounds on length queries.
use simstd::rt::vc::VC;
use std::collections::HashSet;

/// What the operation must have found.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pre {
    Any,
    None,
    Some,
    Is(u32),
}
/// What it left behind.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Post {
    Same,
    None,
    Val(u32),
    /// Retain: the value stays iff the predicate (of this mask) accepts it.
    Filter(u32),
    /// Removal of a value the predicate rejects.
    Reject(u32),
    /// Set insertion: an element that is present is kept.
    IfAbsent(u32),
}

/// The predicate of sweeps and conditional removals: a fixed function of the value's serial.
pub fn accepts(mask: u32, serial: u32) -> bool {
    if mask >= 4 {
        return mask != 4; // 4: rejects everything, 5: accepts everything
    }
    (serial ^ (serial >> 2)) & 3 != mask
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub key: u32,
    pub pre: Pre,
    pub post: Post,
    /// May take effect any number of times, including none.
    pub rep: bool,
    pub tid: u8,
    pub op: u32,
    pub s: u64,
    pub e: u64,
    pub sc: VC,
    pub ee: (u8, u32),
    /// Everything that happens before the end.
    pub ec: VC,
    /// Must come after this event (index into the history).
    pub after: Option<usize>,
    pub what: &'static str,
}

pub struct LenEv {
    pub tid: u8,
    pub op: u32,
    pub s: u64,
    pub e: u64,
    pub val: usize,
    /// is_empty queries record 0 / 1 here as `Some`.
    pub empty: Option<bool>,
    pub quiescent: bool,
}

#[derive(Default)]
pub struct History {
    pub evs: Vec<Ev>,
    pub lens: Vec<LenEv>,
    /// Start and end of every sweep (clear / retain).
    pub sweeps: Vec<(u64, u64)>,
}

pub fn show(e: &Ev) -> String {
    format!("[{}..{}] T{} op{} {} key {}: {:?} -> {:?}{}", e.s, e.e, e.tid, e.op, e.what, e.key, e.pre, e.post, if e.rep { " (optional)" } else { "" })
}

type Mask = [u64; 8];
const MAX: usize = 512;

#[inline]
fn has(m: &Mask, i: usize) -> bool {
    m[i >> 6] >> (i & 63) & 1 != 0
}
#[inline]
fn put(m: &mut Mask, i: usize) {
    m[i >> 6] |= 1 << (i & 63)
}
#[inline]
fn sub(a: &Mask, b: &Mask) -> bool {
    a.iter().zip(b).all(|(x, y)| x & !y == 0)
}
#[inline]
fn meets(a: &Mask, b: &Mask) -> bool {
    a.iter().zip(b).any(|(x, y)| x & y != 0)
}

pub enum Lin {
    Ok,
    Bad(String),
    /// Search budget exceeded.
    Unknown,
}

fn matches(p: Pre, st: Option<u32>) -> bool {
    match p {
        Pre::Any => true,
        Pre::None => st.is_none(),
        Pre::Some => st.is_some(),
        Pre::Is(v) => st == Some(v),
    }
}

/// Possible states after applying `e` in state `st`.
fn apply(e: &Ev, st: Option<u32>) -> [Option<Option<u32>>; 2] {
    if !matches(e.pre, st) {
        return [None, None];
    }
    match e.post {
        Post::Same => [Some(st), None],
        Post::None => [Some(None), None],
        Post::Val(v) => [Some(Some(v)), None],
        Post::Filter(m) => [Some(st.filter(|&v| accepts(m, v))), None],
        Post::Reject(m) => match st {
            Some(v) if !accepts(m, v) => [Some(None), None],
            _ => [None, None],
        },
        Post::IfAbsent(v) => [Some(st.or(Some(v))), None],
    }
}

/// Is there a legal order of the events of one key?
pub fn check_key(all: &[Ev], idx: &[usize], weak: bool) -> Lin {
    let n = idx.len();
    if n == 0 {
        return Lin::Ok;
    }
    if n > MAX {
        return Lin::Unknown;
    }
    let evs: Vec<&Ev> = idx.iter().map(|&i| &all[i]).collect();
    let mut pred = vec![[0u64; 8]; n];
    let mut succ = vec![[0u64; 8]; n];
    let mut rep_pred: Vec<Vec<usize>> = vec![Vec::new(); n];
    for j in 0..n {
        for i in 0..n {
            if i == j {
                continue;
            }
            let (a, b) = (evs[i], evs[j]);
            let before = (if weak { b.sc.saw(a.ee.0, a.ee.1) } else { a.e < b.s }) || b.after == Some(idx[i]);
            if before {
                if !a.rep {
                    put(&mut pred[j], i);
                } else {
                    rep_pred[j].push(i);
                }
                put(&mut succ[i], j);
            }
        }
    }
    let mut goal: Mask = [0; 8];
    for (i, e) in evs.iter().enumerate() {
        if !e.rep {
            put(&mut goal, i);
        }
    }
    let mut seen: HashSet<(Mask, Option<u32>)> = HashSet::new();
    let mut stack: Vec<(Mask, Option<u32>)> = vec![([0; 8], None)];
    let mut best: (u32, Mask, Option<u32>) = (0, [0; 8], None);
    let mut budget = 300_000u32;
    while let Some((mut done, st)) = stack.pop() {
        // Reads that agree with the state can go first without loss.
        loop {
            let mut moved = false;
            for i in 0..n {
                let e = evs[i];
                if has(&done, i) || e.rep || !sub(&pred[i], &done) {
                    continue;
                }
                // (Unless that rules out an optional event which is still possible.)
                if rep_pred[i].iter().any(|&r| !meets(&succ[r], &done)) {
                    continue;
                }
                let neutral = match e.post {
                    Post::Same => matches(e.pre, st),
                    Post::Filter(m) => matches(e.pre, st) && st.map_or(true, |v| accepts(m, v)),
                    Post::None => matches(e.pre, st) && st.is_none(),
                    _ => false,
                };
                if neutral {
                    put(&mut done, i);
                    moved = true;
                }
            }
            if !moved {
                break;
            }
        }
        if done == goal {
            return Lin::Ok;
        }
        if !seen.insert((done, st)) {
            continue;
        }
        let c: u32 = done.iter().map(|w| w.count_ones()).sum();
        if c >= best.0 {
            best = (c, done, st);
        }
        if budget == 0 {
            return Lin::Unknown;
        }
        budget -= 1;
        // Later events first, so that the earliest is explored first.
        for i in (0..n).rev() {
            let e = evs[i];
            if !e.rep && has(&done, i) || !sub(&pred[i], &done) {
                continue;
            }
            if e.rep && meets(&succ[i], &done) {
                continue;
            }
            for next in apply(e, st).into_iter().flatten() {
                if e.rep && next == st {
                    continue;
                }
                let mut d = done;
                if !e.rep {
                    put(&mut d, i);
                }
                stack.push((d, next));
            }
        }
    }
    let mut m = format!("no sequential order explains the history of key {}: after {} of its events the state is {:?} and none of the next fits", evs[0].key, best.0, best.2);
    let mut left: Vec<&Ev> = (0..n).filter(|&i| !has(&best.1, i) && !evs[i].rep).map(|i| evs[i]).collect();
    left.sort_by_key(|e| e.s);
    for e in left.iter().take(6) {
        m += "\n    ";
        m += &show(e);
    }
    m += "\n  full history of the key:";
    let mut es = evs.clone();
    es.sort_by_key(|e| e.s);
    for e in es.iter().rev().take(40).rev() {
        m += "\n    ";
        m += &show(e);
    }
    Lin::Bad(m)
}

pub fn check_all(h: &History, weak: bool) -> (Option<String>, u32) {
    let keys = h.evs.iter().map(|e| e.key).max().map_or(0, |m| m + 1);
    let mut by: Vec<Vec<usize>> = vec![Vec::new(); keys as usize];
    for (i, e) in h.evs.iter().enumerate() {
        by[e.key as usize].push(i);
    }
    let mut unknown = 0;
    for b in &by {
        match check_key(&h.evs, b, weak) {
            Lin::Ok => {}
            Lin::Unknown => unknown += 1,
            Lin::Bad(m) => return (Some(m), unknown),
        }
    }
    (None, unknown)
}

/// Who finds a key absent that was put there in its past also has the beginning of a removal in its past: an
/// absence publishes what its remover did before, like a presence does for the inserter.
pub fn check_absence(h: &History, nested: bool) -> Option<String> {
    // A removal that asks the caller's closure first begins with that. (Unless the closure itself removes.)
    let first_call = |w: &Ev| h.evs.iter().find(|c| !nested && c.what == "shown to closure" && c.tid == w.tid && c.op == w.op && c.key == w.key && c.ee.1 < w.ee.1).map_or(w.sc.0[w.tid as usize], |c| c.ee.1);
    for r in h.evs.iter().filter(|e| e.pre == Pre::None && !e.rep) {
        for i in h.evs.iter().filter(|i| i.key == r.key && !i.rep && matches!(i.post, Post::Val(_) | Post::IfAbsent(_)) && r.sc.saw(i.ee.0, i.ee.1)) {
            let explains = |w: &Ev| {
                w.key == r.key
                    && w.pre != Pre::None
                    && matches!(w.post, Post::None | Post::Filter(_) | Post::Reject(_))
                    && !i.sc.saw(w.ee.0, w.ee.1)
                    && r.ec.saw(w.tid, first_call(w))
            };
            if !h.evs.iter().any(explains) {
                return Some(format!("an absence was observed that no removal in its past explains:\n    {}\n    {}", show(i), show(r)));
            }
        }
    }
    None
}

/// Length queries against the inserts and removals in the history.
pub fn check_len(h: &History) -> Option<String> {
    for l in &h.lens {
        if l.quiescent {
            continue;
        }
        // How much a sweep removes is not recorded: then only the upper bound is known.
        let swept = h.sweeps.iter().any(|s| s.0 < l.e);
        let (mut base, mut plus, mut minus) = (0i64, 0i64, 0i64);
        for e in &h.evs {
            if e.rep {
                // Optional: some element of a failed `extend`.
                plus += (matches!(e.post, Post::Val(_) | Post::IfAbsent(_)) && e.s < l.e) as i64;
                continue;
            }
            let d = match (e.pre, e.post) {
                (Pre::None, Post::Val(_)) => 1,
                (Pre::Is(_) | Pre::Some, Post::None) => -1,
                (Pre::Any, Post::Val(_) | Post::IfAbsent(_)) => 2,
                _ => continue,
            };
            if e.e < l.s {
                if d == 2 {
                    plus += 1; // unknown: an extend element that may have replaced
                } else {
                    base += d;
                }
            } else if e.s < l.e {
                match d {
                    1 | 2 => plus += 1,
                    _ => minus += 1,
                }
            }
        }
        let (lo, hi) = (if swept { 0 } else { (base - minus).max(0) }, (base + plus).max(0));
        match l.empty {
            None => {
                if (l.val as i64) < lo || l.val as i64 > hi {
                    return Some(format!(
                        "len() of T{} op{} in [{}..{}] returned {}, but completed operations account for {} and overlapping ones allow {}..={}",
                        l.tid, l.op, l.s, l.e, l.val, base, lo, hi
                    ));
                }
            }
            Some(em) => {
                if em && lo > 0 || !em && hi == 0 {
                    return Some(format!("is_empty() of T{} op{} in [{}..{}] returned {}, but between {} and {} keys were present", l.tid, l.op, l.s, l.e, em, lo, hi));
                }
            }
        }
    }
    None
}
