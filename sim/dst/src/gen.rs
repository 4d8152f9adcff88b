//! Seeded generation of scenarios, by profile.
use crate::prog::*;
use crate::types::spread;
use simstd::rt::Rng;

type Mix = &'static [(u8, u32)];

const SINGLE: Mix = &[
    (GET, 6), (GET_KV, 2), (CONTAINS, 2), (INSERT, 12), (TRY_INSERT, 4), (TRY_INSERT_WITH, 3), (GET_OR_INSERT, 4), (GET_OR_INSERT_WITH, 3),
    (UPDATE, 5), (UPDATE_OR_INSERT, 5), (COMPUTE, 9), (REMOVE, 9), (REMOVE_ENTRY, 3), (REMOVE_IF, 5),
];
const CLOSURE: Mix = &[
    (GET, 3), (INSERT, 5), (REMOVE, 5), (TRY_INSERT_WITH, 4), (GET_OR_INSERT_WITH, 4), (UPDATE, 9), (UPDATE_OR_INSERT, 9), (COMPUTE, 18), (REMOVE_IF, 9), (TRY_INSERT, 2), (GET_OR_INSERT, 2),
];
const CHURN: Mix = &[
    (GET, 5), (CONTAINS, 1), (INSERT, 16), (REMOVE, 12), (COMPUTE, 4), (UPDATE, 4), (TRY_INSERT, 3), (GET_OR_INSERT, 2), (RESERVE, 3), (REMOVE_IF, 2), (UPDATE_OR_INSERT, 2),
    (ITER, 2), (LEN, 1), (CLEAR, 1), (RETAIN, 1),
];
/// Tables fill up (also with tombstones) while an old resize cannot finish.
const DEEP: Mix = &[(GET, 5), (INSERT, 18), (REMOVE, 11), (COMPUTE, 3), (UPDATE, 3), (TRY_INSERT, 3), (REMOVE_IF, 1), (RESERVE, 1), (UPDATE_OR_INSERT, 2), (GET_KV, 1)];
const ITERS: Mix = &[
    (ITER, 10), (CLONE, 2), (DEBUG, 1), (SERIALIZE, 1), (INSERT, 14), (REMOVE, 10), (UPDATE, 4), (COMPUTE, 3), (RESERVE, 3), (REMOVE_IF, 2), (CLEAR, 1), (RETAIN, 1), (TRY_INSERT, 2),
];
const SWEEPS: Mix = &[(CLEAR, 5), (RETAIN, 6), (INSERT, 14), (REMOVE, 4), (UPDATE, 3), (COMPUTE, 3), (GET, 4), (RESERVE, 2), (UPDATE_OR_INSERT, 2), (TRY_INSERT, 2)];
const LENS: Mix = &[(LEN, 8), (IS_EMPTY, 4), (INSERT, 12), (REMOVE, 8), (COMPUTE, 6), (TRY_INSERT, 4), (GET_OR_INSERT, 3), (UPDATE_OR_INSERT, 3), (REMOVE_IF, 4), (UPDATE, 3), (REMOVE_ENTRY, 2), (RESERVE, 2), (EXTEND, 1), (TRY_INSERT_WITH, 2), (GET_OR_INSERT_WITH, 2)];
const LENS_SWEEP: Mix = &[(LEN, 4), (IS_EMPTY, 2), (INSERT, 12), (REMOVE, 5), (COMPUTE, 5), (REMOVE_IF, 3), (CLEAR, 3), (RETAIN, 4), (RESERVE, 2), (EXTEND, 1), (UPDATE_OR_INSERT, 2)];
const WRITES: Mix = &[
    (INSERT, 10), (TRY_INSERT, 4), (TRY_INSERT_WITH, 3), (GET_OR_INSERT, 3), (GET_OR_INSERT_WITH, 3), (UPDATE, 6), (UPDATE_OR_INSERT, 6), (COMPUTE, 10), (REMOVE, 8), (REMOVE_ENTRY, 3), (REMOVE_IF, 6),
];
const SET: Mix = &[
    (GET, 6), (CONTAINS, 5), (INSERT, 16), (REMOVE, 12), (ITER, 4), (CLEAR, 2), (RETAIN, 3), (LEN, 3), (IS_EMPTY, 1), (RESERVE, 2), (EXTEND, 2), (CLONE, 1), (DEBUG, 1), (SERIALIZE, 1), (BULK, 1), (EQ, 1),
];
const ALL: Mix = &[
    (GET, 5), (GET_KV, 2), (CONTAINS, 2), (INSERT, 12), (TRY_INSERT, 3), (TRY_INSERT_WITH, 2), (GET_OR_INSERT, 3), (GET_OR_INSERT_WITH, 2), (UPDATE, 4), (UPDATE_OR_INSERT, 4), (COMPUTE, 8),
    (REMOVE, 8), (REMOVE_ENTRY, 2), (REMOVE_IF, 4), (CLEAR, 1), (RETAIN, 2), (ITER, 3), (LEN, 1), (IS_EMPTY, 1), (RESERVE, 2), (CLONE, 1), (EXTEND, 1), (DEBUG, 1), (SERIALIZE, 1), (BULK, 1), (EQ, 1),
];
const BULKS: Mix = &[(CLONE, 6), (EXTEND, 8), (BULK, 8), (DEBUG, 3), (SERIALIZE, 5), (EQ, 2), (INSERT, 8), (REMOVE, 6), (UPDATE, 3), (RESERVE, 1), (CLEAR, 1), (GET, 1)];
const PANICS: Mix = &[
    (COMPUTE, 12), (UPDATE, 8), (UPDATE_OR_INSERT, 8), (GET_OR_INSERT_WITH, 5), (TRY_INSERT_WITH, 5), (REMOVE_IF, 8), (RETAIN, 5), (INSERT, 8), (REMOVE, 6), (GET, 3), (EXTEND, 3), (RESERVE, 2), (CLONE, 1),
];

const ZEROS: Mix = &[
    (GET, 5), (GET_KV, 1), (CONTAINS, 2), (INSERT, 14), (TRY_INSERT, 3), (TRY_INSERT_WITH, 2), (GET_OR_INSERT, 3), (GET_OR_INSERT_WITH, 2), (UPDATE, 4), (UPDATE_OR_INSERT, 4), (COMPUTE, 8),
    (REMOVE, 14), (REMOVE_ENTRY, 3), (REMOVE_IF, 4), (CLEAR, 2), (RETAIN, 2), (ITER, 3), (LEN, 2), (IS_EMPTY, 1), (RESERVE, 4),
];

fn weighted(r: &mut Rng, m: Mix) -> u8 {
    let t: u32 = m.iter().map(|x| x.1).sum();
    let mut x = r.below(t as u64) as u32;
    for &(c, w) in m {
        if x < w {
            return c;
        }
        x -= w;
    }
    unreachable!()
}

fn hashes(r: &mut Rng, n: usize) -> Vec<u64> {
    let salt = r.u64();
    match r.below(10) {
        0..=4 => (0..n as u64).map(|i| spread(i ^ salt)).collect(),
        // Same position, different metadata.
        5 => (0..n as u64).map(|i| (salt & 0xff) | i << 57).collect(),
        // Identical hashes.
        6 => vec![salt; n],
        // Clusters: few positions.
        7 => (0..n as u64).map(|i| spread(i ^ salt) & !0x1fff | (i % 3)).collect(),
        // Adjacent positions, same metadata.
        8 => (0..n as u64).map(|i| (salt & 0xfe00_0000_0000_0000) | (i + (salt & 7))).collect(),
        // Pairs of identical hashes.
        _ => (0..n as u64).map(|i| spread((i / 2) ^ salt)).collect(),
    }
}

fn policy(r: &mut Rng, steps: u32) -> (u8, u32, u32, u32) {
    match r.below(10) {
        0..=2 => {
            let w = *r.pick(&[30, 80, 150, 300]);
            (0, w / 2, w, 0)
        }
        3..=5 => (1, r.range(1, 6) as u32, steps, 0),
        6..=7 => (2, *r.pick(&[50, 150]), *r.pick(&[2000, 8000, 20000]), *r.pick(&[300, 2000, 8000])),
        _ => {
            let lo = *r.pick(&[1, 5, 20]);
            (3, lo, lo * *r.pick(&[3u32, 20]), 0)
        }
    }
}

struct Knobs {
    mix: Mix,
    keys: (u64, u64),
    threads: (u64, u64),
    ops: (u64, u64),
    hot: u32,
}

fn arg(r: &mut Rng, c: u8, keys: usize) -> u32 {
    match c {
        UPDATE_OR_INSERT => r.below(2) as u32,
        COMPUTE => (r.below(4) | if r.permille(250) { 4 } else { 0 } | if r.permille(15) { 8 } else { 0 }) as u32,
        REMOVE_IF | RETAIN => *r.pick(&[0, 1, 2, 3, 4, 4, 5]),
        ITER => (r.below(4) | if r.permille(300) { r.below(4) << 2 } else { 0 } | if r.permille(200) { r.range(1, 6) << 4 } else { 0 }) as u32,
        RESERVE => *r.pick(&[1, 2, 5, 8, 12, 20, 40]),
        RESERVE_HUGE => r.below(5) as u32,
        EXTEND => (r.range(1, (keys as u64).min(10)) | r.below(3) << 4 | r.below(5) << 8) as u32,
        BULK => (r.range(0, 15) | r.below(3) << 4 | r.below(4) << 8 | r.below(8) << 12 | if r.permille(400) { r.range(1, 15) << 16 | r.below(2) << 20 } else { 0 }) as u32,
        SERIALIZE => {
            if r.permille(300) {
                r.range(1, 40) as u32
            } else {
                0
            }
        }
        _ => 0,
    }
}

fn op(r: &mut Rng, k: &Knobs, keys: usize, set: bool) -> Op {
    let mut c = weighted(r, k.mix);
    if set && !SET.iter().any(|x| x.0 == c) {
        c = if matches!(c, REMOVE_IF | REMOVE_ENTRY) { REMOVE } else { INSERT };
    }
    let key = if r.permille(k.hot) { 0 } else { r.below(keys as u64) as u32 };
    let mut o = Op::new(c, key).arg(arg(r, c, keys));
    if r.permille(150) {
        o = o.flag(F_FRESH);
        if r.permille(250) {
            o = o.flag(F_OWNED);
        }
    }
    if r.permille(300) {
        o = o.flag(F_PIN);
    }
    o
}

fn with_guards(r: &mut Rng, ops: Vec<Op>, style: u64, owned_pm: u32) -> Vec<Op> {
    let mut out = Vec::new();
    let mut pinned = false;
    let owned = |r: &mut Rng| if r.permille(owned_pm) { F_OWNED } else { 0 } | if r.permille(400) { F_PIN } else { 0 };
    if style == 1 {
        let f = owned(r);
        out.push(Op::new(PIN, 0).flag(f));
    }
    for o in ops {
        if style == 2 && r.permille(250) {
            if pinned && r.permille(500) {
                out.push(Op::new(UNPIN, 0));
                pinned = false;
            } else if pinned && r.permille(200) {
                out.push(Op::new(REFRESH, 0));
            } else {
                let f = owned(r);
                out.push(Op::new(PIN, 0).flag(f));
                pinned = true;
            }
        }
        out.push(o);
    }
    out
}

fn base(profile: &str, seed: u64, r: &mut Rng) -> Scenario {
    Scenario {
        profile: profile.into(),
        seed,
        set: false,
        elem: *r.pick(&[0, 0, 0, 1, 2]),
        incremental: if r.permille(500) { 0 } else { *r.pick(&[1, 1, 2, 3, 8, 64]) },
        cap: *r.pick(&[0, 1, 1, 2, 3, 4, 5, 6, 6, 9, 12]),
        hash: Vec::new(),
        real: r.permille(150),
        batch: *r.pick(&[1, 1, 2, 4, 32]),
        pre: Vec::new(),
        threads: Vec::new(),
        post: Vec::new(),
        cfg: Cfg {
            policy: (0, 0, 0, 0),
            weak: false,
            stale_pm: 0,
            cas_fail_pm: *r.pick(&[0, 0, 50, 200]),
            spurious: *r.pick(&[0, 0, 2, 6]),
            soft: 400_000,
            hard: 1_600_000,
            minimal_align: false,
            cpus: *r.pick(&[1, 2, 4, 8]),
            refuse_nth: 0,
            lazy_pm: *r.pick(&[0, 0, 200, 600]),
        },
        bound: 20_000,
        early: false,
        chunk: 0,
        wicked: Default::default(),
        choices: None,
        violation: None,
        property: None,
        build: None,
        readable: Vec::new(),
    }
}

/// Fill keys, hashes, setup, programs and policy.
fn fill(s: &mut Scenario, r: &mut Rng, k: &Knobs) {
    let keys = r.range(k.keys.0, k.keys.1) as usize;
    s.hash = hashes(r, keys);
    let t = r.range(k.threads.0, k.threads.1) as usize;
    // Setup: some entries and some tombstones.
    let n = if r.permille(250) { 0 } else { r.range(1, keys as u64 + 3) };
    for _ in 0..n {
        let key = r.below(keys as u64) as u32;
        s.pre.push(Op::new(if r.permille(800) { INSERT } else { REMOVE }, key));
    }
    let style = r.below(3);
    let mut total = 0;
    for _ in 0..t {
        let n = r.range(k.ops.0, k.ops.1);
        total += n;
        let ops = (0..n).map(|_| op(r, k, keys, s.set)).collect();
        let ops = with_guards(r, ops, style, 200);
        s.threads.push(ops);
    }
    if r.permille(500) {
        for _ in 0..r.range(1, 8) {
            let key = r.below(keys as u64) as u32;
            let c = *r.pick(&[INSERT, REMOVE, GET, INSERT, INSERT]);
            s.post.push(Op::new(c, key));
        }
    }
    s.cfg.policy = policy(r, (total as u32 * 45).max(60));
}

fn weak(s: &mut Scenario, r: &mut Rng) {
    s.real = false;
    s.cfg.weak = true;
    s.cfg.stale_pm = *r.pick(&[50, 200, 400, 700]);
    let keys = s.hash.len() as u64;
    for t in s.threads.iter_mut() {
        let mut out = Vec::new();
        for o in t.drain(..) {
            if r.permille(250) {
                out.push(Op::new(if r.permille(500) { REL } else { ACQ }, r.below(2) as u32));
            }
            out.push(o);
        }
        *t = out;
    }
    let _ = keys;
}

pub fn generate(profile: &str, seed: u64) -> Scenario {
    let mut rr = Rng::new(seed);
    let r = &mut rr;
    let mut s = base(profile, seed, r);
    match profile {
        "mix" => fill(&mut s, r, &Knobs { mix: SINGLE, keys: (1, 8), threads: (2, 4), ops: (3, 10), hot: 200 }),
        "all" => fill(&mut s, r, &Knobs { mix: ALL, keys: (2, 8), threads: (2, 4), ops: (3, 9), hot: 100 }),
        "long" => fill(&mut s, r, &Knobs { mix: SINGLE, keys: (3, 12), threads: (2, 6), ops: (15, 30), hot: 50 }),
        "weak" => {
            fill(&mut s, r, &Knobs { mix: SINGLE, keys: (1, 6), threads: (2, 4), ops: (3, 9), hot: 200 });
            weak(&mut s, r)
        }
        "weak-churn" => {
            fill(&mut s, r, &Knobs { mix: CHURN, keys: (2, 8), threads: (2, 4), ops: (4, 12), hot: 50 });
            weak(&mut s, r)
        }
        "weak-all" => {
            s.set = r.permille(150);
            let mix = *r.pick(&[ALL, ITERS, SWEEPS, CLOSURE]);
            fill(&mut s, r, &Knobs { mix, keys: (2, 7), threads: (2, 4), ops: (3, 8), hot: 100 });
            weak(&mut s, r)
        }
        "seq" => {
            // A long life on one thread: growth, tombstones, shrinking, every operation.
            let n = *r.pick(&[4u64, 12, 30, 60, 150]);
            let mix = *r.pick(&[ALL, CHURN, LENS]);
            fill(&mut s, r, &Knobs { mix, keys: (n.min(20), n.min(20)), threads: (1, 1), ops: (40, 300), hot: 20 });
            if n > 20 {
                s.hash = (0..n).map(|i| spread(i ^ seed)).collect();
                for o in s.threads[0].iter_mut().chain(&mut s.post) {
                    o.1 = r.below(n) as u32;
                }
            }
        }
        "nested" => {
            // Closures that use the map themselves.
            s.cap = *r.pick(&[0, 1, 1, 2, 6]);
            s.set = r.permille(100);
            let mix = if s.set { SET } else { *r.pick(&[CLOSURE, SWEEPS, PANICS]) };
            fill(&mut s, r, &Knobs { mix, keys: (1, 6), threads: (1, 4), ops: (3, 9), hot: 200 });
            for t in s.threads.iter_mut() {
                for o in t.iter_mut() {
                    if matches!(o.0, COMPUTE | UPDATE | UPDATE_OR_INSERT | GET_OR_INSERT_WITH | TRY_INSERT_WITH | REMOVE_IF | RETAIN) && r.permille(500) {
                        *o = o.flag(F_NEST);
                        if r.permille(100) {
                            o.4 = 1;
                        }
                    }
                }
            }
            if r.permille(150) {
                weak(&mut s, r)
            }
        }
        "closure" => fill(&mut s, r, &Knobs { mix: CLOSURE, keys: (1, 3), threads: (2, 4), ops: (3, 9), hot: 500 }),
        "closure-resize" => {
            s.cap = *r.pick(&[1, 2, 4, 6]);
            fill(&mut s, r, &Knobs { mix: CLOSURE, keys: (3, 9), threads: (2, 4), ops: (4, 10), hot: 300 })
        }
        "churn" => {
            s.cap = *r.pick(&[1, 2, 4, 6]);
            fill(&mut s, r, &Knobs { mix: CHURN, keys: (2, 10), threads: (2, 5), ops: (4, 14), hot: 50 })
        }
        "deep" => {
            // Nested incremental resizes: copiers are held up while the next table fills up as well.
            s.incremental = *r.pick(&[1, 1, 1, 2]);
            // In larger tables with colliding keys, the probe chain is full of removed entries long before all
            // slots were copied; in tiny ones it takes a stalled thread.
            let big = r.permille(500);
            s.cap = if big { *r.pick(&[24, 40, 90, 180]) } else { *r.pick(&[1, 2, 3, 6, 12]) };
            s.real = r.permille(80);
            let mix = *r.pick(&[DEEP, DEEP, DEEP, CHURN]);
            fill(&mut s, r, &Knobs { mix, keys: if big { (5, 22) } else { (2, 7) }, threads: (1, if big { 4 } else { 6 }), ops: if big { (15, 40) } else { (4, 14) }, hot: 0 });
            let n = s.hash.len() as u64;
            if big {
                let salt = r.u64();
                s.hash = (0..n).map(|i| if r.permille(900) { salt & !(0x7f << 57) | i << 57 } else { r.u64() }).collect();
                s.pre.clear();
                for _ in 0..r.range(15, 38) {
                    let k = r.below(n) as u32;
                    s.pre.push(Op::new(INSERT, k));
                    if r.permille(700) {
                        s.pre.push(Op::new(REMOVE, k));
                    }
                }
                for t in s.threads.iter_mut() {
                    let mut out = Vec::new();
                    for o in t.drain(..) {
                        out.push(o);
                        if r.permille(600) {
                            // Uses up a slot.
                            let k = r.below(n) as u32;
                            out.extend([Op::new(INSERT, k), Op::new(REMOVE, k)]);
                        }
                    }
                    *t = out;
                }
            }
            let total: usize = s.threads.iter().map(|t| t.len()).sum();
            s.cfg.policy = match r.below(5) {
                0 => policy(r, (total as u32 * 45).max(60)),
                1 | 2 => (1, r.range(3, 10) as u32, total as u32 * *r.pick(&[10u32, 20, 40]), 0),
                _ => (2, *r.pick(&[50, 150, 300]), *r.pick(&[4000, 8000, 20000]), *r.pick(&[1000, 4000, 16000])),
            };
            if r.permille(150) {
                weak(&mut s, r)
            }
        }
        "block" => {
            s.incremental = 0;
            s.cap = *r.pick(&[1, 2, 6, 12]);
            fill(&mut s, r, &Knobs { mix: CHURN, keys: (4, 12), threads: (3, 6), ops: (4, 10), hot: 0 });
            s.cfg.spurious = *r.pick(&[0, 3, 10]);
            if r.permille(200) {
                weak(&mut s, r)
            }
        }
        "iter" => fill(&mut s, r, &Knobs { mix: ITERS, keys: (2, 9), threads: (2, 4), ops: (3, 9), hot: 50 }),
        "sweep" => fill(&mut s, r, &Knobs { mix: SWEEPS, keys: (1, 8), threads: (2, 4), ops: (3, 8), hot: 100 }),
        "len" => fill(&mut s, r, &Knobs { mix: LENS, keys: (1, 8), threads: (2, 5), ops: (3, 10), hot: 100 }),
        "len-sweep" => fill(&mut s, r, &Knobs { mix: LENS_SWEEP, keys: (1, 8), threads: (2, 5), ops: (3, 8), hot: 100 }),
        "hold" => {
            s.real = r.permille(100);
            s.cfg.lazy_pm = *r.pick(&[0, 0, 0, 300]);
            fill(&mut s, r, &Knobs { mix: CHURN, keys: (2, 8), threads: (2, 4), ops: (5, 14), hot: 100 });
            for t in s.threads.iter_mut() {
                if !t.iter().any(|o| o.0 == PIN) && r.permille(700) {
                    t.insert(0, Op::new(PIN, 0).flag(*r.pick(&[0, F_OWNED, F_PIN, F_PIN | F_OWNED])));
                }
            }
        }
        "set" => {
            s.set = true;
            fill(&mut s, r, &Knobs { mix: SET, keys: (1, 9), threads: (2, 4), ops: (4, 12), hot: 100 });
            if r.permille(200) {
                weak(&mut s, r)
            }
        }
        "owned" => {
            s.real = r.permille(350);
            s.set = r.permille(200);
            fill(&mut s, r, &Knobs { mix: ALL, keys: (2, 8), threads: (2, 4), ops: (4, 10), hot: 100 });
            s.threads = s
                .threads
                .drain(..)
                .map(|t| {
                    let mut out = Vec::new();
                    for o in t {
                        let p = if r.permille(500) { F_PIN } else { 0 };
                        match r.below(10) {
                            0 => out.push(Op::new(PIN, 0).flag(F_OWNED | p)),
                            1 => out.push(Op::new(GIVE, r.below(2) as u32)),
                            2 | 3 => out.push(Op::new(TAKE, r.below(2) as u32)),
                            4 => out.push(Op::new(FLUSH, 0)),
                            _ => {}
                        }
                        if o.0 != PIN && o.0 != UNPIN {
                            out.push(if r.permille(200) { o.flag(F_SHARED) } else { o });
                        }
                    }
                    out.insert(0, Op::new(PIN, 0).flag(F_OWNED));
                    out
                })
                .collect();
        }
        "panic" => {
            fill(&mut s, r, &Knobs { mix: PANICS, keys: (1, 6), threads: (2, 4), ops: (4, 10), hot: 300 });
            s.real = r.permille(100);
            for t in s.threads.iter_mut() {
                for o in t.iter_mut() {
                    if matches!(o.0, COMPUTE | UPDATE | UPDATE_OR_INSERT | GET_OR_INSERT_WITH | TRY_INSERT_WITH | REMOVE_IF | RETAIN | EXTEND | CLONE) && r.permille(350) {
                        o.4 = *r.pick(&[1, 1, 1, 2, 2, 3]);
                    }
                }
            }
        }
        "foreign" => {
            s.set = r.permille(250);
            fill(&mut s, r, &Knobs { mix: ALL, keys: (1, 6), threads: (1, 3), ops: (4, 9), hot: 200 });
            let p = *r.pick(&[100, 400]);
            for t in s.threads.iter_mut().chain([&mut s.pre, &mut s.post]) {
                for o in t.iter_mut() {
                    if o.0 < PIN && r.permille(p) {
                        o.3 = F_FOREIGN | o.3 & F_OWNED;
                    }
                }
            }
        }
        "bulk" => {
            s.set = r.permille(250);
            fill(&mut s, r, &Knobs { mix: BULKS, keys: (2, 9), threads: (1, 4), ops: (3, 7), hot: 50 });
            for t in s.threads.iter_mut() {
                for o in t.iter_mut() {
                    if matches!(o.0, CLONE | EXTEND | BULK) && !(o.0 == CLONE && s.set) && r.permille(300) {
                        o.4 = r.range(1, 6) as u8;
                    }
                }
            }
        }
        "capacity" => {
            s.cap = match r.below(4) {
                0 => r.range(1, 16) as usize,
                1 => r.range(17, 70) as usize,
                2 => *r.pick(&[7, 8, 11, 12, 13, 23, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 95, 96, 97, 100, 127, 128, 129, 192]),
                _ => r.range(70, 200) as usize,
            };
            s.real = false;
            let n = r.range(2, 40) as usize;
            s.hash = (0..n as u64).map(|i| spread(i ^ seed)).collect();
            let cap = s.cap;
            let mut ops = |r: &mut Rng, len: u64| {
                let mut v = Vec::new();
                let mut i = 0u32;
                while (v.len() as u64) < len {
                    match r.below(40) {
                        0 => v.push(Op::new(RESERVE, 0).arg(*r.pick(&[1, cap as u32, cap as u32 * 2, 300, 0]))),
                        1 => v.push(Op::new(CLEAR, 0)),
                        2 => v.push(Op::new(ITER, 0)),
                        3 => v.push(Op::new(LEN, 0)),
                        4 if r.permille(100) => v.push(Op::new(RESERVE_HUGE, 0).arg(r.below(5) as u32)),
                        _ => {
                            // Tombstones pile up: insert and remove in turn.
                            let k = i % n as u32;
                            i += 1;
                            v.push(Op::new(INSERT, k));
                            if r.permille(900) {
                                v.push(Op::new(REMOVE, k));
                            }
                        }
                    }
                }
                v
            };
            let len = (s.cap as u64 * 2 + 20) * r.range(1, 4);
            s.pre = ops(r, len.min(900));
            let t = r.range(1, 3);
            for _ in 0..t {
                let n = r.range(4, 40);
                let o = ops(r, n);
                s.threads.push(o);
            }
            s.post = ops(r, 30);
            s.cfg.policy = policy(r, 2000);
        }
        "huge" => {
            // Documented panics (capacity overflow, compute's Remove on absence), then normal life.
            s.cap = *r.pick(&[0, 1, 6, 20]);
            s.set = r.permille(150);
            fill(&mut s, r, &Knobs { mix: CHURN, keys: (2, 8), threads: (1, 3), ops: (6, 14), hot: 100 });
            for t in s.threads.iter_mut().chain([&mut s.pre]) {
                for o in t.iter_mut() {
                    if o.0 < PIN && r.permille(120) {
                        *o = Op::new(RESERVE_HUGE, 0).arg(r.below(5) as u32).flag(o.3);
                    } else if o.0 == COMPUTE && r.permille(300) {
                        o.2 |= 8;
                    }
                }
            }
        }
        "tight" => {
            s.cfg.minimal_align = true;
            s.elem = *r.pick(&[0, 1, 1, 1, 2]);
            s.set = r.permille(300);
            fill(&mut s, r, &Knobs { mix: ALL, keys: (2, 8), threads: (2, 4), ops: (4, 10), hot: 100 });
        }
        "zero" => {
            // Keys and values without any bytes: a map of at most one entry, of which no two can be told apart.
            s.elem = 3;
            s.cap = *r.pick(&[0, 1, 1, 2, 6]);
            s.set = r.permille(250);
            fill(&mut s, r, &Knobs { mix: ZEROS, keys: (1, 1), threads: (1, 4), ops: (4, 14), hot: 0 });
        }
        "refuse" => {
            s.cfg.minimal_align = r.permille(300);
            s.cap = *r.pick(&[0, 1, 2, 6]);
            s.set = r.permille(200);
            fill(&mut s, r, &Knobs { mix: CHURN, keys: (4, 10), threads: (1, 4), ops: (5, 12), hot: 0 });
            s.cfg.refuse_nth = r.range(1, 4) as u32;
        }
        "drop" => {
            // The map is dropped in the middle of whatever is going on, mostly a resize.
            s.early = true;
            s.real = r.permille(200);
            s.incremental = *r.pick(&[0, 1, 1, 2, 3, 8]);
            s.cap = *r.pick(&[1, 1, 2, 6, 12, 20]);
            s.set = r.permille(150);
            fill(&mut s, r, &Knobs { mix: CHURN, keys: (3, 16), threads: (1, 4), ops: (3, 14), hot: 50 });
            s.post.clear();
            if r.permille(700) {
                s.threads.push(vec![Op::new(RESERVE, 0).arg(*r.pick(&[12, 20, 40, 80]))]);
            }
            if r.permille(700) {
                for _ in 0..r.range(1, 4) {
                    let key = r.below(s.hash.len() as u64) as u32;
                    s.post.push(Op::new(*r.pick(&[REMOVE, INSERT, UPDATE]), key));
                }
            }
        }
        "reclaim" => {
            s.real = false;
            s.cap = *r.pick(&[1, 2, 6, 12]);
            fill(&mut s, r, &Knobs { mix: CHURN, keys: (3, 12), threads: (2, 5), ops: (6, 16), hot: 50 });
        }
        "solo-read" => {
            let mix = if r.permille(600) { CHURN } else { ALL };
            s.cap = *r.pick(&[0, 1, 2, 6, 12]);
            fill(&mut s, r, &Knobs { mix, keys: (2, 10), threads: (2, 5), ops: (4, 12), hot: 100 });
            s.cfg.cas_fail_pm = 0;
            s.bound = 4000;
            let keys = s.hash.len() as u64;
            let mut ops = Vec::new();
            for _ in 0..r.range(3, 8) {
                let c = if s.incremental == 0 { *r.pick(&[GET, GET, GET_KV, CONTAINS, ITER]) } else { *r.pick(&[GET, GET, GET_KV, CONTAINS]) };
                let mut o = Op::new(c, r.below(keys) as u32).arg(if c == ITER { r.below(3) as u32 } else { 0 });
                o.5 = if r.permille(700) { 1 } else { r.range(2, 20) as u16 };
                ops.push(Op::new(PAUSE, 0).arg(r.below(3) as u32));
                ops.push(o);
            }
            ops.insert(0, Op::new(PIN, 0).flag(*r.pick(&[0, F_PIN])));
            if r.permille(500) {
                // Guards entered right before each lookup observe the newest tables.
                ops.retain(|o| o.0 != PIN);
            }
            s.threads.push(ops);
        }
        "solo-write" => {
            // Room for everything: no resize is ever needed.
            s.cap = *r.pick(&[200, 400]);
            s.incremental = *r.pick(&[0, 1, 64]);
            fill(&mut s, r, &Knobs { mix: WRITES, keys: (1, 5), threads: (2, 5), ops: (3, 8), hot: 400 });
            if r.permille(500) {
                for t in s.threads.iter_mut() {
                    t.push(Op::new(GET, 0));
                }
            }
            s.cfg.cas_fail_pm = 0;
            s.bound = 3000;
            for t in s.threads.iter_mut() {
                for o in t.iter_mut() {
                    if o.0 < PIN && r.permille(250) {
                        o.5 = if r.permille(500) { 1 } else { r.range(2, 30) as u16 };
                    }
                }
            }
        }
        "stepwise" => {
            // A large table in the middle of an incremental resize in small chunks.
            s.incremental = *r.pick(&[1, 1, 2, 4]);
            s.elem = 0;
            // More than half full throughout (see F6).
            let (bits, limit, cap, live) = *r.pick(&[(8u64, 40, 150, 170), (8, 40, 150, 180), (7, 35, 80, 90)]);
            s.cap = cap;
            let collide = r.permille(600);
            // Either a chain as long as a probe sequence may be, at the end, or entries all over the table.
            let chain = limit + 1;
            let live = if collide { live } else { live + r.below(live * 2 / 3) };
            let n = live + r.range(4, 30);
            let base = r.below(1 << bits);
            s.hash = (0..n)
                .map(|i| {
                    let h = spread(i ^ seed);
                    // The metadata comes from the upper bits.
                    if collide && i + chain >= live && (i < live || i % 3 != 0) { h & !((1 << bits) - 1) | base } else { h }
                })
                .collect();
            for i in 0..live as u32 {
                s.pre.push(Op::new(INSERT, i));
            }
            let t = r.range(1, 4) as usize;
            let mut total = 0;
            for _ in 0..t {
                let cnt = r.range(3, 9);
                total += cnt;
                let mut v = Vec::new();
                for _ in 0..cnt {
                    let k = if r.permille(400) { r.range(live, n - 1) } else if r.permille(500) { live - 1 - r.below(chain) } else { r.below(n) } as u32;
                    let mix: Mix = if r.permille(300) { CLOSURE } else { WRITES };
                    let mut o = op(r, &Knobs { mix, keys: (1, 1), threads: (1, 1), ops: (1, 1), hot: 0 }, 1, false);
                    if !WRITES.iter().any(|m| m.0 == o.0) {
                        o = Op::new(INSERT, 0);
                    }
                    o.1 = k;
                    o.4 = 0;
                    if r.permille(500) {
                        o.5 = SOLO_AWAY;
                    }
                    v.push(o);
                }
                let style = r.below(3);
                let v = with_guards(r, v, style, 200);
                s.threads.push(v);
            }
            s.cfg.cas_fail_pm = 0;
            s.bound = 6000;
            s.cfg.policy = policy(r, (total as u32 * 80).max(60));
        }
        "keys" => {
            // One thread; insertions that must not replace what is there. (What `HashMap::insert` does is finding F14.)
            s.set = r.permille(400);
            let mix: Mix = if s.set {
                &[(INSERT, 20), (GET, 2), (REMOVE, 6), (CLEAR, 1), (RETAIN, 2), (RESERVE, 2), (CLONE, 1), (ITER, 2)]
            } else {
                &[(TRY_INSERT, 10), (TRY_INSERT_WITH, 10), (GET_OR_INSERT, 10), (GET_OR_INSERT_WITH, 10), (UPDATE, 3), (COMPUTE, 3), (REMOVE, 6), (CLEAR, 1), (RETAIN, 1), (RESERVE, 2), (ITER, 1)]
            };
            fill(&mut s, r, &Knobs { mix, keys: (2, 30), threads: (1, 1), ops: (10, 60), hot: 50 });
            if !s.set {
                for o in s.pre.iter_mut().chain(&mut s.post).filter(|o| o.0 == INSERT) {
                    o.0 = TRY_INSERT;
                }
            }
        }
        "abort" => {
            abort(&mut s, r);
            if r.permille(250) {
                weak(&mut s, r)
            }
        }
        "grow" => {
            // Many fresh keys: nested growth under concurrency.
            s.cap = *r.pick(&[1, 6, 12]);
            let t = r.range(2, 5) as usize;
            let per = r.range(6, 24) as usize;
            let n = t * per + 4;
            s.hash = if r.permille(700) { (0..n as u64).map(|i| spread(i ^ seed)).collect() } else { (0..n as u64).map(|i| spread(i ^ seed) & !0xff | (i * 5) & 0xff).collect() };
            for i in 0..r.below(5) {
                s.pre.push(Op::new(INSERT, (t * per) as u32 + (i % 4) as u32));
            }
            for j in 0..t {
                let mut v = Vec::new();
                for i in 0..per {
                    let k = (j * per + i) as u32;
                    v.push(Op::new(*r.pick(&[INSERT, INSERT, INSERT, TRY_INSERT, GET_OR_INSERT, COMPUTE, UPDATE_OR_INSERT]), k));
                    match r.below(12) {
                        0 => v.push(Op::new(GET, r.below(n as u64) as u32)),
                        1 => v.push(Op::new(REMOVE, r.below(n as u64) as u32)),
                        2 => v.push(Op::new(REMOVE, k)),
                        3 => v.push(Op::new(UPDATE, r.below(n as u64) as u32)),
                        4 if r.permille(300) => v.push(Op::new(ITER, 0)),
                        5 if r.permille(300) => v.push(Op::new(RETAIN, 0).arg(r.below(4) as u32)),
                        6 if r.permille(300) => v.push(Op::new(RESERVE, 0).arg(*r.pick(&[5, 30, 100]))),
                        7 => v.push(Op::new(GET, k)),
                        _ => {}
                    }
                }
                let v = with_guards(r, v, j as u64 % 3, 100);
                s.threads.push(v);
            }
            s.cfg.policy = policy(r, (t * per * 50) as u32);
            s.cfg.soft = 1_500_000;
            s.cfg.hard = 5_000_000;
        }
        "large" => {
            // More slots than one blocking copy chunk (4096), so that helpers share the copy.
            s.elem = 1;
            s.cap = 3100;
            s.incremental = if r.permille(600) { 0 } else { 64 };
            s.cfg.spurious = 3;
            let n = 6000usize;
            s.hash = (0..n as u64).map(|i| spread(i ^ seed)).collect();
            let fill = r.range(5800, 6000) as u32;
            for i in 0..fill {
                s.pre.push(Op::new(INSERT, i).flag(F_FRESH));
            }
            s.pre = s.pre.iter().copied().map(|o| { let mut o = o; o.3 = 0; o }).collect();
            s.pre.insert(0, Op::new(PIN, 0));
            for _ in 0..r.range(2, 4) {
                let mut v = Vec::new();
                for _ in 0..r.range(60, 200) {
                    v.push(Op::new(*r.pick(&[INSERT, REMOVE, INSERT, GET, UPDATE]), r.range(fill as u64 - 200, n as u64 - 1) as u32));
                }
                s.threads.push(v);
            }
            if s.incremental == 0 {
                let mut v = Vec::new();
                for _ in 0..3 {
                    v.push(Op::new(RESERVE, 0).arg(*r.pick(&[3000, 7000])));
                    v.push(Op::new(INSERT, r.below(n as u64) as u32));
                }
                s.threads.push(v);
            }
            s.cfg.policy = (0, 3, 8, 0);
            s.cfg.soft = 8_000_000;
            s.cfg.hard = 30_000_000;
        }
        "space" => {
            // Insertions and removals without end, few entries at any time. Only the thread that inserted a key
            // removes it (see `check_space`).
            s.set = r.permille(250);
            s.incremental = *r.pick(&[0, 0, 1, 3, 64]);
            s.cap = *r.pick(&[0, 0, 1, 10, 30, 60]);
            let t = r.range(1, 3) as usize;
            let per = r.range(1, 8) as usize;
            let own = r.below(4) as usize;
            // Entries that are gone before the table shrinks.
            let bulk = if r.permille(600) { r.range(20, 60) as usize } else { 0 };
            let mut n = t * per + own + bulk;
            let mut bulk = bulk;
            if r.permille(600) {
                // One key less than what allows for the next size.
                let more = (n + t + 2).next_power_of_two() - (n + t + 2);
                n += more;
                bulk += more;
            }
            s.hash = (0..n as u64).map(|i| spread(i ^ seed)).collect();
            for i in 0..own + bulk {
                s.pre.push(Op::new(INSERT, (t * per + i) as u32));
            }
            if bulk > 0 && r.permille(300) {
                for i in own..own + bulk {
                    s.pre.push(Op::new(REMOVE, (t * per + i) as u32));
                }
            }
            for j in 0..t {
                let mut v = Vec::new();
                let cnt = r.range(20, 160);
                for _ in 0..cnt {
                    let k = (j * per) as u32 + r.below(per as u64) as u32;
                    v.push(Op::new(*r.pick(&[INSERT, INSERT, TRY_INSERT, COMPUTE]), k));
                    if r.permille(800) {
                        v.push(Op::new(*r.pick(&[REMOVE, REMOVE, REMOVE_ENTRY]), k));
                    }
                    if r.permille(100) {
                        v.push(Op::new(GET, r.below(n as u64) as u32));
                    }
                }
                for o in v.iter_mut().filter(|_| s.set) {
                    o.0 = match o.0 {
                        TRY_INSERT | COMPUTE => INSERT,
                        REMOVE_ENTRY => REMOVE,
                        c => c,
                    };
                }
                let v = with_guards(r, v, j as u64 % 3, 0);
                s.threads.push(v);
            }
            // All but a few are removed; then one thread goes on long enough for the table to shrink.
            let rest = r.below(3).max(r.below(12)).min(n as u64 - 1) as usize;
            match r.below(3) {
                0 => {
                    s.post.push(Op::new(CLEAR, 0));
                    s.post.extend((0..rest).map(|k| Op::new(INSERT, k as u32)));
                }
                _ => s.post.extend((rest..n).map(|k| Op::new(REMOVE, k as u32))),
            }
            for _ in 0..space_slots(&s) * 8 {
                let k = rest as u32 + r.below((n - rest).min(30) as u64) as u32;
                s.post.push(Op::new(INSERT, k));
                s.post.push(Op::new(REMOVE, k));
            }
            s.cfg.cas_fail_pm = 0;
            s.cfg.policy = policy(r, (t * 80 * 60) as u32);
            s.cfg.soft = 3_000_000;
            s.cfg.hard = 10_000_000;
        }
        "quiet" => {
            // One thread only: sequential life with every operation.
            fill(&mut s, r, &Knobs { mix: ALL, keys: (2, 10), threads: (1, 1), ops: (10, 60), hot: 50 });
        }
        "chunks" => {
            // Blocking resizes in chunks small enough for several threads to share the copy of a small table.
            let of = *r.pick(&["abort", "abort", "block", "block", "grow", "churn", "sweep", "closure-resize", "iter", "weak-churn", "panic"]);
            s = generate(of, seed);
            s.profile = profile.into();
            s.incremental = 0;
            s.chunk = *r.pick(&[1, 2, 4, 4, 8, 8, 16, 32]);
            return s;
        }
        "overflow" => overflow(&mut s, r),
        "wicked" => {
            // Keys whose comparisons and hashes lie or panic.
            s = match r.below(6) {
                0 => generate("abort", seed),
                1 => generate("block", seed),
                _ => {
                    s.set = r.permille(200);
                    let mix = if s.set { SET } else { *r.pick(&[ALL, SINGLE, SWEEPS]) };
                    fill(&mut s, r, &Knobs { mix, keys: (2, 24), threads: (1, 4), ops: (4, 14), hot: 100 });
                    s
                }
            };
            s.profile = profile.into();
            s.real = !s.cfg.weak && r.permille(100);
            (s.cfg.soft, s.cfg.hard) = (20_000, 30_000);
            s.early = false;
            if s.incremental == 0 {
                s.chunk = *r.pick(&[0, 0, 4, 16]);
            }
            let p = *r.pick(&[2, 10, 50, 300]);
            match r.below(8) {
                0 | 1 => s.wicked.eq_lies = p,
                2 => s.wicked.hash_lies = p,
                3 => {
                    // Lawful until the threads start, then (almost) all the same.
                    s.wicked.hash_lies = *r.pick(&[300, 900, 980, 1000]);
                    s.wicked.collide = true;
                    if r.permille(700) {
                        let more: Vec<Op> = (0..r.range(10, 60)).map(|i| Op::new(INSERT, (i % s.hash.len() as u64) as u32)).collect();
                        if r.permille(500) {
                            s.threads[0].extend(more);
                        } else {
                            s.pre.extend(more);
                        }
                    }
                }
                4 => s.wicked.eq_panics = p,
                5 => s.wicked.hash_panics = *r.pick(&[1, 3, 10, 30]),
                _ => {
                    s.wicked.eq_lies = *r.pick(&[0, 5, 50]);
                    s.wicked.hash_lies = *r.pick(&[0, 5, 50]);
                    s.wicked.eq_panics = *r.pick(&[0, 5, 50]);
                }
            }
            if s.wicked.hash_panics > 0 && r.permille(600) {
                // With other threads about, somebody soon waits for the thread that failed.
                s.threads.truncate(1);
                let more: Vec<Op> = (0..r.range(10, 60)).map(|i| Op::new(INSERT, (i % s.hash.len() as u64) as u32)).collect();
                s.threads[0].extend(more);
            }
            return s;
        }
        p => panic!("unknown profile {p}"),
    }
    // (Not drawn from `r`, which would change every scenario.)
    if matches!(profile, "reclaim" | "churn" | "panic" | "hold" | "bulk" | "set" | "owned" | "closure-resize" | "refuse") && seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 61 == 0 {
        s.early = true;
    }
    if profile != "stepwise" && s.incremental > 0 && seed.wrapping_mul(0xd6e8_feb8_6659_fd93) >> 60 == 0 {
        // The chunk size is any `usize`: nothing at all, everything, and sizes that overflow a counter of chunks.
        let h = (seed.wrapping_mul(0xa076_1d64_78bd_642f) >> 40) as usize;
        s.incremental = [NO_CHUNK, usize::MAX, 1 << 63, 1 << 62, usize::MAX / 3, 100, 7, 5][h % 8];
    }
    s
}

/// How many slots a table may have at most, given that it doubles only when it is at least half full of live entries
/// (some of which may be counted twice for a moment).
pub fn space_slots(s: &Scenario) -> usize {
    (4 * (s.hash.len() + s.threads.len() + 1)).max((s.cap * 8 / 6 * 2).saturating_sub(1)).max(64).floor_power_of_two()
}

pub trait Floor {
    fn floor_power_of_two(self) -> usize;
}
impl Floor for usize {
    fn floor_power_of_two(self) -> usize {
        1 << self.ilog2()
    }
}

/// A blocking resize that has to be abandoned: a same-size copy whose target fills up.
fn abort(s: &mut Scenario, r: &mut Rng) {
    s.incremental = 0;
    s.real = r.permille(150);
    let slots = 64u64;
    s.cap = 40;
    // A: keys of one probe chain; D: keys whose home is inside that chain.
    // `a_n` live keys and `t_n` tombstones fill the chain of 31 slots. In the end 36 keys at most
    // compete for it, and at least 32 of them (half of the table) are there for every attempt to
    // insert the last one, so that the table grows (finding F6 in DESIGN.md is about what happens
    // otherwise).
    let a_n = 30 - r.below(3).min(r.below(3)) as usize;
    let t_n = 31 - a_n;
    let d_n = r.range(32 - a_n as u64, 5) as usize;
    let home = r.below(slots);
    let mut h = Vec::new();
    for i in 0..(a_n + 1 + t_n) as u64 {
        h.push(home | (i % 128) << 57);
    }
    // The probe sequence is triangular-like in steps; any offset near the chain will displace.
    let chain: Vec<u64> = {
        let (mut p, mut stride) = (home, 0u64);
        let mut v = Vec::new();
        for _ in 0..31 {
            v.push(p);
            stride += 1;
            p = (p + stride) & (slots - 1);
        }
        v
    };
    for _ in 0..d_n {
        h.push(*r.pick(&chain[1..]) | r.below(128) << 57);
    }
    s.hash = h;
    let a = |i: usize| i as u32;
    let d = |i: usize| (a_n + 1 + t_n + i) as u32;
    let t = |i: usize| (a_n + 1 + i) as u32;
    // Tombstones at the head of the chain, then the live entries.
    for i in 0..t_n {
        s.pre.push(Op::new(INSERT, t(i)));
    }
    for i in 0..a_n {
        s.pre.push(Op::new(INSERT, a(i)));
    }
    for i in 0..t_n {
        s.pre.push(Op::new(REMOVE, t(i)));
    }
    // One thread triggers the resize, others insert displacing keys or park.
    let mut v = vec![Op::new(INSERT, a(a_n))];
    if r.permille(500) {
        v.push(Op::new(GET, a(0)));
    }
    s.threads.push(v);
    let split = r.range(1, 3) as usize;
    for j in 0..split {
        let v = (0..d_n).filter(|i| i % split == j).map(|i| Op::new(INSERT, d(i))).collect();
        s.threads.push(v);
    }
    for _ in 0..r.range(1, 3) {
        let mut v = Vec::new();
        for _ in 0..r.range(1, 4) {
            let k = r.below(a_n as u64) as u32;
            v.push(Op::new(*r.pick(&[INSERT, UPDATE, INSERT, GET]), k));
        }
        s.threads.push(v);
    }
    s.cfg.policy = policy(r, 3000);
    s.cfg.spurious = *r.pick(&[0, 0, 3]);
}

/// A blocking resize to a table of twice the size that has to be abandoned as well: the copies of other keys take so many
/// slots of a long probe chain that its last keys find none.
fn overflow(s: &mut Scenario, r: &mut Rng) {
    s.incremental = if r.permille(300) { *r.pick(&[1, 2, 8, 16, 64]) } else { 0 };
    s.real = r.permille(150);
    s.cap = 40;
    if s.incremental == 0 {
        s.chunk = *r.pick(&[0, 0, 0, 8, 16, 32]);
    }
    let chain = |home: u64, n: u64, slots: u64| -> Vec<u64> { (0..n).map(|k| (home + k * (k + 1) / 2) & (slots - 1)).collect() };
    loop {
        // A: 31 keys (and one more) of one chain, in tables of 64, 128 and 256 slots. All 64 slots are taken in the end, so that
        // the table grows to 128 and, when that attempt fails, to 256.
        let home = r.below(128);
        let (c128, c256) = (chain(home, 36, 128), chain(home, 41, 256));
        let mut table = [false; 64];
        for p in chain(home & 63, 31, 64) {
            table[p as usize] = true;
        }
        let mut homes: Vec<u64> = Vec::new();
        let mut intruders = 0;
        let place = |homes: &mut Vec<u64>, r: &mut Rng, h128: u64, intruders: &mut u32| {
            let b = r.below(2) << 7;
            let free = |h: &u64| !c256.contains(h) && !homes.contains(h);
            let h = [h128 | b, h128 | b ^ 128].into_iter().find(free).unwrap_or(h128 | b);
            *intruders += !free(&h) as u32;
            homes.push(h);
        };
        // D: keys at home in the chain of the larger table ...
        let n = r.range(4, 16);
        for _ in 0..n {
            let h = c128[r.range(6, 30) as usize];
            let (mut p, mut stride) = (h & 63, 0);
            while table[p as usize] {
                stride += 1;
                p = (p + stride) & 63;
            }
            table[p as usize] = true;
            place(&mut homes, r, h, &mut intruders);
        }
        // ... and one for each slot that is left.
        for p in 0..64u64 {
            if !table[p as usize] {
                let h = [p, p | 64].into_iter().find(|h| c128.contains(h)).unwrap_or(p | r.below(2) << 6);
                place(&mut homes, r, h, &mut intruders);
            }
        }
        if intruders > 5 {
            continue;
        }
        let mut h: Vec<u64> = (0..32).map(|i| home | i << 57).collect();
        h.extend(homes.iter().map(|&x| x | r.below(128) << 57));
        s.hash = h;
        break;
    }
    let keys = s.hash.len() as u32;
    for k in (0..31).chain(32..keys) {
        s.pre.push(Op::new(INSERT, k));
    }
    // One thread triggers the resize, the others run into it.
    let mut v = vec![Op::new(INSERT, 31)];
    if r.permille(500) {
        v.push(Op::new(GET, r.below(keys as u64) as u32));
    }
    s.threads.push(v);
    for _ in 0..r.range(0, 4) {
        let mut v = Vec::new();
        for _ in 0..r.range(1, 5) {
            v.push(Op::new(*r.pick(&[INSERT, UPDATE, INSERT, GET, UPDATE_OR_INSERT, ITER]), r.below(keys as u64) as u32));
        }
        s.threads.push(v);
    }
    s.cfg.policy = policy(r, 4000);
    s.cfg.spurious = *r.pick(&[0, 0, 3]);
    if r.permille(200) {
        weak(s, r)
    }
}
