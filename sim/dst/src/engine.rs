//! Seeded search over schedules and faults in worker processes, replay, pinned scenarios.
use crate::exec;
use crate::gen;
use crate::prog::*;
use crate::props::{self, Prop};
use crate::shrink;
use simstd::rt;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

pub const BUILD: &str = if cfg!(debug_assertions) { "dbg" } else { "release" };

pub const PROFILES: &[&str] = &[
    "mix", "all", "long", "weak", "weak-churn", "weak-all", "closure", "closure-resize", "nested", "churn", "deep", "block", "iter", "sweep", "len", "len-sweep", "hold", "set", "owned", "panic",
    "foreign", "bulk", "capacity", "huge", "tight", "zero", "refuse", "reclaim", "drop", "solo-read", "solo-write", "abort", "grow", "large", "quiet", "seq", "stepwise", "keys", "space", "chunks", "wicked", "overflow",
];

macro_rules! counters {
    ($($n:ident),* $(,)?) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy)]
        pub enum C { $($n),* , LAST }
        const CNAMES: &[&str] = &[$(stringify!($n)),*];
    };
}
counters!(
    runs, nontrivial, steps, switches, stalls, stale, cas_fail, spurious, refused, alloc_aborts, parks, lock_waits, late, loads, stores, rmws, fair_runs, max_op_steps, weak_runs, real_collector_runs, ops,
    panics, solos, foreign, gives, closure_retries, lin_unknown, held_checks, caller_faults, nested, resizes, live_threads, incremental_runs, misaligned_runs, distinct,
);
const NC: usize = C::LAST as usize;
const NPROF: usize = 48;
const NCLS: usize = 64;
const NDET: usize = 256;

pub fn class_list() -> Vec<&'static str> {
    props::FATAL.iter().chain(props::ALL_CLASSES).copied().collect()
}

#[repr(C)]
pub struct WorkerShm {
    cur: AtomicU64,
    busy: AtomicU32,
    done: AtomicU32,
    ctr: [AtomicU64; NC],
    prof: [AtomicU64; NPROF],
    other: [AtomicU64; NCLS],
    other_at: [AtomicU64; NCLS],
    det: [[AtomicU64; 2]; NDET],
    det_n: AtomicU64,
    policies: [AtomicU64; 4],
}

#[repr(C)]
struct Found {
    set: AtomicU32,
    index: u64,
    class: [u8; 32],
    msg: [u8; 1000],
}

#[repr(C)]
struct Shm {
    stop: AtomicU32,
    distinct_full: AtomicU32,
    w: [WorkerShm; 16],
    found: [Found; 16],
}

pub fn map_shared(n: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap failed");
        p as *mut u8
    }
}

fn copy_str(dst: &mut [u8], s: &str) {
    let n = s.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    dst[n] = 0;
}
pub fn read_str(src: &[u8]) -> String {
    let n = src.iter().position(|&b| b == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).into_owned()
}

pub fn mix(a: u64, b: u64) -> u64 {
    crate::types::spread(a ^ crate::types::spread(b))
}

/// CPU-time limit of one run.
pub fn arm_timer(secs: i64) {
    unsafe {
        let t = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: secs, tv_usec: 0 } };
        libc::setitimer(libc::ITIMER_VIRTUAL, &t, std::ptr::null_mut());
    }
}

pub struct Plan {
    pub prop: &'static Prop,
    pub base: u64,
    /// Restrict to one profile.
    pub only: Option<String>,
    total: f64,
}

impl Plan {
    fn new(prop: &'static Prop, seed: u64, only: Option<String>) -> Plan {
        let mut h = 0xcbf29ce484222325u64;
        for b in prop.id.bytes().chain(BUILD.bytes()) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Plan { prop, base: mix(seed, h), only, total: prop.profiles.iter().map(|p| p.1).sum() }
    }
    /// The i-th run: a pure function of (seed, property, build, i).
    fn pick(&self, i: u64) -> (&str, u64) {
        let h = mix(self.base, i);
        if let Some(p) = &self.only {
            return (p, h >> 1);
        }
        let mut x = (mix(h, 77) >> 11) as f64 / (1u64 << 53) as f64 * self.total;
        for (n, w) in self.prop.profiles {
            if x < *w {
                return (n, h >> 1);
            }
            x -= w;
        }
        (self.prop.profiles[0].0, h >> 1)
    }
    fn scenario(&self, i: u64) -> Scenario {
        let (p, seed) = self.pick(i);
        gen::generate(p, seed)
    }
}

/// All violation classes of the run just made, with their messages.
pub fn classes(o: &rt::Outcome) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = Vec::new();
    if let Some(x) = &o.violation {
        v.push((x.class.clone(), format!("{} (T{} op {} step {})", x.msg, x.tid, x.op, x.step)));
        unsafe {
            for n in exec::NOTES.iter() {
                if !v.iter().any(|y| y.0 == n.0) {
                    v.push(n.clone());
                }
            }
        }
    }
    v
}

/// Run a scenario that is given back afterwards.
pub fn run_owned(s: Scenario, f: impl FnOnce(&'static Scenario, rt::Outcome)) {
    let p: *mut Scenario = Box::into_raw(Box::new(s));
    unsafe {
        let o = exec::run_scenario(&*p);
        f(&*p, o);
        drop(Box::from_raw(p));
    }
}

unsafe fn distinct_insert(set: *mut AtomicU64, cap: usize, h: u64) -> bool {
    let h = h | 1;
    let mut i = (h.wrapping_mul(0x9E3779B97F4A7C15) >> 20) as usize & (cap - 1);
    for _ in 0..64 {
        let s = &*set.add(i);
        match s.compare_exchange(0, h, Relaxed, Relaxed) {
            Ok(_) => return true,
            Err(x) if x == h => return false,
            Err(_) => i = (i + 1) & (cap - 1),
        }
    }
    false
}

fn opt<'a>(a: &'a [String], n: &str) -> Option<&'a str> {
    a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).map(|s| s.as_str())
}
fn num(a: &[String], n: &str, d: f64) -> f64 {
    opt(a, n).and_then(|s| s.parse().ok()).unwrap_or(d)
}

struct Ctx {
    plan: Plan,
    shm: *mut Shm,
    set: *mut AtomicU64,
    cap: usize,
    workers: usize,
    deadline: Instant,
    max_runs: u64,
}

unsafe fn worker(c: &Ctx, w: usize, from: u64) {
    let shm = &mut *c.shm;
    let ws = &shm.w[w];
    let cls = class_list();
    let add = |k: C, n: u64| {
        if n > 0 {
            ws.ctr[k as usize].fetch_add(n, Relaxed);
        }
    };
    let mut i = from;
    while shm.stop.load(Relaxed) == 0 && i < c.max_runs {
        if Instant::now() >= c.deadline {
            break;
        }
        let (pname, seed) = c.plan.pick(i);
        ws.cur.store(i, Relaxed);
        ws.busy.store(1, Relaxed);
        arm_timer(20);
        let s = gen::generate(pname, seed);
        let pi = PROFILES.iter().position(|p| *p == pname).unwrap();
        ws.prof[pi].fetch_add(1, Relaxed);
        let mut stop = false;
        let before = exec::COUNTS;
        run_owned(s, |s, o| {
            let st = &o.stats;
            add(C::runs, 1);
            add(C::steps, st.steps);
            add(C::switches, st.switches);
            add(C::stalls, st.stalls);
            add(C::stale, st.stale);
            add(C::cas_fail, st.cas_fail);
            add(C::spurious, st.spurious);
            add(C::refused, st.refused);
            add(C::alloc_aborts, o.alloc_error as u64);
            add(C::parks, st.parks);
            add(C::lock_waits, st.lock_waits);
            add(C::late, st.late);
            add(C::loads, st.loads);
            add(C::stores, st.stores);
            add(C::rmws, st.rmws);
            add(C::fair_runs, (st.steps >= s.cfg.soft) as u64);
            ws.ctr[C::max_op_steps as usize].fetch_max(st.max_op_steps, Relaxed);
            add(C::weak_runs, s.cfg.weak as u64);
            add(C::real_collector_runs, s.real as u64);
            add(C::incremental_runs, (s.incremental > 0) as u64);
            add(C::misaligned_runs, s.cfg.minimal_align as u64);
            add(C::live_threads, s.threads.len() as u64);
            let n = exec::COUNTS;
            add(C::ops, n.ops - before.ops);
            add(C::panics, n.panics - before.panics);
            add(C::solos, n.solos - before.solos);
            add(C::foreign, n.foreign - before.foreign);
            add(C::gives, n.gives - before.gives);
            add(C::closure_retries, n.closure_retries - before.closure_retries);
            add(C::lin_unknown, n.lin_unknown - before.lin_unknown);
            add(C::held_checks, n.held_checks - before.held_checks);
            add(C::nested, n.nested - before.nested);
            add(C::caller_faults, n.caller_faults - before.caller_faults);
            add(C::resizes, n.resizes - before.resizes);
            ws.policies[s.cfg.policy.0.min(3) as usize].fetch_add(1, Relaxed);
            // Non-trivial: the threads really interleaved (or, on one thread, a fault was injected).
            if st.switches > 2 * s.threads.len() as u64 + 1 || s.threads.len() == 1 {
                add(C::nontrivial, 1);
                if distinct_insert(c.set, c.cap, o.sched_hash ^ if s.threads.len() == 1 { o.hash } else { 0 }) {
                    add(C::distinct, 1);
                }
            }
            let d = ws.det_n.load(Relaxed);
            if (d as usize) < NDET {
                ws.det[d as usize][0].store(i, Relaxed);
                ws.det[d as usize][1].store(o.hash ^ o.sched_hash.rotate_left(17), Relaxed);
                ws.det_n.store(d + 1, Relaxed);
            }
            for (class, msg) in classes(&o) {
                if c.plan.prop.accepts(&class) {
                    let f = &mut shm.found[w];
                    f.index = i;
                    copy_str(&mut f.class, &class);
                    copy_str(&mut f.msg, &msg);
                    f.set.store(1, SeqCst);
                    shm.stop.store(1, SeqCst);
                    stop = true;
                    break;
                } else if let Some(k) = cls.iter().position(|x| *x == class) {
                    if ws.other[k].fetch_add(1, Relaxed) == 0 {
                        ws.other_at[k].store(i, Relaxed);
                    }
                }
            }
        });
        ws.busy.store(0, Relaxed);
        if stop {
            break;
        }
        i += c.workers as u64;
    }
    arm_timer(0);
    ws.done.store(1, SeqCst);
}

pub fn exit_now(code: i32) -> ! {
    unsafe { libc::_exit(code) }
}

/// What the death of a process by this signal means.
pub fn signal_class(sig: i32) -> Option<&'static str> {
    match sig {
        libc::SIGVTALRM => Some("hang"),
        libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGABRT | libc::SIGTRAP | libc::SIGFPE => Some("crash"),
        _ => None,
    }
}

pub fn search(a: &[String]) -> i32 {
    let id = opt(a, "--property").expect("--property");
    let Some(prop) = props::find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let seed = num(a, "--seed", 1.0) as u64;
    let secs = num(a, "--secs", 10.0);
    let workers = (num(a, "--workers", 4.0) as usize).clamp(1, 16);
    let max_runs = num(a, "--runs", 1e15) as u64;
    let shrink_secs = num(a, "--shrink", 60.0);
    let out = opt(a, "--out").map(|s| s.to_string());
    let replay_out = opt(a, "--replay-out").unwrap_or("/tmp/dst-replay.json").to_string();
    let cap = 1usize << num(a, "--distinct-bits", 25.0) as u32;
    let t0 = Instant::now();
    let c = Ctx {
        plan: Plan::new(prop, seed, opt(a, "--profile").map(|s| s.to_string())),
        shm: map_shared(std::mem::size_of::<Shm>()) as *mut Shm,
        set: map_shared(cap * 8) as *mut AtomicU64,
        cap,
        workers,
        deadline: t0 + Duration::from_secs_f64(secs),
        max_runs,
    };
    let mut found: Vec<(u64, String, String)> = Vec::new();
    let mut restarts = 0u64;
    let mut killed = 0u64;
    let cls = class_list();
    unsafe {
        let shm = &mut *c.shm;
        let mut pids: BTreeMap<i32, usize> = BTreeMap::new();
        let spawn = |w: usize, from: u64| -> i32 {
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                worker(&c, w, from);
                exit_now(0);
            }
            pid
        };
        for w in 0..workers {
            pids.insert(spawn(w, w as u64), w);
        }
        while !pids.is_empty() {
            let mut st = 0;
            let pid = libc::waitpid(-1, &mut st, 0);
            let Some(w) = pids.remove(&pid) else { continue };
            if libc::WIFSIGNALED(st) || (libc::WIFEXITED(st) && libc::WEXITSTATUS(st) != 0) {
                let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { libc::SIGABRT };
                let i = shm.w[w].cur.load(SeqCst);
                match signal_class(sig) {
                    Some(class) if prop.accepts(class) => {
                        found.push((i, class.to_string(), format!("the process running the simulation was ended by signal {sig}")));
                        shm.stop.store(1, SeqCst);
                    }
                    Some(class) => {
                        let k = cls.iter().position(|x| *x == class).unwrap();
                        shm.w[w].other[k].fetch_add(1, Relaxed);
                        shm.w[w].other_at[k].store(i, Relaxed);
                    }
                    None => killed += 1,
                }
                if shm.stop.load(SeqCst) == 0 && Instant::now() < c.deadline {
                    restarts += 1;
                    pids.insert(spawn(w, i + workers as u64), w);
                }
            }
        }
        for f in shm.found.iter().take(workers) {
            if f.set.load(SeqCst) == 1 {
                found.push((f.index, read_str(&f.class), read_str(&f.msg)));
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    // The shortest program first.
    found.sort_by_key(|f| (c.plan.scenario(f.0).nops(), f.0));
    let mut verdict = serde_json::Value::Null;
    let mut code = 0;
    if let Some((i, class, msg)) = found.first() {
        code = 1;
        let s = c.plan.scenario(*i);
        let (p, sd) = c.plan.pick(*i);
        let before = s.nops();
        let r = shrink::minimise(s, class, Duration::from_secs_f64(shrink_secs));
        let mut r = r;
        r.property = Some(id.to_string());
        r.build = Some(BUILD.to_string());
        if r.violation.is_none() {
            r.violation = Some((class.clone(), msg.clone()));
        }
        std::fs::write(&replay_out, serde_json::to_string(&r).unwrap()).unwrap();
        verdict = serde_json::json!({
            "class": class, "message": msg, "profile": p, "seed": sd, "index": i, "build": BUILD, "replay": replay_out,
            "ops_before": before, "ops_after": r.nops(), "choices": r.choices.as_ref().map_or(0, |c| c.len()), "minimised_message": r.violation.as_ref().map(|v| v.1.clone()),
        });
    }
    // Totals.
    let shm = unsafe { &mut *c.shm };
    let mut ctr = BTreeMap::new();
    for (k, n) in CNAMES.iter().enumerate() {
        let it = shm.w.iter().take(workers).map(|w| w.ctr[k].load(SeqCst));
        ctr.insert(*n, if *n == "max_op_steps" { it.max().unwrap_or(0) } else { it.sum() });
    }
    let mut prof = BTreeMap::new();
    for (k, n) in PROFILES.iter().enumerate() {
        let t: u64 = shm.w.iter().take(workers).map(|w| w.prof[k].load(SeqCst)).sum();
        if t > 0 {
            prof.insert(*n, t);
        }
    }
    let mut other = BTreeMap::new();
    for (k, n) in cls.iter().enumerate() {
        let t: u64 = shm.w.iter().take(workers).map(|w| w.other[k].load(SeqCst)).sum();
        if t > 0 {
            let at = shm.w.iter().take(workers).find(|w| w.other[k].load(SeqCst) > 0).map(|w| w.other_at[k].load(SeqCst)).unwrap();
            let (p, s) = c.plan.pick(at);
            other.insert(*n, serde_json::json!({"count": t, "profile": p, "seed": s}));
        }
    }
    let pol: Vec<u64> = (0..4).map(|k| shm.w.iter().take(workers).map(|w| w.policies[k].load(SeqCst)).sum()).collect();
    let (det, samples) = if code == 0 { verify(&c) } else { (serde_json::json!(null), Vec::new()) };
    let j = serde_json::json!({
        "property": id, "build": BUILD, "seed": seed, "secs": wall, "workers": workers, "counters": ctr, "profiles": prof, "policies": {"random": pol[0], "pct": pol[1], "stall": pol[2], "quantum": pol[3]},
        "other_classes": other, "violation": verdict, "worker_restarts": restarts, "workers_killed": killed, "determinism": det, "samples": samples,
        "total_secs": t0.elapsed().as_secs_f64(),
    });
    match out {
        Some(p) => std::fs::write(p, serde_json::to_string_pretty(&j).unwrap()).unwrap(),
        None => println!("{}", serde_json::to_string_pretty(&j).unwrap()),
    }
    code
}

/// Re-run the first runs of worker 0 in another process, as seeds and as replays of their
/// decision logs, and compare event hashes; describe a few of them.
fn verify(c: &Ctx) -> (serde_json::Value, Vec<serde_json::Value>) {
    let buf = map_shared(1 << 16);
    let outp = unsafe { std::slice::from_raw_parts_mut(buf, 1 << 16) };
    let shm = unsafe { &*c.shm };
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            let ws = &shm.w[0];
            let n = (ws.det_n.load(SeqCst) as usize).min(NDET);
            let t = Instant::now();
            let (mut rerun, mut replayed, mut bad) = (0, 0, 0);
            let mut samples = Vec::new();
            for d in 0..n {
                if t.elapsed() > Duration::from_secs(6) {
                    break;
                }
                arm_timer(40);
                let i = ws.det[d][0].load(SeqCst);
                let h = ws.det[d][1].load(SeqCst);
                let s = c.plan.scenario(i);
                let mut log = Vec::new();
                run_owned(s.clone(), |s, o| {
                    rerun += 1;
                    let h2 = o.hash ^ o.sched_hash.rotate_left(17);
                    bad += (h2 != h) as u32;
                    if h2 != h && std::env::var("DST_DEBUG").is_ok() {
                        eprintln!("rerun of run {i} ({} seed {}) differs", s.profile, s.seed);
                    }
                    log = pack(&o.log);
                    if d % 37 == 5 && samples.len() < 3 {
                        samples.push(serde_json::json!({
                            "run": i, "profile": s.profile, "seed": s.seed, "program": readable(s).into_iter().take(14).collect::<Vec<_>>(),
                            "policy": s.policy_name(), "steps": o.stats.steps, "context_switches": o.stats.switches,
                            "decisions_off_default": o.log.len(), "stale_reads": o.stats.stale, "violation": o.violation.as_ref().map(|v| v.class.clone()),
                        }));
                    }
                });
                let mut s2 = s;
                s2.choices = Some(log);
                run_owned(s2, |s, o| {
                    replayed += 1;
                    let h2 = o.hash ^ o.sched_hash.rotate_left(17);
                    bad += (h2 != h) as u32;
                    if h2 != h && std::env::var("DST_DEBUG").is_ok() {
                        eprintln!("replay of run {i} ({} seed {}) differs", s.profile, s.seed);
                    }
                });
            }
            let j = serde_json::json!({"rerun_in_another_process": rerun, "replayed_from_decision_log": replayed, "mismatches": bad, "samples": samples});
            let t = serde_json::to_string(&j).unwrap();
            if t.len() < outp.len() - 1 {
                copy_str(outp, &t);
            }
            exit_now(0);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
    }
    let t = read_str(outp);
    match serde_json::from_str::<serde_json::Value>(&t) {
        Ok(mut v) => {
            let s = v["samples"].take();
            v.as_object_mut().unwrap().remove("samples");
            (v, s.as_array().cloned().unwrap_or_default())
        }
        Err(_) => (serde_json::json!({"rerun_in_another_process": 0, "error": "the re-run did not end"}), Vec::new()),
    }
}

pub fn pack(log: &[rt::Choice]) -> Vec<(u8, u32, u32, u8, u32)> {
    log.iter().map(|c| (c.t, c.op, c.k, c.kind as u8, c.val)).collect()
}

/// The scenario in words.
pub fn readable(s: &Scenario) -> Vec<String> {
    let mut v = vec![format!(
        "{} of {}, {}, capacity {}, {} distinct keys, {} collector (batch {}){}{}{}",
        if s.set { "HashSet" } else { "HashMap" },
        ["24-byte elements", "5-byte unaligned elements", "64-byte over-aligned elements", "zero-size elements"][s.elem.min(3) as usize],
        if s.incremental == 0 { "blocking resize".to_string() } else { format!("incremental({}) resize", if s.incremental == NO_CHUNK { 0 } else { s.incremental }) },
        s.cap,
        s.hash.len(),
        if s.real { "hyaline" } else { "eager" },
        s.batch,
        if s.cfg.weak { ", weak memory" } else { "" },
        if s.cfg.minimal_align { ", minimally aligned heap" } else { "" },
        if s.cfg.refuse_nth > 0 { format!(", table allocation {} refused", s.cfg.refuse_nth) } else { String::new() },
    )];
    for (i, o) in s.pre.iter().enumerate() {
        v.push(format!("T0.{} {}", i + 1, o.text()));
    }
    for (t, ops) in s.threads.iter().enumerate() {
        for (i, o) in ops.iter().enumerate() {
            v.push(format!("T{}.{} {}", t + 1, i + 1, o.text()));
        }
    }
    for (i, o) in s.post.iter().enumerate() {
        v.push(format!("T0.{} {}", exec::POST_BASE as usize + i + 1, o.text()));
    }
    v
}

pub fn describe_choice(c: &(u8, u32, u32, u8, u32), threads: usize) -> String {
    match c.3 {
        0 => format!("T{} op {} decision {}: switch to T{}", c.0, c.1, c.2, (c.0 as usize + c.4 as usize) % threads.max(1)),
        k => format!("T{} op {} decision {}: {} {}", c.0, c.1, c.2, rt::KINDS[k as usize], c.4),
    }
}

/// Replay a file exactly: 1 if it shows the recorded violation, 0 if it shows none, 3 if another.
pub fn replay(a: &[String]) -> i32 {
    let s: Scenario = serde_json::from_str(&std::fs::read_to_string(&a[0]).expect("replay file")).expect("replay file");
    let quiet = a.iter().any(|x| x == "--quiet");
    if s.build.as_deref().map_or(false, |b| b != BUILD) && !quiet {
        println!("note: found with the {} build, replayed with {}", s.build.as_deref().unwrap(), BUILD);
    }
    if !quiet {
        for l in readable(&s) {
            println!("{l}");
        }
    }
    let want = s.violation.clone();
    unsafe {
        // Children (and the trace printed as it happens) survive a crash of the system under test.
        let pid = libc::fork();
        if pid == 0 {
            arm_timer(60);
            if !quiet {
                rt::set_trace(true, 200_000);
            }
            let mut code = 0;
            run_owned(s, |_, o| {
                for l in &o.trace {
                    println!("{l}");
                }
                let v = classes(&o);
                for (c, m) in &v {
                    println!("violation: {c}: {m}");
                }
                println!("steps {} switches {} event hash {:016x}", o.stats.steps, o.stats.switches, o.hash ^ o.sched_hash.rotate_left(17));
                code = match &want {
                    _ if v.is_empty() => 0,
                    Some(w) if !v.iter().any(|x| x.0 == w.0) => 3,
                    _ => 1,
                };
            });
            use std::io::Write;
            let _ = std::io::stdout().flush();
            exit_now(code);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) {
            let c = signal_class(libc::WTERMSIG(st)).unwrap_or("killed");
            println!("violation: {c}: ended by signal {}", libc::WTERMSIG(st));
            return match &want {
                Some(w) if w.0 == c => 1,
                _ => 3,
            };
        }
        libc::WEXITSTATUS(st)
    }
}

/// Run pinned scenarios: `pinned FILE...` prints one line per file, `FILE none` or `FILE class message`.
pub fn pinned(a: &[String]) -> i32 {
    for f in a {
        let s: Scenario = match std::fs::read_to_string(f).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())) {
            Ok(s) => s,
            Err(e) => {
                eprintln!("{f}: {e}");
                return 2;
            }
        };
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                arm_timer(60);
                run_owned(s, |_, o| {
                    let v = classes(&o);
                    if v.is_empty() {
                        println!("{f}\tnone\t");
                    }
                    for (c, m) in v {
                        println!("{f}\t{c}\t{}", m.replace('\n', " "));
                    }
                });
                exit_now(0);
            }
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            if libc::WIFSIGNALED(st) {
                println!("{f}\t{}\tended by signal {}", signal_class(libc::WTERMSIG(st)).unwrap_or("killed"), libc::WTERMSIG(st));
            }
        }
    }
    0
}

/// `profile NAME RUNS [FROM] [trace]`: run one profile in this process (for development).
pub fn profile(a: &[String]) -> i32 {
    let n: u64 = a[1].parse().unwrap();
    let from: u64 = a.get(2).map_or(0, |x| x.parse().unwrap());
    let tr = a.len() > 3;
    let t = Instant::now();
    let mut steps = 0;
    let mut bads = 0;
    for i in from..from + n {
        let s = gen::generate(&a[0], i);
        if tr {
            println!("{}", serde_json::to_string(&s).unwrap());
            rt::set_trace(true, 100000);
        }
        run_owned(s, |_, o| {
            steps += o.stats.steps;
            for l in &o.trace {
                println!("{l}");
            }
            let v = classes(&o);
            for (c, m) in &v {
                println!("seed {i}: {c} {m}");
            }
            bads += !v.is_empty() as u32;
        });
        if bads > 10 {
            break;
        }
    }
    let e = t.elapsed().as_secs_f64();
    println!("{} runs {} steps {:.2}s  {:.0} runs/s  {:.1} Msteps/s", n, steps, e, n as f64 / e, steps as f64 / e / 1e6);
    (bads > 0) as i32
}

/// `selftest RUNS`: every profile, same seed in two processes with different worker layouts and as
/// a replay of its decision log; all event hashes must agree.
pub fn selftest(a: &[String]) -> i32 {
    let n: u64 = a.first().map_or(200, |x| x.parse().unwrap());
    let mut bad = 0;
    for p in PROFILES {
        let n = match *p {
            "large" => 2,
            "capacity" | "abort" | "grow" | "space" => n / 10 + 1,
            _ => n,
        };
        let buf = map_shared(n as usize * 8) as *mut AtomicU64;
        let b2 = map_shared(n as usize * 8) as *mut AtomicU64;
        unsafe {
            for (b, rev) in [(buf, false), (b2, true)] {
                let pid = libc::fork();
                if pid == 0 {
                    for k in 0..n {
                        let i = if rev { n - 1 - k } else { k };
                        run_owned(gen::generate(p, i), |s, o| {
                            let h = o.hash ^ o.sched_hash.rotate_left(17);
                            if rev {
                                let mut s2 = s.clone();
                                s2.choices = Some(pack(&o.log));
                                run_owned(s2, |_, o2| {
                                    if o2.hash ^ o2.sched_hash.rotate_left(17) != h || o2.stats.steps != o.stats.steps {
                                        println!("{p} seed {i}: the replay differs");
                                    }
                                });
                            }
                            (*b.add(i as usize)).store(h, SeqCst);
                        });
                    }
                    exit_now(0);
                }
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0);
            }
            let d = (0..n as usize).filter(|&i| (*buf.add(i)).load(SeqCst) != (*b2.add(i)).load(SeqCst)).count();
            let all = (0..n as usize).fold(0, |h, i| mix(h, (*buf.add(i)).load(SeqCst)));
            println!("{p}: {n} seeds, {d} differ between processes, digest {all:016x}");
            bad += d;
        }
    }
    (bad > 0) as i32
}
