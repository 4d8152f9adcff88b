//! The deterministic simulation runtime: fibers, seeded scheduler, memory model, fault injection.
//!
//! Everything is single-threaded (one OS thread); all state lives in statics accessed through raw
//! pointers so that no Rust reference is held across a fiber switch.
#![allow(static_mut_refs)]

pub mod arena;
pub mod fiber;
pub mod mem;
pub mod vc;

use ::std::collections::HashMap;
use arena::ARENA;
use vc::{NT, VC};

// ---------------------------------------------------------------------------------------------
// Randomness

#[derive(Clone, Copy, Debug)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed ^ 0x9e3779b97f4a7c15;
        let mut next = || {
            s = s.wrapping_add(0x9e3779b97f4a7c15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        };
        Rng(next() | 1, next())
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        let (mut a, b) = (self.0, self.1);
        let r = a.wrapping_add(b);
        self.0 = b;
        a ^= a << 23;
        self.1 = a ^ b ^ (a >> 18) ^ (b >> 5);
        r
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() >> 32) * n) >> 32
    }
    #[inline]
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    #[inline]
    pub fn permille(&mut self, p: u32) -> bool {
        p > 0 && self.below(1000) < p as u64
    }
    #[inline]
    pub fn ppm(&mut self, p: u32) -> bool {
        p > 0 && self.below(1_000_000) < p as u64
    }
    /// Log-uniform value in [lo, hi].
    pub fn log(&mut self, lo: u64, hi: u64) -> u64 {
        let (l, h) = ((lo.max(1) as f64).ln(), (hi.max(1) as f64).ln());
        let x = (self.u64() >> 11) as f64 / (1u64 << 53) as f64;
        ((l + x * (h - l)).exp() as u64).clamp(lo, hi)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}

// ---------------------------------------------------------------------------------------------
// Configuration

#[derive(Clone, Debug, PartialEq)]
pub enum Policy {
    /// Switch to a random runnable thread with this probability (permille) before reads / writes.
    Random { read: u32, write: u32 },
    /// Priority scheduling with this many priority change points within the first `len` steps.
    Pct { depth: u32, len: u32 },
    /// Random switching, plus long stalls of single threads (probability per step in ppm).
    Stall { write: u32, stall_ppm: u32, max: u32 },
    /// Run each thread for a random quantum.
    Quantum { lo: u32, hi: u32 },
}

#[derive(Clone, Debug)]
pub struct Config {
    pub seed: u64,
    pub policy: Policy,
    pub weak: bool,
    /// Permille of loads (in weak mode) that return an older permitted value.
    pub stale_pm: u32,
    /// Permille of `compare_exchange_weak` calls that fail spuriously.
    pub cas_fail_pm: u32,
    /// Number of spurious wakeups / stray unpark tokens that may be injected.
    pub spurious: u32,
    pub soft_limit: u64,
    pub hard_limit: u64,
    pub align: arena::AlignMode,
    pub cpus: usize,
    /// Refuse the n-th table allocation (1-based, counted from `arm_refusal`), 0 = never.
    pub refuse_nth: u32,
    pub replay: Option<Vec<Choice>>,
    /// Permille of retirements the eager collector postpones.
    pub lazy_pm: u32,
}

impl Default for Config {
    fn default() -> Self {
        Config {
            seed: 0,
            policy: Policy::Random { read: 50, write: 100 },
            weak: false,
            stale_pm: 0,
            cas_fail_pm: 0,
            spurious: 0,
            soft_limit: 100_000,
            hard_limit: 600_000,
            align: arena::AlignMode::Malloc,
            cpus: 4,
            refuse_nth: 0,
            replay: None,
            lazy_pm: 0,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum Kind {
    Sched = 0,
    Stale = 1,
    CasFail = 2,
    Spurious = 3,
    Lazy = 4,
    Reclaim = 5,
}

pub const KINDS: [&str; 6] = ["switch", "stale-read", "cas-weak-fail", "spurious-wakeup", "late-reclaim", "reclaim-now"];

/// A deviation from the default policy: at thread `t`'s `k`-th decision within operation `op`.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Choice {
    pub t: u8,
    pub op: u32,
    pub k: u32,
    pub kind: Kind,
    pub val: u32,
}

// ---------------------------------------------------------------------------------------------
// State

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Wait {
    None,
    Parked,
    Mutex(usize),
    Join,
    Cond(usize),
}

pub struct Fiber {
    pub sp: *mut u8,
    entry: Option<Box<dyn FnOnce()>>,
    pub done: bool,
    pub wait: Wait,
    token: bool,
    token_clock: VC,
    arena_on: bool,
    frozen_until: u64,
    prio: u32,
    pub op: u32,
    pub k: u32,
    pub op_step: u64,
    pub steps: u64,
    pub clock: VC,
    pub floor: VC,
    pub acq_pending: VC,
    pub rel_fence: VC,
    pub unwinding: bool,
}

impl Fiber {
    fn new() -> Fiber {
        Fiber {
            sp: ::std::ptr::null_mut(),
            entry: None,
            done: false,
            wait: Wait::None,
            token: false,
            token_clock: VC::ZERO,
            arena_on: false,
            frozen_until: 0,
            prio: 0,
            op: 0,
            k: 0,
            op_step: 0,
            steps: 0,
            clock: VC::ZERO,
            floor: VC::ZERO,
            acq_pending: VC::ZERO,
            rel_fence: VC::ZERO,
            unwinding: false,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
    pub tid: usize,
    pub op: u32,
    pub step: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub stalls: u64,
    pub stale: u64,
    pub cas_fail: u64,
    pub spurious: u64,
    pub refused: u64,
    pub parks: u64,
    pub lock_waits: u64,
    pub late: u64,
    pub max_op_steps: u64,
    pub fair: bool,
    pub loads: u64,
    pub stores: u64,
    pub rmws: u64,
}

struct Solo {
    tid: usize,
    left: u64,
    class: &'static str,
}

pub struct Rt {
    pub active: bool,
    /// Inside a fiber (rather than the host).
    in_fiber: bool,
    pub cfg: Config,
    rng: Rng,
    pub fibers: Vec<Fiber>,
    stacks: Vec<fiber::Stack>,
    host_sp: *mut u8,
    pub cur: usize,
    pub step: u64,
    next_change: Vec<u64>,
    low_prio: u32,
    quantum: u64,
    pub log: Vec<Choice>,
    replay: HashMap<(u8, u32, u32), (Kind, u32), BuildFx>,
    replaying: bool,
    pub violation: Option<Violation>,
    pub stats: Stats,
    pub hash: u64,
    pub sched_hash: u64,
    solo: Option<Solo>,
    /// Solo executions to start: (thread, own step count, bound, class).
    solo_pending: Vec<(usize, u64, u64, &'static str)>,
    spurious_left: u32,
    refuse_armed: bool,
    /// A direct allocation failed in this run.
    pub refused: bool,
    refuse_count: u32,
    pub aborted_by_alloc_error: bool,
    pub ended_early: bool,
    trace_on: bool,
    pub trace: Vec<String>,
    statics: (usize, usize),
    pub max_trace: usize,
    pub coverage: u64,
    last_ev: u64,
}

pub static mut RT: Rt = Rt {
    active: false,
    in_fiber: false,
    cfg: Config {
        seed: 0,
        policy: Policy::Random { read: 0, write: 0 },
        weak: false,
        stale_pm: 0,
        cas_fail_pm: 0,
        spurious: 0,
        soft_limit: 0,
        hard_limit: 0,
        align: arena::AlignMode::Malloc,
        cpus: 4,
        refuse_nth: 0,
        replay: None,
        lazy_pm: 0,
    },
    rng: Rng(1, 2),
    fibers: Vec::new(),
    stacks: Vec::new(),
    host_sp: ::std::ptr::null_mut(),
    cur: 0,
    step: 0,
    next_change: Vec::new(),
    low_prio: 0,
    quantum: 0,
    log: Vec::new(),
    replay: HashMap::with_hasher(BuildFx),
    replaying: false,
    violation: None,
    stats: Stats {
        steps: 0,
        switches: 0,
        stalls: 0,
        stale: 0,
        cas_fail: 0,
        spurious: 0,
        refused: 0,
        parks: 0,
        lock_waits: 0,
        late: 0,
        max_op_steps: 0,
        fair: false,
        loads: 0,
        stores: 0,
        rmws: 0,
    },
    hash: 0,
    sched_hash: 0,
    solo: None,
    solo_pending: Vec::new(),
    spurious_left: 0,
    refuse_armed: false,
    refused: false,
    refuse_count: 0,
    aborted_by_alloc_error: false,
    ended_early: false,
    trace_on: false,
    trace: Vec::new(),
    statics: (0, 0),
    max_trace: 0,
    coverage: 0,
    last_ev: 0,
};

/// A fixed, fast hasher for the runtime's own tables and for the façade's default hasher.
#[derive(Clone, Copy, Default, Debug)]
pub struct BuildFx;
impl BuildFx {
    pub const fn new() -> Self {
        BuildFx
    }
}
#[derive(Clone, Copy, Default, Debug)]
pub struct Fx(u64);
impl ::std::hash::BuildHasher for BuildFx {
    type Hasher = Fx;
    #[inline]
    fn build_hasher(&self) -> Fx {
        Fx(0)
    }
}
impl ::std::hash::Hasher for Fx {
    #[inline]
    fn finish(&self) -> u64 {
        let z = self.0;
        z ^ (z >> 29)
    }
    #[inline]
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    #[inline]
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x9E3779B97F4A7C15);
    }
    #[inline]
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}

// ---------------------------------------------------------------------------------------------
// Basic queries

#[inline]
pub fn active() -> bool {
    unsafe { RT.active && RT.in_fiber }
}
#[inline]
pub fn now() -> u64 {
    unsafe { RT.step }
}
#[inline]
pub fn tid() -> usize {
    unsafe { RT.cur }
}
#[inline]
pub fn cur_clock() -> VC {
    unsafe {
        if active() {
            RT.fibers[RT.cur].clock
        } else {
            VC([u32::MAX; NT])
        }
    }
}
#[inline]
pub fn cfg() -> &'static Config {
    unsafe { &RT.cfg }
}
pub fn stats() -> &'static mut Stats {
    unsafe { &mut RT.stats }
}
pub fn rng() -> &'static mut Rng {
    unsafe { &mut RT.rng }
}

/// Start a new event on the current thread, returning its epoch.
#[inline]
pub fn tick_event() -> (u8, u32) {
    unsafe {
        if !active() {
            return (0, 0);
        }
        let t = RT.cur;
        let c = &mut RT.fibers[t].clock.0[t];
        *c += 1;
        (t as u8, *c)
    }
}

#[inline]
pub fn hash_event(a: u64, b: u64) {
    unsafe {
        RT.hash = (RT.hash.rotate_left(7) ^ a.wrapping_mul(0x9E3779B97F4A7C15) ^ b).wrapping_mul(0xff51afd7ed558ccd);
    }
}

pub fn set_trace(on: bool, max: usize) {
    unsafe {
        RT.trace_on = on;
        RT.max_trace = max;
    }
}
#[inline]
pub fn tracing() -> bool {
    unsafe { RT.trace_on }
}
pub fn trace(f: impl FnOnce() -> String) {
    unsafe {
        if RT.trace_on {
            let was = ARENA.on;
            ARENA.on = false;
            if RT.trace.len() < RT.max_trace {
                let s = f();
                let (t, op) = (RT.cur, RT.fibers.get(RT.cur).map_or(0, |f| f.op));
                let st = RT.step;
                RT.trace.push(format!("{:>7} T{} op{:<4} {}", st, t, op, s));
            }
            ARENA.on = was;
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Entering and leaving the system under test

/// Marks code of the system under test: its allocations go to the simulated heap.
pub struct Inside(bool);
impl Inside {
    #[inline]
    pub fn enter() -> Inside {
        unsafe {
            let was = ARENA.on;
            ARENA.on = RT.active;
            Inside(was)
        }
    }
}
impl Drop for Inside {
    #[inline]
    fn drop(&mut self) {
        unsafe { ARENA.on = self.0 }
    }
}

/// Marks harness code called back from the system under test.
pub struct Outside(bool);
impl Outside {
    #[inline]
    pub fn enter() -> Outside {
        unsafe {
            let was = ARENA.on;
            ARENA.on = false;
            Outside(was)
        }
    }
}
impl Drop for Outside {
    #[inline]
    fn drop(&mut self) {
        unsafe { ARENA.on = self.0 }
    }
}

/// Called by the harness when the current thread starts operation `op`.
pub fn begin_op(op: u32) {
    unsafe {
        let st = RT.step;
        let f = &mut RT.fibers[RT.cur];
        f.op = op;
        f.k = 0;
        f.op_step = f.steps;
        let _ = st;
    }
}

/// Number of own steps the current thread has made in the current operation.
pub fn op_steps() -> u64 {
    unsafe {
        let f = &RT.fibers[RT.cur];
        f.steps - f.op_step
    }
}
pub fn end_op() {
    unsafe {
        let n = op_steps();
        if n > RT.stats.max_op_steps {
            RT.stats.max_op_steps = n;
        }
        RT.fibers[RT.cur].unwinding = false;
    }
}

// ---------------------------------------------------------------------------------------------
// Violations

#[cold]
pub fn violation(class: &str, msg: String) -> ! {
    unsafe {
        ARENA.on = false;
        if !RT.active || !RT.in_fiber {
            eprintln!("violation outside of a run: {class}: {msg}");
            ::std::process::exit(70);
        }
        let v = Violation {
            class: class.to_string(),
            msg,
            tid: RT.cur,
            op: RT.fibers[RT.cur].op,
            step: RT.step,
        };
        trace(|| format!("VIOLATION {} {}", v.class, v.msg));
        RT.violation = Some(v);
        leave_run()
    }
}

/// End the run here and now without a violation (e.g. after a simulated process abort).
#[cold]
pub fn end_run() -> ! {
    unsafe {
        ARENA.on = false;
        RT.ended_early = true;
        leave_run()
    }
}

unsafe fn leave_run() -> ! {
    // Abandon every fiber: the host never switches back into this run.
    let cur = RT.cur;
    RT.in_fiber = false;
    fiber::dst_switch(&mut RT.fibers[cur].sp, RT.host_sp);
    unreachable!()
}

// ---------------------------------------------------------------------------------------------
// Decisions

/// Shared memory that receives a copy of the decision log (slot 0 holds the length), so that it
/// survives a crash of the process.
pub static mut MIRROR: *mut Choice = ::std::ptr::null_mut();
pub const MIRROR_CAP: usize = 1 << 20;

/// Take a decision among `n` options; `pick` chooses one in search mode. 0 is the default.
#[inline]
pub fn decide(kind: Kind, n: u32, pick: impl FnOnce(&mut Rng) -> u32) -> u32 {
    unsafe {
        if n <= 1 {
            return 0;
        }
        let t = RT.cur;
        let f = &mut RT.fibers[t];
        f.k += 1;
        let (op, k) = (f.op, f.k);
        let val = if RT.replaying {
            match RT.replay.get(&(t as u8, op, k)) {
                Some(&(kd, v)) if kd == kind && v < n => v,
                _ => 0,
            }
        } else {
            pick(&mut RT.rng)
        };
        if val != 0 {
            let _o = Outside::enter();
            let c = Choice { t: t as u8, op, k, kind, val };
            if !MIRROR.is_null() && RT.log.len() + 1 < MIRROR_CAP {
                MIRROR.add(1 + RT.log.len()).write(c);
                *(MIRROR as *mut u64) = RT.log.len() as u64 + 1;
            }
            RT.log.push(c);
        }
        val
    }
}

/// Past the soft limit no more faults are injected and scheduling is fair.
#[inline]
pub fn fair_phase() -> bool {
    unsafe { RT.step >= RT.cfg.soft_limit }
}

// ---------------------------------------------------------------------------------------------
// Scheduling

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Point {
    Read,
    Write,
    Spin,
    Other,
}

#[inline]
unsafe fn runnable(i: usize) -> bool {
    let f = &RT.fibers[i];
    !f.done && f.wait == Wait::None && (f.frozen_until <= RT.step || f.frozen_until == 0)
}

#[inline]
unsafe fn ready(i: usize) -> bool {
    let f = &RT.fibers[i];
    !f.done && f.wait == Wait::None
}

unsafe fn switch_to(next: usize) {
    let cur = RT.cur;
    if next == cur {
        return;
    }
    RT.stats.switches += 1;
    RT.sched_hash = (RT.sched_hash.rotate_left(9) ^ ((next as u64) << 56) ^ RT.last_ev).wrapping_mul(0x9E3779B97F4A7C15);
    RT.fibers[cur].arena_on = ARENA.on;
    RT.cur = next;
    ARENA.on = RT.fibers[next].arena_on;
    RT.fibers[next].frozen_until = 0;
    fiber::dst_switch(&mut RT.fibers[cur].sp, RT.fibers[next].sp);
}

/// Cyclic successor of the current thread among those satisfying `p`.
unsafe fn successor(p: unsafe fn(usize) -> bool) -> Option<usize> {
    let n = RT.fibers.len();
    (1..=n).map(|d| (RT.cur + d) % n).find(|&i| p(i))
}

/// Encodes "switch to thread j" relative to the default, so that 0 means default.
#[inline]
unsafe fn enc(default: usize, j: usize) -> u32 {
    let n = RT.fibers.len();
    ((j + n - default) % n) as u32
}
#[inline]
unsafe fn dec(default: usize, v: u32) -> usize {
    (default + v as usize) % RT.fibers.len()
}

unsafe fn random_runnable(r: &mut Rng) -> Option<usize> {
    let mut c = [0usize; NT];
    let mut n = 0;
    for i in 0..RT.fibers.len() {
        if runnable(i) {
            c[n] = i;
            n += 1;
        }
    }
    if n == 0 {
        None
    } else {
        Some(c[r.below(n as u64) as usize])
    }
}

unsafe fn best_prio() -> Option<usize> {
    let mut best = None;
    for i in 0..RT.fibers.len() {
        if runnable(i) && best.map_or(true, |b: usize| RT.fibers[i].prio > RT.fibers[b].prio) {
            best = Some(i);
        }
    }
    best
}

/// A scheduling point: called before every visible operation of a simulated thread.
#[inline]
pub fn sched_point(p: Point, loc: usize) {
    unsafe {
        if !RT.active || !RT.in_fiber {
            return;
        }
        sched_point_slow(p, loc)
    }
}

unsafe fn sched_point_slow(p: Point, loc: usize) {
    RT.step += 1;
    let cur = RT.cur;
    RT.fibers[cur].steps += 1;
    let step = RT.step;
    RT.last_ev = mem::loc_id(loc) << 3 | p as u64;
    if !RT.solo_pending.is_empty() && RT.solo.is_none() {
        if let Some(i) = RT.solo_pending.iter().position(|p| p.0 == cur && p.1 <= RT.fibers[cur].steps) {
            let (tid, _, left, class) = RT.solo_pending.swap_remove(i);
            trace(|| "SOLO: every other thread stops here".into());
            RT.solo = Some(Solo { tid, left, class });
        }
    }
    if let Some(s) = &mut RT.solo {
        if s.tid == cur {
            if s.left == 0 {
                let c = s.class;
                violation(c, format!("T{} exceeded its step bound while every other thread is stopped", cur));
            }
            s.left -= 1;
        }
        return;
    }
    if ::std::thread::panicking() {
        // Never switch in the middle of unwinding: the panic count is per OS thread.
        if step > RT.cfg.hard_limit + 100_000 {
            violation("livelock", "no progress while unwinding".into());
        }
        return;
    }
    if step >= RT.cfg.soft_limit {
        RT.stats.fair = true;
        if step >= RT.cfg.hard_limit {
            let m = describe("step limit reached in the fair phase");
            violation("livelock", m);
        }
        if p == Point::Spin || step % 61 == 0 {
            if let Some(n) = successor(ready) {
                switch_to(n);
            }
        }
        return;
    }
    let val = decide(Kind::Sched, RT.fibers.len() as u32, |r| unsafe { pick_sched(r, p) });
    if val != 0 {
        let n = dec(cur, val);
        if ready(n) {
            switch_to(n);
        }
    }
    // A spurious wakeup of a parked thread, or a stray unpark token.
    if RT.cfg.spurious > 0 {
        maybe_spurious();
    }
}

unsafe fn maybe_spurious() {
    let n = RT.fibers.len() as u32;
    let v = decide(Kind::Spurious, n + 1, |r| {
        if unsafe { RT.spurious_left } > 0 && r.permille(4) {
            1 + r.below(n as u64) as u32
        } else {
            0
        }
    });
    if v != 0 {
        let t = (v - 1) as usize;
        if !RT.fibers[t].done {
            RT.spurious_left = RT.spurious_left.saturating_sub(1);
            RT.stats.spurious += 1;
            trace(|| format!("spurious unpark of T{}", t));
            RT.fibers[t].token = true;
            if RT.fibers[t].wait == Wait::Parked {
                RT.fibers[t].wait = Wait::None;
            }
        }
    }
}

unsafe fn pick_sched(r: &mut Rng, p: Point) -> u32 {
    let cur = RT.cur;
    let target = match RT.cfg.policy {
        Policy::Random { read, write } => {
            let pr = match p {
                Point::Read => read,
                Point::Write => write,
                Point::Spin => 700,
                Point::Other => write,
            };
            if r.permille(pr) {
                random_runnable(r)
            } else {
                None
            }
        }
        Policy::Pct { .. } => {
            if p == Point::Spin {
                RT.low_prio = RT.low_prio.saturating_sub(1);
                RT.fibers[cur].prio = RT.low_prio;
            }
            while let Some(&s) = RT.next_change.last() {
                if RT.step >= s {
                    RT.next_change.pop();
                    RT.low_prio = RT.low_prio.saturating_sub(1);
                    RT.fibers[cur].prio = RT.low_prio;
                } else {
                    break;
                }
            }
            best_prio()
        }
        Policy::Stall { write, stall_ppm, max } => {
            if r.ppm(stall_ppm) {
                let d = r.log(20, max as u64);
                RT.fibers[cur].frozen_until = RT.step + d;
                RT.stats.stalls += 1;
                let t = random_runnable(r);
                if t.is_none() {
                    RT.fibers[cur].frozen_until = 0;
                }
                t
            } else {
                let pr = match p {
                    Point::Read => write / 3,
                    Point::Spin => 700,
                    _ => write,
                };
                if r.permille(pr) {
                    random_runnable(r)
                } else {
                    None
                }
            }
        }
        Policy::Quantum { lo, hi } => {
            if p == Point::Spin || RT.step >= RT.quantum {
                RT.quantum = RT.step + r.range(lo as u64, hi as u64);
                random_runnable(r)
            } else {
                None
            }
        }
    };
    match target {
        Some(t) => enc(cur, t),
        None => 0,
    }
}

/// The current thread cannot continue: run someone else.
pub unsafe fn block(w: Wait) {
    if let Some(s) = &RT.solo {
        if s.tid == RT.cur {
            let c = s.class;
            violation(c, format!("T{} blocked ({:?}) while every other thread is stopped", RT.cur, w));
        }
    }
    RT.fibers[RT.cur].wait = w;
    reschedule();
}

unsafe fn reschedule() {
    let fair = fair_phase();
    // The default does not depend on stalls, which a replay does not repeat as such.
    let default = match successor(ready) {
        Some(d) => d,
        None => {
            let m = describe("no thread can run");
            violation("deadlock", m)
        }
    };
    let next = if fair {
        default
    } else {
        let v = decide(Kind::Sched, RT.fibers.len() as u32, |r| unsafe {
            let t = match RT.cfg.policy {
                Policy::Pct { .. } => best_prio(),
                _ => random_runnable(r),
            };
            t.map_or(0, |t| enc(default, t))
        });
        let n = dec(default, v);
        if ready(n) {
            n
        } else {
            default
        }
    };
    if next == RT.cur {
        return;
    }
    switch_to(next);
}

pub unsafe fn describe(what: &str) -> String {
    let mut s = format!("{what} at step {}:", RT.step);
    for (i, f) in RT.fibers.iter().enumerate() {
        s += &format!(
            " T{i}[op {} {} steps-in-op {}]",
            f.op,
            if f.done { "done".to_string() } else { format!("{:?}", f.wait) },
            f.steps - f.op_step
        );
    }
    s
}

pub fn wake(t: usize) {
    unsafe { RT.fibers[t].wait = Wait::None }
}

/// Wake every thread waiting for the mutex / condvar at this address.
pub fn wake_all(w: &Wait) {
    unsafe {
        for f in RT.fibers.iter_mut() {
            if f.wait == *w {
                f.wait = Wait::None;
            }
        }
    }
}

// --- solo execution: every other thread is stopped -------------------------------------------

/// From now until `solo_end`, only the current thread runs. Exceeding `bound` steps or blocking is
/// a violation of class `class`.
pub fn solo_begin(bound: u64, class: &'static str) {
    unsafe {
        RT.solo = Some(Solo { tid: RT.cur, left: bound, class });
    }
}
/// Like `solo_begin`, once the current thread has made `steps` more steps.
pub fn solo_after(steps: u64, bound: u64, class: &'static str) {
    unsafe {
        let at = RT.fibers[RT.cur].steps + steps;
        RT.solo_pending.push((RT.cur, at, bound, class));
    }
}
pub fn solo_end() -> u64 {
    unsafe {
        let cur = RT.cur;
        RT.solo_pending.retain(|p| p.0 != cur);
        if RT.solo.as_ref().map_or(false, |s| s.tid == cur) {
            return RT.solo.take().map_or(0, |s| s.left);
        }
        0
    }
}
pub fn in_solo() -> bool {
    unsafe { RT.solo.is_some() }
}

// --- park / unpark ----------------------------------------------------------------------------

pub fn park() {
    unsafe {
        if !active() {
            return;
        }
        sched_point(Point::Other, 1);
        let t = RT.cur;
        RT.stats.parks += 1;
        if !RT.fibers[t].token {
            trace(|| "park: blocks".into());
            block(Wait::Parked);
        }
        let f = &mut RT.fibers[t];
        if f.token {
            f.token = false;
            let c = f.token_clock;
            f.clock.join(&c);
        }
        trace(|| "park: returns".into());
    }
}

pub fn unpark(t: usize) {
    unsafe {
        if !active() {
            return;
        }
        sched_point(Point::Other, 2);
        tick_event();
        let c = RT.fibers[RT.cur].clock;
        trace(|| format!("unpark T{}", t));
        let f = &mut RT.fibers[t];
        f.token = true;
        f.token_clock.join(&c);
        if f.wait == Wait::Parked {
            f.wait = Wait::None;
        }
    }
}

pub fn yield_now() {
    sched_point(Point::Spin, 3);
}

// --- threads ------------------------------------------------------------------------------------

/// Spawn a simulated thread (from inside the run). Returns its id.
pub fn spawn(f: Box<dyn FnOnce()>) -> usize {
    unsafe {
        let id = RT.fibers.len();
        assert!(id < NT);
        tick_event();
        let mut fb = Fiber::new();
        fb.clock = RT.fibers[RT.cur].clock;
        fb.clock.0[id] = 1;
        fb.entry = Some(f);
        fb.prio = 1_000_000 + RT.rng.below(1_000_000) as u32;
        while RT.stacks.len() <= id {
            RT.stacks.push(fiber::Stack::new(RT.stacks.len()));
        }
        fb.sp = RT.stacks[id].prepare();
        RT.fibers.push(fb);
        id
    }
}

/// Wait until all other threads are done.
pub fn join_all() {
    unsafe {
        while RT.fibers.iter().enumerate().any(|(i, f)| i != RT.cur && !f.done) {
            block(Wait::Join);
        }
        let mut c = RT.fibers[RT.cur].clock;
        for f in RT.fibers.iter() {
            c.join(&f.clock);
        }
        RT.fibers[RT.cur].clock = c;
    }
}

pub fn fiber_body() -> ! {
    unsafe {
        let id = RT.cur;
        let e = RT.fibers[id].entry.take().unwrap();
        let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(e));
        ARENA.on = false;
        crate::thread::drop_locals();
        if let Err(p) = r {
            let m = panic_text(&*p);
            violation("harness-panic", format!("panic escaped T{}: {}", id, m));
        }
        RT.fibers[id].done = true;
        if id == 0 {
            leave_run();
        }
        for f in RT.fibers.iter_mut() {
            if f.wait == Wait::Join {
                f.wait = Wait::None;
            }
        }
        reschedule();
        unreachable!()
    }
}

pub fn panic_text(p: &(dyn ::std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic payload".into()
    }
}

// --- alloc faults -------------------------------------------------------------------------------

pub fn arm_refusal() {
    unsafe {
        RT.refuse_armed = true;
        RT.refuse_count = 0;
    }
}

pub fn note_refused() {
    unsafe { RT.refused = true }
}

/// Whether this direct allocation (a table) is to be refused.
pub fn refuse_alloc() -> bool {
    unsafe {
        if !active() || !RT.refuse_armed || RT.cfg.refuse_nth == 0 {
            return false;
        }
        RT.refuse_count += 1;
        if RT.refuse_count == RT.cfg.refuse_nth {
            RT.stats.refused += 1;
            RT.refused = true;
            trace(|| "allocation refused".into());
            return true;
        }
        false
    }
}

/// `handle_alloc_error` was called: in reality the process ends here.
pub fn alloc_error() -> ! {
    unsafe {
        if active() {
            if !RT.refused && RT.in_fiber {
                violation("panic", "handle_alloc_error was called although no allocation was refused".into())
            }
            RT.aborted_by_alloc_error = true;
            trace(|| "handle_alloc_error: the simulated process aborts".into());
            end_run()
        }
        panic!("allocation error")
    }
}

/// An address a well-behaved program would never use.
pub fn suspicious(a: usize) -> bool {
    a < 4096 || (a >> 47) != 0 || (a & 0xffff_ffff_ffff) >> 8 == 0xDDDD_DDDD_DD || (a & 0xffff_ffff_ffff) >> 8 == 0xA5A5_A5A5_A5
}

/// Check that an atomic or harness object at `addr` may be accessed by the current thread.
#[inline]
pub fn check_access(addr: usize, size: usize, what: &str) {
    unsafe {
        if !active() {
            return;
        }
        if arena::contains(addr) {
            match arena::block(addr) {
                Some(b) => {
                    if !b.live || addr < b.addr || addr + size > b.addr + b.size {
                        bad_access(addr, size, what);
                    }
                    if b.epoch != 0 && !RT.fibers[RT.cur].clock.saw(b.tid, b.epoch) {
                        let m = format!(
                            "{what} of {addr:#x} in a block allocated by T{} (step {}) that was not published to T{} with synchronisation",
                            b.tid, b.step, RT.cur
                        );
                        violation("race", m);
                    }
                }
                None => bad_access(addr, size, what),
            }
        } else if ARENA.on {
            // Statics and stacks are fine; anything else is a wild pointer.
            let on_stack = RT.stacks.iter().any(|s| s.contains(addr));
            let (lo, hi) = statics();
            if !on_stack && !(addr >= lo && addr < hi) {
                bad_access(addr, size, what);
            }
        }
    }
}

#[cold]
fn bad_access(addr: usize, size: usize, what: &str) -> ! {
    match arena::block(addr) {
        Some(b) if !b.live => violation(
            "uaf",
            format!(
                "{what} of {addr:#x} in a block of {} bytes{} allocated at step {} by T{} and freed at step {} by T{}",
                b.size,
                if b.table { " (table)" } else { "" },
                b.step,
                b.tid,
                b.free_step,
                b.free_tid
            ),
        ),
        Some(b) => violation("wild", format!("{what} of {} bytes at {addr:#x}, outside of block {:?}", size, b)),
        None => violation("wild", format!("{what} of {} bytes at {addr:#x}, which is not allocated", size)),
    }
}

fn statics() -> (usize, usize) {
    extern "C" {
        static __executable_start: u8;
        static _end: u8;
    }
    unsafe {
        if RT.statics.1 == 0 {
            RT.statics = (&__executable_start as *const u8 as usize, &_end as *const u8 as usize);
        }
        RT.statics
    }
}

// ---------------------------------------------------------------------------------------------
// Running

pub struct Outcome {
    pub violation: Option<Violation>,
    pub log: Vec<Choice>,
    pub stats: Stats,
    pub hash: u64,
    pub sched_hash: u64,
    pub alloc_error: bool,
    pub ended_early: bool,
    pub trace: Vec<String>,
}

/// Run `main` as simulated thread 0 under the given configuration.
pub fn run(cfg: Config, main: Box<dyn FnOnce()>) -> Outcome {
    unsafe {
        assert!(!RT.active);
        arena::reset(cfg.align, cfg.seed);
        mem::reset();
        crate::thread::reset_locals();
        let mut rng = Rng::new(cfg.seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0x5bd1e995);
        RT.next_change.clear();
        if let Policy::Pct { depth, len } = cfg.policy {
            for _ in 0..depth {
                RT.next_change.push(rng.range(1, len as u64));
            }
            RT.next_change.sort_by(|a, b| b.cmp(a));
        }
        RT.low_prio = 1_000_000;
        RT.quantum = 0;
        RT.replaying = cfg.replay.is_some();
        RT.replay.clear();
        if let Some(r) = &cfg.replay {
            for c in r {
                RT.replay.insert((c.t, c.op, c.k), (c.kind, c.val));
            }
        }
        RT.spurious_left = cfg.spurious;
        RT.refuse_armed = false;
        RT.refused = false;
        RT.refuse_count = 0;
        RT.aborted_by_alloc_error = false;
        RT.ended_early = false;
        RT.rng = rng;
        RT.cfg = cfg;
        RT.cur = 0;
        RT.step = 0;
        RT.hash = 0;
        RT.sched_hash = 0;
        RT.last_ev = 0;
        RT.log.clear();
        RT.trace.clear();
        RT.violation = None;
        RT.stats = Stats::default();
        RT.solo = None;
        RT.solo_pending.clear();
        // Fibers abandoned by an earlier run are simply forgotten (their boxes leak, by design).
        for f in RT.fibers.drain(..) {
            ::std::mem::forget(f.entry);
        }
        let mut f = Fiber::new();
        f.clock.0[0] = 1;
        f.entry = Some(main);
        f.prio = 2_000_000;
        if RT.stacks.is_empty() {
            RT.stacks.push(fiber::Stack::new(RT.stacks.len()));
        }
        f.sp = RT.stacks[0].prepare();
        RT.fibers.push(f);
        RT.active = true;
        RT.in_fiber = true;
        let sp = RT.fibers[0].sp;
        fiber::dst_switch(&mut RT.host_sp, sp);
        RT.in_fiber = false;
        RT.active = false;
        ARENA.on = false;
        RT.stats.steps = RT.step;
        Outcome {
            violation: RT.violation.take(),
            log: ::std::mem::take(&mut RT.log),
            stats: RT.stats.clone(),
            hash: RT.hash,
            sched_hash: RT.sched_hash,
            alloc_error: RT.aborted_by_alloc_error,
            ended_early: RT.ended_early,
            trace: ::std::mem::take(&mut RT.trace),
        }
    }
}

// --- papaya's hook ------------------------------------------------------------------------------

static mut COPY_CHUNK: usize = usize::MAX;

/// How many entries a blocking resize copies at a time, at most (papaya's `cfg(papaya_sim)` hook).
pub fn copy_chunk() -> usize {
    unsafe { COPY_CHUNK }
}
pub fn set_copy_chunk(n: usize) {
    unsafe { COPY_CHUNK = if n == 0 { usize::MAX } else { n } }
}
