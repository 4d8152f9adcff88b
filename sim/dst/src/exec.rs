//! Executes a scenario against the real map or set inside the simulator and judges it.
#![allow(static_mut_refs)]
use crate::hist::{self, accepts, Ev, History, LenEv, Post, Pre};
use crate::prog::*;
use crate::types::{self, Injected, Raw, H, K, Q, V};
use papaya::{Compute, Guard, HashMap, HashMapRef, HashSet, HashSetRef, LocalGuard, Operation, OwnedGuard, ResizeMode};
use crate::gen::Floor;
use simstd::rt::{self, arena, vc::NT, vc::VC, Inside, Outside};
use std::cell::Cell;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------------------------------------
// Per-run harness state

pub static mut HIST: History = History { evs: Vec::new(), lens: Vec::new(), sweeps: Vec::new() };
static mut CLOCK: u64 = 0;
static mut CX: Vec<Cx> = Vec::new();
pub static mut SC: Option<*const Scenario> = None;
static mut CHANS: [VC; 8] = [VC::ZERO; 8];
pub static mut COUNTS: Counts = Counts { ops: 0, panics: 0, solos: 0, foreign: 0, gives: 0, yields: 0, closure_retries: 0, lin_unknown: 0, held_checks: 0, caller_faults: 0, resizes: 0, nested: 0 };

#[derive(Clone, Copy, Default, Debug)]
pub struct Counts {
    pub ops: u64,
    pub panics: u64,
    pub solos: u64,
    pub foreign: u64,
    pub gives: u64,
    pub yields: u64,
    pub closure_retries: u64,
    pub lin_unknown: u64,
    pub held_checks: u64,
    pub nested: u64,
    pub caller_faults: u64,
    pub resizes: u64,
}

pub fn scen() -> &'static Scenario {
    unsafe { &*SC.unwrap() }
}
fn now() -> u64 {
    unsafe {
        CLOCK += 1;
        CLOCK
    }
}

#[derive(Clone, Copy)]
struct St {
    s: u64,
    sc: VC,
}
fn start() -> St {
    rt::tick_event();
    St { s: now(), sc: rt::cur_clock() }
}

/// What a closure did when called.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Did {
    Val(u32),
    Remove,
    Abort,
    Accept(bool),
}

#[derive(Default)]
struct Cx {
    op: u32,
    /// Events awaiting the end of the operation.
    pend: Vec<Ev>,
    calls: Vec<(Option<u32>, Did)>,
    /// Closure calls until the injected panic.
    panic_at: u32,
    ncalls: u32,
    injected: bool,
    /// What the caller's closure does to the map itself when first called.
    nest: Option<(fn(*mut (), u32), *mut ())>,
}

fn cx() -> &'static mut Cx {
    unsafe { &mut CX[rt::tid()] }
}
fn bad(class: &str, m: String) -> ! {
    rt::violation(class, m)
}
/// A violation found at the end of a run, where the other checks can still be made.
fn note(class: &str, m: String) {
    let _o = Outside::enter();
    unsafe {
        if !NOTES.iter().any(|n| n.0 == class) {
            rt::trace(|| format!("VIOLATION {class} {m}"));
            NOTES.push((class.to_string(), m));
        }
    }
}
pub static mut NOTES: Vec<(String, String)> = Vec::new();

fn push(key: u32, pre: Pre, post: Post, st: St, what: &'static str) {
    let c = cx();
    c.pend.push(Ev { key, pre, post, rep: false, tid: rt::tid() as u8, op: c.op, s: st.s, e: 0, sc: st.sc, ee: (0, 0), ec: VC::ZERO, after: None, what });
}
/// An event that is over now.
fn push_now(key: u32, pre: Pre, post: Post, st: St, what: &'static str, after: Option<usize>) -> usize {
    let c = cx();
    let ee = rt::tick_event();
    let e = now();
    unsafe {
        HIST.evs.push(Ev { key, pre, post, rep: false, tid: rt::tid() as u8, op: c.op, s: st.s, e, sc: st.sc, ee, ec: rt::cur_clock(), after, what });
        HIST.evs.len() - 1
    }
}
/// The operation is over: close its events.
fn settle() {
    let c = cx();
    if c.pend.is_empty() {
        return;
    }
    let ee = rt::tick_event();
    let e = now();
    let base = unsafe { HIST.evs.len() };
    for mut ev in c.pend.drain(..) {
        ev.e = e;
        ev.ee = ee;
        ev.ec = rt::cur_clock();
        unsafe {
            if ev.what == "extend" {
                // The elements of one call go in in order.
                ev.after = (base..HIST.evs.len()).rev().find(|&i| HIST.evs[i].key == ev.key);
            }
            HIST.evs.push(ev)
        }
    }
}

/// Bookkeeping for a call of a caller closure that was shown `found` under `key`.
fn called(key: u32, found: Option<u32>, st: St) {
    let c = cx();
    c.ncalls += 1;
    push_now(key, found.map_or(Pre::None, Pre::Is), Post::Same, st, "shown to closure", None);
    nest(key);
    trip();
}
fn nest(key: u32) {
    if let Some((f, sh)) = cx().nest.take() {
        unsafe { COUNTS.nested += 1 };
        f(sh, key);
    }
}
/// A closure that uses the map it was given to.
fn nested<S: Subject>(sh: *mut (), key: u32) {
    let sh = sh as *mut Shared<S>;
    let map = unsafe { (*sh).map };
    let x = cx().op.wrapping_mul(0x9e37_79b9) ^ unsafe { HIST.evs.len() as u32 };
    let keys = scen().hash.len() as u32;
    let op = match x >> 8 & 7 {
        0 => Op::new(GET, key),
        1 => Op::new(INSERT, key),
        2 => Op::new(REMOVE, key),
        3 => Op::new(INSERT, (key + 1) % keys),
        4 => Op::new(REMOVE, (key + 1) % keys),
        5 => Op::new(ITER, 0),
        6 => Op::new(LEN, 0),
        _ => Op::new(RESERVE, 0).arg(1 + (x >> 12 & 15)),
    };
    rt::trace(|| format!("the closure itself does {}", op.text()));
    let g = map.pin((x >> 16) as u8 & (F_OWNED | F_PIN));
    let mut w: Worker<S> = Worker::new(sh);
    map.call(&op, &g, &mut w);
    check_held(&w.held);
    {
        let _i = Inside::enter();
        drop(g)
    }
}
fn trip() {
    let c = cx();
    if c.panic_at > 0 && c.ncalls == c.panic_at {
        c.injected = true;
        rt::trace(|| "injected panic in the caller's closure".into());
        std::panic::panic_any(Injected);
    }
}

// ---------------------------------------------------------------------------------------------
// References held under a guard

struct Held<R: Raw> {
    k: *const K<R>,
    v: *const V<R>,
    serial: u32,
    op: u32,
}
fn check_held<R: Raw>(h: &[Held<R>]) {
    for h in h {
        unsafe { COUNTS.held_checks += 1 };
        let s = unsafe {
            if h.k.is_null() {
                (*h.v).serial()
            } else {
                (*h.k).serial()
            }
        };
        if s != h.serial {
            bad("ref-changed", format!("a reference obtained in op {} changed from serial {} to {}", h.op, h.serial, s));
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Subjects

pub trait Subject: 'static + Sized {
    type R: Raw;
    type G: 'static;
    fn build(s: &Scenario) -> Self;
    fn pin(&'static self, f: u8) -> Self::G;
    fn flush(g: &Self::G);
    /// Returns whether the guard could be refreshed.
    fn refresh(g: &mut Self::G) -> bool;
    fn call(&'static self, op: &Op, g: &Self::G, w: &mut Worker<Self>);
    fn len_now(&'static self) -> (usize, bool);
    fn quiescent_get(&'static self, key: u32, g: &Self::G) -> Option<u32>;
    fn quiescent_iter(&'static self, g: &Self::G) -> Vec<(u32, u32)>;
    /// The instance stored for a key.
    fn key_instance(&'static self, key: u32, g: &Self::G) -> Option<u32>;
    fn equals(&'static self, o: &'static Self) -> bool;
    fn dup(&'static self) -> Self;
    /// Insert or remove a key of a private map.
    fn put(&'static self, key: u32, present: bool);
}

struct Slot<S: Subject> {
    g: Option<(S::G, Vec<Held<S::R>>)>,
    clock: VC,
}

struct Shared<S: Subject> {
    map: &'static S,
    other: Option<&'static S>,
    slots: Vec<Slot<S>>,
    shared: Option<S::G>,
}

pub struct Worker<S: Subject> {
    sh: *mut Shared<S>,
    held: Vec<Held<S::R>>,
    g: Option<S::G>,
    owned: bool,
    base: u32,
}

pub enum MG<R: Raw> {
    Local(LocalGuard<'static>),
    Owned(OwnedGuard<'static>),
    Pin(HashMapRef<'static, K<R>, V<R>, H, LocalGuard<'static>>),
    PinOwned(HashMapRef<'static, K<R>, V<R>, H, OwnedGuard<'static>>),
}
pub enum SG<R: Raw> {
    Local(LocalGuard<'static>),
    Owned(OwnedGuard<'static>),
    Pin(HashSetRef<'static, K<R>, H, LocalGuard<'static>>),
    PinOwned(HashSetRef<'static, K<R>, H, OwnedGuard<'static>>),
}

macro_rules! m {
    ($T:ident, $s:expr, $g:expr, $name:ident ( $($a:expr),* )) => {
        match $g {
            $T::Local(g) => $s.$name($($a,)* &*g),
            $T::Owned(g) => $s.$name($($a,)* &*g),
            $T::Pin(p) => p.$name($($a),*),
            $T::PinOwned(p) => p.$name($($a),*),
        }
    };
}
macro_rules! it {
    ($T:ident, $s:expr, $g:expr, $name:ident, $i:ident => $b:expr) => {
        match $g {
            $T::Local(g) => { let $i = $s.$name(&*g); $b }
            $T::Owned(g) => { let $i = $s.$name(&*g); $b }
            $T::Pin(p) => { let $i = p.$name(); $b }
            $T::PinOwned(p) => { let $i = p.$name(); $b }
        }
    };
}
macro_rules! inside {
    ($e:expr) => {{
        let _i = Inside::enter();
        $e
    }};
}

fn mode(s: &Scenario) -> ResizeMode {
    if s.incremental == 0 {
        ResizeMode::Blocking
    } else {
        ResizeMode::Incremental(if s.incremental == NO_CHUNK { 0 } else { s.incremental })
    }
}

impl<S: Subject> Worker<S> {
    fn new(sh: *mut Shared<S>) -> Self {
        Worker { sh, held: Vec::new(), g: None, owned: false, base: 0 }
    }
    fn hold(&mut self, k: *const K<S::R>, v: *const V<S::R>, serial: u32) {
        let op = cx().op;
        if self.held.len() >= 12 {
            let i = rt_pick(12);
            self.held.swap_remove(i);
        }
        self.held.push(Held { k, v, serial, op });
    }
    fn key(&mut self, k: &K<S::R>, id: u32) {
        let s = k.serial();
        if types::obj(s).id != id {
            bad("wrong-key", format!("asked for key {}, was given key {} (serial {})", id, types::obj(s).id, s));
        }
        self.hold(k, std::ptr::null(), s);
    }
    fn val(&mut self, v: &V<S::R>) -> u32 {
        let s = v.serial();
        self.hold(std::ptr::null(), v, s);
        s
    }
}

/// A deterministic choice that does not depend on the schedule's random stream.
fn rt_pick(n: usize) -> usize {
    let c = cx();
    (c.op as usize * 7 + c.pend.len()) % n
}

fn did(found: Option<u32>, d: Did, what: &str) {
    let c = cx();
    if !c.calls.iter().any(|&x| x == (found, d)) {
        let calls = format!("{:?}", c.calls);
        bad("closure", format!("{what}: the effect ({:?} -> {:?}) does not stem from any call of the closure: {calls}", found, d));
    }
}

// ---------------------------------------------------------------------------------------------
// Map

pub struct Map<R: Raw>(HashMap<K<R>, V<R>, H>);

fn mg<R: Raw>(m: &'static HashMap<K<R>, V<R>, H>, f: u8) -> MG<R> {
    let _i = Inside::enter();
    match (f & F_PIN != 0, f & F_OWNED != 0) {
        (false, false) => MG::Local(m.guard()),
        (false, true) => MG::Owned(m.owned_guard()),
        (true, false) => MG::Pin(m.pin()),
        (true, true) => MG::PinOwned(m.pin_owned()),
    }
}

impl<R: Raw> Subject for Map<R> {
    type R = R;
    type G = MG<R>;

    fn build(s: &Scenario) -> Self {
        let _i = Inside::enter();
        let mut b = HashMap::builder().hasher(H).resize_mode(mode(s)).collector(seize::Collector::new().batch_size(s.batch.max(1)));
        if s.cap > 0 {
            b = b.capacity(s.cap);
        }
        Map(b.build())
    }
    fn pin(&'static self, f: u8) -> MG<R> {
        mg(&self.0, f)
    }
    fn flush(g: &MG<R>) {
        let _i = Inside::enter();
        match g {
            MG::Local(g) => g.flush(),
            MG::Owned(g) => g.flush(),
            _ => {}
        }
    }
    fn refresh(g: &mut MG<R>) -> bool {
        let _i = Inside::enter();
        match g {
            MG::Local(g) => g.refresh(),
            MG::Owned(g) => g.refresh(),
            _ => return false,
        }
        true
    }
    fn len_now(&'static self) -> (usize, bool) {
        inside!((self.0.len(), self.0.is_empty()))
    }
    fn quiescent_get(&'static self, key: u32, g: &MG<R>) -> Option<u32> {
        let q = Q::<R>(key, PhantomData);
        let r = inside!(m!(MG, self.0, g, get(&q)));
        r.map(|v| v.serial())
    }
    fn key_instance(&'static self, key: u32, g: &MG<R>) -> Option<u32> {
        let q = Q::<R>(key, PhantomData);
        let r = inside!(m!(MG, self.0, g, get_key_value(&q)));
        r.map(|(k, _)| k.serial())
    }
    fn quiescent_iter(&'static self, g: &MG<R>) -> Vec<(u32, u32)> {
        let mut out = Vec::new();
        let _i = Inside::enter();
        it!(MG, self.0, g, iter, i => for (k, v) in i {
            let _o = Outside::enter();
            out.push((k.id(), v.serial()));
        });
        {
            // `out` grew outside of the arena only.
        }
        out
    }
    fn equals(&'static self, o: &'static Self) -> bool {
        inside!(self.0 == o.0)
    }
    fn dup(&'static self) -> Self {
        inside!(Map(self.0.clone()))
    }
    fn put(&'static self, key: u32, present: bool) {
        let g = self.pin(0);
        if present {
            let (k, v) = (K::<R>::new(key), V::<R>::new(key));
            inside!(m!(MG, self.0, &g, insert(k, v)));
        } else {
            let q = Q::<R>(key, PhantomData);
            inside!(m!(MG, self.0, &g, remove(&q)));
        }
        inside!(drop(g));
    }

    fn call(&'static self, op: &Op, g: &MG<R>, w: &mut Worker<Self>) {
        let map = &self.0;
        let &Op(code, k, a, _, _, _) = op;
        let st = start();
        let q = Q::<R>(k, PhantomData);
        cx().calls.clear();
        match code {
            GET => {
                let r = inside!(m!(MG, map, g, get(&q)));
                match r {
                    Some(v) => push(k, Pre::Is(w.val(v)), Post::Same, st, "get"),
                    None => push(k, Pre::None, Post::Same, st, "get"),
                }
            }
            GET_KV => {
                let r = inside!(m!(MG, map, g, get_key_value(&q)));
                match r {
                    Some((kk, v)) => {
                        w.key(kk, k);
                        push(k, Pre::Is(w.val(v)), Post::Same, st, "get_key_value")
                    }
                    None => push(k, Pre::None, Post::Same, st, "get_key_value"),
                }
            }
            CONTAINS => {
                let r = inside!(m!(MG, map, g, contains_key(&q)));
                push(k, if r { Pre::Some } else { Pre::None }, Post::Same, st, "contains_key");
            }
            INSERT => {
                let (kk, v) = (K::new(k), V::new(k));
                let n = v.serial();
                let r = inside!(m!(MG, map, g, insert(kk, v)));
                let pre = r.map_or(Pre::None, |o| Pre::Is(w.val(o)));
                push(k, pre, Post::Val(n), st, "insert");
            }
            TRY_INSERT => {
                let (kk, v) = (K::new(k), V::new(k));
                let n = v.serial();
                let r = inside!(m!(MG, map, g, try_insert(kk, v)));
                match r {
                    Ok(v) => {
                        if w.val(v) != n {
                            bad("closure", format!("try_insert returned value {} instead of the inserted {}", v.serial(), n));
                        }
                        push(k, Pre::None, Post::Val(n), st, "try_insert")
                    }
                    Err(e) => {
                        let cur = w.val(e.current);
                        if e.not_inserted.serial() != n {
                            bad("closure", "try_insert handed back another value than the caller's".into());
                        }
                        inside!(drop(e));
                        push(k, Pre::Is(cur), Post::Same, st, "try_insert")
                    }
                }
            }
            TRY_INSERT_WITH => {
                let made = Cell::new(0);
                let kk = K::new(k);
                let r = inside!(m!(MG, map, g, try_insert_with(kk, || make::<R>(k, &made))));
                match r {
                    Ok(v) => {
                        let n = w.val(v);
                        if n != made.get() {
                            bad("closure", format!("try_insert_with returned value {} but the closure made {}", n, made.get()));
                        }
                        push(k, Pre::None, Post::Val(n), st, "try_insert_with")
                    }
                    Err(v) => push(k, Pre::Is(w.val(v)), Post::Same, st, "try_insert_with"),
                }
            }
            GET_OR_INSERT => {
                let (kk, v) = (K::new(k), V::new(k));
                let n = v.serial();
                let r = inside!(m!(MG, map, g, get_or_insert(kk, v)));
                let s = w.val(r);
                if R::ZERO {
                    // The value does not tell which it was.
                    push(k, Pre::Any, Post::Val(s), st, "get_or_insert")
                } else if s == n {
                    push(k, Pre::None, Post::Val(n), st, "get_or_insert")
                } else {
                    push(k, Pre::Is(s), Post::Same, st, "get_or_insert")
                }
            }
            GET_OR_INSERT_WITH => {
                let made = Cell::new(0);
                let kk = K::new(k);
                let r = inside!(m!(MG, map, g, get_or_insert_with(kk, || make::<R>(k, &made))));
                let s = w.val(r);
                if R::ZERO {
                    // The value does not tell which it was.
                    push(k, Pre::Any, Post::Val(s), st, "get_or_insert_with")
                } else if s == made.get() {
                    push(k, Pre::None, Post::Val(s), st, "get_or_insert_with")
                } else {
                    push(k, Pre::Is(s), Post::Same, st, "get_or_insert_with")
                }
            }
            UPDATE => {
                let kk = K::new(k);
                let r = inside!(m!(MG, map, g, update(kk, |v| remake::<R>(k, v, st))));
                match r {
                    Some(v) => {
                        let n = w.val(v);
                        let old = made_from(n);
                        push(k, Pre::Is(old), Post::Val(n), st, "update")
                    }
                    None => push(k, Pre::None, Post::Same, st, "update"),
                }
            }
            UPDATE_OR_INSERT => {
                let kk = K::new(k);
                let (n, made) = (Cell::new(0), Cell::new(0));
                let r = if a & 1 == 0 {
                    let v = V::new(k);
                    n.set(v.serial());
                    inside!(m!(MG, map, g, update_or_insert(kk, |v| remake::<R>(k, v, st), v)))
                } else {
                    inside!(m!(MG, map, g, update_or_insert_with(kk, |v| remake::<R>(k, v, st), || make::<R>(k, &made))))
                };
                let s = w.val(r);
                if R::ZERO {
                    // The value does not tell which it was.
                    push(k, Pre::Any, Post::Val(s), st, "update_or_insert")
                } else if s == n.get() || s == made.get() {
                    push(k, Pre::None, Post::Val(s), st, "update_or_insert")
                } else {
                    let old = made_from(s);
                    push(k, Pre::Is(old), Post::Val(s), st, "update_or_insert")
                }
            }
            COMPUTE => {
                // a: bits 0-1: on presence (0 update, 1 remove, 2 abort, 3 by value), bit 2: on absence
                // (0 insert, 1 abort), bit 3: absence -> Remove (documented panic).
                let kk = K::new(k);
                let r = inside!(m!(MG, map, g, compute(kk, |e: Option<(&K<R>, &V<R>)>| {
                    let _o = Outside::enter();
                    let found = e.map(|(kk, v)| {
                        let s = kk.serial();
                        if types::obj(s).id != k {
                            bad("wrong-key", format!("compute of key {} was shown key {}", k, types::obj(s).id));
                        }
                        v.serial()
                    });
                    types::user_code();
                    called(k, found, st);
                    let act = match found {
                        Some(s) => match a & 3 {
                            3 => s % 3,
                            x => x,
                        },
                        None if a & 8 != 0 => 1,
                        None => if a & 4 != 0 { 2 } else { 0 },
                    };
                    let c = cx();
                    match act {
                        0 => {
                            let v = V::new(k);
                            c.calls.push((found, Did::Val(v.serial())));
                            Operation::Insert(v)
                        }
                        1 => {
                            c.calls.push((found, Did::Remove));
                            Operation::Remove
                        }
                        _ => {
                            c.calls.push((found, Did::Abort));
                            Operation::Abort(c.calls.len())
                        }
                    }
                })));
                match r {
                    Compute::Inserted(kk, v) => {
                        w.key(kk, k);
                        let n = w.val(v);
                        did(None, Did::Val(n), "compute: inserted");
                        push(k, Pre::None, Post::Val(n), st, "compute")
                    }
                    Compute::Updated { old: (ok, ov), new: (nk, nv) } => {
                        w.key(ok, k);
                        w.key(nk, k);
                        let (o, n) = (w.val(ov), w.val(nv));
                        did(Some(o), Did::Val(n), "compute: updated");
                        push(k, Pre::Is(o), Post::Val(n), st, "compute")
                    }
                    Compute::Removed(kk, v) => {
                        w.key(kk, k);
                        let o = w.val(v);
                        did(Some(o), Did::Remove, "compute: removed");
                        push(k, Pre::Is(o), Post::None, st, "compute")
                    }
                    Compute::Aborted(t) => {
                        let c = cx();
                        if t == 0 || c.calls.get(t - 1).map(|c| c.1) != Some(Did::Abort) {
                            bad("closure", format!("compute aborted with {t}, but its calls were {:?}", c.calls));
                        }
                    }
                }
            }
            REMOVE => {
                let r = inside!(m!(MG, map, g, remove(&q)));
                match r {
                    Some(v) => push(k, Pre::Is(w.val(v)), Post::None, st, "remove"),
                    None => push(k, Pre::None, Post::Same, st, "remove"),
                }
            }
            REMOVE_ENTRY => {
                let r = inside!(m!(MG, map, g, remove_entry(&q)));
                match r {
                    Some((kk, v)) => {
                        w.key(kk, k);
                        push(k, Pre::Is(w.val(v)), Post::None, st, "remove_entry")
                    }
                    None => push(k, Pre::None, Post::Same, st, "remove_entry"),
                }
            }
            REMOVE_IF => {
                let r = inside!(m!(MG, map, g, remove_if(&q, |kk: &K<R>, v: &V<R>| {
                    let _o = Outside::enter();
                    if kk.id() != k {
                        bad("wrong-key", format!("remove_if of key {} was shown key {}", k, kk.id()));
                    }
                    let s = v.serial();
                    types::user_code();
                    called(k, Some(s), st);
                    let y = accepts(a, s);
                    cx().calls.push((Some(s), Did::Accept(y)));
                    y
                })));
                match r {
                    Ok(Some((kk, v))) => {
                        w.key(kk, k);
                        let s = w.val(v);
                        did(Some(s), Did::Accept(true), "remove_if: removed");
                        push(k, Pre::Is(s), Post::None, st, "remove_if")
                    }
                    Ok(None) => push(k, Pre::None, Post::Same, st, "remove_if"),
                    Err((kk, v)) => {
                        w.key(kk, k);
                        let s = w.val(v);
                        did(Some(s), Did::Accept(false), "remove_if: refused");
                        push(k, Pre::Is(s), Post::Same, st, "remove_if")
                    }
                }
            }
            CLEAR => {
                sweep_begin(st, "clear", None, op.3 & F_FOREIGN != 0);
                inside!(m!(MG, map, g, clear()));
                sweep_end(st, "clear", None);
            }
            RETAIN => {
                sweep_begin(st, "retain", Some(a), op.3 & F_FOREIGN != 0);
                let f = |kk: &K<R>, v: &V<R>| {
                    let _o = Outside::enter();
                    let (id, s) = (kk.id(), v.serial());
                    types::user_code();
                    called(id, Some(s), st);
                    accepts(a, s)
                };
                {
                    let _i = Inside::enter();
                    // `HashMapRef::retain` takes `&mut self`.
                    #[allow(invalid_reference_casting)]
                    match g {
                        MG::Local(g) => map.retain(f, g),
                        MG::Owned(g) => map.retain(f, g),
                        MG::Pin(p) => unsafe { (*(p as *const _ as *mut HashMapRef<'static, K<R>, V<R>, H, LocalGuard<'static>>)).retain(f) },
                        MG::PinOwned(p) => unsafe { (*(p as *const _ as *mut HashMapRef<'static, K<R>, V<R>, H, OwnedGuard<'static>>)).retain(f) },
                    }
                }
                sweep_end(st, "retain", Some(a));
            }
            ITER => {
                // a: bits 0-1 kind, bits 2-3 nested action, bits 4..: stop after that many items (0 = never)
                let (kind, nest, stop) = (a & 3, a >> 2 & 3, a >> 4);
                let mut seen = Seen::new(st, "iter");
                let _i = Inside::enter();
                macro_rules! each {
                    ($i:ident, $x:ident => $kv:expr) => {{
                        for $x in $i {
                            let _o = Outside::enter();
                            let (kk, v): (Option<&K<R>>, Option<&V<R>>) = $kv;
                            let id = match (kk, v) {
                                (Some(kk), _) => {
                                    let i = kk.id();
                                    w.hold(kk, std::ptr::null(), kk.serial());
                                    i
                                }
                                (_, Some(v)) => types::obj(v.serial()).id,
                                _ => unreachable!(),
                            };
                            let s = v.map(|v| w.val(v));
                            seen.item(id, s);
                            match nest {
                                1 => self.call(&Op::new(REMOVE, id), g, w),
                                2 => self.call(&Op::new(INSERT, (id + 1) % scen().hash.len() as u32), g, w),
                                3 => self.call(&Op::new(GET, id), g, w),
                                _ => {}
                            }
                            if stop > 0 && seen.n >= stop {
                                break;
                            }
                        }
                    }};
                }
                match kind {
                    0 => it!(MG, map, g, iter, i => each!(i, x => (Some(x.0), Some(x.1)))),
                    1 => it!(MG, map, g, keys, i => each!(i, x => (Some(x), None))),
                    2 => it!(MG, map, g, values, i => each!(i, x => (None, Some(x)))),
                    _ => match g {
                        MG::Pin(p) => { let i = p.into_iter(); each!(i, x => (Some(x.0), Some(x.1))) }
                        MG::PinOwned(p) => { let i = p.into_iter(); each!(i, x => (Some(x.0), Some(x.1))) }
                        g => it!(MG, map, g, iter, i => each!(i, x => (Some(x.0), Some(x.1)))),
                    },
                }
                drop(_i);
                seen.done(stop == 0 || seen.n < stop);
            }
            LEN => {
                let n = inside!(match g { MG::Pin(p) => p.len(), MG::PinOwned(p) => p.len(), _ => map.len() });
                len_ev(st, n, None);
            }
            IS_EMPTY => {
                let n = inside!(match g { MG::Pin(p) => p.is_empty(), MG::PinOwned(p) => p.is_empty(), _ => map.is_empty() });
                len_ev(st, 0, Some(n));
            }
            RESERVE => inside!(m!(MG, map, g, reserve(a as usize))),
            RESERVE_HUGE => inside!(m!(MG, map, g, reserve(huge(a)))),
            CLONE => {
                let base = unsafe { types::CLONES.len() };
                let mut seen = Seen::new(st, "clone");
                unsafe { types::CLONE_PANIC[rt::tid()] = op.4 as u32 };
                let r = catch_unwind(AssertUnwindSafe(|| inside!(map.clone())));
                unsafe { types::CLONE_PANIC[rt::tid()] = 0 };
                // Every value the clone read was in the map.
                let mut expect: Vec<(u32, u32)> = Vec::new();
                for c in unsafe { types::CLONES[base..].to_vec() } {
                    if c.0 == rt::tid() && !types::obj(c.1).is_key {
                        seen.item(types::obj(c.1).id, Some(c.1));
                        expect.retain(|e| e.0 != types::obj(c.1).id);
                        expect.push((types::obj(c.1).id, c.2));
                    }
                }
                match r {
                    Err(p) => {
                        cx().injected = p.downcast_ref::<Injected>().is_some();
                        std::panic::resume_unwind(p)
                    }
                    Ok(m) => {
                        seen.done(true);
                        let m2 = private(Map::<R>(m));
                        check_private(m2, expect, "clone");
                        mutate_private(m2);
                        drop_private(m2);
                    }
                }
            }
            DEBUG => {
                let mut seen = Seen::new(st, "debug");
                let mut out = String::new();
                {
                    let _i = Inside::enter();
                    let s = match g {
                        MG::Pin(p) => format!("{:?}", p),
                        MG::PinOwned(p) => format!("{:?}", p),
                        _ => format!("{:?}", map),
                    };
                    let _o = Outside::enter();
                    out.push_str(&s);
                    let _i = Inside::enter();
                    drop(s);
                }
                let body = out.strip_prefix('{').and_then(|s| s.strip_suffix('}'));
                let Some(body) = body else { bad("format", format!("unexpected Debug output {out}")) };
                for p in body.split(", ").filter(|p| !p.is_empty()) {
                    let kv = p.split_once(": ").and_then(|(k, v)| Some((k.strip_prefix('k')?.parse().ok()?, v.strip_prefix('v')?.parse().ok()?)));
                    let Some((k, v)) = kv else { bad("format", format!("unexpected Debug output {out}")) };
                    seen.item(k, Some(v));
                }
                seen.done(true);
            }
            SERIALIZE => {
                let mut seen = Seen::new(st, "serialize");
                let mut out = FailWriter { buf: Vec::new(), left: if a == 0 { usize::MAX } else { a as usize } };
                let ok = {
                    let _i = Inside::enter();
                    let r = match g {
                        MG::Pin(p) => serde_json::to_writer(&mut out, p),
                        MG::PinOwned(p) => serde_json::to_writer(&mut out, p),
                        _ => serde_json::to_writer(&mut out, map),
                    };
                    r.is_ok()
                };
                if ok {
                    // Pairs in their order of appearance; a key may legitimately be yielded twice if it
                    // was removed and inserted again in between, which `Seen` decides.
                    let text = String::from_utf8_lossy(&out.buf).into_owned();
                    let Some(body) = text.strip_prefix('{').and_then(|o| o.strip_suffix('}')) else { bad("format", format!("unexpected serialized form {text}")) };
                    for p in body.split(',').filter(|p| !p.is_empty()) {
                        let kv = p.split_once(':').and_then(|(k, v)| Some((k.strip_prefix('"')?.strip_suffix('"')?.parse().ok()?, v.parse().ok()?)));
                        let Some((k, v)) = kv else { bad("format", format!("unexpected serialized form {text}")) };
                        seen.item(k, Some(v));
                    }
                    seen.done(true);
                } else if a == 0 {
                    bad("format", "serialization failed although the writer did not".into());
                } else {
                    unsafe { COUNTS.caller_faults += 1 };
                }
            }
            EXTEND => {
                let n = scen().hash.len() as u32;
                let it = Feed { st, k, a, n, i: 0, hint: a >> 8 & 7, last: None, make: |k| { let v = V::<R>::new(k); let s = v.serial(); ((K::<R>::new(k), v), s) } };
                inside!({ let mut r = map; r.extend(it) });
            }
            BULK if a >> 12 & 7 >= 6 => plain_map(k, a),
            BULK => bulk_map::<R>(k, a),
            EQ => {
                // Comparing a map to itself while others modify it must simply not fail.
                let _ = inside!(match g { MG::Pin(p) => p.map() == map, _ => map == map });
            }
            _ => bad("harness", format!("unknown op {code}")),
        }
    }
}

pub fn huge(a: u32) -> usize {
    match a {
        0 => usize::MAX,
        1 => usize::MAX / 8,
        2 => 1 << 59,
        3 => 1 << 60,
        _ => isize::MAX as usize,
    }
}


/// Source of the elements for `extend` and friends: keys are a fixed function of (k, a).
struct Feed<T> {
    st: St,
    k: u32,
    a: u32,
    n: u32,
    i: u32,
    hint: u32,
    last: Option<usize>,
    make: fn(u32) -> (T, u32),
}
fn feed_key(k: u32, a: u32, i: u32, n: u32) -> u32 {
    (k + i * (1 + (a >> 4 & 3))) % n
}
impl<T> Iterator for Feed<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let _o = Outside::enter();
        // The element handed out last is in by now.
        if self.i >= (self.a & 15) {
            return None;
        }
        types::user_code();
        let c = cx();
        c.ncalls += 1;
        trip();
        let key = feed_key(self.k, self.a, self.i, self.n);
        self.i += 1;
        let (t, s) = (self.make)(key);
        let st = start();
        // A map takes the new value, a set keeps the element it has.
        push(key, Pre::Any, if scen().set { Post::IfAbsent(s) } else { Post::Val(s) }, st, "extend");
        Some(t)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint {
            0 => (0, None),
            1 => ((self.a & 15) as usize, Some((self.a & 15) as usize)),
            2 => (1, None),
            3 => (40, Some(40)),
            _ => (0, Some(0)),
        }
    }
}

struct FailWriter {
    buf: Vec<u8>,
    left: usize,
}
impl std::io::Write for FailWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let _o = Outside::enter();
        if self.left < b.len() {
            return Err(std::io::Error::from(std::io::ErrorKind::Other));
        }
        self.left -= b.len();
        self.buf.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn make<R: Raw>(k: u32, made: &Cell<u32>) -> V<R> {
    let _o = Outside::enter();
    types::user_code();
    let c = cx();
    c.ncalls += 1;
    nest(k);
    trip();
    if made.get() != 0 {
        bad("closure", "a FnOnce closure ran twice".into());
    }
    let v = V::new(k);
    made.set(v.serial());
    v
}
fn remake<R: Raw>(k: u32, old: &V<R>, st: St) -> V<R> {
    let _o = Outside::enter();
    let s = old.serial();
    types::user_code();
    called(k, Some(s), st);
    let v = V::new(k);
    cx().calls.push((Some(s), Did::Val(v.serial())));
    v
}
fn made_from(n: u32) -> u32 {
    let c = cx();
    for &(f, d) in &c.calls {
        if d == Did::Val(n) {
            return f.unwrap();
        }
    }
    bad("closure", format!("the installed value {} was not made by the closure: {:?}", n, c.calls))
}

fn len_ev(st: St, val: usize, empty: Option<bool>) {
    let e = now();
    unsafe { HIST.lens.push(LenEv { tid: rt::tid() as u8, op: cx().op, s: st.s, e, val, empty, quiescent: false }) }
}

fn sweep_begin(st: St, what: &'static str, pred: Option<u32>, foreign: bool) {
    if foreign {
        return;
    }
    unsafe { HIST.sweeps.push((st.s, u64::MAX)) };
    for key in 0..scen().hash.len() as u32 {
        push(key, Pre::Some, pred.map_or(Post::None, Post::Reject), st, what);
        cx().pend.last_mut().unwrap().rep = true;
    }
}
fn sweep_end(st: St, what: &'static str, pred: Option<u32>) {
    let e = now();
    unsafe {
        if let Some(s) = HIST.sweeps.iter_mut().find(|s| s.0 == st.s) {
            s.1 = e;
        }
    }
    for key in 0..scen().hash.len() as u32 {
        push(key, Pre::Any, pred.map_or(Post::None, Post::Filter), st, what);
    }
}

/// The obligations of an iteration.
struct Seen {
    st: St,
    what: &'static str,
    /// Last yield event per key.
    last: Vec<Option<usize>>,
    n: u32,
}
impl Seen {
    fn new(st: St, what: &'static str) -> Seen {
        Seen { st, what, last: vec![None; scen().hash.len()], n: 0 }
    }
    fn item(&mut self, key: u32, val: Option<u32>) {
        unsafe { COUNTS.yields += 1 };
        if key as usize >= self.last.len() {
            bad("wrong-key", format!("{} yielded key {}, which nobody inserted", self.what, key));
        }
        if let Some(v) = val {
            if v as usize >= unsafe { types::REG.len() } || types::obj(v).id != key {
                bad("iter", format!("{} yielded key {} with value {} of another key", self.what, key, v));
            }
        }
        self.n += 1;
        let strict = strict_iter();
        let prev = self.last[key as usize];
        if let (Some(p), true) = (prev, strict) {
            let gap = push_now(key, Pre::None, Post::Same, self.st, "absent between two yields", Some(p));
            self.last[key as usize] = Some(push_now(key, val.map_or(Pre::Some, Pre::Is), Post::Same, self.st, self.what, Some(gap)));
        } else {
            self.last[key as usize] = Some(push_now(key, val.map_or(Pre::Some, Pre::Is), Post::Same, self.st, self.what, None));
        }
    }
    fn done(&mut self, exhausted: bool) {
        if exhausted && strict_iter() {
            for (key, l) in self.last.iter().enumerate() {
                if l.is_none() {
                    push(key as u32, Pre::None, Post::Same, self.st, "not yielded");
                }
            }
        }
    }
}
/// Completeness of iterations is judged against real time.
fn strict_iter() -> bool {
    true
}

// ---- private maps ------------------------------------------------------------------------------

fn private<S: Subject>(s: S) -> &'static S {
    let _i = Inside::enter();
    Box::leak(Box::new(s))
}
fn drop_private<S: Subject>(s: &'static S) {
    let _i = Inside::enter();
    unsafe { drop(Box::from_raw(s as *const S as *mut S)) }
}
fn contents<S: Subject>(m: &'static S) -> Vec<(u32, u32)> {
    let g = m.pin(F_PIN);
    let mut v = m.quiescent_iter(&g);
    inside!(drop(g));
    v.sort();
    v
}
/// A value that is not known.
const ANY: u32 = u32::MAX;

fn check_private<S: Subject>(m: &'static S, mut expect: Vec<(u32, u32)>, what: &str) {
    expect.sort();
    let mut got = contents(m);
    for g in &mut got {
        if expect.contains(&(g.0, ANY)) {
            g.1 = ANY;
        }
    }
    if got != expect {
        bad("bulk", format!("{what}: expected (key, value) pairs {:?}, found {:?}", expect, got));
    }
    let (n, e) = m.len_now();
    if n != expect.len() || e != expect.is_empty() {
        bad("bulk", format!("{what}: len() = {}, is_empty() = {} with {} elements", n, e, expect.len()));
    }
    let g = m.pin(0);
    for &(k, v) in &expect {
        let found = m.quiescent_get(k, &g);
        if found != Some(v) && (found.is_none() || v != ANY) {
            bad("bulk", format!("{what}: lookup of key {} does not find value {}", k, v));
        }
    }
    inside!(drop(g));
}
/// `==` holds between copies, and not after any kind of change.
fn check_equality<S: Subject>(m: &'static S, map: bool, what: &str) {
    let have = contents(m);
    let absent = (0..scen().hash.len() as u32).find(|k| have.iter().all(|x| x.0 != *k));
    let mut unequal = vec![];
    if let Some(&(k, _)) = have.first() {
        unequal.push(vec![(k, false)]);
        if map {
            // The same key with another value.
            unequal.push(vec![(k, true)]);
        }
    }
    if let Some(a) = absent {
        unequal.push(vec![(a, true)]);
        if let Some(&(k, _)) = have.last() {
            unequal.push(vec![(a, true), (k, false)]);
        }
    }
    for changes in unequal {
        let c = private(m.dup());
        if !m.equals(c) || !c.equals(m) {
            bad("bulk", format!("{what}: a copy is not equal to its source ({} elements)", have.len()));
        }
        for &(k, p) in &changes {
            c.put(k, p);
        }
        let (a, b) = (m.equals(c), c.equals(m));
        if a || b {
            bad("bulk", format!("{what}: contents {:?} compare equal to the same after {:?} (key, present) ({a}, {b})", have, changes));
        }
        drop_private(c);
    }
}
/// Changes to a copy must not touch its source.
fn mutate_private<R: Raw>(m: &'static Map<R>) {
    let before = contents(m);
    let g = m.pin(0);
    let mut w: Vec<(u32, u32)> = before.clone();
    if let Some(&(k, _)) = before.first() {
        let q = Q::<R>(k, PhantomData);
        inside!(m!(MG, m.0, &g, remove(&q)));
        w.retain(|x| x.0 != k);
    }
    if let Some(&(k, _)) = before.last() {
        let v = V::<R>::new(k);
        let s = v.serial();
        let kk = K::new(k);
        inside!(m!(MG, m.0, &g, insert(kk, v)));
        w.retain(|x| x.0 != k);
        w.push((k, s));
    }
    inside!(drop(g));
    check_private(m, w, "modified copy");
}

/// Bulk construction of private maps with faults in the element source.
/// a: bits 0-3 number of elements, 4-5 stride, 8-10 size hint, 12-14 which operation.
fn bulk_map<R: Raw>(k: u32, a: u32) {
    let n = scen().hash.len() as u32;
    let (cnt, hint, which) = (a & 15, a >> 8 & 7, a >> 12 & 7);
    let mut expect: Vec<(u32, u32)> = Vec::new();
    for i in 0..cnt {
        expect.retain(|e| e.0 != feed_key(k, a, i, n));
        expect.push((feed_key(k, a, i, n), i));
    }
    // Elements are identified by their position: `order[i]` is the serial of the i-th value.
    let order = std::rc::Rc::new(std::cell::RefCell::new(Vec::<u32>::new()));
    let o2 = order.clone();
    let src = std::iter::from_fn({
        let mut i = 0;
        move || {
            let _o = Outside::enter();
            if i >= cnt {
                return None;
            }
            types::user_code();
            let c = cx();
            c.ncalls += 1;
            trip();
            let key = feed_key(k, a, i, n);
            i += 1;
            let v = V::<R>::new(key);
            o2.borrow_mut().push(v.serial());
            Some((K::<R>::new(key), v))
        }
    });
    let hinted = Hinted { i: src, lo: [0, cnt as usize, 1, 64][hint as usize & 3] };
    let m: HashMap<K<R>, V<R>, H> = match which {
        0 | 1 => inside!(hinted.collect()),
        2 => {
            let m = inside!(HashMap::builder().hasher(H).capacity(cnt as usize).resize_mode(mode(scen())).build());
            // Owned by a guard object, so that a panic in the source drops it inside the arena.
            inside!((&m).extend(hinted));
            m
        }
        _ => {
            // Deserialization; values are identified by their content.
            let bad_at = a >> 16 & 15;
            let kind = a >> 20 & 1;
            let fail = bad_at > 0 && bad_at <= cnt;
            let vals: Vec<(u32, u32)> = (0..cnt)
                .map(|i| {
                    let f = fail && i + 1 == bad_at;
                    let on_key = which == 4;
                    let b = if kind == 0 { types::BAD } else { types::PANIC };
                    (if f && on_key { b } else { feed_key(k, a, i, n) }, if f && !on_key { b } else { 100_000 + i })
                })
                .collect();
            drop(hinted);
            if fail {
                unsafe { COUNTS.caller_faults += 1 };
                if kind == 1 {
                    cx().injected = true;
                }
            }
            let r: Result<HashMap<K<R>, V<R>, H>, serde::de::value::Error> = inside!({
                let d = serde::de::value::MapDeserializer::new(vals.iter().copied());
                serde::Deserialize::deserialize(d)
            });
            match r {
                Ok(m) => {
                    if fail {
                        bad("bulk", "deserialization succeeded although an element failed".into());
                    }
                    let m = private(Map(m));
                    let mut got: Vec<(u32, u32)> = contents(m).iter().map(|&(k, v)| (k, types::obj(v).content)).collect();
                    got.sort();
                    let mut want: Vec<(u32, u32)> = expect.iter().map(|&(k, i)| (k, 100_000 + i)).collect();
                    want.sort();
                    if got != want {
                        bad("bulk", format!("deserialize: expected {:?}, found {:?}", want, got));
                    }
                    drop_private(m);
                }
                Err(e) => {
                    inside!(drop(e));
                    if !fail {
                        bad("bulk", "deserialization failed although no element did".into());
                    }
                }
            }
            inside!(());
            return;
        }
    };
    let m = private(Map(m));
    let want: Vec<(u32, u32)> = expect.iter().map(|&(k, i)| (k, order.borrow()[i as usize])).collect();
    check_private(m, want, "bulk construction");
    // Equality with an element-wise copy, and inequality after a change.
    if which == 1 {
        let c = private(m.dup());
        if !m.equals(c) || !c.equals(m) {
            bad("bulk", "a map is not equal to its clone".into());
        }
        drop_private(c);
        check_equality(m, true, "map");
    }
    drop_private(m);
}

/// A source of elements for deserialization with an honest, wrong or missing size hint.
struct Source {
    items: std::vec::IntoIter<(u32, u64)>,
    hint: Option<usize>,
    value: u64,
}
type DeError = serde::de::value::Error;
impl<'de> serde::de::MapAccess<'de> for Source {
    type Error = DeError;
    fn next_key_seed<T: serde::de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, DeError> {
        match self.items.next() {
            None => Ok(None),
            Some((k, v)) => {
                self.value = v;
                seed.deserialize(serde::de::value::U32Deserializer::new(k)).map(Some)
            }
        }
    }
    fn next_value_seed<T: serde::de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, DeError> {
        seed.deserialize(serde::de::value::U64Deserializer::new(self.value))
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
struct SeqSource(Source);
impl<'de> serde::de::SeqAccess<'de> for SeqSource {
    type Error = DeError;
    fn next_element_seed<T: serde::de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, DeError> {
        match self.0.items.next() {
            None => Ok(None),
            Some((k, _)) => seed.deserialize(serde::de::value::U32Deserializer::new(k)).map(Some),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.0.hint
    }
}
fn feed_plain(k: u32, a: u32) -> (Vec<(u32, u64)>, Option<usize>) {
    let cnt = a & 15;
    let items = (0..cnt).map(|i| (feed_key(k, a, i, 11), 1000 * a as u64 + i as u64)).collect();
    (items, [None, Some(cnt as usize), Some(1), Some(70)][a as usize >> 8 & 3])
}
fn expect_eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) {
    let _o = Outside::enter();
    if got != want {
        bad("bulk", format!("{what}: expected {:?}, found {:?}", want, got));
    }
}
/// The remaining constructors and conversions, with elements that are plain numbers.
fn plain_map(k: u32, a: u32) {
    let (items, hint) = feed_plain(k, a);
    let want: std::collections::BTreeMap<u32, u64> = items.iter().copied().collect();
    let want: Vec<(u32, u64)> = want.into_iter().collect();
    let _i = Inside::enter();
    let list = |m: &HashMap<u32, u64>| {
        let g = m.guard();
        let mut v: Vec<(u32, u64)> = m.iter(&g).map(|(k, v)| (*k, *v)).collect();
        v.sort();
        expect_eq("len of a map of plain numbers", m.len(), v.len());
        v
    };
    let m: HashMap<u32, u64> = match a >> 16 & 7 {
        0 if items.len() >= 7 => HashMap::from(<[(u32, u64); 7]>::try_from(&items[..7]).unwrap()).also(|m| (&*m).extend(items[7..].iter().copied())),
        1 => {
            let m = HashMap::new();
            (&m).extend(items.iter().map(|x| (&x.0, &x.1)));
            m
        }
        2 => items.iter().copied().collect(),
        3 => HashMap::default().also(|m| (&*m).extend(items.iter().copied())),
        4 => {
            let text = format!("{{{}}}", items.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","));
            match serde_json::from_str(&text) {
                Ok(m) => m,
                Err(_) => return bad("bulk", format!("{text} was not deserialized")),
            }
        }
        _ => {
            let s = Source { items: items.clone().into_iter(), hint, value: 0 };
            match serde::Deserialize::deserialize(serde::de::value::MapAccessDeserializer::new(s)) {
                Ok(m) => m,
                Err(_) => return bad("bulk", "deserialization of plain numbers failed".into()),
            }
        }
    };
    expect_eq("map of plain numbers", list(&m), want.clone());
    // There and back again.
    let text = serde_json::to_string(&m).unwrap_or_default();
    match serde_json::from_str::<HashMap<u32, u64>>(&text) {
        Ok(c) => {
            expect_eq("copy through json", list(&c), want.clone());
            expect_eq("equality with a copy through json", (m == c, c == m), (true, true));
            if let Some(&(k, v)) = want.first() {
                c.pin().insert(k, v + 1);
                expect_eq("equality with a changed copy", (m == c, c == m), (false, false));
                c.pin().insert(k, v);
                c.pin().insert(77, 7);
                expect_eq("equality with an extended copy", (m == c, c == m), (false, false));
                c.pin().remove(&k);
                expect_eq("equality with a copy that has another key", (m == c, c == m), (false, false));
            }
        }
        Err(_) => bad("bulk", format!("{text} was not deserialized")),
    }
    expect_eq("equality with its clone", m == m.clone(), true);
    let text2 = serde_json::to_string(&m.pin()).unwrap_or_default();
    expect_eq("serialization through a pin", serde_json::from_str::<HashMap<u32, u64>>(&text2).map(|c| list(&c)).ok(), Some(want.clone()));
    expect_eq("deserialization of a map from a list", serde_json::from_str::<HashMap<u32, u64>>("[1, 2]").is_err(), true);
    // Formatting an iterator shows what is left of it and leaves it alone.
    {
        let p = m.pin();
        let mut it = p.iter();
        let mut left = want.len();
        loop {
            let shown = format!("{:?}", it);
            let n = shown.matches(", ").count();
            expect_eq("entries shown by a formatted iterator", if shown == "[]" { 0 } else { n / 2 + 1 }, left);
            let Some((k, v)) = it.next() else { break };
            expect_eq("formatted iterator shows its next entry first", shown.starts_with(&format!("[({k}, {v})")), true);
            left -= 1;
        }
        expect_eq("entries of an iterator that was formatted", left, 0);
        let ks = p.keys();
        let shown = format!("{:?} {:?}", ks, p.values());
        expect_eq("keys after formatting", { let mut v: Vec<u32> = ks.copied().collect(); v.sort(); v }, want.iter().map(|x| x.0).collect());
        expect_eq("formatted keys and values", want.iter().all(|(k, v)| shown.contains(&format!("{k}, {v}"))), true);
        let mut shown: Vec<String> = format!("{:?}", m).trim_matches(|c| c == '{' || c == '}').split(", ").filter(|x| !x.is_empty()).map(String::from).collect();
        shown.sort();
        let mut entries: Vec<String> = want.iter().map(|(k, v)| format!("{k}: {v}")).collect();
        entries.sort();
        expect_eq("formatted map", shown, entries);
    }
}
fn plain_set(k: u32, a: u32) {
    let (items, hint) = feed_plain(k, a);
    let keys: Vec<u32> = items.iter().map(|x| x.0).collect();
    let want: Vec<u32> = items.iter().map(|x| x.0).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let _i = Inside::enter();
    let list = |m: &HashSet<u32>| {
        let g = m.guard();
        let mut v: Vec<u32> = m.iter(&g).copied().collect();
        v.sort();
        expect_eq("len of a set of plain numbers", m.len(), v.len());
        v
    };
    let m: HashSet<u32> = match a >> 16 & 7 {
        0 if keys.len() >= 7 => HashSet::from(<[u32; 7]>::try_from(&keys[..7]).unwrap()).also(|m| (&*m).extend(keys[7..].iter().copied())),
        1 => {
            let m = HashSet::new();
            (&m).extend(keys.iter());
            m
        }
        2 => keys.iter().copied().collect(),
        3 => HashSet::default().also(|m| (&*m).extend(keys.iter().copied())),
        4 => match serde_json::from_str(&format!("{:?}", keys)) {
            Ok(m) => m,
            Err(_) => return bad("bulk", format!("{:?} was not deserialized", keys)),
        },
        _ => {
            let s = SeqSource(Source { items: items.clone().into_iter(), hint, value: 0 });
            match serde::Deserialize::deserialize(serde::de::value::SeqAccessDeserializer::new(s)) {
                Ok(m) => m,
                Err(_) => return bad("bulk", "deserialization of plain numbers failed".into()),
            }
        }
    };
    expect_eq("set of plain numbers", list(&m), want.clone());
    let text = serde_json::to_string(&m).unwrap_or_default();
    match serde_json::from_str::<HashSet<u32>>(&text) {
        Ok(c) => {
            expect_eq("copy through json", list(&c), want.clone());
            expect_eq("equality with a copy through json", (m == c, c == m), (true, true));
            c.pin().insert(77);
            expect_eq("equality with an extended copy", (m == c, c == m), (false, false));
            if let Some(k) = want.first() {
                c.pin().remove(k);
                expect_eq("equality with a copy that has another element", (m == c, c == m), (false, false));
            }
        }
        Err(_) => bad("bulk", format!("{text} was not deserialized")),
    }
    expect_eq("equality with its clone", m == m.clone(), true);
    let text2 = serde_json::to_string(&m.pin()).unwrap_or_default();
    expect_eq("serialization through a pin", serde_json::from_str::<HashSet<u32>>(&text2).map(|c| list(&c)).ok(), Some(want.clone()));
    expect_eq("deserialization of a set from a number", serde_json::from_str::<HashSet<u32>>("7").is_err(), true);
    let p = m.pin();
    let mut it = p.iter();
    let mut left = want.len();
    loop {
        let shown = format!("{:?}", it);
        expect_eq("elements shown by a formatted iterator", if shown == "[]" { 0 } else { shown.matches(", ").count() + 1 }, left);
        let Some(k) = it.next() else { break };
        expect_eq("formatted iterator shows its next element first", shown.starts_with(&format!("[{k}")), true);
        left -= 1;
    }
    expect_eq("elements of an iterator that was formatted", left, 0);
    let mut shown: Vec<String> = format!("{:?}", m).trim_matches(|c| c == '{' || c == '}').split(", ").filter(|x| !x.is_empty()).map(String::from).collect();
    shown.sort();
    let mut entries: Vec<String> = want.iter().map(|k| k.to_string()).collect();
    entries.sort();
    expect_eq("formatted set", shown, entries);
}
trait Also: Sized {
    fn also(self, f: impl FnOnce(&Self)) -> Self {
        f(&self);
        self
    }
}
impl<T> Also for T {}

struct Hinted<I> {
    i: I,
    lo: usize,
}
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.i.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lo, None)
    }
}

// ---------------------------------------------------------------------------------------------
// Set

pub struct Set<R: Raw>(HashSet<K<R>, H>);

impl<R: Raw> Subject for Set<R> {
    type R = R;
    type G = SG<R>;

    fn build(s: &Scenario) -> Self {
        let _i = Inside::enter();
        let mut b = HashSet::builder().hasher(H).resize_mode(mode(s)).collector(seize::Collector::new().batch_size(s.batch.max(1)));
        if s.cap > 0 {
            b = b.capacity(s.cap);
        }
        Set(b.build())
    }
    fn pin(&'static self, f: u8) -> SG<R> {
        let _i = Inside::enter();
        match (f & F_PIN != 0, f & F_OWNED != 0) {
            (false, false) => SG::Local(self.0.guard()),
            (false, true) => SG::Owned(self.0.owned_guard()),
            (true, false) => SG::Pin(self.0.pin()),
            (true, true) => SG::PinOwned(self.0.pin_owned()),
        }
    }
    fn flush(g: &SG<R>) {
        let _i = Inside::enter();
        match g {
            SG::Local(g) => g.flush(),
            SG::Owned(g) => g.flush(),
            _ => {}
        }
    }
    fn refresh(g: &mut SG<R>) -> bool {
        let _i = Inside::enter();
        match g {
            SG::Local(g) => g.refresh(),
            SG::Owned(g) => g.refresh(),
            _ => return false,
        }
        true
    }
    fn len_now(&'static self) -> (usize, bool) {
        inside!((self.0.len(), self.0.is_empty()))
    }
    fn quiescent_get(&'static self, key: u32, g: &SG<R>) -> Option<u32> {
        let q = Q::<R>(key, PhantomData);
        let r = inside!(m!(SG, self.0, g, get(&q)));
        r.map(|k| {
            if k.id() != key {
                bad("wrong-key", format!("asked for element {}, was given {}", key, k.id()));
            }
            k.serial()
        })
    }
    fn key_instance(&'static self, key: u32, g: &SG<R>) -> Option<u32> {
        self.quiescent_get(key, g)
    }
    fn quiescent_iter(&'static self, g: &SG<R>) -> Vec<(u32, u32)> {
        let mut out = Vec::new();
        let _i = Inside::enter();
        it!(SG, self.0, g, iter, i => for k in i {
            let _o = Outside::enter();
            out.push((k.id(), k.serial()));
        });
        out
    }
    fn equals(&'static self, o: &'static Self) -> bool {
        inside!(self.0 == o.0)
    }
    fn dup(&'static self) -> Self {
        inside!(Set(self.0.clone()))
    }
    fn put(&'static self, key: u32, present: bool) {
        let g = self.pin(0);
        if present {
            let k = K::<R>::new(key);
            inside!(m!(SG, self.0, &g, insert(k)));
        } else {
            let q = Q::<R>(key, PhantomData);
            inside!(m!(SG, self.0, &g, remove(&q)));
        }
        inside!(drop(g));
    }

    fn call(&'static self, op: &Op, g: &SG<R>, w: &mut Worker<Self>) {
        let set = &self.0;
        let &Op(code, k, a, _, _, _) = op;
        let st = start();
        let q = Q::<R>(k, PhantomData);
        match code {
            GET | GET_KV => {
                let r = inside!(m!(SG, set, g, get(&q)));
                match r {
                    Some(kk) => {
                        w.key(kk, k);
                        push(k, Pre::Is(kk.serial()), Post::Same, st, "set.get")
                    }
                    None => push(k, Pre::None, Post::Same, st, "set.get"),
                }
            }
            CONTAINS => {
                let r = inside!(m!(SG, set, g, contains(&q)));
                push(k, if r { Pre::Some } else { Pre::None }, Post::Same, st, "set.contains");
            }
            INSERT => {
                let kk = K::new(k);
                let n = kk.serial();
                let r = inside!(m!(SG, set, g, insert(kk)));
                if r {
                    push(k, Pre::None, Post::Val(n), st, "set.insert")
                } else {
                    push(k, Pre::Some, Post::Same, st, "set.insert")
                }
            }
            REMOVE => {
                let r = inside!(m!(SG, set, g, remove(&q)));
                if r {
                    push(k, Pre::Some, Post::None, st, "set.remove")
                } else {
                    push(k, Pre::None, Post::Same, st, "set.remove")
                }
            }
            CLEAR => {
                sweep_begin(st, "set.clear", None, op.3 & F_FOREIGN != 0);
                inside!(m!(SG, set, g, clear()));
                sweep_end(st, "set.clear", None);
            }
            RETAIN => {
                // The predicate is a function of the element: all (4), none (5), or by id.
                let keep = move |id: u32| match a {
                    4 => false,
                    5 => true,
                    m => (id ^ m) & 1 == 0,
                };
                if op.3 & F_FOREIGN == 0 {
                    unsafe { HIST.sweeps.push((st.s, u64::MAX)) };
                    for key in 0..scen().hash.len() as u32 {
                        if !keep(key) {
                            push(key, Pre::Some, Post::None, st, "set.retain");
                            cx().pend.last_mut().unwrap().rep = true;
                        }
                    }
                }
                let f = |kk: &K<R>| {
                    let _o = Outside::enter();
                    let id = kk.id();
                    types::user_code();
                    let c = cx();
                    c.ncalls += 1;
                    push_now(id, Pre::Is(kk.serial()), Post::Same, st, "shown to closure", None);
                    trip();
                    keep(id)
                };
                {
                    let _i = Inside::enter();
                    // `retain` takes `&mut self` on the set; the guard borrows it shared.
                    #[allow(invalid_reference_casting)]
                    unsafe {
                        let s = &mut *(set as *const _ as *mut HashSet<K<R>, H>);
                        match g {
                            SG::Local(g) => s.retain(f, g),
                            SG::Owned(g) => s.retain(f, g),
                            SG::Pin(p) => (*(p as *const _ as *mut HashSetRef<'static, K<R>, H, LocalGuard<'static>>)).retain(f),
                            SG::PinOwned(p) => (*(p as *const _ as *mut HashSetRef<'static, K<R>, H, OwnedGuard<'static>>)).retain(f),
                        }
                    }
                }
                for key in 0..scen().hash.len() as u32 {
                    if !keep(key) {
                        push(key, Pre::Any, Post::None, st, "set.retain");
                    }
                }
            }
            ITER => {
                let (kind, nest, stop) = (a & 3, a >> 2 & 3, a >> 4);
                let mut seen = Seen::new(st, "set.iter");
                let _i = Inside::enter();
                macro_rules! each {
                    ($i:ident) => {{
                        for kk in $i {
                            let _o = Outside::enter();
                            let id = kk.id();
                            w.hold(kk, std::ptr::null(), kk.serial());
                            seen.item(id, (!R::ZERO).then(|| kk.serial()));
                            match nest {
                                1 => self.call(&Op::new(REMOVE, id), g, w),
                                2 => self.call(&Op::new(INSERT, (id + 1) % scen().hash.len() as u32), g, w),
                                3 => self.call(&Op::new(GET, id), g, w),
                                _ => {}
                            }
                            if stop > 0 && seen.n >= stop {
                                break;
                            }
                        }
                    }};
                }
                match (kind, g) {
                    (3, SG::Pin(p)) => { let i = p.into_iter(); each!(i) }
                    (3, SG::PinOwned(p)) => { let i = p.into_iter(); each!(i) }
                    (_, g) => it!(SG, set, g, iter, i => each!(i)),
                }
                drop(_i);
                seen.done(stop == 0 || seen.n < stop);
            }
            LEN => {
                let n = inside!(match g { SG::Pin(p) => p.len(), SG::PinOwned(p) => p.len(), _ => set.len() });
                len_ev(st, n, None);
            }
            IS_EMPTY => {
                let n = inside!(match g { SG::Pin(p) => p.is_empty(), SG::PinOwned(p) => p.is_empty(), _ => set.is_empty() });
                len_ev(st, 0, Some(n));
            }
            RESERVE => inside!(m!(SG, set, g, reserve(a as usize))),
            RESERVE_HUGE => inside!(m!(SG, set, g, reserve(huge(a)))),
            CLONE => {
                let base = unsafe { types::CLONES.len() };
                let mut seen = Seen::new(st, "set.clone");
                let c = inside!(set.clone());
                let mut expect: Vec<(u32, u32)> = Vec::new();
                for c in unsafe { types::CLONES[base..].to_vec() } {
                    if c.0 == rt::tid() {
                        let id = types::obj(c.1).id;
                        seen.item(id, (!R::ZERO).then_some(c.1));
                        // An element seen twice was removed and inserted again in between: the copy keeps the first.
                        if expect.iter().all(|e| e.0 != id) {
                            expect.push((id, c.2));
                        }
                    }
                }
                seen.done(true);
                let c = private(Set(c));
                check_private(c, expect.clone(), "set.clone");
                if rt_pick(3) == 0 {
                    check_equality(c, false, "set");
                }
                drop_private(c);
            }
            DEBUG => {
                let mut seen = Seen::new(st, "set.debug");
                let mut out = String::new();
                {
                    let _i = Inside::enter();
                    let s = match g {
                        SG::Pin(p) => format!("{:?}", p),
                        SG::PinOwned(p) => format!("{:?}", p),
                        _ => format!("{:?}", set),
                    };
                    let _o = Outside::enter();
                    out.push_str(&s);
                    let _i = Inside::enter();
                    drop(s);
                }
                let body = out.strip_prefix('{').and_then(|s| s.strip_suffix('}'));
                let Some(body) = body else { bad("format", format!("unexpected Debug output {out}")) };
                for p in body.split(", ").filter(|p| !p.is_empty()) {
                    let Some(k) = p.strip_prefix('k').and_then(|k| k.parse().ok()) else { bad("format", format!("unexpected Debug output {out}")) };
                    seen.item(k, None);
                }
                seen.done(true);
            }
            SERIALIZE => {
                let mut seen = Seen::new(st, "set.serialize");
                let mut out = FailWriter { buf: Vec::new(), left: if a == 0 { usize::MAX } else { a as usize } };
                let ok = {
                    let _i = Inside::enter();
                    let r = match g {
                        SG::Pin(p) => serde_json::to_writer(&mut out, p),
                        SG::PinOwned(p) => serde_json::to_writer(&mut out, p),
                        _ => serde_json::to_writer(&mut out, set),
                    };
                    r.is_ok()
                };
                if ok {
                    let v: Option<Vec<u32>> = serde_json::from_slice(&out.buf).ok();
                    let Some(v) = v else { bad("format", format!("unexpected serialized form {}", String::from_utf8_lossy(&out.buf))) };
                    for k in v {
                        seen.item(k, None);
                    }
                    seen.done(true);
                } else if a == 0 {
                    bad("format", "serialization failed although the writer did not".into());
                } else {
                    unsafe { COUNTS.caller_faults += 1 };
                }
            }
            EXTEND => {
                let n = scen().hash.len() as u32;
                let it = Feed { st, k, a, n, i: 0, hint: a >> 8 & 7, last: None, make: |k| { let x = K::<R>::new(k); let s = x.serial(); (x, s) } };
                inside!({ let mut r = set; r.extend(it) });
            }
            BULK if a >> 12 & 7 >= 6 => plain_set(k, a),
            BULK => bulk_set::<R>(k, a),
            EQ => {
                let _ = inside!(match g { SG::Pin(p) => p.set() == set, _ => set == set });
            }
            _ => {}
        }
    }
}

fn bulk_set<R: Raw>(k: u32, a: u32) {
    let n = scen().hash.len() as u32;
    let (cnt, hint, which) = (a & 15, a >> 8 & 7, a >> 12 & 7);
    // The first of several equal elements is kept.
    let mut expect: Vec<(u32, u32)> = Vec::new();
    if which < 3 {
        let made = std::cell::RefCell::new(&mut expect);
        let src = std::iter::from_fn({
            let mut i = 0;
            move || {
                let _o = Outside::enter();
                if i >= cnt {
                    return None;
                }
                types::user_code();
                let c = cx();
                c.ncalls += 1;
                trip();
                i += 1;
                let x = K::<R>::new(feed_key(k, a, i - 1, n));
                let mut e = made.borrow_mut();
                if e.iter().all(|e| e.0 != x.id()) {
                    e.push((x.id(), x.serial()));
                }
                Some(x)
            }
        });
        let hinted = Hinted { i: src, lo: [0, cnt as usize, 1, 64][hint as usize & 3] };
        let s: HashSet<K<R>, H> = inside!(hinted.collect());
        let s = private(Set(s));
        check_private(s, expect, "bulk construction");
        drop_private(s);
        return;
    }
    for i in 0..cnt {
        let key = feed_key(k, a, i, n);
        if expect.iter().all(|e| e.0 != key) {
            expect.push((key, ANY));
        }
    }
    let bad_at = a >> 16 & 15;
    let kind = a >> 20 & 1;
    let fail = bad_at > 0 && bad_at <= cnt;
    let vals: Vec<u32> = (0..cnt)
        .map(|i| {
            if fail && i + 1 == bad_at {
                if kind == 0 {
                    types::BAD
                } else {
                    types::PANIC
                }
            } else {
                feed_key(k, a, i, n)
            }
        })
        .collect();
    if fail {
        unsafe { COUNTS.caller_faults += 1 };
        if kind == 1 {
            cx().injected = true;
        }
    }
    let r: Result<HashSet<K<R>, H>, serde::de::value::Error> = inside!({
        let d = serde::de::value::SeqDeserializer::new(vals.iter().copied());
        serde::Deserialize::deserialize(d)
    });
    match r {
        Ok(s) => {
            if fail {
                bad("bulk", "deserialization succeeded although an element failed".into());
            }
            let s = private(Set(s));
            check_private(s, expect, "deserialize");
            drop_private(s);
        }
        Err(e) => {
            inside!(drop(e));
            if !fail {
                bad("bulk", "deserialization failed although no element did".into());
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Running programs

fn is_read(c: u8) -> bool {
    matches!(c, GET | GET_KV | CONTAINS | ITER | LEN | IS_EMPTY)
}

fn has_guard_arg(c: u8) -> bool {
    !matches!(c, LEN | IS_EMPTY | CLONE | DEBUG | SERIALIZE | EXTEND | BULK | EQ)
}

impl<S: Subject> Worker<S> {
    fn unpin(&mut self) {
        check_held(&self.held);
        self.held.clear();
        let g = self.g.take();
        inside!(drop(g));
    }

    fn step(&mut self, i: usize, op: &Op) {
        rt::begin_op(self.base + i as u32 + 1);
        unsafe { COUNTS.ops += 1 };
        unsafe {
            types::HASHED[rt::tid()].clear();
            types::BUSY[rt::tid()] = true;
        }
        let c = cx();
        c.op = self.base + i as u32 + 1;
        c.ncalls = 0;
        c.panic_at = op.4 as u32;
        c.injected = false;
        check_held(&self.held);
        rt::trace(|| format!("BEGIN {}", op.text()));
        let sh = unsafe { &mut *self.sh };
        match op.0 {
            PIN => {
                self.unpin();
                self.g = Some(sh.map.pin(op.3));
                self.owned = op.3 & F_OWNED != 0;
            }
            UNPIN => self.unpin(),
            GIVE => {
                if let Some(g) = if self.owned { self.g.take() } else { None } {
                    unsafe { COUNTS.gives += 1 };
                    let s = &mut sh.slots[op.1 as usize % 4];
                    if s.g.is_some() {
                        self.g = Some(g);
                    } else {
                        let held = std::mem::take(&mut self.held);
                        rt::tick_event();
                        s.clock = rt::mem::release_clock();
                        s.g = Some((g, held));
                    }
                }
            }
            TAKE => {
                if sh.slots[op.1 as usize % 4].g.is_some() {
                    self.unpin();
                    let s = &mut sh.slots[op.1 as usize % 4];
                    if let Some((g, h)) = s.g.take() {
                        rt::mem::acquire_clock(&s.clock);
                        self.g = Some(g);
                        self.owned = true;
                        self.held = h;
                        check_held(&self.held);
                    }
                }
            }
            REL => {
                rt::tick_event();
                unsafe { CHANS[op.1 as usize % 8].join(&rt::mem::release_clock()) };
            }
            ACQ => unsafe { rt::mem::acquire_clock(&CHANS[op.1 as usize % 8]) },
            FLUSH => {
                if let Some(g) = &self.g {
                    S::flush(g);
                }
            }
            REFRESH => {
                check_held(&self.held);
                self.held.clear();
                if let Some(g) = &mut self.g {
                    S::refresh(g);
                }
            }
            PAUSE => {
                for _ in 0..op.2 {
                    rt::yield_now();
                }
            }
            INSERT | TRY_INSERT | TRY_INSERT_WITH | GET_OR_INSERT | GET_OR_INSERT_WITH if scen().profile == "keys" => {
                // (One thread only.)
                let before = self.key_instance(sh.map, op.1);
                self.operate(op);
                let after = self.key_instance(sh.map, op.1);
                if before.is_some() && after != before {
                    bad("key-replaced", format!("{} of a key that is present replaced the stored instance {:?} by {:?}", op.text(), before, after));
                }
            }
            _ => self.operate(op),
        }
        rt::trace(|| "END".into());
        rt::end_op();
        unsafe { types::BUSY[rt::tid()] = false };
        cx().panic_at = 0;
    }

    fn key_instance(&self, map: &'static S, key: u32) -> Option<u32> {
        let g = map.pin(0);
        let r = map.key_instance(key, &g);
        inside!(drop(g));
        r
    }

    fn operate(&mut self, op: &Op) {
        let sh = unsafe { &mut *self.sh };
        let foreign = op.3 & F_FOREIGN != 0 && sh.other.is_some() && has_guard_arg(op.0);
        let mut temp: Option<S::G> = None;
        let shared = op.3 & F_SHARED != 0 && sh.shared.is_some();
        if foreign {
            unsafe { COUNTS.foreign += 1 };
            temp = Some(sh.other.unwrap().pin(op.3 & F_OWNED));
        } else if !shared && (op.3 & F_FRESH != 0 || self.g.is_none()) {
            temp = Some(sh.map.pin(op.3));
        }
        let this: *mut Self = self;
        let g: *const S::G = match &temp {
            Some(g) => g,
            None if shared => sh.shared.as_ref().unwrap(),
            None => self.g.as_ref().unwrap(),
        };
        // References obtained under a temporary or shared guard are tracked separately.
        let outer = if temp.is_some() || shared { Some(std::mem::take(&mut self.held)) } else { None };
        if op.5 == SOLO_AWAY {
            for _ in 0..60 {
                if types::others_away(op.1) {
                    unsafe { COUNTS.solos += 1 };
                    rt::trace(|| "SOLO: every other thread stops here".into());
                    rt::solo_begin(scen().bound, "write-waits");
                    break;
                }
                rt::yield_now();
            }
        } else if op.5 > 0 {
            unsafe { COUNTS.solos += 1 };
            let class = if is_read(op.0) { "read-blocked" } else { "write-blocked" };
            rt::solo_after(op.5 as u64 - 1, scen().bound, class);
        }
        let base = unsafe { (HIST.evs.len(), HIST.sweeps.len()) };
        cx().nest = if op.3 & F_NEST != 0 { Some((nested::<S>, self.sh as *mut ())) } else { None };
        let r = catch_unwind(AssertUnwindSafe(|| unsafe { sh.map.call(op, &*g, &mut *this) }));
        if op.5 > 0 {
            rt::solo_end();
        }
        let _o = Outside::enter();
        unsafe {
            let s = scen();
            let n = types::HASHED[rt::tid()].len();
            let limit = s.incremental.saturating_mul(4).saturating_add(24);
            if types::WATCH && n > limit {
                bad("write-work", format!("{} hashed {n} keys in a table that is resized in chunks of {}", op.text(), s.incremental));
            }
        }
        cx().nest = None;
        unsafe { types::CLONE_PANIC[rt::tid()] = 0 };
        if r.is_err() && op.0 == EXTEND {
            // Elements already taken are kept or dropped.
            for e in cx().pend.iter_mut() {
                e.rep = true;
            }
        }
        settle();
        match r {
            Ok(()) => {
                if foreign {
                    bad("foreign-accepted", format!("{} accepted a guard of another collector", op.text()));
                }
                if op.0 == RESERVE_HUGE {
                    bad("panic", "reserving more memory than the address space did not fail".into());
                }
                let c = cx();
                if c.injected {
                    bad("panic-swallowed", format!("the panic of the caller's code in {} did not reach the caller", op.text()));
                }
                unsafe { COUNTS.closure_retries += (c.calls.len() as u64).saturating_sub(1) };
            }
            Err(p) => {
                let injected = p.downcast_ref::<Injected>().is_some();
                let text = if injected { String::new() } else { rt::panic_text(&*p) };
                inside!(drop(p));
                unsafe { COUNTS.panics += 1 };
                rt::trace(|| format!("panicked: {}", if injected { "injected" } else { &text }));
                if foreign {
                    let (me, my) = (rt::tid() as u8, cx().op);
                    if unsafe { HIST.evs[base.0..].iter().any(|e| e.tid == me && e.op == my) } {
                        bad("foreign-accepted", format!("{} with a guard of another collector took effect or ran the caller's closure before panicking", op.text()));
                    }
                } else if injected {
                    // The caller's own.
                } else if op.0 == RESERVE_HUGE {
                    // Capacity overflow.
                } else if op.0 == COMPUTE && op.2 & 8 != 0 && cx().calls.last() == Some(&(None, Did::Remove)) {
                    // Removing an absent entry.
                } else {
                    bad("panic", format!("{} panicked: {}", op.text(), text));
                }
            }
        }
        if let Some(outer) = outer {
            check_held(&self.held);
            self.held = outer;
            inside!(drop(temp));
        }
    }

    fn run(&mut self, ops: &[Op]) {
        for (i, op) in ops.iter().enumerate() {
            self.step(i, op);
        }
        rt::begin_op(self.base + 100_000);
        cx().op = self.base + 100_000;
        self.unpin();
        rt::end_op();
    }
}

/// The operations after the join are numbered from here.
pub const POST_BASE: u32 = 50_000;

/// Everything one run does; executed as simulated thread 0.
fn body<S: Subject>(s: &'static Scenario) {
    let map: &'static S = private(S::build(s));
    let any_foreign = [&s.pre, &s.post].into_iter().chain(s.threads.iter()).flatten().any(|o| o.3 & F_FOREIGN != 0);
    let other: Option<&'static S> = any_foreign.then(|| private(S::build(s)));
    let any_shared = s.threads.iter().flatten().any(|o| o.3 & F_SHARED != 0);
    let sh: *mut Shared<S> = Box::into_raw(Box::new(Shared {
        map,
        other,
        slots: (0..4).map(|_| Slot { g: None, clock: VC::ZERO }).collect(),
        shared: None,
    }));
    let sh_ref = unsafe { &mut *sh };
    let mut w = Worker::new(sh);
    w.run(&s.pre);
    if any_shared {
        sh_ref.shared = Some(map.pin(F_OWNED | (s.seed as u8 & F_PIN)));
    }
    rt::arm_refusal();
    for ops in &s.threads {
        rt::spawn(Box::new(move || {
            let mut w: Worker<S> = Worker::new(sh);
            w.run(ops)
        }));
    }
    rt::begin_op(100_001);
    rt::join_all();
    // From here on only this thread runs.
    w.base = POST_BASE;
    w.run(&s.post);
    rt::begin_op(100_002);
    cx().op = 100_002;
    for sl in sh_ref.slots.iter_mut() {
        if let Some((g, h)) = sl.g.take() {
            check_held(&h);
            inside!(drop(g));
        }
    }
    if let Some(g) = sh_ref.shared.take() {
        inside!(drop(g));
    }
    if let Some(o) = other {
        if contents(o) != vec![] {
            note("foreign-accepted", "an operation given a foreign guard changed the guard's map".into());
        }
        drop_private(o);
    }
    let garbage = if s.early { None } else { quiescent(map, s) };
    rt::begin_op(100_003);
    drop_private(map);
    unsafe { drop(Box::from_raw(sh)) };
    simstd::thread::drop_locals();
    // Everything must be gone.
    if s.elem == 3 && unsafe { types::LIVE_KEYS != 0 || types::LIVE_VALS != 0 } {
        note("leak", unsafe { format!("{} keys and {} values were never dropped", types::LIVE_KEYS, types::LIVE_VALS) });
    }
    for (i, o) in unsafe { types::REG.iter().enumerate().skip(1) } {
        if o.dropped == 0 && s.elem != 3 {
            note("leak", format!("{} {} (id {}, made by T{}) was never dropped", if o.is_key { "key" } else { "value" }, i, o.id, o.tid));
            break;
        }
    }
    let (n, bytes, tables) = arena::live();
    if n != 0 {
        let b = &arena::live_list()[0];
        note("leak", format!("{n} blocks ({bytes} bytes, {tables} tables) leaked; the first: {} bytes allocated by T{} at step {}", b.size, b.tid, b.step));
    }
    if let Some(m) = garbage {
        note("garbage", m);
    }
    // The history.
    let (m, unknown) = hist::check_all(unsafe { &HIST }, s.cfg.weak);
    unsafe { COUNTS.lin_unknown += unknown as u64 };
    if let Some(m) = m {
        note("linearizability", m);
    }
    if s.cfg.weak {
        if let Some(m) = hist::check_absence(unsafe { &HIST }, s.threads.iter().flatten().any(|o| o.3 & F_NEST != 0)) {
            note("publication", m);
        }
    } else {
        if let Some(m) = hist::check_len(unsafe { &HIST }) {
            note("len", m);
        }
    }
    let first = unsafe { NOTES.first().cloned() };
    if let Some((c, m)) = first {
        bad(&c, m);
    }
}

/// All operations have returned: every view of the contents must agree.
///
/// Returns what should have been reclaimed but was not.
fn quiescent<S: Subject>(map: &'static S, s: &Scenario) -> Option<String> {
    let mut garbage = None;
    let g = map.pin(0);
    let mut got = Vec::new();
    for key in 0..s.hash.len() as u32 {
        let st = start();
        let v = map.quiescent_get(key, &g);
        push_now(key, v.map_or(Pre::None, Pre::Is), Post::Same, st, "final get", None);
        if let Some(v) = v {
            got.push((key, v));
        }
    }
    let mut it = map.quiescent_iter(&g);
    it.sort();
    if it != got {
        note("contents", format!("at quiescence lookups find {:?} but iteration yields {:?}", got, it));
    }
    let (n, e) = map.len_now();
    if n != got.len() || e != got.is_empty() {
        note("len", format!("at quiescence len() = {} and is_empty() = {} but {} keys are present", n, e, got.len()));
    }
    // Lookups after the iteration (which completes a resize) still agree.
    for &(key, v) in &got {
        if map.quiescent_get(key, &g) != Some(v) {
            note("contents", format!("at quiescence key {} (value {}) is no longer found after an iteration", key, v));
        }
    }
    inside!(drop(g));
    // Garbage: with every guard gone and the collector flushed, only the contents remain.
    if !s.real {
        let g = map.pin(0);
        S::flush(&g);
        inside!(drop(g));
        let g = map.pin(0);
        S::flush(&g);
        inside!(drop(g));
        unsafe {
            let want_v = if s.set { 0 } else { got.len() as i64 };
            if types::LIVE_KEYS != got.len() as i64 || types::LIVE_VALS != want_v {
                let o = types::REG.iter().enumerate().skip(1).filter(|(_, o)| o.dropped == 0).map(|(i, o)| format!("{}{}(id {})", if o.is_key { "k" } else { "v" }, i, o.id)).collect::<Vec<_>>();
                garbage = Some(format!("the quiescent map holds {} entries, but {} keys and {} values are alive: {}", got.len(), types::LIVE_KEYS, types::LIVE_VALS, o.join(" ")));
            }
        }
        let (_, _, tables) = arena::live();
        if tables > 1 {
            let t: Vec<String> = arena::live_list().iter().filter(|a| a.table).map(|a| format!("{} bytes (step {})", a.size, a.step)).collect();
            garbage.get_or_insert(format!("the quiescent map holds {} tables: {}", tables, t.join(", ")));
        }
    }
    // (The tables of this map, and not of those the checks below make.)
    let own = arena::total_blocks();
    check_capacity::<S>(s);
    if s.profile == "capacity" {
        check_room(s);
    }
    if s.profile == "space" {
        check_space(s, own);
    }
    garbage
}

/// Hash families of which each spreads consecutive numbers perfectly, for some way of choosing a slot.
#[derive(Clone, Copy)]
struct Fam(u8);
struct FamHasher(u8, u64);
impl std::hash::BuildHasher for Fam {
    type Hasher = FamHasher;
    fn build_hasher(&self) -> FamHasher {
        FamHasher(self.0, 0)
    }
}
impl std::hash::Hasher for FamHasher {
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.1 = self.1 << 8 | x as u64;
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.1 = x;
    }
    fn finish(&self) -> u64 {
        match self.0 {
            0 => self.1,
            1 => self.1 << 7,
            2 => self.1 << 32,
            3 => self.1.reverse_bits(),
            4 => self.1 << 57 | self.1,
            _ => types::spread(self.1),
        }
    }
}

/// A map with room for `n` entries takes them without another table, unless hashes are at fault: so there must
/// be a family of perfectly spread hashes with which it does.
fn check_room(s: &Scenario) {
    let tables = |from: usize| unsafe { arena::ARENA.allocs[from..].iter().filter(|a| a.table).count() };
    let more = types::spread(s.seed) as usize % if s.seed & 3 == 0 { 400 } else { 40 };
    let (mut built, mut reserved) = (false, false);
    for f in 0..6 {
        let _i = Inside::enter();
        let from = arena::total_blocks();
        let fill = |range: std::ops::Range<usize>, insert: &dyn Fn(u64) -> bool| {
            let fresh = range.clone().filter(|&k| insert(k as u64)).count();
            if fresh != range.len() {
                let _o = Outside::enter();
                note("contents", format!("only {} of {} fresh keys were inserted", fresh, range.len()));
            }
        };
        let (b, r, len);
        if s.seed & 16 == 0 {
            let map: HashMap<u64, u64, Fam> = if s.seed & 32 == 0 {
                HashMap::with_capacity_and_hasher(s.cap, Fam(f))
            } else {
                HashMap::builder().hasher(Fam(f)).capacity(s.cap).resize_mode(mode(s)).build()
            };
            let g = map.guard();
            fill(0..s.cap, &|k| map.insert(k, k, &g).is_none());
            b = tables(from) == 1;
            map.reserve(more, &g);
            let from = arena::total_blocks();
            fill(s.cap..s.cap + more, &|k| map.insert(k, k, &g).is_none());
            r = tables(from) == 0;
            len = map.len();
        } else {
            let set: HashSet<u64, Fam> = if s.seed & 32 == 0 {
                HashSet::with_capacity_and_hasher(s.cap, Fam(f))
            } else {
                HashSet::builder().hasher(Fam(f)).capacity(s.cap).resize_mode(mode(s)).build()
            };
            let g = set.guard();
            fill(0..s.cap, &|k| set.insert(k, &g));
            b = tables(from) == 1;
            set.reserve(more, &g);
            let from = arena::total_blocks();
            fill(s.cap..s.cap + more, &|k| set.insert(k, &g));
            r = tables(from) == 0;
            len = set.len();
        }
        built |= b;
        reserved |= r;
        let _o = Outside::enter();
        if len != s.cap + more {
            note("len", format!("len() = {} after {} insertions", len, s.cap + more));
        }
        if built && reserved {
            break;
        }
    }
    if !built {
        note("shrunk", format!("a map built for {} entries resizes before it holds them, although their hashes are spread perfectly", s.cap));
    }
    if !reserved {
        note("shrunk", format!("after reserve({}) on a map of {} entries, inserting that many resizes it, although their hashes are spread perfectly", more, s.cap));
    }
    // "If `capacity` is 0, the hash map will not allocate."
    let from = arena::total_blocks();
    let lazy = {
        let _i = Inside::enter();
        let a: HashMap<u64, u64> = HashMap::with_capacity(0);
        let b: HashMap<u64, u64, Fam> = HashMap::with_hasher(Fam(0));
        let c: HashSet<u64> = HashSet::new();
        let d: HashMap<u64, u64> = HashMap::builder().build();
        let e: HashSet<u64> = HashSet::with_capacity(0);
        let n = tables(from);
        drop((a, b, c, d, e));
        n
    };
    if lazy > 0 {
        note("shrunk", format!("building empty maps of no capacity allocated {} tables", lazy));
    }
    // The other way to ask for a capacity.
    let first = |from: usize| unsafe { arena::ARENA.allocs[from..].iter().find(|a| a.table).map(|a| a.size) };
    let mut sizes = [0; 3];
    for (i, size) in sizes.iter_mut().enumerate() {
        let from = arena::total_blocks();
        let _i = Inside::enter();
        match i {
            0 => drop(HashMap::<u64, u64, Fam>::with_capacity_and_hasher(s.cap, Fam(0)).pin().insert(0, 0)),
            1 => drop(HashMap::<u64, u64>::with_capacity(s.cap).pin().insert(0, 0)),
            _ => drop(HashSet::<u64>::with_capacity(s.cap).pin().insert(0)),
        }
        *size = first(from).unwrap_or(0);
    }
    if sizes.iter().any(|&x| x * 20 < sizes[0] * 9) {
        note("shrunk", format!("a capacity of {} makes the first table {:?} bytes large, depending on the constructor", s.cap, sizes));
    }
}

/// The table stays in proportion to the contents, however long insertions and removals go on.
fn check_space(s: &Scenario, own: usize) {
    // What `len` sums up may only exceed the number of entries if a key's insertion and removal are counted by
    // different threads.
    let mut by: Vec<Option<usize>> = vec![None; s.hash.len()];
    for (t, o) in std::iter::once((0, &s.pre)).chain(s.threads.iter().enumerate().map(|(t, v)| (t + 1, v))).flat_map(|(t, v)| v.iter().map(move |o| (t, o))) {
        match o.0 {
            GET | PIN | UNPIN | REFRESH => {}
            INSERT | TRY_INSERT | COMPUTE | REMOVE | REMOVE_ENTRY => match by[o.1 as usize] {
                Some(b) if b != t => return,
                _ => by[o.1 as usize] = Some(t),
            },
            _ => return,
        }
    }
    let bytes = |slots: usize| {
        let from = arena::total_blocks();
        {
            let _i = Inside::enter();
            drop(HashMap::<u64, u64>::with_capacity(slots * 6 / 8).pin().insert(0, 0));
        }
        unsafe { arena::ARENA.allocs[from..].iter().filter(|a| a.table).map(|a| a.size).max().unwrap_or(usize::MAX / 32) }
    };
    let max = crate::gen::space_slots(s);
    let limit = bytes(max);
    let tables = |live: bool| unsafe { arena::ARENA.allocs[..own].iter().filter(move |a| a.table && !(live && !a.live)).map(|a| a.size) };
    if let Some(big) = tables(false).find(|&b| b * 9 > limit * 10) {
        note("space", format!("{} keys at most were in the map at any time, but it allocated a table of {} bytes, while one of {} slots takes {}", s.hash.len(), big, max, limit));
    }
    // The end of the history: enough insertions for the largest possible table to be filled and replaced, and for
    // each smaller one.
    let mut present = vec![true; s.hash.len()];
    let mut live = present.len();
    let total = s.post.iter().filter(|o| o.0 == INSERT).count();
    let (mut done, mut most) = (0, 0);
    for o in &s.post {
        match o.0 {
            INSERT | REMOVE => {
                let now = o.0 == INSERT;
                live = live + now as usize - present[o.1 as usize] as usize;
                present[o.1 as usize] = now;
                done += now as usize;
            }
            CLEAR => {
                present.fill(false);
                live = 0;
            }
            _ => return,
        }
        if total - done <= max * 8 {
            most = most.max(live);
        }
    }
    if total >= max * 8 - 1 && !s.real {
        // (The last insertion need not be counted yet when the size of a table is chosen.)
        let slots = (16 * most.saturating_sub(1)).max(32).max((s.cap * 8 / 6 * 2).saturating_sub(1)).floor_power_of_two();
        let limit = bytes(slots);
        if let Some(big) = tables(true).find(|&b| b * 9 > limit * 10) {
            note("space", format!("after {} more insertions and removals of at most {} entries at a time, the map still has a table of {} bytes, while one of {} slots takes {}", total, most, big, slots, limit));
        }
    }
}

/// No table may be smaller than the one a fresh map of this capacity starts with.
fn check_capacity<S: Subject>(s: &Scenario) {
    let copies = [&s.pre, &s.post].into_iter().chain(s.threads.iter()).flatten().any(|o| matches!(o.0, BULK | CLONE));
    if s.cap == 0 || copies {
        // (Tables of private copies are not told apart from the map's own.)
        return;
    }
    let sizes: Vec<usize> = unsafe { arena::ARENA.allocs.iter().filter(|a| a.table).map(|a| a.size).collect() };
    unsafe { COUNTS.resizes += sizes.len().saturating_sub(1) as u64 };
    let before = arena::total_blocks();
    let probe: &'static S = private(S::build(s));
    let g = probe.pin(0);
    // The first operation that needs a table allocates it.
    let mut w: Worker<S> = Worker { sh: std::ptr::null_mut(), held: Vec::new(), g: None, owned: false, base: POST_BASE };
    let keep = unsafe { (HIST.evs.len(), CX[0].pend.len()) };
    probe.call(&Op::new(INSERT, 0), &g, &mut w);
    unsafe {
        CX[0].pend.truncate(keep.1);
        HIST.evs.truncate(keep.0);
    }
    inside!(drop(g));
    drop_private(probe);
    let first = unsafe { arena::ARENA.allocs[before..].iter().find(|a| a.table).map(|a| a.size) };
    if let Some(first) = first {
        // The first table has some slack: up to twice the slots the capacity asks for.
        if let Some(small) = sizes.iter().find(|&&x| x * 20 < first * 9) {
            note("shrunk", format!("a map built for {} entries starts with a table of {} bytes but was given one of {} bytes", s.cap, first, small));
        }
    }
}

pub fn reset_run(s: &'static Scenario) {
    unsafe {
        SC = Some(s);
        HIST.evs.clear();
        HIST.lens.clear();
        HIST.sweeps.clear();
        CLOCK = 0;
        NOTES.clear();
        CX = (0..NT).map(|_| Cx::default()).collect();
        CHANS = [VC::ZERO; 8];
    }
    types::reset(&s.hash, s.elem == 3);
    rt::set_copy_chunk(s.chunk);
    unsafe { types::WATCH = s.profile == "stepwise" };
    unsafe { arena::GREEDY = s.profile == "wicked" };
    unsafe { seize::sim::ZERO_SIZED = s.elem == 3 };
    seize::sim::reset(if s.real { seize::sim::Mode::Real } else { seize::sim::Mode::Eager });
}

pub fn run_scenario(s: &'static Scenario) -> rt::Outcome {
    reset_run(s);
    let main: Box<dyn FnOnce()> = match (s.set, s.elem) {
        _ if s.profile == "wicked" => Box::new(move || crate::wicked::body(s)),
        (false, 0) => Box::new(move || body::<Map<types::Wide>>(s)),
        (false, 1) => Box::new(move || body::<Map<types::Tight>>(s)),
        (false, 2) => Box::new(move || body::<Map<types::Big>>(s)),
        (false, _) => Box::new(move || body::<Map<types::Nil>>(s)),
        (true, 0) => Box::new(move || body::<Set<types::Wide>>(s)),
        (true, 1) => Box::new(move || body::<Set<types::Tight>>(s)),
        (true, 2) => Box::new(move || body::<Set<types::Big>>(s)),
        (true, _) => Box::new(move || body::<Set<types::Nil>>(s)),
    };
    let mut o = rt::run(s.config(), main);
    let c = seize::sim::counts();
    o.stats.late = c.2;
    o
}
