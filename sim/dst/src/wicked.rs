//! Keys whose `Hash` and `Eq` lie or panic: nothing is promised about results, but memory must stay sound.
//!
//! Every reference handed out is checked until its guard goes (by the elements themselves and the arena), every drop is
//! counted. What the operations return is not judged, and neither is a hang: a key that panics while a resize hashes it
//! leaves its entry marked for good.
use crate::exec;
use crate::prog::*;
use crate::types::{self, Injected, Raw, H, K, Q, V};
use papaya::{Compute, Guard, HashMap, HashSet, Operation, ResizeMode};
use simstd::rt::{self, Inside, Outside};
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};

type M<R> = HashMap<K<R>, V<R>, H>;
type S<R> = HashSet<K<R>, H>;

struct Held<R: Raw> {
    keys: Vec<(*const K<R>, u32)>,
    vals: Vec<(*const V<R>, u32)>,
}

impl<R: Raw> Held<R> {
    fn new() -> Self {
        Held { keys: Vec::new(), vals: Vec::new() }
    }
    fn k(&mut self, k: &K<R>) {
        let _o = Outside::enter();
        let s = k.serial();
        if self.keys.len() < 24 {
            self.keys.push((k, s));
        }
    }
    fn v(&mut self, v: &V<R>) {
        let _o = Outside::enter();
        let s = v.serial();
        if self.vals.len() < 24 {
            self.vals.push((v, s));
        }
    }
    fn kv(&mut self, e: (&K<R>, &V<R>)) {
        self.k(e.0);
        self.v(e.1);
    }
    fn check(&self) {
        for &(k, s) in &self.keys {
            let n = unsafe { (*k).serial() };
            if n != s {
                rt::violation("ref-changed", format!("the key behind a reference changed from {s} to {n} under its guard"));
            }
        }
        for &(v, s) in &self.vals {
            let n = unsafe { (*v).serial() };
            if n != s {
                rt::violation("ref-changed", format!("the value behind a reference changed from {s} to {n} under its guard"));
            }
        }
    }
}

fn key<R: Raw>(k: u32) -> K<R> {
    let _o = Outside::enter();
    K::new(k)
}
fn val<R: Raw>(k: u32) -> V<R> {
    let _o = Outside::enter();
    V::new(k)
}

fn map_op<R: Raw>(m: &M<R>, o: &Op, g: &impl Guard, h: &mut Held<R>) {
    let (k, a) = (o.1, o.2);
    let q = Q::<R>(k, PhantomData);
    match o.0 {
        GET => {
            if let Some(v) = m.get(&q, g) {
                h.v(v)
            }
        }
        GET_KV => {
            if let Some(e) = m.get_key_value(&q, g) {
                h.kv(e)
            }
        }
        CONTAINS => {
            m.contains_key(&q, g);
        }
        INSERT => {
            if let Some(v) = m.insert(key(k), val(k), g) {
                h.v(v)
            }
        }
        TRY_INSERT => match m.try_insert(key(k), val(k), g) {
            Ok(v) => h.v(v),
            Err(e) => h.v(e.current),
        },
        TRY_INSERT_WITH => match m.try_insert_with(key(k), || val(k), g) {
            Ok(v) => h.v(v),
            Err(v) => h.v(v),
        },
        GET_OR_INSERT => h.v(m.get_or_insert(key(k), val(k), g)),
        GET_OR_INSERT_WITH => h.v(m.get_or_insert_with(key(k), || val(k), g)),
        UPDATE => {
            if let Some(v) = m.update(
                key(k),
                |old| {
                    old.serial();
                    val(k)
                },
                g,
            ) {
                h.v(v)
            }
        }
        UPDATE_OR_INSERT => h.v(m.update_or_insert_with(
            key(k),
            |old| {
                old.serial();
                val(k)
            },
            || val(k),
            g,
        )),
        COMPUTE => {
            let r = m.compute(
                key(k),
                |e| match (e, a % 3) {
                    (Some((ek, ev)), 0) => {
                        ek.serial();
                        ev.serial();
                        Operation::Remove
                    }
                    (_, 1) => Operation::Abort(()),
                    (e, _) => {
                        if let Some((ek, ev)) = e {
                            ek.serial();
                            ev.serial();
                        }
                        Operation::Insert(val(k))
                    }
                },
                g,
            );
            match r {
                Compute::Inserted(k, v) | Compute::Removed(k, v) => h.kv((k, v)),
                Compute::Updated { old, new } => {
                    h.kv(old);
                    h.kv(new)
                }
                Compute::Aborted(()) => {}
            }
        }
        REMOVE => {
            if let Some(v) = m.remove(&q, g) {
                h.v(v)
            }
        }
        REMOVE_ENTRY => {
            if let Some(e) = m.remove_entry(&q, g) {
                h.kv(e)
            }
        }
        REMOVE_IF => match m.remove_if(&q, |k, v| k.serial() + v.serial() & 1 == 0, g) {
            Ok(Some(e)) | Err(e) => h.kv(e),
            Ok(None) => {}
        },
        CLEAR => m.clear(g),
        RETAIN => m.retain(|k, v| (k.serial() + v.serial()) & 1 == 0, g),
        ITER => {
            let mut n = 0;
            for e in m.iter(g) {
                h.kv(e);
                n += 1;
                if n > 300 {
                    break;
                }
            }
        }
        LEN => {
            m.len();
        }
        IS_EMPTY => {
            m.is_empty();
        }
        RESERVE => m.reserve((a % 100) as usize, g),
        CLONE => drop(m.clone()),
        EQ => {
            let _ = m == m;
        }
        EXTEND => {
            let mut m = m;
            m.extend((0..a % 5).map(|i| (key(k ^ i), val(k ^ i))));
        }
        _ => {}
    }
}

fn set_op<R: Raw>(m: &S<R>, o: &Op, g: &impl Guard, h: &mut Held<R>) {
    let (k, a) = (o.1, o.2);
    let q = Q::<R>(k, PhantomData);
    match o.0 {
        GET => {
            if let Some(k) = m.get(&q, g) {
                h.k(k)
            }
        }
        CONTAINS => {
            m.contains(&q, g);
        }
        INSERT => {
            m.insert(key(k), g);
        }
        REMOVE => {
            m.remove(&q, g);
        }
        CLEAR => m.clear(g),
        RETAIN => m.pin().retain(|k| k.serial() & 1 == 0),
        ITER => {
            for k in m.iter(g).take(300) {
                h.k(k)
            }
        }
        RESERVE => m.reserve((a % 100) as usize, g),
        CLONE => drop(m.clone()),
        EQ => {
            let _ = m == m;
        }
        EXTEND => {
            let mut m = m;
            m.extend((0..a % 5).map(|i| key(k ^ i)));
        }
        _ => {}
    }
}

trait Sub: 'static {
    type R: Raw;
    fn build(s: &Scenario) -> Self;
    fn op<G: Guard>(&self, o: &Op, g: &G, h: &mut Held<Self::R>);
    fn with(&self, owned: bool, ops: &[Op], base: u32);
}

fn run_ops<T: Sub, G: Guard>(t: &T, g: &mut G, ops: &[Op], base: u32) {
    let mut h = Held::new();
    for (i, o) in ops.iter().enumerate() {
        // A caller that sees its `Hash` fail halfway through a resize does not come back.
        if unsafe { types::WICKED.fell } {
            break;
        }
        {
            let _o = Outside::enter();
            rt::begin_op(base + i as u32);
            rt::trace(|| o.text());
            unsafe { exec::COUNTS.ops += 1 };
        }
        if o.0 == REFRESH {
            h = Held::new();
            g.refresh();
            continue;
        }
        if o.0 == FLUSH {
            g.flush();
            continue;
        }
        let r = catch_unwind(AssertUnwindSafe(|| t.op(o, g, &mut h)));
        if let Err(p) = r {
            let _o = Outside::enter();
            unsafe { exec::COUNTS.panics += 1 };
            let injected = p.downcast_ref::<Injected>().is_some();
            rt::trace(|| format!("panicked: {}", if injected { "injected".into() } else { rt::panic_text(&*p) }));
            let _i = Inside::enter();
            drop(p);
        }
        let _o = Outside::enter();
        h.check();
        rt::end_op();
    }
    let _o = Outside::enter();
    rt::begin_op(base + ops.len() as u32);
    h.check();
}

fn mode(s: &Scenario) -> ResizeMode {
    match s.incremental {
        0 => ResizeMode::Blocking,
        n => ResizeMode::Incremental(n),
    }
}

impl<R: Raw> Sub for M<R> {
    type R = R;
    fn build(s: &Scenario) -> Self {
        HashMap::builder().hasher(H).resize_mode(mode(s)).capacity(s.cap).collector(seize::Collector::new().batch_size(s.batch.max(1))).build()
    }
    fn op<G: Guard>(&self, o: &Op, g: &G, h: &mut Held<R>) {
        map_op(self, o, g, h)
    }
    fn with(&self, owned: bool, ops: &[Op], base: u32) {
        if owned {
            run_ops(self, &mut self.owned_guard(), ops, base)
        } else {
            run_ops(self, &mut self.guard(), ops, base)
        }
    }
}
impl<R: Raw> Sub for S<R> {
    type R = R;
    fn build(s: &Scenario) -> Self {
        HashSet::builder().hasher(H).resize_mode(mode(s)).capacity(s.cap).collector(seize::Collector::new().batch_size(s.batch.max(1))).build()
    }
    fn op<G: Guard>(&self, o: &Op, g: &G, h: &mut Held<R>) {
        set_op(self, o, g, h)
    }
    fn with(&self, owned: bool, ops: &[Op], base: u32) {
        if owned {
            run_ops(self, &mut self.owned_guard(), ops, base)
        } else {
            run_ops(self, &mut self.guard(), ops, base)
        }
    }
}

/// The operations, with a new guard at every PIN.
fn run<T: Sub>(t: &T, ops: &[Op], base: u32) {
    let mut base = base;
    let mut rest = ops;
    while !rest.is_empty() {
        let owned = rest[0].0 == PIN && rest[0].3 & F_OWNED != 0;
        let from = (rest[0].0 == PIN) as usize;
        let n = rest[from..].iter().position(|o| o.0 == PIN).map_or(rest.len(), |n| n + from);
        let _i = Inside::enter();
        t.with(owned, &rest[from..n], base);
        base += n as u32 + 1;
        rest = &rest[n..];
    }
}

fn life<T: Sub>(s: &'static Scenario) {
    let t: *mut T = {
        let _i = Inside::enter();
        Box::into_raw(Box::new(T::build(s)))
    };
    let map: &'static T = unsafe { &*t };
    run(map, &s.pre, 1);
    types::wicked(s.wicked, s.seed);
    for ops in &s.threads {
        rt::spawn(Box::new(move || run(map, ops, 1)));
    }
    rt::begin_op(100_001);
    rt::join_all();
    run(map, &s.post, exec::POST_BASE);
    rt::begin_op(100_003);
    {
        let _i = Inside::enter();
        drop(unsafe { Box::from_raw(t) });
    }
    simstd::thread::drop_locals();
    if s.wicked.eq_panics == 0 && s.wicked.hash_panics == 0 {
        // Lies cost nothing but the results.
        for (i, o) in unsafe { types::REG.iter().enumerate().skip(1) } {
            if o.dropped == 0 {
                rt::violation("leak", format!("{} {i} (id {}, made by T{}) was never dropped", if o.is_key { "key" } else { "value" }, o.id, o.tid));
            }
        }
        let (n, bytes, _) = rt::arena::live();
        if n != 0 {
            rt::violation("leak", format!("{n} blocks ({bytes} bytes) leaked"));
        }
    }
}

pub fn body(s: &'static Scenario) {
    match (s.set, s.elem) {
        (false, 0) => life::<M<types::Wide>>(s),
        (false, 1) => life::<M<types::Tight>>(s),
        (false, _) => life::<M<types::Big>>(s),
        (true, 0) => life::<S<types::Wide>>(s),
        (true, 1) => life::<S<types::Tight>>(s),
        (true, _) => life::<S<types::Big>>(s),
    }
}
