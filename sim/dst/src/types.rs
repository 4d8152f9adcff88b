//! Instrumented element types: every key and value has a serial number in a registry, so that
//! liveness, exactly-once drops, provenance and publication can be checked at every access.
#![allow(static_mut_refs)]
use simstd::rt::{self, Outside, Point};
use std::fmt;
use std::hash::{BuildHasher, Hash, Hasher};
use std::marker::PhantomData;

// ---- storage shapes -----------------------------------------------------------------------

pub trait Raw: 'static {
    /// Instances have no identity.
    const ZERO: bool = false;
    fn make(serial: u32) -> Self;
    fn read(&self) -> Option<u32>;
    fn kill(&mut self);
}

/// 24 bytes, 8-aligned.
#[repr(C)]
pub struct Wide {
    canary: u64,
    serial: u32,
    inv: u32,
    tail: u64,
}
impl Raw for Wide {
    fn make(s: u32) -> Self {
        Wide { canary: 0x5AFE_0BEC_7000_0000 ^ s as u64, serial: s, inv: !s, tail: (s as u64).wrapping_mul(0x9E3779B97F4A7C15) }
    }
    fn read(&self) -> Option<u32> {
        let s = self.serial;
        (self.inv == !s && self.canary == 0x5AFE_0BEC_7000_0000 ^ s as u64 && self.tail == (s as u64).wrapping_mul(0x9E3779B97F4A7C15)).then_some(s)
    }
    fn kill(&mut self) {
        self.canary = 0xDEAD;
    }
}

/// 5 bytes, alignment 1.
pub struct Tight([u8; 5]);
impl Raw for Tight {
    fn make(s: u32) -> Self {
        let b = s.to_le_bytes();
        Tight([b[0], b[1], b[2], b[3], b[0] ^ b[1].rotate_left(3) ^ b[2].rotate_left(5) ^ b[3] ^ 0x6b])
    }
    fn read(&self) -> Option<u32> {
        let b = self.0;
        (b[4] == b[0] ^ b[1].rotate_left(3) ^ b[2].rotate_left(5) ^ b[3] ^ 0x6b).then_some(u32::from_le_bytes([b[0], b[1], b[2], b[3]]))
    }
    fn kill(&mut self) {
        self.0[4] ^= 0xff;
    }
}

/// 64 bytes, over-aligned.
#[repr(C, align(64))]
pub struct Big {
    w: Wide,
    pad: [u32; 10],
}
impl Raw for Big {
    fn make(s: u32) -> Self {
        Big { w: Wide::make(s), pad: [s; 10] }
    }
    fn read(&self) -> Option<u32> {
        if self as *const _ as usize % 64 != 0 {
            return None;
        }
        let s = self.w.read()?;
        self.pad.iter().all(|&p| p == s).then_some(s)
    }
    fn kill(&mut self) {
        self.w.kill()
    }
}

/// Zero bytes: one key and one value that exist in any number of indistinguishable instances.
pub struct Nil;
impl Raw for Nil {
    const ZERO: bool = true;
    fn make(_: u32) -> Self {
        Nil
    }
    fn read(&self) -> Option<u32> {
        None
    }
    fn kill(&mut self) {}
}
const NIL_KEY: u32 = 1;
const NIL_VAL: u32 = 2;

// ---- registry --------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Obj {
    pub is_key: bool,
    /// Key id (keys) or the key id it was made for (values).
    pub id: u32,
    /// What equality compares: inherited by clones.
    pub content: u32,
    pub tid: u8,
    pub epoch: u32,
    pub dropped: u32,
    pub drop_step: u64,
}

pub static mut REG: Vec<Obj> = Vec::new();
/// Clone calls (original serial, clone serial) since last taken, by thread.
pub static mut CLONES: Vec<(usize, u32, u32)> = Vec::new();
/// Makes the n-th next clone (of this thread) panic.
pub static mut CLONE_PANIC: [u32; 8] = [0; 8];
/// Makes drops of registered objects in this list... (none: drops never panic)
pub static mut HASHES: Vec<u64> = Vec::new();
pub static mut LIVE_KEYS: i64 = 0;
pub static mut LIVE_VALS: i64 = 0;

pub struct Injected;

/// How often, per mille, comparisons and hashes of keys go wrong.
#[derive(Clone, Copy, Default, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
#[serde(default)]
pub struct Faults {
    pub eq_lies: u32,
    pub hash_lies: u32,
    pub eq_panics: u32,
    pub hash_panics: u32,
    /// Hashes that lie are all the same.
    pub collide: bool,
}
pub struct Wicked {
    pub f: Faults,
    seed: u64,
    /// Calls so far, by thread.
    calls: [u64; 8],
    /// A hash has panicked.
    pub fell: bool,
    pub faults: u64,
}
const TAME: Faults = Faults { eq_lies: 0, hash_lies: 0, eq_panics: 0, hash_panics: 0, collide: false };
pub static mut WICKED: Wicked = Wicked { f: TAME, seed: 0, calls: [0; 8], fell: false, faults: 0 };

pub fn wicked(f: Faults, seed: u64) {
    unsafe { WICKED = Wicked { f, seed, calls: [0; 8], fell: false, faults: 0 } }
}

/// Whether this call of the key's own code goes wrong, and a number to choose how.
fn strike(pm: u32) -> Option<u64> {
    if pm == 0 || !rt::active() {
        return None;
    }
    unsafe {
        let t = rt::tid();
        WICKED.calls[t] += 1;
        let h = spread(WICKED.seed ^ spread(WICKED.calls[t] << 4 | t as u64));
        if h % 1000 < pm as u64 {
            WICKED.faults += 1;
            crate::exec::COUNTS.caller_faults += 1;
            return Some(h >> 20);
        }
    }
    None
}

fn compare(equal: bool) -> bool {
    let f = unsafe { WICKED.f };
    if strike(f.eq_panics).is_some() {
        let _o = Outside::enter();
        rt::trace(|| "a comparison of keys panics".into());
        std::panic::panic_any(Injected);
    }
    if strike(f.eq_lies).is_some() {
        rt::trace(|| format!("a comparison of keys says {}", !equal));
        return !equal;
    }
    equal
}

fn hashed(id: u32) -> u32 {
    let f = unsafe { WICKED.f };
    if strike(f.hash_panics).is_some() {
        let _o = Outside::enter();
        unsafe { WICKED.fell = true };
        rt::trace(|| format!("hashing a key of id {id} panics"));
        std::panic::panic_any(Injected);
    }
    if let Some(h) = strike(f.hash_lies) {
        let n = unsafe { HASHES.len() as u64 }.max(1);
        let other = if f.collide { 0 } else { (h % (n * 2)) as u32 };
        rt::trace(|| format!("a key of id {id} hashes like {other}"));
        return other;
    }
    id
}

pub fn reset(hashes: &[u64], zero: bool) {
    unsafe {
        REG.clear();
        REG.push(Obj { is_key: false, id: 0, content: 0, tid: 0, epoch: 0, dropped: 1, drop_step: 0 });
        if zero {
            REG.push(Obj { is_key: true, id: 0, content: 0, tid: 0, epoch: 0, dropped: 0, drop_step: 0 });
            REG.push(Obj { is_key: false, id: 0, content: 0, tid: 0, epoch: 0, dropped: 0, drop_step: 0 });
        }
        CLONES.clear();
        CLONE_PANIC = [0; 8];
        BUSY = [false; 8];
        HASHING = [false; 8];
        HASHES = hashes.to_vec();
        WICKED = Wicked { f: TAME, seed: 0, calls: [0; 8], fell: false, faults: 0 };
        LIVE_KEYS = 0;
        LIVE_VALS = 0;
    }
}

fn register<R: Raw>(is_key: bool, id: u32, content: Option<u32>) -> u32 {
    let _o = Outside::enter();
    unsafe {
        if R::ZERO {
            if is_key {
                LIVE_KEYS += 1
            } else {
                LIVE_VALS += 1
            }
            return if is_key { NIL_KEY } else { NIL_VAL };
        }
        let s = REG.len() as u32;
        let (tid, epoch) = rt::tick_event();
        REG.push(Obj { is_key, id, content: content.unwrap_or(if is_key { id } else { s }), tid, epoch, dropped: 0, drop_step: 0 });
        if is_key {
            LIVE_KEYS += 1
        } else {
            LIVE_VALS += 1
        }
        s
    }
}

pub fn obj(serial: u32) -> &'static Obj {
    unsafe { &REG[serial as usize] }
}

fn inspect<R: Raw>(r: &R, is_key: bool, what: &str) -> u32 {
    let _o = Outside::enter();
    if R::ZERO {
        if unsafe { if is_key { LIVE_KEYS } else { LIVE_VALS } } <= 0 {
            rt::violation("use-after-drop", format!("{what}: every instance has been dropped"));
        }
        return if is_key { NIL_KEY } else { NIL_VAL };
    }
    rt::check_access(r as *const R as usize, std::mem::size_of::<R>(), what);
    if r as *const R as usize % std::mem::align_of::<R>() != 0 {
        rt::violation("wild", format!("{what} through misaligned reference {:p}", r));
    }
    let kind = if is_key { "key" } else { "value" };
    let Some(s) = r.read() else { rt::violation("corrupt", format!("{what}: the {kind} at {:p} is not intact", r)) };
    unsafe {
        match REG.get(s as usize) {
            None => rt::violation("corrupt", format!("{what}: the {kind} at {:p} has unknown serial {s}", r)),
            Some(o) => {
                if o.is_key != is_key {
                    rt::violation("corrupt", format!("{what}: the {kind} at {:p} has the serial {s} of another kind", r));
                }
                if o.dropped != 0 {
                    rt::violation("use-after-drop", format!("{what}: {kind} {s} (id {}) was dropped at step {}", o.id, o.drop_step));
                }
                if o.epoch != 0 && !rt::cur_clock().saw(o.tid, o.epoch) {
                    rt::violation(
                        "publication",
                        format!("{what}: T{} observes {kind} {s} (id {}) built by T{} without happens-before", rt::tid(), o.id, o.tid),
                    );
                }
            }
        }
    }
    s
}

fn destroy<R: Raw>(r: &mut R, is_key: bool) {
    let _o = Outside::enter();
    if !rt::active() {
        return;
    }
    if R::ZERO {
        unsafe {
            let n = if is_key { &mut LIVE_KEYS } else { &mut LIVE_VALS };
            *n -= 1;
            if *n < 0 {
                rt::violation("double-drop", format!("more {} were dropped than made", if is_key { "keys" } else { "values" }));
            }
        }
        return;
    }
    let a = r as *const R as usize;
    if rt::arena::contains(a) {
        rt::check_access(a, std::mem::size_of::<R>(), "drop");
    }
    let kind = if is_key { "key" } else { "value" };
    let Some(s) = r.read() else {
        rt::violation("double-drop", format!("drop of the {kind} at {:p}, which is not intact (dropped twice or never initialised)", r))
    };
    unsafe {
        let Some(o) = REG.get_mut(s as usize) else { rt::violation("double-drop", format!("drop of a {kind} with unknown serial {s}")) };
        o.dropped += 1;
        if o.dropped > 1 || o.is_key != is_key {
            rt::violation("double-drop", format!("{kind} {s} (id {}) dropped twice: first at step {}", o.id, o.drop_step));
        }
        if o.epoch != 0 && !rt::cur_clock().saw(o.tid, o.epoch) {
            rt::violation("publication", format!("T{} drops {kind} {s} built by T{} without happens-before", rt::tid(), o.tid));
        }
        o.drop_step = rt::now();
        if is_key {
            LIVE_KEYS -= 1
        } else {
            LIVE_VALS -= 1
        }
    }
    rt::trace(|| format!("drop {kind} {s}"));
    r.kill();
}

// ---- keys and values ---------------------------------------------------------------------------

pub struct K<R: Raw>(R);
pub struct V<R: Raw>(R);

impl<R: Raw> K<R> {
    pub fn new(id: u32) -> Self {
        K(R::make(register::<R>(true, id, None)))
    }
    pub fn serial(&self) -> u32 {
        inspect(&self.0, true, "key access")
    }
    pub fn id(&self) -> u32 {
        obj(self.serial()).id
    }
}
impl<R: Raw> V<R> {
    pub fn new(id: u32) -> Self {
        V(R::make(register::<R>(false, id, None)))
    }
    pub fn serial(&self) -> u32 {
        inspect(&self.0, false, "value access")
    }
}
impl<R: Raw> Drop for K<R> {
    fn drop(&mut self) {
        destroy(&mut self.0, true)
    }
}
impl<R: Raw> Drop for V<R> {
    fn drop(&mut self) {
        destroy(&mut self.0, false)
    }
}
impl<R: Raw> Hash for K<R> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        let i = self.id();
        hash_point(i);
        h.write_u32(hashed(i))
    }
}
impl<R: Raw> PartialEq for K<R> {
    fn eq(&self, o: &Self) -> bool {
        let (a, b) = (self.id(), o.id());
        user_code();
        compare(a == b)
    }
}
impl<R: Raw> Eq for K<R> {}
impl<R: Raw> PartialEq for V<R> {
    fn eq(&self, o: &Self) -> bool {
        obj(self.serial()).content == obj(o.serial()).content
    }
}
impl<R: Raw> Eq for V<R> {}

/// The caller's code runs: other threads may run too.
pub fn user_code() {
    let _o = Outside::enter();
    rt::sched_point(Point::Read, 20);
}

/// What the threads are doing, for runs that need to know (`WATCH`): in an operation or between two; the keys hashed in
/// the current operation; in the middle of hashing one.
pub static mut WATCH: bool = false;
pub static mut BUSY: [bool; 8] = [false; 8];
pub static mut HASHED: [Vec<u32>; 8] = [const { Vec::new() }; 8];
pub static mut HASHING: [bool; 8] = [false; 8];

fn hash_point(id: u32) {
    unsafe {
        if WATCH {
            let t = rt::tid();
            let _o = Outside::enter();
            HASHED[t].push(id);
            HASHING[t] = true;
            rt::sched_point(Point::Write, 20);
            HASHING[t] = false;
        }
    }
}

/// Every other thread is between two operations, or hashing a key in an operation that has nothing to do with `key`.
pub fn others_away(key: u32) -> bool {
    let me = rt::tid();
    unsafe { (0..8).all(|t| t == me || !BUSY[t] || HASHING[t] && !HASHED[t].contains(&key)) }
}

fn clone_fault() {
    unsafe {
        let c = &mut CLONE_PANIC[rt::tid()];
        if *c > 0 {
            *c -= 1;
            if *c == 0 {
                let _o = Outside::enter();
                std::panic::panic_any(Injected);
            }
        }
    }
}

impl<R: Raw> Clone for K<R> {
    fn clone(&self) -> Self {
        let s = self.serial();
        user_code();
        let n = K::new(obj(s).id);
        let _o = Outside::enter();
        unsafe { CLONES.push((rt::tid(), s, n.serial())) };
        n
    }
}
impl<R: Raw> Clone for V<R> {
    fn clone(&self) -> Self {
        let s = self.serial();
        user_code();
        clone_fault();
        let o = obj(s).clone();
        let n = V(R::make(register::<R>(false, o.id, Some(o.content))));
        let _o = Outside::enter();
        unsafe { CLONES.push((rt::tid(), s, n.serial())) };
        n
    }
}
impl<R: Raw> fmt::Debug for K<R> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let i = self.id();
        user_code();
        write!(f, "k{}", i)
    }
}
impl<R: Raw> fmt::Debug for V<R> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let s = self.serial();
        user_code();
        write!(f, "v{}", s)
    }
}
impl<R: Raw> serde::Serialize for K<R> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let i = self.id();
        user_code();
        s.serialize_u32(i)
    }
}
impl<R: Raw> serde::Serialize for V<R> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let i = self.serial();
        user_code();
        s.serialize_u32(i)
    }
}
/// Deserialization input that makes the element's own code fail.
pub const BAD: u32 = 0xBAD;
pub const PANIC: u32 = 0xBAD0;
struct U32Visitor;
impl serde::de::Visitor<'_> for U32Visitor {
    type Value = u32;
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "a number")
    }
    fn visit_u32<E: serde::de::Error>(self, v: u32) -> Result<u32, E> {
        Ok(v)
    }
    fn visit_u64<E: serde::de::Error>(self, v: u64) -> Result<u32, E> {
        Ok(v as u32)
    }
}
fn de<'d, D: serde::Deserializer<'d>>(d: D) -> Result<u32, D::Error> {
    let v = d.deserialize_u32(U32Visitor)?;
    user_code();
    if v == BAD {
        return Err(serde::de::Error::custom("bad element"));
    }
    if v == PANIC {
        let _o = Outside::enter();
        std::panic::panic_any(Injected);
    }
    Ok(v)
}
impl<'d, R: Raw> serde::Deserialize<'d> for K<R> {
    fn deserialize<D: serde::Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
        Ok(K::new(de(d)?))
    }
}
impl<'d, R: Raw> serde::Deserialize<'d> for V<R> {
    fn deserialize<D: serde::Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
        let c = de(d)?;
        Ok(V(R::make(register::<R>(false, 0, Some(c)))))
    }
}

/// A borrowed form of a key.
pub struct Q<R>(pub u32, pub PhantomData<R>);
impl<R> Hash for Q<R> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        hash_point(self.0);
        h.write_u32(hashed(self.0))
    }
}
impl<R: Raw> equivalent::Equivalent<K<R>> for Q<R> {
    fn equivalent(&self, k: &K<R>) -> bool {
        let i = k.id();
        user_code();
        compare(self.0 == i)
    }
}

/// The scenario decides every key's hash.
#[derive(Clone, Default, Debug)]
pub struct H;
pub struct HH(u32);
impl BuildHasher for H {
    type Hasher = HH;
    fn build_hasher(&self) -> HH {
        HH(0)
    }
}
impl Hasher for HH {
    fn finish(&self) -> u64 {
        unsafe { HASHES.get(self.0 as usize).copied().unwrap_or_else(|| spread(self.0 as u64)) }
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u32(&mut self, i: u32) {
        self.0 = i
    }
}

pub fn spread(i: u64) -> u64 {
    let mut z = i.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
