//! Simulated atomics. Every access is a scheduling point, is checked for liveness of the memory it
//! touches, and takes part in the simulated memory model.
use crate::rt::mem;
use ::std::fmt;
pub use ::std::sync::atomic::Ordering;
use ::std::sync::atomic as real;

const R: Ordering = Ordering::Relaxed;

/// The failure ordering std derives for an RMW-like operation.
fn load_part(o: Ordering) -> Ordering {
    match o {
        Ordering::Release | Ordering::Relaxed => Ordering::Relaxed,
        Ordering::AcqRel | Ordering::Acquire => Ordering::Acquire,
        _ => Ordering::SeqCst,
    }
}

pub fn fence(o: Ordering) {
    mem::fence(o)
}
/// Orders only against signal handlers on the same thread, of which there are none.
pub fn compiler_fence(_: Ordering) {}
pub fn spin_loop_hint() {
    crate::hint::spin_loop()
}

macro_rules! common {
    ($name:ident, $t:ty, $real:ty, [$($g:tt)*], $to:expr, $from:expr) => {
        impl<$($g)*> $name<$($g)*> {
            #[inline]
            fn addr(&self) -> usize {
                self as *const Self as *const u8 as usize
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            pub const fn as_ptr(&self) -> *mut $t {
                self.0.as_ptr()
            }
            /// # Safety
            /// As for the real `from_ptr`.
            pub const unsafe fn from_ptr<'a>(p: *mut $t) -> &'a Self {
                &*(p as *mut Self)
            }
            pub fn load(&self, o: Ordering) -> $t {
                $from(mem::load(self.addr(), ::std::mem::size_of::<Self>(), o, || $to(self.0.load(R))))
            }
            pub fn store(&self, v: $t, o: Ordering) {
                mem::store(self.addr(), ::std::mem::size_of::<Self>(), o, $to(v), || $to(self.0.load(R)), |x| self.0.store($from(x), R))
            }
            fn rmw(&self, o: Ordering, f: impl Fn($t) -> $t) -> $t {
                $from(mem::rmw(
                    self.addr(), ::std::mem::size_of::<Self>(), o, load_part(o),
                    || $to(self.0.load(R)), |x| self.0.store($from(x), R),
                    |x| Some($to(f($from(x)))), false).0)
            }
            fn cas(&self, c: $t, n: $t, s: Ordering, f: Ordering, weak: bool) -> Result<$t, $t> {
                if matches!(f, Ordering::Release | Ordering::AcqRel) {
                    panic!("there is no such thing as a release failure ordering");
                }
                let cb = $to(c);
                let nb = $to(n);
                let (v, ok) = mem::rmw(
                    self.addr(), ::std::mem::size_of::<Self>(), s, f,
                    || $to(self.0.load(R)), |x| self.0.store($from(x), R),
                    |x| if x == cb { Some(nb) } else { None }, weak);
                if ok { Ok($from(v)) } else { Err($from(v)) }
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                let n = $to(v);
                self.rmw(o, |_| $from(n))
            }
            pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                self.cas(c, n, s, f, false)
            }
            pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                self.cas(c, n, s, f, true)
            }
            #[allow(deprecated)]
            pub fn compare_and_swap(&self, c: $t, n: $t, o: Ordering) -> $t {
                match self.cas(c, n, o, load_part(o), false) { Ok(x) | Err(x) => x }
            }
            pub fn fetch_update<F>(&self, set: Ordering, fetch: Ordering, mut f: F) -> Result<$t, $t>
            where F: FnMut($t) -> Option<$t> {
                let mut prev = self.load(fetch);
                while let Some(next) = f(prev) {
                    match self.compare_exchange_weak(prev, next, set, fetch) {
                        x @ Ok(_) => return x,
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
        }
        impl<$($g)*> fmt::Debug for $name<$($g)*> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Debug::fmt(&self.load(R), f)
            }
        }
        impl<$($g)*> From<$t> for $name<$($g)*> {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
    };
}

macro_rules! int {
    ($name:ident, $t:ty) => {
        #[repr(transparent)]
        pub struct $name(real::$name);
        impl $name {
            pub const fn new(v: $t) -> Self {
                Self(real::$name::new(v))
            }
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| x.wrapping_add(v)) }
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| x.wrapping_sub(v)) }
            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| x & v) }
            pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| !(x & v)) }
            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| x | v) }
            pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| x ^ v) }
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| x.max(v)) }
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| x.min(v)) }
        }
        impl Default for $name {
            fn default() -> Self { Self::new(0) }
        }
        common!($name, $t, real::$name, [], |x: $t| x as u64, |x: u64| x as $t);
    };
}

int!(AtomicU8, u8);
int!(AtomicI8, i8);
int!(AtomicU16, u16);
int!(AtomicI16, i16);
int!(AtomicU32, u32);
int!(AtomicI32, i32);
int!(AtomicU64, u64);
int!(AtomicI64, i64);
int!(AtomicUsize, usize);
int!(AtomicIsize, isize);

#[repr(transparent)]
pub struct AtomicBool(real::AtomicBool);
impl AtomicBool {
    pub const fn new(v: bool) -> Self {
        Self(real::AtomicBool::new(v))
    }
    pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
        self.rmw(o, |x| x & v)
    }
    pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
        self.rmw(o, |x| x | v)
    }
    pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
        self.rmw(o, |x| x ^ v)
    }
    pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool {
        self.rmw(o, |x| !(x & v))
    }
    pub fn fetch_not(&self, o: Ordering) -> bool {
        self.rmw(o, |x| !x)
    }
}
impl Default for AtomicBool {
    fn default() -> Self {
        Self::new(false)
    }
}
common!(AtomicBool, bool, real::AtomicBool, [], |x: bool| x as u64, |x: u64| x != 0);

#[repr(transparent)]
pub struct AtomicPtr<T>(real::AtomicPtr<T>);
impl<T> AtomicPtr<T> {
    pub const fn new(v: *mut T) -> Self {
        Self(real::AtomicPtr::new(v))
    }
}
impl<T> Default for AtomicPtr<T> {
    fn default() -> Self {
        Self::new(::std::ptr::null_mut())
    }
}
common!(AtomicPtr, *mut T, real::AtomicPtr<T>, [T], |x: *mut T| x as usize as u64, |x: u64| x as usize as *mut T);
