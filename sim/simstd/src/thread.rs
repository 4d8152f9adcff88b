//! Simulated threads.
use crate::rt;
pub use ::std::thread::*;
use ::std::num::NonZeroUsize;
use ::std::time::Duration;

#[derive(Clone, Debug)]
pub struct Thread {
    id: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ThreadId(usize);

impl Thread {
    pub fn unpark(&self) {
        rt::unpark(self.id)
    }
    pub fn id(&self) -> ThreadId {
        ThreadId(self.id)
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
}

pub fn current() -> Thread {
    Thread { id: rt::tid() }
}
pub fn park() {
    rt::park()
}
/// A timeout is a wakeup that may come at any time.
pub fn park_timeout(_: Duration) {
    rt::yield_now()
}
pub fn yield_now() {
    rt::yield_now()
}
pub fn sleep(_: Duration) {
    rt::yield_now()
}
pub fn available_parallelism() -> ::std::io::Result<NonZeroUsize> {
    Ok(NonZeroUsize::new(rt::cfg().cpus.max(1)).unwrap())
}

/// Thread-local values: one for each simulated thread of the run, dropped when the thread ends.
pub struct LocalKey<T: 'static> {
    init: fn() -> T,
}

struct Local {
    key: usize,
    thread: usize,
    value: *mut u8,
    drop: unsafe fn(*mut u8),
}
static mut LOCALS: Vec<Local> = Vec::new();

unsafe fn drop_value<T>(p: *mut u8) {
    ::std::ptr::drop_in_place(p as *mut T)
}

/// The values of an earlier run are forgotten.
pub(crate) fn reset_locals() {
    unsafe { LOCALS.clear() }
}

/// Drops the values of the current thread.
pub fn drop_locals() {
    unsafe {
        let me = rt::tid();
        while let Some(i) = LOCALS.iter().position(|l| l.thread == me) {
            let l = LOCALS.remove(i);
            let _in = rt::Inside::enter();
            (l.drop)(l.value);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct AccessError;

impl<T: 'static> LocalKey<T> {
    #[doc(hidden)]
    pub const fn new(init: fn() -> T) -> Self {
        LocalKey { init }
    }
    fn get_ref(&'static self) -> &'static T {
        unsafe {
            let (key, thread) = (self as *const Self as usize, rt::tid());
            if let Some(l) = LOCALS.iter().find(|l| l.key == key && l.thread == thread) {
                return &*(l.value as *const T);
            }
            let v = (self.init)();
            let _out = rt::Outside::enter();
            let value = Box::into_raw(Box::new(v)) as *mut u8;
            LOCALS.push(Local { key, thread, value, drop: drop_value::<T> });
            &*(value as *const T)
        }
    }
    pub fn with<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        f(self.get_ref())
    }
    pub fn try_with<R>(&'static self, f: impl FnOnce(&T) -> R) -> ::std::result::Result<R, AccessError> {
        Ok(f(self.get_ref()))
    }
}
impl<T: 'static> LocalKey<::std::cell::Cell<T>> {
    pub fn set(&'static self, v: T) {
        self.get_ref().set(v)
    }
    pub fn get(&'static self) -> T
    where
        T: Copy,
    {
        self.get_ref().get()
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.get_ref().take()
    }
    pub fn replace(&'static self, v: T) -> T {
        self.get_ref().replace(v)
    }
}
impl<T: 'static> LocalKey<::std::cell::RefCell<T>> {
    pub fn with_borrow<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        f(&self.get_ref().borrow())
    }
    pub fn with_borrow_mut<R>(&'static self, f: impl FnOnce(&mut T) -> R) -> R {
        f(&mut self.get_ref().borrow_mut())
    }
    pub fn set(&'static self, v: T) {
        *self.get_ref().borrow_mut() = v
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.get_ref().take()
    }
    pub fn replace(&'static self, v: T) -> T {
        self.get_ref().replace(v)
    }
}

#[macro_export]
macro_rules! thread_local {
    () => {};
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const { $e:expr } $(; $($rest:tt)*)?) => {
        $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::new(|| $e);
        $($crate::thread_local!($($rest)*);)?
    };
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const $e:block $(; $($rest:tt)*)?) => {
        $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::new(|| $e);
        $($crate::thread_local!($($rest)*);)?
    };
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $e:expr $(; $($rest:tt)*)?) => {
        $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::new(|| $e);
        $($crate::thread_local!($($rest)*);)?
    };
}
