//! Simulated locks.
use crate::rt::{self, mem, vc::VC, Point, Wait};
use ::std::cell::{Cell, UnsafeCell};
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

struct Raw {
    /// 0 = free, usize::MAX = write-locked, otherwise the number of readers.
    state: Cell<usize>,
    poisoned: Cell<bool>,
    clock: Cell<VC>,
}

impl Raw {
    const fn new() -> Raw {
        Raw { state: Cell::new(0), poisoned: Cell::new(false), clock: Cell::new(VC::ZERO) }
    }
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    fn check(&self) {
        rt::check_access(self.addr(), ::std::mem::size_of::<Raw>(), "lock access")
    }
    fn acquire(&self, excl: bool) {
        rt::sched_point(Point::Write, self.addr());
        self.check();
        loop {
            if self.grab(excl) {
                return;
            }
            if !rt::active() {
                panic!("simulated lock contended outside of a run");
            }
            rt::stats().lock_waits += 1;
            rt::trace(|| format!("lock {:#x}: blocks", self.addr()));
            unsafe { rt::block(Wait::Mutex(self.addr())) };
            self.check();
        }
    }
    fn try_acquire(&self, excl: bool) -> bool {
        rt::sched_point(Point::Write, self.addr());
        self.check();
        self.grab(excl)
    }
    fn grab(&self, excl: bool) -> bool {
        let s = self.state.get();
        let ok = if excl { s == 0 } else { s != usize::MAX };
        if ok {
            self.state.set(if excl { usize::MAX } else { s + 1 });
            rt::tick_event();
            mem::acquire_clock(&self.clock.get());
            rt::trace(|| format!("lock {:#x}: acquired", self.addr()));
        }
        ok
    }
    fn release(&self) {
        self.check();
        let s = self.state.get();
        self.state.set(if s == usize::MAX { 0 } else { s - 1 });
        let mut c = self.clock.get();
        c.join(&mem::release_clock());
        self.clock.set(c);
        rt::trace(|| format!("lock {:#x}: released", self.addr()));
        rt::wake_all(&Wait::Mutex(self.addr()));
        rt::sched_point(Point::Other, self.addr());
    }
}

// --- Mutex ----------------------------------------------------------------------------------

pub struct Mutex<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> ::std::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> ::std::panic::RefUnwindSafe for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized> {
    lock: &'a Mutex<T>,
    panicking: bool,
    _unsend: ::std::marker::PhantomData<*mut ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { raw: Raw::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.raw.poisoned.get();
        let d = self.data.into_inner();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        let g = MutexGuard { lock: self, panicking: ::std::thread::panicking(), _unsend: ::std::marker::PhantomData };
        if self.raw.poisoned.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.raw.acquire(true);
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if self.raw.try_acquire(true) {
            self.guard().map_err(TryLockError::Poisoned)
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.raw.poisoned.get()
    }
    pub fn clear_poison(&self) {
        self.raw.poisoned.set(false)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.raw.poisoned.get();
        let d = self.data.get_mut();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex { .. }")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.lock.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && ::std::thread::panicking() {
            self.lock.raw.poisoned.set(true);
        }
        self.lock.raw.release();
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

// --- RwLock ---------------------------------------------------------------------------------

pub struct RwLock<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>, bool);
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { raw: Raw::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.data.into_inner())
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.raw.acquire(false);
        if self.raw.poisoned.get() {
            Err(PoisonError::new(RwLockReadGuard(self)))
        } else {
            Ok(RwLockReadGuard(self))
        }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        match self.raw.try_acquire(false) {
            false => Err(TryLockError::WouldBlock),
            true if self.raw.poisoned.get() => Err(TryLockError::Poisoned(PoisonError::new(RwLockReadGuard(self)))),
            true => Ok(RwLockReadGuard(self)),
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        if !self.raw.try_acquire(true) {
            return Err(TryLockError::WouldBlock);
        }
        let g = RwLockWriteGuard(self, ::std::thread::panicking());
        match self.raw.poisoned.get() {
            true => Err(TryLockError::Poisoned(PoisonError::new(g))),
            false => Ok(g),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.raw.poisoned.get()
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.raw.acquire(true);
        let g = RwLockWriteGuard(self, ::std::thread::panicking());
        if self.raw.poisoned.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.data.get_mut())
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.release()
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.1 && ::std::thread::panicking() {
            self.0.raw.poisoned.set(true);
        }
        self.0.raw.release()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

// --- Condvar --------------------------------------------------------------------------------

#[derive(Default)]
pub struct Condvar {
    // Not zero-sized, so that its address identifies it.
    _pad: UnsafeCell<u64>,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { _pad: UnsafeCell::new(0) }
    }
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let lock = g.lock;
        rt::sched_point(Point::Other, self.addr());
        rt::check_access(self.addr(), 8, "condvar wait");
        // Atomically release and wait: no scheduling point in between.
        lock.raw.state.set(0);
        let mut c = lock.raw.clock.get();
        c.join(&mem::release_clock());
        lock.raw.clock.set(c);
        rt::wake_all(&Wait::Mutex(lock.raw.addr()));
        ::std::mem::forget(g);
        unsafe { rt::block(Wait::Cond(self.addr())) };
        lock.lock()
    }
    /// A timeout may come at any time.
    pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, _: ::std::time::Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let lock = g.lock;
        drop(g);
        rt::yield_now();
        lock.lock().map(|g| (g, WaitTimeoutResult(true))).map_err(|e| PoisonError::new((e.into_inner(), WaitTimeoutResult(true))))
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut f: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn notify_all(&self) {
        rt::sched_point(Point::Other, self.addr());
        rt::check_access(self.addr(), 8, "condvar notify");
        rt::wake_all(&Wait::Cond(self.addr()));
    }
    pub fn notify_one(&self) {
        rt::sched_point(Point::Other, self.addr());
        rt::check_access(self.addr(), 8, "condvar notify");
        unsafe {
            let w = Wait::Cond(self.addr());
            if let Some(i) = (0..rt::RT.fibers.len()).find(|&i| rt::RT.fibers[i].wait == w) {
                rt::wake(i);
            }
        }
    }
}


// --- OnceLock, LazyLock, Once ---------------------------------------------------------------

/// (A static one keeps its value from run to run, as it does from test to test in a real process.)
pub struct OnceLock<T> {
    done: super::atomic::AtomicBool,
    lock: Mutex<()>,
    data: UnsafeCell<Option<T>>,
}
unsafe impl<T: Send> Send for OnceLock<T> {}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { done: super::atomic::AtomicBool::new(false), lock: Mutex::new(()), data: UnsafeCell::new(None) }
    }
    pub fn get(&self) -> Option<&T> {
        if self.done.load(super::atomic::Ordering::Acquire) {
            unsafe { (*self.data.get()).as_ref() }
        } else {
            None
        }
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.data.get_mut().as_mut()
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        let mut t = Some(t);
        self.get_or_init(|| t.take().unwrap());
        t.map_or(Ok(()), Err)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if let Some(t) = self.get() {
            return t;
        }
        let _g = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
        if self.get().is_none() {
            let t = if rt::arena::contains(self as *const _ as usize) {
                f()
            } else {
                // What a static owns outlives the run.
                let _o = rt::Outside::enter();
                f()
            };
            unsafe { *self.data.get() = Some(t) };
            self.done.store(true, super::atomic::Ordering::Release);
        }
        unsafe { (*self.data.get()).as_ref().unwrap() }
    }
    pub fn into_inner(self) -> Option<T> {
        self.data.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        *self.done.get_mut() = false;
        self.data.get_mut().take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        OnceLock::new()
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    init: Cell<Option<F>>,
}
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { cell: OnceLock::new(), init: Cell::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| this.init.take().expect("poisoned")())
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}

pub struct Once(OnceLock<()>);
impl Once {
    pub const fn new() -> Self {
        Once(OnceLock::new())
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.0.get_or_init(f);
    }
    pub fn is_completed(&self) -> bool {
        self.0.get().is_some()
    }
}

impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}
impl fmt::Debug for Once {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Once { .. }")
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock { .. }")
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.get().fmt(f)
    }
}
