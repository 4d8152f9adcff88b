//! A façade over `std` that puts every source of nondeterminism papaya and seize use behind the
//! simulator in `rt`. Everything not overridden here is the real `std`.
#![allow(static_mut_refs)]
pub use ::std::*;

pub mod rt;

pub mod sync {
    pub use ::std::sync::*;
    pub mod atomic;
    mod lock;
    pub use lock::{Condvar, LazyLock, Mutex, Once, OnceLock, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard, WaitTimeoutResult};
}

pub mod thread;

pub mod hint {
    pub use ::std::hint::*;
    #[inline]
    pub fn spin_loop() {
        if crate::rt::active() {
            crate::rt::sched_point(crate::rt::Point::Spin, 4)
        }
    }
}

pub mod alloc {
    pub use ::std::alloc::*;
    use crate::rt;

    unsafe fn hinted(f: impl FnOnce() -> *mut u8) -> *mut u8 {
        if rt::active() && rt::arena::ARENA.on {
            rt::sched_point(rt::Point::Other, 6);
            if rt::refuse_alloc() {
                return ::std::ptr::null_mut();
            }
            rt::arena::ARENA.hint = true;
            let p = f();
            rt::arena::ARENA.hint = false;
            if p.is_null() {
                rt::note_refused();
            }
            return p;
        }
        f()
    }
    pub unsafe fn alloc(l: Layout) -> *mut u8 {
        hinted(|| ::std::alloc::alloc(l))
    }
    pub unsafe fn alloc_zeroed(l: Layout) -> *mut u8 {
        hinted(|| ::std::alloc::alloc_zeroed(l))
    }
    pub unsafe fn dealloc(p: *mut u8, l: Layout) {
        ::std::alloc::dealloc(p, l)
    }
    pub fn handle_alloc_error(l: Layout) -> ! {
        if rt::active() {
            rt::alloc_error()
        }
        ::std::alloc::handle_alloc_error(l)
    }
}

/// Deterministic hash maps: papaya's parker keeps its waiters in a `std::collections::HashMap`.
pub mod collections {
    pub use ::std::collections::*;
    pub use hash_map::HashMap;
    pub mod hash_map {
        pub use crate::rt::BuildFx as RandomState;
        pub use ::std::collections::hash_map::{
            Drain, Entry, IntoIter, IntoKeys, IntoValues, Iter, IterMut, Keys, OccupiedEntry, VacantEntry, Values,
            ValuesMut,
        };
        use ::std::collections::HashMap as Real;
        use ::std::hash::{BuildHasher, Hash};
        use ::std::ops::{Deref, DerefMut, Index};

        #[derive(Clone)]
        pub struct HashMap<K, V, S = RandomState>(Real<K, V, S>);
        impl<K, V> HashMap<K, V, RandomState> {
            pub fn new() -> Self {
                HashMap(Real::with_hasher(RandomState))
            }
            pub fn with_capacity(n: usize) -> Self {
                HashMap(Real::with_capacity_and_hasher(n, RandomState))
            }
        }
        impl<K, V, S> HashMap<K, V, S> {
            pub fn with_hasher(s: S) -> Self {
                HashMap(Real::with_hasher(s))
            }
            pub fn with_capacity_and_hasher(n: usize, s: S) -> Self {
                HashMap(Real::with_capacity_and_hasher(n, s))
            }
            pub fn into_keys(self) -> IntoKeys<K, V> {
                self.0.into_keys()
            }
            pub fn into_values(self) -> IntoValues<K, V> {
                self.0.into_values()
            }
        }
        impl<K, V, S: Default> Default for HashMap<K, V, S> {
            fn default() -> Self {
                HashMap(Real::default())
            }
        }
        impl<K, V, S> Deref for HashMap<K, V, S> {
            type Target = Real<K, V, S>;
            fn deref(&self) -> &Real<K, V, S> {
                &self.0
            }
        }
        impl<K, V, S> DerefMut for HashMap<K, V, S> {
            fn deref_mut(&mut self) -> &mut Real<K, V, S> {
                &mut self.0
            }
        }
        impl<K, V, S> IntoIterator for HashMap<K, V, S> {
            type Item = (K, V);
            type IntoIter = IntoIter<K, V>;
            fn into_iter(self) -> IntoIter<K, V> {
                self.0.into_iter()
            }
        }
        impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
            type Item = (&'a K, &'a V);
            type IntoIter = Iter<'a, K, V>;
            fn into_iter(self) -> Iter<'a, K, V> {
                self.0.iter()
            }
        }
        impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
            type Item = (&'a K, &'a mut V);
            type IntoIter = IterMut<'a, K, V>;
            fn into_iter(self) -> IterMut<'a, K, V> {
                self.0.iter_mut()
            }
        }
        impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> {
            fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
                HashMap(Real::from_iter(i))
            }
        }
        impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> {
            fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
                self.0.extend(i)
            }
        }
        impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> {
            fn eq(&self, o: &Self) -> bool {
                self.0 == o.0
            }
        }
        impl<K: ::std::fmt::Debug, V: ::std::fmt::Debug, S> ::std::fmt::Debug for HashMap<K, V, S> {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                self.0.fmt(f)
            }
        }
        impl<K, Q: ?Sized, V, S> Index<&Q> for HashMap<K, V, S>
        where
            K: Eq + Hash + ::std::borrow::Borrow<Q>,
            Q: Eq + Hash,
            S: BuildHasher,
        {
            type Output = V;
            fn index(&self, k: &Q) -> &V {
                &self.0[k]
            }
        }
    }
}

pub mod hash {
    pub use crate::rt::BuildFx as RandomState;
    pub use ::std::hash::*;
}
