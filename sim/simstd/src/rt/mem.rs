//! The memory model: happens-before tracking for every atomic location and, in weak mode, visibility
//! of older stores as the C++20/Rust memory model permits (modelled like Miri's store buffers).
#![allow(static_mut_refs)]
use super::vc::{NT, VC};
use super::*;
use ::std::sync::atomic::Ordering;

#[derive(Clone)]
struct Store {
    val: u64,
    tid: u8,
    epoch: u32,
    rel: VC,
    sc: bool,
    sc_loaded: bool,
    /// Epoch of the first load of this store by each thread (0 = never).
    loaded: [u32; NT],
}

#[derive(Default)]
struct Loc {
    /// Release clock of the latest store (SC mode).
    rel: VC,
    /// Modification order suffix (weak mode), oldest first.
    stores: Vec<Store>,
}

struct Mem {
    locs: HashMap<usize, Loc, BuildFx>,
    /// Timestamp of the last SC store of every thread, as observable by SC fences.
    sc_write: VC,
    sc_fence: VC,
    /// Per-thread: SC stores ordered before the thread's last SC fence.
    seen_sc_write: [VC; NT],
}

static mut MEM: Mem = Mem {
    locs: HashMap::with_hasher(BuildFx),
    sc_write: VC::ZERO,
    sc_fence: VC::ZERO,
    seen_sc_write: [VC::ZERO; NT],
};

const HISTORY: usize = 12;

pub fn reset() {
    unsafe {
        MEM.locs.clear();
        MEM.sc_write = VC::ZERO;
        MEM.sc_fence = VC::ZERO;
        MEM.seen_sc_write = [VC::ZERO; NT];
    }
}

#[inline]
fn acquires(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}
#[inline]
fn releases(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}

/// Run `f` with the allocator directed at the harness.
#[inline]
fn host<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let was = ARENA.on;
        ARENA.on = false;
        let r = f();
        ARENA.on = was;
        r
    }
}

unsafe fn sync_in(rel: &VC, o: Ordering) {
    let f = &mut RT.fibers[RT.cur];
    if acquires(o) {
        f.clock.join(rel);
    } else {
        f.acq_pending.join(rel);
    }
}

/// The release clock a store of the current thread carries.
unsafe fn rel_clock(o: Ordering) -> VC {
    let f = &RT.fibers[RT.cur];
    if releases(o) {
        f.clock
    } else {
        f.rel_fence
    }
}

/// Location identity for event hashes: the addresses of statics differ from process to process.
#[inline]
pub fn loc_id(addr: usize) -> u64 {
    if addr < 4096 || addr >> 40 == 0x60 || addr >> 40 == 0x62 {
        addr as u64
    } else {
        7
    }
}

/// Bring the recorded modification order in line with the actual memory, which may have been
/// (re)initialised or accessed through `&mut` since.
fn resync(l: &mut Loc, cur: u64) {
    if l.stores.last().map_or(true, |s| s.val != cur) {
        l.stores.clear();
        l.stores.push(Store { val: cur, tid: 0, epoch: 0, rel: VC::ZERO, sc: false, sc_loaded: false, loaded: [0; NT] });
        l.rel = VC::ZERO;
    }
}

/// Atomic load. `raw` reads the actual memory.
pub fn load(addr: usize, size: usize, o: Ordering, raw: impl Fn() -> u64) -> u64 {
    if !active() {
        return raw();
    }
    if matches!(o, Ordering::Release | Ordering::AcqRel) {
        panic!("there is no such thing as a release load");
    }
    sched_point(Point::Read, addr);
    check_access(addr, size, "atomic load");
    host(|| unsafe {
        RT.stats.loads += 1;
        tick_event();
        let cur = raw();
        let v = if RT.cfg.weak { weak_load(addr, o, cur) } else {
            if let Some(l) = MEM.locs.get(&addr) {
                let rel = l.rel;
                sync_in(&rel, o);
            }
            cur
        };
        hash_event(loc_id(addr), 1);
        trace(|| format!("load  {:#x} {:?} -> {:#x}{}", addr, o, v, if v != cur { " (stale)" } else { "" }));
        v
    })
}

unsafe fn weak_load(addr: usize, o: Ordering, cur: u64) -> u64 {
    let t = RT.cur;
    let l = MEM.locs.entry(addr).or_default();
    resync(l, cur);
    let sc = o == Ordering::SeqCst;
    let clock = RT.fibers[t].clock;
    let floor = RT.fibers[t].floor;
    // Candidate stores, newest first.
    let mut cand = [0usize; HISTORY + 1];
    let mut n = 0;
    for i in (0..l.stores.len()).rev() {
        let s = &l.stores[i];
        let stop = clock.saw(s.tid, s.epoch)
            || floor.saw(s.tid, s.epoch)
            || (0..NT).any(|u| s.loaded[u] != 0 && (clock.0[u] >= s.loaded[u] || floor.0[u] >= s.loaded[u]))
            || (s.sc && MEM.seen_sc_write[t].saw(s.tid, s.epoch))
            || (sc && s.sc_loaded)
            // The total order of SeqCst operations is the order of execution here: a SeqCst load
            // cannot be coherence-ordered before a SeqCst store that was executed earlier.
            || (sc && s.sc);
        cand[n] = i;
        n += 1;
        if stop {
            break;
        }
    }
    let mut pick = 0;
    if n > 1 && !fair_phase() && !::std::thread::panicking() {
        let pm = RT.cfg.stale_pm;
        pick = decide(Kind::Stale, n as u32, |r| if r.permille(pm) { 1 + r.below(n as u64 - 1) as u32 } else { 0 }) as usize;
        if pick != 0 {
            RT.stats.stale += 1;
        }
    }
    let s = &mut l.stores[cand[pick]];
    if s.loaded[t] == 0 {
        s.loaded[t] = RT.fibers[t].clock.0[t];
    }
    if sc {
        s.sc_loaded = true;
    }
    let (v, rel) = (s.val, s.rel);
    sync_in(&rel, o);
    v
}

unsafe fn push_store(l: &mut Loc, val: u64, rel: VC, sc: bool) {
    let t = RT.cur;
    let epoch = RT.fibers[t].clock.0[t];
    if l.stores.len() >= HISTORY {
        l.stores.remove(0);
    }
    if sc {
        MEM.sc_write.0[t] = epoch;
    }
    l.stores.push(Store { val, tid: t as u8, epoch, rel, sc, sc_loaded: false, loaded: [0; NT] });
}

pub fn store(addr: usize, size: usize, o: Ordering, val: u64, raw: impl Fn() -> u64, write: impl Fn(u64)) {
    if !active() {
        return write(val);
    }
    if matches!(o, Ordering::Acquire | Ordering::AcqRel) {
        panic!("there is no such thing as an acquire store");
    }
    sched_point(Point::Write, addr);
    check_access(addr, size, "atomic store");
    host(|| unsafe {
        RT.stats.stores += 1;
        tick_event();
        let rel = rel_clock(o);
        let l = MEM.locs.entry(addr).or_default();
        l.rel = rel;
        if RT.cfg.weak {
            let cur = raw();
            let keep = l.rel;
            resync(l, cur);
            l.rel = keep;
            push_store(l, val, rel, o == Ordering::SeqCst);
        }
        write(val);
        hash_event(loc_id(addr), 2);
        trace(|| format!("store {:#x} {:?} <- {:#x}", addr, o, val));
    })
}

/// Atomic read-modify-write. `f` maps the latest value to the new one, or `None` to only load.
/// Returns the value read and whether a store happened.
pub fn rmw(
    addr: usize,
    size: usize,
    success: Ordering,
    failure: Ordering,
    raw: impl Fn() -> u64,
    write: impl Fn(u64),
    f: impl Fn(u64) -> Option<u64>,
    weak_cas: bool,
) -> (u64, bool) {
    if !active() {
        let cur = raw();
        return match f(cur) {
            Some(n) => {
                write(n);
                (cur, true)
            }
            None => (cur, false),
        };
    }
    sched_point(Point::Write, addr);
    check_access(addr, size, "atomic read-modify-write");
    host(|| unsafe {
        RT.stats.rmws += 1;
        tick_event();
        let cur = raw();
        let mut new = f(cur);
        if weak_cas && new.is_some() && RT.cfg.cas_fail_pm > 0 && !fair_phase() && !::std::thread::panicking() {
            let pm = RT.cfg.cas_fail_pm;
            if decide(Kind::CasFail, 2, |r| r.permille(pm) as u32) == 1 {
                RT.stats.cas_fail += 1;
                trace(|| "spurious compare_exchange_weak failure".into());
                new = None;
            }
        }
        let weak = RT.cfg.weak;
        let l = MEM.locs.entry(addr).or_default();
        if weak {
            let keep = l.rel;
            resync(l, cur);
            if l.stores.len() > 1 || l.stores[0].epoch != 0 {
                l.rel = keep;
            }
        }
        let t = RT.cur;
        let prev_rel = if weak { l.stores.last().unwrap().rel } else { l.rel };
        match new {
            Some(n) => {
                if weak {
                    // The read part.
                    let s = l.stores.last_mut().unwrap();
                    if s.loaded[t] == 0 {
                        s.loaded[t] = RT.fibers[t].clock.0[t];
                    }
                    if success == Ordering::SeqCst {
                        s.sc_loaded = true;
                    }
                }
                sync_in(&prev_rel, success);
                // The release sequence continues through read-modify-writes.
                let mut rel = rel_clock(success);
                rel.join(&prev_rel);
                l.rel = rel;
                if weak {
                    push_store(l, n, rel, success == Ordering::SeqCst);
                }
                write(n);
                hash_event(loc_id(addr), 3);
                trace(|| format!("rmw   {:#x} {:?} {:#x} -> {:#x}", addr, success, cur, n));
                (cur, true)
            }
            None => {
                if weak {
                    let s = l.stores.last_mut().unwrap();
                    if s.loaded[t] == 0 {
                        s.loaded[t] = RT.fibers[t].clock.0[t];
                    }
                    if failure == Ordering::SeqCst {
                        s.sc_loaded = true;
                    }
                }
                sync_in(&prev_rel, failure);
                hash_event(loc_id(addr), 4);
                trace(|| format!("cas   {:#x} {:?} failed, found {:#x}", addr, failure, cur));
                (cur, false)
            }
        }
    })
}

pub fn fence(o: Ordering) {
    if !active() {
        return;
    }
    if o == Ordering::Relaxed {
        panic!("there is no such thing as a relaxed fence");
    }
    sched_point(Point::Other, 5);
    unsafe {
        tick_event();
        let t = RT.cur;
        if acquires(o) {
            let p = RT.fibers[t].acq_pending;
            RT.fibers[t].clock.join(&p);
        }
        if o == Ordering::SeqCst {
            // Coherence only: fences order the values later loads may return, but do not by
            // themselves make other data visible.
            let g = MEM.sc_fence;
            RT.fibers[t].floor.join(&g);
            let c = RT.fibers[t].clock;
            MEM.sc_fence.join(&c);
            let w = MEM.sc_write;
            MEM.seen_sc_write[t].join(&w);
        }
        if releases(o) {
            let c = RT.fibers[t].clock;
            RT.fibers[t].rel_fence = c;
        }
        trace(|| format!("fence {:?}", o));
    }
}

/// A happens-before edge carried by something other than an atomic (mutex, guard, message).
pub fn acquire_clock(c: &VC) {
    unsafe {
        if active() {
            RT.fibers[RT.cur].clock.join(c);
        }
    }
}
pub fn release_clock() -> VC {
    unsafe {
        if active() {
            tick_event();
            RT.fibers[RT.cur].clock
        } else {
            VC::ZERO
        }
    }
}
/// Raise the coherence floor of the current thread: its later loads cannot observe values older
/// than those known to `c`, without making other data visible.
pub fn raise_floor(c: &VC) {
    unsafe {
        if active() {
            RT.fibers[RT.cur].floor.join(c);
        }
    }
}
