//! PATCHED IN: the simulation side of the collector.
//!
//! In `Real` mode seize's own Hyaline implementation runs (on simulated atomics). In `Eager` mode an
//! adversarial collector stands in for it, which reclaims every object at the earliest moment the
//! contract of `defer_retire` allows (as soon as every guard that was active at the retirement has
//! been released), or postpones it at the simulator's discretion. Both modes check that nothing
//! is retired twice or retired after it was freed.
#![allow(static_mut_refs)]

use crate::raw;
use crate::Collector;
use std::collections::{BTreeSet, HashSet};
use std::rt::{self, mem, vc::VC, Kind, Outside, Point};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Real,
    Eager,
}

struct Record {
    collector: usize,
    ptr: *mut (),
    reclaim: unsafe fn(*mut (), &Collector),
    waiting: Vec<usize>,
    postponed: bool,
    clock: VC,
}

struct State {
    mode: Mode,
    free: BTreeSet<usize>,
    next: usize,
    /// Active guards: (collector, reservation).
    active: Vec<(usize, usize)>,
    records: Vec<Record>,
    retired: Option<HashSet<usize>>,
    /// Join of the clocks of all retirements so far, per collector.
    floors: Vec<(usize, VC)>,
    /// Join of the clocks of all guard releases so far, per collector. Like in Hyaline, a
    /// reclamation happens after the release of every guard released before the retirement.
    left: Vec<(usize, VC)>,
    /// Clock of the mutex around the thread ids.
    ids: VC,
    dropping: Vec<usize>,
    pub retires: u64,
    pub reclaims: u64,
    pub postponed: u64,
}

const EMPTY: State = State {
    mode: Mode::Real,
    free: BTreeSet::new(),
    next: 0,
    active: Vec::new(),
    records: Vec::new(),
    retired: None,
    floors: Vec::new(),
    left: Vec::new(),
    ids: VC::ZERO,
    dropping: Vec::new(),
    retires: 0,
    reclaims: 0,
    postponed: 0,
};

static mut S: State = EMPTY;
/// Entries have no size.
pub static mut ZERO_SIZED: bool = false;

/// Start a new run.
pub fn reset(mode: Mode) {
    unsafe {
        S = EMPTY;
        S.mode = mode;
        S.next = 0;
        S.retired = Some(HashSet::default());
    }
}

pub fn counts() -> (u64, u64, u64) {
    unsafe { (S.retires, S.reclaims, S.postponed) }
}

/// Objects retired but not reclaimed yet (eager mode only).
pub fn pending() -> usize {
    unsafe { S.records.len() }
}

#[inline]
pub(crate) fn eager() -> bool {
    unsafe { S.mode == Mode::Eager }
}

const LOCALS: usize = rt::vc::NT;

pub(crate) fn current_id() -> usize {
    rt::tid()
}

/// In reality a mutex guards the ids, so that the next user of an id happens after its last one.
fn id_mutex() {
    unsafe {
        mem::acquire_clock(&S.ids);
        let c = mem::release_clock();
        S.ids.join(&c);
    }
}

pub(crate) fn create_id() -> usize {
    let _o = Outside::enter();
    id_mutex();
    unsafe {
        if let Some(id) = S.free.pop_first() {
            return id;
        }
        S.next += 1;
        LOCALS + S.next - 1
    }
}

pub(crate) fn free_id(id: usize) {
    let _o = Outside::enter();
    id_mutex();
    unsafe {
        S.free.insert(id);
    }
}

fn entry(v: &mut Vec<(usize, VC)>, c: usize) -> &mut VC {
    let i = match v.iter().position(|f| f.0 == c) {
        Some(i) => i,
        None => {
            v.push((c, VC::ZERO));
            v.len() - 1
        }
    };
    &mut v[i].1
}

fn floor(c: usize) -> &'static mut VC {
    unsafe { entry(&mut S.floors, c) }
}

fn left(c: usize) -> &'static mut VC {
    unsafe { entry(&mut S.left, c) }
}

pub(crate) fn enter(c: usize, slot: usize) {
    rt::sched_point(Point::Write, 10);
    let _o = Outside::enter();
    unsafe {
        S.active.push((c, slot));
        mem::raise_floor(floor(c));
    }
}

pub(crate) unsafe fn leave(c: &raw::Collector, slot: usize) {
    rt::sched_point(Point::Write, 11);
    {
        let _o = Outside::enter();
        if let Some(i) = S.active.iter().position(|&a| a == (c.id, slot)) {
            S.active.swap_remove(i);
        }
        let clock = mem::release_clock();
        left(c.id).join(&clock);
        for r in S.records.iter_mut() {
            if r.collector == c.id {
                if let Some(i) = r.waiting.iter().position(|&w| w == slot) {
                    r.waiting.swap_remove(i);
                    r.clock.join(&clock);
                }
            }
        }
        // Postponed objects come due at some later release.
        if S.records.iter().any(|r| r.postponed && r.waiting.is_empty())
            && rt::decide(Kind::Reclaim, 2, |r| r.permille(120) as u32) == 1
        {
            for r in S.records.iter_mut() {
                r.postponed = false;
            }
        }
    }
    sweep(c, false);
}

pub(crate) unsafe fn flush(c: &raw::Collector) {
    rt::sched_point(Point::Write, 12);
    for r in S.records.iter_mut() {
        if r.collector == c.id {
            r.postponed = false;
        }
    }
    sweep(c, false);
}

/// Reclaim everything that is due.
unsafe fn sweep(c: &raw::Collector, all: bool) {
    loop {
        let rec = {
            let _o = Outside::enter();
            match S
                .records
                .iter()
                .position(|r| r.collector == c.id && (all || (r.waiting.is_empty() && !r.postponed)))
            {
                Some(i) => S.records.remove(i),
                None => return,
            }
        };
        S.reclaims += 1;
        mem::acquire_clock(&rec.clock);
        let p = rec.ptr;
        rt::trace(|| format!("reclaim {:p}", p));
        (rec.reclaim)(rec.ptr, Collector::from_raw(c));
        let _o = Outside::enter();
        drop(rec);
    }
}

/// Checks common to both modes. Returns whether the adversarial collector takes over.
pub(crate) fn check_retire(c: usize, ptr: usize) -> bool {
    let _o = Outside::enter();
    unsafe {
        if !rt::active() {
            return eager();
        }
        S.retires += 1;
        rt::trace(|| format!("retire {:#x}", ptr));
        if ZERO_SIZED && ptr < 4096 {
            // (All entries of a zero-size type have the same dangling address.)
            return eager();
        }
        rt::check_access(ptr, 1, "retirement");
        match rt::arena::block(ptr) {
            Some(b) if b.addr == ptr => {}
            _ => rt::violation("wild-retire", format!("retirement of {:#x}, which is not the start of a block", ptr)),
        }
        if let Some(s) = S.retired.as_mut() {
            if !s.insert(ptr) {
                rt::violation("double-retire", format!("object at {:#x} retired twice", ptr));
            }
        }
        let _ = c;
        eager()
    }
}

pub(crate) unsafe fn retire(c: &raw::Collector, ptr: *mut (), reclaim: unsafe fn(*mut (), &Collector)) {
    rt::sched_point(Point::Write, 13);
    if S.dropping.contains(&c.id) {
        S.reclaims += 1;
        return reclaim(ptr, Collector::from_raw(c));
    }
    {
        let _o = Outside::enter();
        let waiting: Vec<usize> = S.active.iter().filter(|a| a.0 == c.id).map(|a| a.1).collect();
        let mut clock = mem::release_clock();
        floor(c.id).join(&clock);
        clock.join(left(c.id));
        let lazy = rt::cfg().lazy_pm;
        let postponed = lazy > 0 && rt::decide(Kind::Lazy, 2, |r| r.permille(lazy) as u32) == 1;
        if postponed {
            rt::stats().late += 1;
            S.postponed += 1;
        }
        S.records.push(Record { collector: c.id, ptr, reclaim, waiting, postponed, clock });
    }
    sweep(c, false);
}

pub(crate) unsafe fn reclaim_all(c: &raw::Collector) {
    {
        let _o = Outside::enter();
        S.dropping.push(c.id);
    }
    sweep(c, true);
    let _o = Outside::enter();
    if let Some(i) = S.dropping.iter().position(|&d| d == c.id) {
        S.dropping.remove(i);
    }
}
