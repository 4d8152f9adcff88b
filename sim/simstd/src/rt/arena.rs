//! The simulated heap: a fixed-address bump arena that never reuses memory within a run, with a
//! shadow map for liveness checks. Used (only) while a simulated thread runs code of the system
//! under test; the simulator and harness use the system allocator.
use super::vc::VC;
use ::std::alloc::{GlobalAlloc, Layout, System};

pub const BASE: usize = 0x6000_0000_0000;
pub const SIZE: usize = 256 << 20;
const GRAN: usize = 16;
const SHADOW: usize = 0x6100_0000_0000;

#[derive(Clone, Debug)]
pub struct Alloc {
    pub addr: usize,
    pub size: usize,
    pub align: usize,
    pub live: bool,
    pub tid: u8,
    pub epoch: u32,
    pub table: bool,
    pub step: u64,
    pub free_step: u64,
    pub free_tid: u8,
    /// Clock of the thread that freed it.
    pub free_clock: VC,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum AlignMode {
    /// 16-byte aligned blocks, like a malloc.
    Malloc,
    /// Only the alignment that was asked for: blocks are deliberately misaligned beyond it.
    Minimal,
}

pub struct Arena {
    pub on: bool,
    bump: usize,
    pub allocs: Vec<Alloc>,
    mode: AlignMode,
    pub live_bytes: usize,
    pub live_blocks: usize,
    pub peak_bytes: usize,
    pub live_tables: usize,
    pub odd: u64,
    mapped: bool,
    /// The next allocation comes straight from `std::alloc` (that is how tables are allocated).
    pub hint: bool,
}

/// Endless growth is what this run asks for (colliding keys).
pub static mut GREEDY: bool = false;
pub static mut ARENA: Arena = Arena {
    on: false,
    bump: 0,
    allocs: Vec::new(),
    mode: AlignMode::Malloc,
    live_bytes: 0,
    live_blocks: 0,
    peak_bytes: 0,
    live_tables: 0,
    odd: 0,
    mapped: false,
    hint: false,
};

#[inline]
pub fn contains(a: usize) -> bool {
    a >= BASE && a < BASE + SIZE
}

#[inline]
unsafe fn shadow(a: usize) -> *mut u32 {
    (SHADOW as *mut u32).add((a - BASE) / GRAN)
}

#[allow(static_mut_refs)]
pub fn init() {
    unsafe {
        if ARENA.mapped {
            return;
        }
        for (b, s) in [(BASE, SIZE), (SHADOW, SIZE / GRAN * 4)] {
            let p = libc::mmap(
                b as *mut _,
                s,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE
                    | libc::MAP_ANONYMOUS
                    | libc::MAP_NORESERVE
                    | libc::MAP_FIXED_NOREPLACE,
                -1,
                0,
            );
            assert!(p as usize == b, "cannot map the simulated heap");
        }
        ARENA.mapped = true;
    }
}

#[allow(static_mut_refs)]
pub fn reset(mode: AlignMode, odd: u64) {
    init();
    unsafe {
        let used = (ARENA.bump + 65535) & !65535;
        if used > (1 << 20) {
            libc::madvise(BASE as *mut _, used, libc::MADV_DONTNEED);
            libc::madvise(SHADOW as *mut _, used / GRAN * 4, libc::MADV_DONTNEED);
        } else if used > 0 {
            ::std::ptr::write_bytes(BASE as *mut u8, 0, used);
            ::std::ptr::write_bytes(SHADOW as *mut u8, 0, used / GRAN * 4);
        }
        ARENA.on = false;
        ARENA.bump = 4096;
        ARENA.allocs.clear();
        ARENA.mode = mode;
        ARENA.live_bytes = 0;
        ARENA.live_blocks = 0;
        ARENA.peak_bytes = 0;
        ARENA.live_tables = 0;
        ARENA.odd = odd | 1;
        ARENA.hint = false;
    }
}

#[allow(static_mut_refs)]
unsafe fn arena_alloc(l: Layout, zero: bool) -> *mut u8 {
    let a = &mut ARENA;
    let table = ::std::mem::take(&mut a.hint);
    let align = l.align().max(1);
    let mut at = BASE + a.bump;
    match a.mode {
        AlignMode::Malloc => {
            let al = align.max(16);
            at = (at + al - 1) & !(al - 1);
        }
        AlignMode::Minimal => {
            // Aligned to `align` but not to `2 * align`, with a pseudo-random offset.
            a.odd = a.odd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let al2 = (align * 2).max(16);
            at = (at + al2 - 1) & !(al2 - 1);
            if align < 16 {
                let n = 16 / align; // slots within the granule (even)
                at += ((((a.odd >> 33) as usize) % n) | 1) * align;
            } else {
                at += align;
            }
        }
    }
    let end = at + l.size().max(1);
    if end >= BASE + SIZE {
        if l.size() >= SIZE {
            // A request no allocator could serve: refuse it.
            return ::std::ptr::null_mut();
        }
        a.on = false;
        super::violation(if unsafe { GREEDY } { "livelock" } else { "memory-blowup" }, format!("simulated heap exhausted: request of {} bytes with {} live", l.size(), a.live_bytes));
    }
    // Every block starts in its own granule, so the shadow identifies it uniquely.
    a.bump = ((end + GRAN - 1) & !(GRAN - 1)) - BASE;
    a.on = false;
    let (tid, epoch) = super::tick_event();
    let id = a.allocs.len() as u32 + 1;
    a.allocs.push(Alloc {
        addr: at,
        size: l.size(),
        align,
        live: true,
        tid,
        epoch,
        table,
        step: super::now(),
        free_step: 0,
        free_tid: 0,
        free_clock: VC::ZERO,
    });
    a.on = true;
    let mut g = at & !(GRAN - 1);
    while g < end {
        *shadow(g) = id;
        g += GRAN;
    }
    a.live_bytes += l.size();
    a.live_blocks += 1;
    if table {
        a.live_tables += 1;
    }
    a.peak_bytes = a.peak_bytes.max(a.live_bytes);
    if !zero {
        // Recycled memory is not zero in reality.
        ::std::ptr::write_bytes(at as *mut u8, 0xA5, l.size());
    }
    at as *mut u8
}

#[allow(static_mut_refs)]
unsafe fn arena_free(p: *mut u8, l: Layout) {
    let was = ARENA.on;
    ARENA.on = false;
    let (tid, _) = super::tick_event();
    let clock = super::cur_clock();
    let addr = p as usize;
    let id = if contains(addr) { *shadow(addr) } else { 0 };
    if id == 0 {
        super::violation("wild-free", format!("free of {:#x}, which is not an allocated block", addr));
    }
    let b = &mut ARENA.allocs[id as usize - 1];
    if b.addr != addr || b.size != l.size() || b.align != l.align() {
        let m = format!("free of {:#x} (size {} align {}) inside block {:?}", addr, l.size(), l.align(), b);
        super::violation("wild-free", m);
    }
    if !b.live {
        let m = format!("double free of block {:?}", b);
        super::violation("double-free", m);
    }
    // The freeing thread must have synchronised with the allocation.
    if !clock.saw(b.tid, b.epoch) {
        let m = format!("block {:?} freed by T{} without happens-before from its allocation", b, tid);
        super::violation("race", m);
    }
    b.live = false;
    b.free_step = super::now();
    b.free_tid = tid;
    b.free_clock = clock;
    let table = b.table;
    let size = b.size;
    ::std::ptr::write_bytes(p, 0xDD, size);
    ARENA.live_bytes -= size;
    ARENA.live_blocks -= 1;
    if table {
        ARENA.live_tables -= 1;
    }
    ARENA.on = was;
}

/// The block containing `addr`, if any.
#[allow(static_mut_refs)]
#[inline]
pub fn block(addr: usize) -> Option<&'static Alloc> {
    if !contains(addr) {
        return None;
    }
    unsafe {
        let id = *shadow(addr);
        if id == 0 {
            return None;
        }
        Some(&ARENA.allocs[id as usize - 1])
    }
}

#[allow(static_mut_refs)]
pub fn live() -> (usize, usize, usize) {
    unsafe { (ARENA.live_blocks, ARENA.live_bytes, ARENA.live_tables) }
}

#[allow(static_mut_refs)]
pub fn live_list() -> Vec<Alloc> {
    unsafe { ARENA.allocs.iter().filter(|a| a.live).cloned().collect() }
}

#[allow(static_mut_refs)]
pub fn total_tables() -> usize {
    unsafe { ARENA.allocs.iter().filter(|a| a.table).count() }
}

/// The number of blocks allocated so far (live or not).
#[allow(static_mut_refs)]
pub fn total_blocks() -> usize {
    unsafe { ARENA.allocs.len() }
}

pub struct SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ARENA.on {
            arena_alloc(l, false)
        } else {
            System.alloc(l)
        }
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ARENA.on {
            arena_alloc(l, true)
        } else {
            System.alloc_zeroed(l)
        }
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        // While a system-under-test op is running, every pointer it frees must come from the arena
        // (or be one the harness handed in, which the harness never does).
        if contains(p as usize) {
            arena_free(p, l)
        } else if ARENA.on && super::suspicious(p as usize) {
            arena_free(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
}
