//! Hand-written x86_64 fibers. All simulated threads run on one OS thread.
use ::std::arch::global_asm;

global_asm!(
    ".global dst_switch",
    "dst_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "sub rsp, 8",
    "stmxcsr [rsp]",
    "fnstcw [rsp+4]",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "ldmxcsr [rsp]",
    "fldcw [rsp+4]",
    "add rsp, 8",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".global dst_tramp",
    "dst_tramp:",
    "xor ebp, ebp",
    "call {main}",
    "ud2",
    main = sym fiber_main,
);

extern "C" {
    pub fn dst_switch(from: *mut *mut u8, to: *mut u8);
    fn dst_tramp();
}

extern "C" fn fiber_main() -> ! {
    super::fiber_body()
}

pub const STACK: usize = 512 * 1024;

pub struct Stack {
    base: *mut u8,
}

impl Stack {
    /// The i-th stack, at a fixed address: maps on it have the same addresses in every process.
    pub fn new(i: usize) -> Stack {
        unsafe {
            let p = libc::mmap(
                (0x6200_0000_0000 + (i << 20)) as *mut _,
                STACK + 4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
                -1,
                0,
            );
            assert!(p as usize == 0x6200_0000_0000 + (i << 20), "cannot map a fiber stack");
            libc::mprotect(p, 4096, libc::PROT_NONE);
            Stack { base: p as *mut u8 }
        }
    }

    pub fn contains(&self, a: usize) -> bool {
        a >= self.base as usize && a < self.base as usize + STACK + 4096
    }

    /// Prepare the stack so that switching to the returned stack pointer enters `fiber_main`.
    pub fn prepare(&self) -> *mut u8 {
        unsafe {
            let top = self.base.add(STACK + 4096);
            let top = ((top as usize) & !15) as *mut u64;
            // two words of padding (call alignment), then the return address (tramp), then six callee-saved, then mxcsr.
            let mut sp = top.sub(2);
            *sp = 0;
            sp = sp.sub(1);
            *sp = dst_tramp as *const () as usize as u64;
            for _ in 0..6 {
                sp = sp.sub(1);
                *sp = 0;
            }
            sp = sp.sub(1);
            *(sp as *mut u32) = 0x1f80;
            *((sp as *mut u32).add(1)) = 0x037f;
            sp as *mut u8
        }
    }
}
