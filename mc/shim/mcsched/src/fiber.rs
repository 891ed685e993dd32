//! Stackful coroutines: each logical thread of the explored program runs on its own stack;
//! the engine runs on the OS thread's stack.  Switching saves only the callee-saved registers.
use std::cell::RefCell;

core::arch::global_asm!(
    ".globl mcsched_switch",
    ".p2align 4",
    "mcsched_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
);
extern "C" {
    pub fn mcsched_switch(save: *mut usize, to: usize);
}

pub const STACK: usize = 1 << 20;
const CANARY: u64 = 0x5ac3_71d0_9e0f_00d5;

pub struct Stack {
    base: *mut u8,
}
thread_local! {
    static POOL: RefCell<Vec<Stack>> = RefCell::new(vec![]);
}
fn layout() -> std::alloc::Layout {
    std::alloc::Layout::from_size_align(STACK, 4096).unwrap()
}
impl Stack {
    pub fn get() -> Stack {
        POOL.with(|p| p.borrow_mut().pop()).unwrap_or_else(|| unsafe {
            // Large allocations are mapped lazily: pages never touched cost nothing.
            let base = std::alloc::alloc(layout());
            assert!(!base.is_null());
            *(base as *mut u64) = CANARY;
            Stack { base }
        })
    }
    pub fn put(self) {
        assert_eq!(unsafe { *(self.base as *const u64) }, CANARY, "fiber stack overflow");
        POOL.with(|p| p.borrow_mut().push(self));
    }
    /// A stack pointer from which `mcsched_switch` enters `entry`.
    pub fn prepare(&self, entry: extern "C" fn() -> !) -> usize {
        unsafe {
            let top = (self.base as usize + STACK) & !15;
            let mut sp = top - 24; // as if `entry` had been called: rsp is 8 mod 16
            *(sp as *mut usize) = 0; // return address of entry: none
            sp -= 8;
            *(sp as *mut usize) = entry as usize;
            for _ in 0..6 {
                sp -= 8;
                *(sp as *mut usize) = 0;
            }
            sp
        }
    }
}
