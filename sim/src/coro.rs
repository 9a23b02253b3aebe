//! Stackful coroutines: the simulated caller threads all live on one OS thread.

use std::cell::RefCell;

std::arch::global_asm!(
    ".global polsim_switch",
    "polsim_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
);

extern "C" {
    pub fn polsim_switch(save: *mut usize, to: usize);
}

pub const STACK: usize = 256 * 1024;
const GUARD: usize = 4096;

pub struct Stack {
    base: usize,
}

// Stacks are reused between runs; the pool is only touched by the thread that executes a run.
struct Pool(RefCell<Vec<usize>>);
unsafe impl Sync for Pool {}
static POOL: Pool = Pool(RefCell::new(Vec::new()));

impl Stack {
    pub fn new() -> Stack {
        if let Some(base) = POOL.0.borrow_mut().pop() {
            return Stack { base };
        }
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                STACK + GUARD,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED, "mmap of a coroutine stack failed");
            assert_eq!(libc::mprotect(p, GUARD, libc::PROT_NONE), 0);
            Stack { base: p as usize }
        }
    }

    /// Prepares the stack so that switching to the returned stack pointer enters `entry`.
    pub fn prepare(&self, entry: extern "C" fn() -> !) -> usize {
        let top = self.base + GUARD + STACK;
        // At entry rsp must be 8 modulo 16.
        let sp = (top & !15) - 16;
        unsafe {
            let ret = sp as *mut usize;
            *ret = entry as usize; // popped by `ret`, leaving rsp = sp + 8
            for i in 1..=6 {
                *((sp - 8 * i) as *mut usize) = 0;
            }
        }
        sp - 48
    }
}

impl Drop for Stack {
    fn drop(&mut self) {
        POOL.0.borrow_mut().push(self.base);
    }
}
