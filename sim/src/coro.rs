//! Minimal stackful coroutines (x86-64): every simulated process and actor runs on its own stack and is
//! only ever resumed by the seeded scheduler.
use std::arch::global_asm;

global_asm!(
    ".text",
    ".global sim_switch",
    "sim_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "sub rsp, 8",
    "stmxcsr [rsp]",
    "fnstcw [rsp+4]",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "ldmxcsr [rsp]",
    "fldcw [rsp+4]",
    "add rsp, 8",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".global sim_boot",
    "sim_boot:",
    "mov rdi, r12",
    "call r13",
    "ud2",
);

extern "C" {
    fn sim_switch(save: *mut usize, to: usize);
    fn sim_boot();
}

pub const STACK: usize = 1 << 20;

pub struct Coro {
    pub sp: usize,
}

extern "C" fn entry(arg: *mut u8) -> ! {
    unsafe {
        let f = *Box::from_raw(arg as *mut Box<dyn FnOnce()>);
        f();
    }
    crate::sched::task_finished();
}

impl Coro {
    pub fn new(f: Box<dyn FnOnce()>) -> Coro {
        unsafe {
            let base = libc::mmap(
                std::ptr::null_mut(),
                STACK + 4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(base != libc::MAP_FAILED);
            libc::mprotect(base, 4096, libc::PROT_NONE);
            let top = (base as usize + STACK + 4096) & !15;
            let arg = Box::into_raw(Box::new(f)) as usize;
            // layout popped by sim_switch: [mxcsr|fcw] r15 r14 r13 r12 rbx rbp ret
            let frame = (top - 8 * 10) & !15;
            let w = frame as *mut usize;
            let mut mx: u32 = 0;
            std::arch::asm!("stmxcsr [{}]", in(reg) &mut mx);
            let mut fc: u16 = 0;
            std::arch::asm!("fnstcw [{}]", in(reg) &mut fc);
            *w = (mx as usize) | ((fc as usize) << 32);
            *w.add(1) = 0;
            *w.add(2) = 0;
            *w.add(3) = entry as usize; // r13
            *w.add(4) = arg; // r12
            *w.add(5) = 0;
            *w.add(6) = 0;
            *w.add(7) = sim_boot as usize;
            *w.add(8) = 0;
            Coro { sp: frame }
        }
    }
}

/// Switch from the context saved into `save` to the one at `to`.
pub fn switch(save: &mut usize, to: usize) {
    unsafe { sim_switch(save as *mut usize, to) }
}
