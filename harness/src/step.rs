//! Preemption at a chosen instruction: the thread lets itself be trapped after every
//! instruction (x86's trap flag), and the k-th trap sleeps. So a thread can be stopped in
//! the middle of any short region that begins at a known point, however short it is.
//! Nothing happens where this is not available.
use std::{
    cell::Cell,
    sync::{
        atomic::{AtomicU64, AtomicU8, Ordering::SeqCst},
        Once,
    },
};

thread_local! {
    static LEFT: Cell<u32> = const { Cell::new(0) };
    static PAUSE_US: Cell<u32> = const { Cell::new(0) };
}
static PAUSES: AtomicU64 = AtomicU64::new(0);
static TRAPS: AtomicU64 = AtomicU64::new(0);
// 0: unknown, 1: works, 2: does not
static STATE: AtomicU8 = AtomicU8::new(0);

/// Pauses made so far.
pub fn pauses() -> u64 {
    PAUSES.load(SeqCst)
}

#[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
mod imp {
    use super::*;

    #[repr(C)]
    struct SigAction {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    #[repr(C)]
    struct Timespec {
        sec: i64,
        nsec: i64,
    }
    extern "C" {
        fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
        fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> i32;
        fn __errno_location() -> *mut i32;
    }
    const SIGTRAP: i32 = 5;
    const SA_SIGINFO: i32 = 4;
    const SA_RESTART: i32 = 0x1000_0000;
    const TF: u64 = 0x100;
    // flags, link, stack, then the registers
    const RAX: usize = (8 + 8 + 24) / 8 + 13;
    const RIP: usize = RAX + 3;
    const EFL: usize = RAX + 4;
    // rt_sigprocmask (a trap while SIGTRAP is blocked would end the process; the C library
    // does that when it creates and ends threads), clone, fork, vfork, execve, clone3
    const LEAVE_ALONE: [u64; 6] = [14, 56, 57, 58, 59, 435];

    extern "C" fn handler(_: i32, _: *mut u8, context: *mut u64) {
        TRAPS.fetch_add(1, SeqCst);
        let mut left = LEFT.with(|l| l.get());
        let next = unsafe { *context.add(RIP) } as *const [u8; 2];
        if unsafe { *next } == [0x0f, 0x05] && LEAVE_ALONE.contains(&unsafe { *context.add(RAX) }) {
            left = 0;
            LEFT.with(|l| l.set(0));
        }
        if left > 1 {
            LEFT.with(|l| l.set(left - 1));
            return;
        }
        // stop trapping
        unsafe { *context.add(EFL) &= !TF };
        if left == 1 {
            LEFT.with(|l| l.set(0));
            PAUSES.fetch_add(1, SeqCst);
            let us = PAUSE_US.with(|p| p.get());
            unsafe {
                let errno = *__errno_location();
                nanosleep(&Timespec { sec: 0, nsec: us as i64 * 1000 }, std::ptr::null_mut());
                *__errno_location() = errno;
            }
        }
    }

    fn trap(on: bool) {
        unsafe {
            if on {
                std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
            } else {
                std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
            }
        }
    }

    pub fn install() {
        static ONCE: Once = Once::new();
        ONCE.call_once(|| {
            let act = SigAction {
                handler: handler as *const () as usize,
                mask: [0; 16],
                flags: SA_SIGINFO | SA_RESTART,
                restorer: 0,
            };
            if unsafe { sigaction(SIGTRAP, &act, std::ptr::null_mut()) } != 0 {
                STATE.store(2, SeqCst);
                return;
            }
            STATE.store(1, SeqCst);
            arm(20, 1);
            for i in 0..100 {
                std::hint::black_box(i);
            }
            disarm();
            if PAUSES.load(SeqCst) != 1 || TRAPS.load(SeqCst) != 20 {
                STATE.store(2, SeqCst);
            }
        });
    }

    pub fn arm(k: u32, us: u32) {
        if STATE.load(SeqCst) != 1 || k == 0 {
            return;
        }
        PAUSE_US.with(|p| p.set(us));
        LEFT.with(|l| l.set(k));
        trap(true);
    }

    pub fn disarm() {
        if LEFT.with(|l| l.replace(0)) != 0 {
            trap(false);
        }
    }
}

#[cfg(not(all(target_arch = "x86_64", target_os = "linux", not(miri))))]
mod imp {
    pub fn install() {}
    pub fn arm(_: u32, _: u32) {}
    pub fn disarm() {}
}

/// Has to be called once before the first `arm`.
pub fn install() -> bool {
    imp::install();
    STATE.load(SeqCst) == 1
}

/// Sleep for `us` microseconds after the next `k` instructions of this thread.
pub fn arm(k: u32, us: u32) {
    imp::arm(k, us)
}

pub fn disarm() {
    imp::disarm()
}

#[test]
fn stops() {
    if !install() {
        return;
    }
    let before = pauses();
    arm(50, 10);
    let s: u64 = (0..1000u64).map(std::hint::black_box).sum();
    disarm();
    assert_eq!(s, 499500);
    assert_eq!(pauses(), before + 1);
    for k in [1, 100, 1000, 1_000_000] {
        arm(k, 10);
        let thread = std::thread::spawn(move || arm(1_000_000, 10));
        thread.join().unwrap();
        disarm();
    }
    let before = pauses() - 1;
    arm(1_000_000, 10);
    disarm();
    assert_eq!(pauses(), before + 1);
}
