//! Preemption at arbitrary instructions: a thread that keeps sending SIGUSR1 to the other
//! threads of the process, whose handler sleeps or yields for a random time.
use std::sync::{
    atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering::SeqCst},
    Once,
};

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn syscall(num: i64, ...) -> i64;
    fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> i32;
    fn sched_yield() -> i32;
    fn __errno_location() -> *mut i32;
    fn getpid() -> i32;
}

const SIGUSR1: i32 = 10;
const SYS_GETTID: i64 = 186;
const SYS_TGKILL: i64 = 234;

static ON: AtomicBool = AtomicBool::new(false);
static MAX_US: AtomicU32 = AtomicU32::new(200);
static ROUND: AtomicU64 = AtomicU64::new(0);
static SENDER: AtomicI64 = AtomicI64::new(0);
static DELIVERED: AtomicU64 = AtomicU64::new(0);

extern "C" fn handler(_: i32) {
    unsafe {
        let errno = *__errno_location();
        let n = DELIVERED.fetch_add(1, SeqCst);
        let h = n.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40;
        let us = h % MAX_US.load(SeqCst).max(1) as u64;
        if us < 5 {
            sched_yield();
        } else {
            nanosleep(&Timespec { sec: 0, nsec: us as i64 * 1000 }, std::ptr::null_mut());
        }
        *__errno_location() = errno;
    }
}

fn start() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        unsafe { signal(SIGUSR1, handler as *const () as usize) };
        std::thread::spawn(|| {
            let (me, pid) = unsafe { (syscall(SYS_GETTID), getpid() as i64) };
            SENDER.store(me, SeqCst);
            let mut r = crate::rng::Rng::new(me as u64);
            let (mut since, mut round) = (std::time::Instant::now(), 0);
            loop {
                // not forever: whether all threads are blocked has to be visible
                let now = ROUND.load(SeqCst);
                if now != round {
                    (since, round) = (std::time::Instant::now(), now);
                }
                if !ON.load(SeqCst) || since.elapsed().as_secs() > 5 {
                    std::thread::sleep(std::time::Duration::from_micros(50));
                    continue;
                }
                let Ok(dir) = std::fs::read_dir("/proc/self/task") else { continue };
                let tids: Vec<i64> = dir
                    .flatten()
                    .filter_map(|e| e.file_name().to_str()?.parse().ok())
                    .filter(|t| *t != me)
                    .collect();
                for _ in 0..tids.len().min(4) {
                    let t = *r.pick(&tids);
                    unsafe { syscall(SYS_TGKILL, pid, t, SIGUSR1 as i64) };
                }
                if r.chance(0.5) {
                    std::thread::sleep(std::time::Duration::from_micros(r.below(40) as u64));
                }
            }
        });
    });
}

/// Run `f` while the other threads are preempted for up to `max_us`.
pub fn with_chaos<T>(max_us: u32, f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.store(false, SeqCst);
        }
    }
    start();
    MAX_US.store(max_us, SeqCst);
    ROUND.fetch_add(1, SeqCst);
    ON.store(true, SeqCst);
    let _off = Off;
    f()
}

/// The calling thread's id.
pub fn tid() -> i64 {
    unsafe { syscall(SYS_GETTID) }
}

/// The id of the thread that sends the signals.
pub fn sender() -> i64 {
    SENDER.load(SeqCst)
}

pub fn delivered() -> u64 {
    DELIVERED.load(SeqCst)
}
