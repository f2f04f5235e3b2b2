//! C29: the memory a run holds depends on the size of the problem, not on how long it
//! searches, and all of it is given back.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst},
    time::{Duration, Instant},
};

use mbqc_scheduling::{interface, probabilistic::AcceptFunc};
use serde_json::{json, Value};
use vh::{
    ensure, gen,
    model::{self, Inst},
    modes::{affordable, case, Func, Mode},
    rng::Rng,
    run::{calm, guarded, Ctx, Fail, Obs, Runner},
};

static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);

struct Counting;

fn add(by: usize) {
    CALLS.fetch_add(1, SeqCst);
    let now = LIVE.fetch_add(by as i64, SeqCst) + by as i64;
    PEAK.fetch_max(now, SeqCst);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, SeqCst);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        add(new);
        LIVE.fetch_sub(l.size() as i64, SeqCst);
        unsafe { System.realloc(p, l, new) }
    }
}

#[global_allocator]
static COUNTING: Counting = Counting;

/// A generous multiple of what the states along one path, the best patterns and the waiting
/// tasks need.
fn allowance(inst: &Inst, mode: &Mode) -> i64 {
    let n = inst.n() as i64;
    let size = n + inst.num_edges() as i64 * 2 + inst.num_deps() as i64 + 8;
    let threads = mode.nthreads.max(1) as i64;
    let tasks = if mode.nthreads >= 2 { mode.task_bound.unwrap() as i64 + 1 } else { 0 };
    100_000 * threads + 200 * ((n + 2) * size * threads + size * tasks)
}

/// Wait until everything but `keep` bytes is given back; threads may still be ending.
fn settled(base: i64) -> bool {
    let start = Instant::now();
    while LIVE.load(SeqCst) > base {
        if start.elapsed() > Duration::from_secs(20) {
            return false;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    true
}

fn long(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let allowed = allowance(&inst, &mode);
    let base = LIVE.load(SeqCst);
    PEAK.store(base, SeqCst);
    let calls = CALLS.load(SeqCst);
    let paths = calm("run", || mode.call(&inst))?;
    let peak = PEAK.load(SeqCst) - base;
    let calls = CALLS.load(SeqCst) - calls;
    ensure!(peak <= allowed, "held {peak} bytes at once; {allowed} are more than enough (after {calls} allocations)");
    obs.max("peak_bytes", peak as u64);
    obs.max("peak_percent_of_allowed", (peak * 100 / allowed) as u64);
    obs.count("allocations", calls);
    obs.count(&format!("long_{}", mode.label()), 1);
    // enough that 8 bytes kept per few allocations would be seen
    if calls as i64 * 2 > allowed {
        obs.count("long_enough", 1);
        obs.nontrivial(inst.hash() ^ model::fnv(mode.json().to_string().as_bytes()));
    }
    drop(paths);
    Ok(())
}

/// The same runs again and again: nothing accumulates.
fn again(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let rounds = v["rounds"].as_u64().unwrap();
    let panics = v["panics"].as_u64();
    let go = |k: u64| -> Result<usize, Fail> {
        if let Some(at) = panics {
            let calls = AtomicU64::new(0);
            let r = guarded(|| {
                interface::run(
                    &inst.adj, &inst.order, true, None, mode.nthreads, mode.task_bound,
                    Some((
                        AcceptFunc::Custom(Box::new(move |_, _, _, _, _, _, _| {
                            assert!(calls.fetch_add(1, SeqCst) != at, "on purpose");
                            0.9
                        })),
                        Some(k),
                    )),
                )
            });
            drop(r);
            return Ok(1);
        }
        Ok(calm("run", || mode.call(&inst))?.len())
    };
    // caches of the runtime fill
    let mut found = 0;
    for k in 0..3 {
        found = go(k)?;
    }
    std::thread::sleep(Duration::from_millis(3));
    let base = LIVE.load(SeqCst);
    for k in 0..rounds {
        go(k)?;
    }
    // a fixed amount may still belong to threads that are ending, and to messages of panics
    let slack = 8 * rounds as i64 - 1;
    ensure!(
        settled(base + slack),
        "{rounds} runs left {} bytes behind", LIVE.load(SeqCst) - base
    );
    obs.count("repeated_runs", rounds);
    obs.count(&format!("again_{}", if panics.is_some() { "panicking" } else { "returning" }), 1);
    if found > 0 {
        obs.nontrivial(inst.hash() ^ model::fnv(mode.json().to_string().as_bytes()) ^ 1);
    }
    Ok(())
}

fn main() {
    let mut run = Runner::new();
    let n = run.ctx().cases(24, 300);
    run.group("long", n, 0.6, 1, |ctx, r, _| {
        let inst = if r.chance(0.5) { gen::wide_inst(r, 14, 30) } else { gen::inst(r, 18, 40) };
        let nthreads = *r.pick(&[0, 1, 1, 2, 4]);
        let mut m = Mode { nthreads, task_bound: Some(r.below(40) as u32), ..Mode::SEARCH };
        m.timeout_us = Some(if ctx.thorough { 2_000_000 } else { 500_000 });
        if r.chance(0.5) {
            let f = match r.below(3) {
                0 => Func::Const(1.),
                1 => Func::Const(0.9),
                _ => Func::random(r),
            };
            m.prob = Some((f, Some(r.next())));
        }
        case(&inst, &m)
    }, long);
    let n = run.ctx().cases(60, 2000);
    run.group("again", n, 0.4, 1, |_, r, _| {
        let inst = affordable(r, 3, 7, 2_000, gen::inst);
        let mut m = Mode::random(&mut Rng::new(r.next()), true);
        m.task_bound = Some(m.task_bound.unwrap_or(5).min(20));
        let mut v = case(&inst, &m);
        v["rounds"] = json!(60);
        if r.chance(0.25) {
            v["panics"] = json!(r.below(4));
        }
        v
    }, again);
    run.finish();
}
