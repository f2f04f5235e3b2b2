//! C33: what is known already is not searched for again, and what one thread has found is
//! soon known to the others.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::{Cell, RefCell},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst},
        Arc, Mutex,
    },
    time::Duration,
};

use mbqc_scheduling::{interface, probabilistic::AcceptFunc};
use serde_json::{json, Value};
use vh::{
    ensure, gen,
    model::{self, Inst},
    modes::{affordable, case, Mode},
    rng::Rng,
    run::{calm, Ctx, Fail, Obs, Runner},
    sim,
};

thread_local! {
    static ALLOCATIONS: Cell<u64> = const { Cell::new(0) };
}

struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOCATIONS.try_with(|c| c.set(c.get() + 1)).ok();
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}

#[global_allocator]
static COUNTING: Counting = Counting;

/// So many steps after a discovery its thread has told it, and so many steps after that
/// another one has taken it over.
const SOON: u64 = 10_000;

/// Least space per number of steps.
type Best = Vec<usize>;

fn note(best: &mut Best, time: usize, space: usize) {
    for b in best[time..].iter_mut() {
        *b = (*b).min(space);
    }
}

struct Thread {
    epoch: u64,
    steps: u64,
    /// What this thread has to know.
    known: Best,
    /// Found here: (when, time, space).
    own: Vec<(u64, usize, usize)>,
    /// Published by others and seen: (when, time, space).
    seen: Vec<(u64, usize, usize)>,
    pulled: usize,
}

thread_local! {
    static LOCAL: RefCell<Option<Vec<(usize, usize)>>> = const { RefCell::new(None) };
    static THREAD: RefCell<Option<Thread>> = const { RefCell::new(None) };
}
static ACTIVE: AtomicBool = AtomicBool::new(false);
static EPOCH: AtomicU64 = AtomicU64::new(0);
static DELAY: AtomicU64 = AtomicU64::new(SOON);
static TIMES: AtomicUsize = AtomicUsize::new(0);
static PUBLISHED: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());
static COUNT: AtomicUsize = AtomicUsize::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
static TOLD: AtomicU64 = AtomicU64::new(0);
static CHECKED: AtomicU64 = AtomicU64::new(0);
static COMPLAINT: Mutex<Option<String>> = Mutex::new(None);

fn complain(s: String) {
    COMPLAINT.lock().unwrap().get_or_insert(s);
}

fn publish(t: &mut Thread, upto: u64) {
    let mut k = 0;
    while k < t.own.len() && t.own[k].0 <= upto {
        k += 1;
    }
    if k > 0 {
        let mut p = PUBLISHED.lock().unwrap();
        p.extend(t.own.drain(..k).map(|(_, a, b)| (a, b)));
        COUNT.store(p.len(), SeqCst);
    }
}

fn pull(t: &mut Thread) {
    if COUNT.load(SeqCst) > t.pulled {
        let p = PUBLISHED.lock().unwrap();
        for (a, b) in &p[t.pulled..] {
            t.seen.push((t.steps, *a, *b));
        }
        t.pulled = p.len();
    }
}

fn learn(t: &mut Thread, upto: u64) {
    let mut k = 0;
    while k < t.seen.len() && t.seen[k].0 <= upto {
        k += 1;
    }
    for (_, time, space) in t.seen.drain(..k) {
        if t.known[time] > space {
            note(&mut t.known, time, space);
            TOLD.fetch_add(1, SeqCst);
        }
    }
}

#[cfg(mbqc_verif)]
fn hook(p: mbqc_scheduling::verif_hooks::Point) -> bool {
    use mbqc_scheduling::verif_hooks::Point;
    if let Point::Found { time, space } = p {
        if LOCAL.with(|l| l.borrow_mut().as_mut().map(|v| v.push((time, space))).is_some()) {
            return false;
        }
    }
    if !ACTIVE.load(SeqCst) {
        return false;
    }
    let epoch = EPOCH.load(SeqCst);
    let delay = DELAY.load(SeqCst);
    THREAD.with(|t| {
        let mut t = t.borrow_mut();
        if !t.as_ref().is_some_and(|t| t.epoch == epoch) {
            *t = Some(Thread {
                epoch,
                steps: 0,
                known: vec![usize::MAX; TIMES.load(SeqCst)],
                own: vec![],
                seen: vec![],
                pulled: 0,
            });
        }
        let t = t.as_mut().unwrap();
        match p {
            Point::TaskStart { .. } => {
                // the task before has been merged
                publish(t, u64::MAX);
                pull(t);
                learn(t, u64::MAX);
                false
            },
            Point::Step { .. } => {
                STEPS.fetch_add(1, SeqCst);
                t.steps += 1;
                if t.steps > delay + 1 {
                    publish(t, t.steps - delay - 1);
                }
                pull(t);
                if t.steps >= delay {
                    learn(t, t.steps - delay);
                }
                delay == 1
            },
            Point::Found { time, space } => {
                CHECKED.fetch_add((t.pulled > 0) as u64, SeqCst);
                if t.known[time] <= space {
                    complain(format!(
                        "after {} steps a thread went through a pattern with time {time} and space {space}, \
                         although one with at most that time and space {} had been known to it for more than {delay} steps",
                        t.steps, t.known[time]
                    ));
                }
                note(&mut t.known, time, space);
                t.own.push((t.steps, time, space));
                false
            },
            _ => false,
        }
    })
}

fn call(inst: &Inst, mode: &Mode, all: bool) -> Result<Vec<interface::Path>, Fail> {
    let func = all.then(|| {
        AcceptFunc::Custom(Box::new(move |bound: f64, least: f64, last_max: f64, _, _, _, _| {
            if last_max >= bound {
                complain(format!("asked about a step after {last_max} in memory, while {bound} is known to do"));
            }
            THREAD.with(|t| {
                if let Some(t) = t.borrow().as_ref().filter(|t| t.epoch == EPOCH.load(SeqCst)) {
                    CHECKED.fetch_add((t.pulled > 0) as u64, SeqCst);
                    let known = *t.known.last().unwrap();
                    if known < usize::MAX && least > known as f64 {
                        complain(format!(
                            "after {} steps of its thread the accept function was told {least} as minimal_mem, but {known} \
                             had been known for more than {} steps", t.steps, DELAY.load(SeqCst)
                        ));
                    }
                }
            });
            1.
        }))
    });
    calm("run", || {
        interface::run(
            &inst.adj, &inst.order, true, mode.timeout_us.map(Duration::from_micros), mode.nthreads, mode.task_bound,
            func.map(|f| (f, Some(1))),
        )
    })
}

fn shared(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    TIMES.store(inst.n() + 1, SeqCst);
    DELAY.store(v["delay"].as_u64().unwrap(), SeqCst);
    PUBLISHED.lock().unwrap().clear();
    for x in [&STEPS, &TOLD, &CHECKED] {
        x.store(0, SeqCst);
    }
    COUNT.store(0, SeqCst);
    EPOCH.fetch_add(1, SeqCst);
    COMPLAINT.lock().unwrap().take();
    ACTIVE.store(true, SeqCst);
    let r = call(&inst, &mode, v["all"] == true);
    ACTIVE.store(false, SeqCst);
    r?;
    if let Some(s) = COMPLAINT.lock().unwrap().take() {
        return Err(Fail::Violation(s));
    }
    let (steps, told, checked) = (STEPS.load(SeqCst), TOLD.load(SeqCst), CHECKED.load(SeqCst));
    if mode.timeout_us.is_none() && v["delay"] != 1 {
        // nothing is gained by dividing the search, if each task only knows what it found
        // itself; what it learns from others can only save steps
        let Some(alone) = sim::tasks(&inst, mode.task_bound.map_or(100_000, |b| b as usize), 3_000_000) else {
            return Err(Fail::Inconclusive("too long for the restated search".into()));
        };
        ensure!(
            steps <= alone,
            "{steps} steps for all tasks together, although {alone} are enough when each of them only uses its own results"
        );
        obs.count("totals_compared", 1);
        obs.count("steps_saved", alone - steps);
    }
    let kind = if v["all"] == true { "calls" } else { "patterns" };
    obs.count(&format!("{kind}_checked_against_others"), checked);
    obs.count(&format!("taken_over_{}", if v["delay"] == 1 { "at_once" } else { "soon" }), told);
    obs.count("steps", steps);
    if told > 0 && checked > 0 {
        obs.nontrivial(inst.hash() ^ model::fnv(v.to_string().as_bytes()));
        obs.sample = Some(json!({"steps": steps, "taken_over": told, "checked": checked}));
    }
    Ok(())
}

fn single(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let Some(want) = sim::search(&inst, 400_000, |_| true) else {
        return Err(Fail::Inconclusive("too long for the restated search".into()));
    };
    let all = v["all"] == true;
    let mut calls = 0;
    LOCAL.with(|l| *l.borrow_mut() = Some(vec![]));
    let before = ALLOCATIONS.get();
    if all {
        let n = Arc::new(AtomicU64::new(0));
        let k = n.clone();
        let r = calm("run", || {
            interface::run(
                &inst.adj, &inst.order, true, None, mode.nthreads, mode.task_bound,
                Some((AcceptFunc::Custom(Box::new(move |_, _, _, _, _, _, _| {
                    k.fetch_add(1, SeqCst);
                    1.
                })), Some(1))),
            )
        });
        calls = n.load(SeqCst);
        r?;
    } else {
        call(&inst, &mode, false)?;
    }
    let allocations = ALLOCATIONS.get() - before;
    let found = LOCAL.with(|l| l.borrow_mut().take()).unwrap();
    let mut best = vec![usize::MAX; inst.n() + 1];
    for (time, space) in &found {
        ensure!(
            best[*time] > *space,
            "went through a pattern with time {time} and space {space}, although one with space {} had been found \
             before: {found:?}", best[*time]
        );
        note(&mut best, *time, *space);
    }
    if all {
        ensure!(
            calls <= want.calls.len() as u64,
            "{calls} decisions, {} of the steps can lead to something better", want.calls.len()
        );
    }
    // per step the states are copied: some six allocations
    let allowed = 30 * want.steps + 40 * inst.n() as u64 + 1000;
    ensure!(
        allocations <= allowed,
        "{allocations} allocations for a search that needs {} steps", want.steps
    );
    obs.max("allocations_percent_of_allowed", allocations * 100 / allowed);
    let patterns = model::count_patterns(&inst);
    if patterns as f64 > 20. * want.steps as f64 {
        obs.count("pruned_to_a_twentieth", 1);
    }
    if found.len() > 1 && patterns > 2 * want.steps as u128 {
        obs.nontrivial(inst.hash() ^ all as u64);
    }
    Ok(())
}

fn main() {
    #[cfg(mbqc_verif)]
    mbqc_scheduling::verif_hooks::install(hook);
    let mut run = Runner::new();
    let n = run.ctx().cases(1500, 60_000);
    run.group("single", n, 0.3, 8, |_, r, _| {
        let (lo, hi) = *r.pick(&[(3, 7), (6, 9), (8, 10)]);
        let inst = affordable(r, lo, hi, 30_000_000, gen::wide_inst);
        let mut v = case(&inst, &Mode { nthreads: r.below(2) as u16, ..Mode::SEARCH });
        v["all"] = json!(r.chance(0.4));
        v
    }, single);
    let n = run.ctx().cases(300, 10_000);
    run.group("at_once", n, 0.2, 1, |_, r, _| threaded(r, 6, 10, 1), shared);
    let n = run.ctx().cases(60, 2000);
    run.group("soon", n, 0.35, 1, |_, r, _| threaded(r, 12, 20, SOON), shared);
    let n = run.ctx().cases(300, 10_000);
    run.group("total", n, 0.15, 1, |_, r, _| {
        let inst = affordable(r, 4, 8, 100_000, gen::wide_inst);
        let bound = *r.pick(&[None, Some(0), Some(3), Some(20)]);
        let mut v = case(&inst, &Mode::threaded(r.range(2, 8) as u16, bound));
        v["all"] = json!(r.chance(0.3));
        v["delay"] = json!(SOON);
        v
    }, shared);
    run.finish();
}

fn threaded(r: &mut Rng, lo: usize, hi: usize, delay: u64) -> Value {
    let inst = gen::wide_inst(r, lo, hi);
    let bound = *r.pick(&[Some(0), Some(3), Some(20), Some(300)]);
    let mut m = Mode::threaded(r.range(2, 6) as u16, bound);
    m.timeout_us = Some(if delay == 1 { 20_000 } else { 120_000 });
    let mut v = case(&inst, &m);
    v["all"] = json!(r.chance(0.6));
    v["delay"] = json!(delay);
    v
}
