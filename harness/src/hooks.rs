//! The monitor's end of the observation points in the code under test (`--cfg mbqc_verif`):
//! an event log, forced synchronisations and injected delays.
use std::{
    cell::RefCell,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
        Mutex,
    },
    time::Duration,
};

use crate::{rng::Rng, step};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Event {
    Start { task: i64 },
    Sync { task: i64 },
    Merge { task: i64 },
    Found { task: i64, time: usize, space: usize },
}

/// How the scheduling of one multi-threaded run is perturbed. Everything is drawn from
/// the seed, per task.
#[derive(Clone, Copy, Debug)]
pub struct Plan {
    pub seed: u64,
    /// Synchronise after a step with this probability.
    pub p_sync: f64,
    /// Delay a step with this probability.
    pub p_delay: f64,
    /// Longest delay.
    pub delay_us: u64,
    /// Share of tasks that are delayed by `slow_us` when they start, before every
    /// synchronisation or before they merge.
    pub p_slow: f64,
    pub slow_us: u64,
    /// Stop at some instruction after a start, a forced synchronisation or before a merge,
    /// with this probability.
    pub p_stop: f64,
    pub stop_us: u64,
    pub log: bool,
}

impl Plan {
    pub const QUIET: Plan =
        Plan { seed: 0, p_sync: 0., p_delay: 0., delay_us: 0, p_slow: 0., slow_us: 0, p_stop: 0., stop_us: 0, log: true };

    pub fn random(r: &mut Rng) -> Self {
        let calm = r.chance(0.15);
        Plan {
            seed: r.next(),
            p_sync: *r.pick(&[0., 0.01, 0.1, 0.4, 1.]),
            p_delay: if calm { 0. } else { *r.pick(&[0., 0.01, 0.05]) },
            delay_us: *r.pick(&[0, 30, 150]),
            p_slow: if calm { 0. } else { *r.pick(&[0., 0.1, 0.3, 0.6]) },
            slow_us: *r.pick(&[100, 400, 1500]),
            p_stop: if calm { 0. } else { *r.pick(&[0., 0., 0.1, 0.5]) },
            stop_us: *r.pick(&[20, 100, 400]),
            log: true,
        }
    }
    pub fn json(&self) -> serde_json::Value {
        serde_json::json!([self.seed, self.p_sync, self.p_delay, self.delay_us, self.p_slow, self.slow_us, self.p_stop, self.stop_us])
    }
    pub fn from_json(v: &serde_json::Value) -> Self {
        Plan {
            seed: v[0].as_u64().unwrap(),
            p_sync: v[1].as_f64().unwrap(),
            p_delay: v[2].as_f64().unwrap(),
            delay_us: v[3].as_u64().unwrap(),
            p_slow: v[4].as_f64().unwrap(),
            slow_us: v[5].as_u64().unwrap(),
            p_stop: v[6].as_f64().unwrap_or(0.),
            stop_us: v[7].as_u64().unwrap_or(0),
            log: true,
        }
    }
}

struct Task {
    epoch: u64,
    id: i64,
    rng: Rng,
    slow: u8, // bit 0: at start, 1: at sync, 2: at merge
    stops: u8,
    plan: Plan,
}

thread_local! {
    static TASK: RefCell<Option<Task>> = const { RefCell::new(None) };
    static LOCAL: RefCell<Option<Vec<(usize, usize)>>> = const { RefCell::new(None) };
}
static EPOCH: AtomicU64 = AtomicU64::new(0);
static ACTIVE: AtomicBool = AtomicBool::new(false);
static PLAN: Mutex<Plan> = Mutex::new(Plan::QUIET);
static LOG: Mutex<Vec<Event>> = Mutex::new(Vec::new());
static RUNNING: Mutex<()> = Mutex::new(());

#[allow(dead_code)]
fn push(e: Event) {
    LOG.lock().unwrap_or_else(|e| e.into_inner()).push(e);
}

#[allow(dead_code)]
fn doze(us: u64) {
    if us > 0 {
        std::thread::sleep(Duration::from_micros(us));
    }
}

#[cfg(mbqc_verif)]
fn hook(p: mbqc_scheduling::verif_hooks::Point) -> bool {
    let mut stop = None;
    let sync = observe(p, &mut stop);
    if let Some((k, us)) = stop {
        step::arm(k, us);
    }
    sync
}

/// Where to stop: near or far, up to a few thousand instructions.
#[allow(dead_code)]
fn draw_stop(task: &mut Task, stop: &mut Option<(u32, u32)>) {
    if task.plan.p_stop > 0. && task.stops > 0 && task.rng.chance(task.plan.p_stop) {
        task.stops -= 1;
        *stop = Some(((2f64).powf(task.rng.unit() * 11.5) as u32, task.plan.stop_us as u32));
    }
}

#[cfg(mbqc_verif)]
fn observe(p: mbqc_scheduling::verif_hooks::Point, stop: &mut Option<(u32, u32)>) -> bool {
    use mbqc_scheduling::verif_hooks::Point;
    if let Point::Found { time, space } = p {
        let local = LOCAL.with(|l| {
            l.borrow_mut().as_mut().map(|v| v.push((time, space))).is_some()
        });
        if local {
            return false;
        }
    }
    if !ACTIVE.load(SeqCst) {
        return false;
    }
    let epoch = EPOCH.load(SeqCst);
    TASK.with(|t| {
        let mut t = t.borrow_mut();
        if let Point::TaskStart { index } = p {
            let plan = *PLAN.lock().unwrap_or_else(|e| e.into_inner());
            let mut rng = Rng::stream(plan.seed, 77, index as u64);
            let mut slow = 0;
            for b in 0..3 {
                if rng.chance(plan.p_slow) {
                    slow |= 1 << b;
                }
            }
            if plan.log {
                push(Event::Start { task: index });
            }
            if slow & 1 != 0 {
                doze(plan.slow_us);
            }
            // stopping takes time
            let stops = 1 + rng.below(2) as u8;
            let mut task = Task { epoch, id: index, rng, slow, stops, plan };
            if task.rng.chance(0.2) {
                draw_stop(&mut task, stop);
            }
            *t = Some(task);
            return false;
        }
        let Some(task) = t.as_mut().filter(|t| t.epoch == epoch) else { return false };
        let plan = task.plan;
        match p {
            Point::Step { .. } => {
                if plan.p_delay > 0. && task.rng.chance(plan.p_delay) {
                    doze(task.rng.below(plan.delay_us as usize + 1) as u64);
                }
                let sync = plan.p_sync > 0. && task.rng.chance(plan.p_sync);
                if sync {
                    if task.slow & 2 != 0 && task.rng.chance(0.1) {
                        doze(plan.slow_us);
                    }
                    if plan.log {
                        push(Event::Sync { task: task.id });
                    }
                    if task.rng.chance(0.2) {
                        draw_stop(task, stop);
                    }
                }
                sync
            },
            Point::Merge => {
                if task.slow & 4 != 0 {
                    doze(plan.slow_us);
                }
                if plan.log {
                    push(Event::Merge { task: task.id });
                }
                draw_stop(task, stop);
                false
            },
            Point::Found { time, space } => {
                push(Event::Found { task: task.id, time, space });
                false
            },
            _ => false,
        }
    })
}

/// Were the observation points compiled in?
pub const AVAILABLE: bool = cfg!(mbqc_verif);

pub fn init() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        // not below a sanitizer: they have ideas of their own about signals
        if std::env::var("VH_QUIET").is_err() {
            step::install();
        }
        #[cfg(mbqc_verif)]
        mbqc_scheduling::verif_hooks::install(hook);
    });
}

/// Run a single-threaded search on this thread and note the patterns it found.
pub fn local<T>(f: impl FnOnce() -> T) -> (T, Vec<(usize, usize)>) {
    init();
    LOCAL.with(|l| *l.borrow_mut() = Some(Vec::new()));
    let r = f();
    (r, LOCAL.with(|l| l.borrow_mut().take()).unwrap_or_default())
}

/// Run a multi-threaded search under a plan and note its events. One at a time per
/// process.
pub fn planned<T>(plan: Plan, f: impl FnOnce() -> T) -> (T, Vec<Event>) {
    init();
    let _one = RUNNING.lock().unwrap_or_else(|e| e.into_inner());
    LOG.lock().unwrap_or_else(|e| e.into_inner()).clear();
    *PLAN.lock().unwrap_or_else(|e| e.into_inner()) = plan;
    EPOCH.fetch_add(1, SeqCst);
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ACTIVE.store(false, SeqCst);
        }
    }
    ACTIVE.store(true, SeqCst);
    let off = Off;
    let r = f();
    drop(off);
    let log = std::mem::take(&mut *LOG.lock().unwrap_or_else(|e| e.into_inner()));
    (r, log)
}

/// Identity of an interleaving: the order in which tasks started, synchronised, found
/// patterns and merged.
pub fn interleaving(log: &[Event]) -> u64 {
    crate::model::fnv(format!("{log:?}").as_bytes())
}
