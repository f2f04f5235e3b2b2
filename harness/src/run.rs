//! The case runner. A check is a generator of cases (JSON values) and a judge that runs
//! the real code on one case and compares what it observes with the oracle. The runner
//! spreads cases over workers, turns panics of the code under test into violations,
//! watches for cases that do not end, and writes a report.
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    panic::{self, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst},
        Mutex, Once,
    },
    thread,
    time::{Duration, Instant},
};

use serde_json::{json, Value};

use crate::rng::Rng;

pub enum Fail {
    /// The property is broken.
    Violation(String),
    /// No verdict on this case.
    Inconclusive(String),
}

impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail::Violation(s)
    }
}

pub fn violated<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Violation(msg.into()))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !($c) {
            return Err($crate::run::Fail::Violation(format!($($arg)*)));
        }
    };
}

/// What a case let the monitors see.
#[derive(Default)]
pub struct Obs {
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    /// Identities of distinct non-trivial things seen in this case.
    pub keys: Vec<u64>,
    /// Further sets of distinct things, by name.
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub sample: Option<Value>,
}

impl Obs {
    pub fn count(&mut self, name: &str, by: u64) {
        *self.counters.entry(name.to_string()).or_default() += by;
    }
    pub fn max(&mut self, name: &str, v: u64) {
        let e = self.maxima.entry(name.to_string()).or_default();
        *e = (*e).max(v);
    }
    pub fn nontrivial(&mut self, key: u64) {
        self.keys.push(key);
    }
    pub fn distinct(&mut self, set: &str, key: u64) {
        self.sets.entry(set.to_string()).or_default().insert(key);
    }
}

pub struct Ctx {
    pub thorough: bool,
    pub seed: u64,
    /// Stop handing out cases after this long.
    pub budget: Duration,
    /// A single case that takes longer is reported as not ending.
    pub case_limit: Duration,
    pub workers: usize,
    /// Scratch directory of this run; removed by the driver.
    pub scratch: PathBuf,
    out: PathBuf,
    replay: Option<PathBuf>,
    journal: Option<PathBuf>,
    /// All threads blocked for this long: nothing will ever happen.
    blocked: Option<Duration>,
    scale: f64,
    shard: (usize, usize),
}

fn env<T: std::str::FromStr>(name: &str, default: T) -> T {
    std::env::var(name).ok().and_then(|v| v.parse().ok()).unwrap_or(default)
}

impl Ctx {
    pub fn from_env() -> Self {
        let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
        Self {
            thorough,
            seed: env("VERIF_SEED", 1),
            budget: Duration::from_secs_f64(env("VH_BUDGET", if thorough { 300. } else { 20. })),
            case_limit: Duration::from_secs_f64(env("VH_CASE_LIMIT", 120.)),
            workers: env("VH_WORKERS", 8),
            scratch: std::env::var("VH_SCRATCH").unwrap_or("/tmp".into()).into(),
            out: std::env::var("VH_OUT").unwrap_or("/dev/stdout".into()).into(),
            replay: std::env::var("VH_REPLAY").ok().map(Into::into),
            journal: std::env::var("VH_JOURNAL").ok().map(Into::into),
            blocked: Some(env("VH_BLOCKED", 0.)).filter(|s| *s > 0.).map(Duration::from_secs_f64),
            scale: env("VH_SCALE", 1.),
            shard: (env("VH_SHARD", 0), env("VH_SHARDS", 1)),
        }
    }
    /// Number of cases for this tier.
    pub fn cases(&self, quick: usize, thorough: usize) -> usize {
        let c = if self.thorough { thorough } else { quick };
        ((c as f64 * self.scale) as usize).max(1)
    }
    pub fn profile() -> &'static str {
        if cfg!(debug_assertions) {
            "debug"
        } else {
            "release"
        }
    }
}

thread_local! {
    static QUIET: RefCell<Option<String>> = const { RefCell::new(None) };
}
static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);

fn install_panic_hook() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        panic::set_hook(Box::new(|info| {
            let s = info.to_string().replace('\n', " ");
            *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(s.clone());
            QUIET.with(|q| *q.borrow_mut() = Some(s));
        }));
    });
}

/// Run code under test; a panic becomes an error with its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    install_panic_hook();
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        QUIET
            .with(|q| q.borrow_mut().take())
            .unwrap_or_else(|| "panic".to_string())
    })
}

/// As [guarded], reporting a panic as a violation.
pub fn calm<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    guarded(f).map_err(|p| Fail::Violation(format!("{what} panicked: {p}")))
}

/// How often the other threads of this process were switched to, together; the thread
/// that sends signals does not count.
fn switches() -> Option<u64> {
    let me = crate::chaos::tid();
    let mut sum = 0;
    for t in std::fs::read_dir("/proc/self/task").ok()?.flatten() {
        let id: i64 = t.file_name().to_str()?.parse().ok()?;
        if id == me || id == crate::chaos::sender() {
            continue;
        }
        // a thread that ends is progress as well
        let text = std::fs::read_to_string(t.path().join("status")).unwrap_or_default();
        sum += 1_000_003 + text
            .lines()
            .filter(|l| l.contains("voluntary_ctxt_switches"))
            .filter_map(|l| l.split_whitespace().nth(1)?.parse::<u64>().ok())
            .sum::<u64>();
        // running, or waiting for a processor or a device
        let state = text.lines().find(|l| l.starts_with("State:")).and_then(|l| l.split_whitespace().nth(1));
        if state != Some("S") {
            return None;
        }
    }
    Some(sum)
}

struct Slot {
    since: Mutex<Option<(Instant, Value)>>,
}

#[derive(Default)]
struct Report {
    evaluations: u64,
    keys: HashSet<u64>,
    sets: BTreeMap<String, HashSet<u64>>,
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    samples: Vec<Value>,
    violations: Vec<Value>,
    inconclusive: Vec<Value>,
}

impl Report {
    fn json(&self, complete: bool, wall: f64) -> Value {
        let hex = |s: &HashSet<u64>| {
            let mut v: Vec<String> = s.iter().map(|k| format!("{k:x}")).collect();
            v.sort();
            v
        };
        json!({
            "profile": Ctx::profile(),
            "complete": complete,
            "wall_s": wall,
            "evaluations": self.evaluations,
            "keys": hex(&self.keys),
            "sets": self.sets.iter().map(|(k, v)| (k.clone(), json!(hex(v)))).collect::<serde_json::Map<_, _>>(),
            "counters": self.counters,
            "maxima": self.maxima,
            "samples": self.samples,
            "violations": self.violations,
            "inconclusive": self.inconclusive,
        })
    }
}

pub struct Runner {
    ctx: Ctx,
    report: Mutex<Report>,
    start: Instant,
    complete: bool,
}

impl Runner {
    pub fn new() -> Self {
        install_panic_hook();
        Self {
            ctx: Ctx::from_env(),
            report: Mutex::default(),
            start: Instant::now(),
            complete: true,
        }
    }

    pub fn ctx(&self) -> &Ctx {
        &self.ctx
    }

    fn write(&self, complete: bool) {
        let j = self.report.lock().unwrap().json(complete, self.start.elapsed().as_secs_f64());
        std::fs::write(&self.ctx.out, serde_json::to_vec(&j).unwrap()).expect("write report");
    }

    fn judge_one<J>(&self, group: &str, case: &Value, judge: &J)
    where
        J: Fn(&Ctx, &Value, &mut Obs) -> Result<(), Fail> + Sync,
    {
        let mut obs = Obs::default();
        let res = match guarded(|| judge(&self.ctx, case, &mut obs)) {
            Ok(r) => r,
            Err(p) => Err(Fail::Violation(format!("unexpected panic: {p}"))),
        };
        let mut rep = self.report.lock().unwrap_or_else(|e| e.into_inner());
        rep.evaluations += 1;
        *rep.counters.entry(format!("cases_{group}")).or_default() += 1;
        for (k, v) in obs.counters {
            *rep.counters.entry(k).or_default() += v;
        }
        for (k, v) in obs.maxima {
            let e = rep.maxima.entry(k).or_default();
            *e = (*e).max(v);
        }
        for (k, v) in obs.sets {
            rep.sets.entry(k).or_default().extend(v);
        }
        let fresh = !obs.keys.is_empty();
        rep.keys.extend(obs.keys);
        match res {
            Ok(()) => {
                let have = rep.samples.iter().filter(|s| s["group"] == group).count();
                if have < 2 && fresh {
                    rep.samples.push(json!({"group": group, "case": case, "observed": obs.sample}));
                }
            },
            Err(Fail::Violation(msg)) => {
                rep.violations.push(json!({"group": group, "message": msg, "case": case}))
            },
            Err(Fail::Inconclusive(msg)) => {
                rep.inconclusive.push(json!({"group": group, "message": msg, "case": case}))
            },
        }
    }

    /// Run up to `count` generated cases of one group.
    pub fn group<G, J>(&mut self, name: &str, count: usize, share: f64, workers: usize, gen: G, judge: J)
    where
        G: Fn(&Ctx, &mut Rng, usize) -> Value + Sync,
        J: Fn(&Ctx, &Value, &mut Obs) -> Result<(), Fail> + Sync,
    {
        if let Some(path) = &self.ctx.replay {
            let v: Value = serde_json::from_slice(&std::fs::read(path).expect("read replay"))
                .expect("parse replay");
            if v["group"] == name {
                let case = v["case"].clone();
                self.watched(1, |run, slot| {
                    *slot.since.lock().unwrap() = Some((Instant::now(), json!({"group": name, "case": case})));
                    run.judge_one(name, &case, &judge);
                    *slot.since.lock().unwrap() = None;
                });
            }
            return;
        }
        let deadline = Instant::now() + self.ctx.budget.mul_f64(share);
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let salt = crate::model::fnv(name.as_bytes());
        let workers = workers.min(self.ctx.workers).max(1);
        let done = AtomicU64::new(0);
        self.watched(workers, |run, slot| {
            while !stop.load(SeqCst) {
                let i = next.fetch_add(1, SeqCst) * run.ctx.shard.1 + run.ctx.shard.0;
                if i >= count || Instant::now() > deadline {
                    break;
                }
                let mut rng = Rng::stream(run.ctx.seed, salt, i as u64);
                let case = gen(&run.ctx, &mut rng, i);
                let rec = json!({"group": name, "case": case});
                if let Some(j) = &run.ctx.journal {
                    std::fs::write(j, serde_json::to_vec(&rec).unwrap()).unwrap();
                }
                *slot.since.lock().unwrap() = Some((Instant::now(), rec));
                run.judge_one(name, &case, &judge);
                *slot.since.lock().unwrap() = None;
                done.fetch_add(1, SeqCst);
                if run.report.lock().unwrap().violations.len() >= 5 {
                    stop.store(true, SeqCst);
                }
            }
        });
        let (k, of) = self.ctx.shard;
        if (done.load(SeqCst) as usize) < (count + of - 1 - k) / of {
            self.complete = false;
        }
    }

    fn watched(&self, workers: usize, body: impl Fn(&Self, &Slot) + Sync) {
        let slots: Vec<Slot> = (0..workers).map(|_| Slot { since: Mutex::new(None) }).collect();
        let finished = AtomicUsize::new(0);
        thread::scope(|s| {
            for slot in &slots {
                let (body, finished) = (&body, &finished);
                s.spawn(move || {
                    struct Done<'a>(&'a AtomicUsize);
                    impl Drop for Done<'_> {
                        fn drop(&mut self) {
                            self.0.fetch_add(1, SeqCst);
                        }
                    }
                    let _d = Done(finished);
                    body(self, slot);
                });
            }
            let mut still = (None, Instant::now());
            let mut tick = 0;
            while finished.load(SeqCst) < workers {
                thread::sleep(Duration::from_millis(20));
                tick += 1;
                if self.ctx.blocked.is_some() && tick % 25 == 0 {
                    let now = switches();
                    if now.is_none() || now != still.0 {
                        still = (now, Instant::now());
                    }
                }
                for slot in &slots {
                    let since = slot.since.lock().unwrap();
                    if let Some((t, rec)) = &*since {
                        let blocked = self.ctx.blocked.is_some_and(|b| t.elapsed() > b && still.1.elapsed() > b);
                        if t.elapsed() > self.ctx.case_limit || blocked {
                            // the driver decides what this means
                            let mut rec = rec.clone();
                            rec["blocked"] = json!(blocked);
                            rec["hang_s"] = json!(t.elapsed().as_secs_f64());
                            std::fs::write(
                                self.ctx.out.with_extension("hang"),
                                serde_json::to_vec(&rec).unwrap(),
                            )
                            .ok();
                            self.write(false);
                            std::process::exit(3);
                        }
                    }
                }
            }
        });
    }

    pub fn finish(self) {
        self.write(self.complete);
    }
}

impl Default for Runner {
    fn default() -> Self {
        Self::new()
    }
}
