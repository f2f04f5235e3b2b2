//! C32: what is logged changes nothing, and a search that was cut short says so.
use std::{
    collections::HashMap,
    fmt::{Debug, Write},
    fs,
    io,
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst},
        Mutex,
    },
    thread,
    time::{Duration, Instant},
};

use mbqc_scheduling::interface::{self, Path};
use serde_json::{json, Value};
use tracing::{
    field::{Field, Visit},
    span, Event, Level, Metadata, Subscriber,
};
use vh::{
    ensure, files, gen,
    model::{self, Inst},
    modes::{affordable, case, pairs, paths_json, Func, Mode},
    rng::Rng,
    run::{calm, Ctx, Fail, Obs, Runner},
};

/// 0: nothing is logged; 1: errors; ... 5: everything.
static LEVEL: AtomicUsize = AtomicUsize::new(0);
/// Let others run while something is logged.
static SLOW: AtomicU64 = AtomicU64::new(0);
static EVENTS: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);
static SPANS: AtomicU64 = AtomicU64::new(0);
static OPEN: AtomicI64 = AtomicI64::new(0);
static ENTERED: Mutex<Option<HashMap<u64, thread::ThreadId>>> = Mutex::new(None);
static TIMEOUTS: AtomicU64 = AtomicU64::new(0);
static COMPLAINT: Mutex<Option<String>> = Mutex::new(None);

fn complain(s: String) {
    COMPLAINT.lock().unwrap().get_or_insert(s);
}

struct Text(String);

impl Visit for Text {
    fn record_debug(&mut self, f: &Field, v: &dyn Debug) {
        write!(self.0, "{f}={v:?} ").unwrap();
    }
}

fn number(l: &Level) -> usize {
    [Level::ERROR, Level::WARN, Level::INFO, Level::DEBUG, Level::TRACE].iter().position(|x| x == l).unwrap() + 1
}

fn written(level: &Level, t: Text) {
    BYTES.fetch_add(t.0.len() as u64, SeqCst);
    if number(level) <= 3 && t.0.to_lowercase().contains("timeout") {
        TIMEOUTS.fetch_add(1, SeqCst);
    }
    let k = SLOW.load(SeqCst);
    if k > 0 {
        match Rng::new(k ^ EVENTS.load(SeqCst)).below(4) {
            0 => thread::yield_now(),
            1 => thread::sleep(Duration::from_micros(50)),
            2 => thread::sleep(Duration::from_micros(400)),
            _ => (),
        }
    }
}

/// Synchronise one in so many steps, if not 0.
static FORCE: AtomicUsize = AtomicUsize::new(0);

#[cfg(mbqc_verif)]
fn hook(p: mbqc_scheduling::verif_hooks::Point) -> bool {
    static STEPS: AtomicU64 = AtomicU64::new(0);
    let k = FORCE.load(SeqCst);
    k > 0
        && matches!(p, mbqc_scheduling::verif_hooks::Point::Step { .. })
        && Rng::new(STEPS.fetch_add(1, SeqCst)).below(k) == 0
}

struct Monitor;

impl Subscriber for Monitor {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> tracing::subscriber::Interest {
        tracing::subscriber::Interest::sometimes()
    }
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        m.target().starts_with("mbqc_scheduling") && number(m.level()) <= LEVEL.load(SeqCst)
    }
    fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
        let id = SPANS.fetch_add(1, SeqCst) + 1;
        OPEN.fetch_add(1, SeqCst);
        let mut t = Text(a.metadata().name().into());
        a.record(&mut t);
        written(a.metadata().level(), t);
        span::Id::from_u64(id)
    }
    fn record(&self, _: &span::Id, r: &span::Record<'_>) {
        r.record(&mut Text(String::new()));
    }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        EVENTS.fetch_add(1, SeqCst);
        let mut t = Text(String::new());
        e.record(&mut t);
        written(e.metadata().level(), t);
    }
    fn enter(&self, s: &span::Id) {
        if let Some(m) = ENTERED.lock().unwrap().as_mut() {
            m.insert(s.into_u64(), thread::current().id());
        }
    }
    fn exit(&self, s: &span::Id) {
        if let Some(m) = ENTERED.lock().unwrap().as_mut() {
            if m.remove(&s.into_u64()) != Some(thread::current().id()) {
                complain("a span is left that was not entered on this thread".into());
            }
        }
    }
    fn try_close(&self, _: span::Id) -> bool {
        OPEN.fetch_sub(1, SeqCst);
        true
    }
}

struct Logged<T> {
    result: T,
    events: u64,
    bytes: u64,
    timeouts: u64,
}

fn logged<T>(level: usize, slow: u64, f: impl FnOnce() -> T) -> Result<Logged<T>, Fail> {
    for x in [&EVENTS, &BYTES, &TIMEOUTS] {
        x.store(0, SeqCst);
    }
    OPEN.store(0, SeqCst);
    *ENTERED.lock().unwrap() = Some(HashMap::new());
    SLOW.store(slow, SeqCst);
    LEVEL.store(level, SeqCst);
    let result = calm("run", f);
    LEVEL.store(0, SeqCst);
    let left = ENTERED.lock().unwrap().take().unwrap().len();
    let result = result?;
    if let Some(s) = COMPLAINT.lock().unwrap().take() {
        return Err(Fail::Violation(s));
    }
    ensure!(
        left == 0 && OPEN.load(SeqCst) == 0,
        "{left} spans are still entered after the run, {} not closed", OPEN.load(SeqCst)
    );
    Ok(Logged { result, events: EVENTS.load(SeqCst), bytes: BYTES.load(SeqCst), timeouts: TIMEOUTS.load(SeqCst) })
}

fn count(obs: &mut Obs, level: usize, l: &Logged<Vec<Path>>) {
    obs.count(&format!("runs_level_{level}"), 1);
    obs.count("events", l.events);
    obs.count("bytes", l.bytes);
}

/// One result only: with each level the same as without.
fn same(ctx: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let want = calm("run", || mode.call(&inst))?;
    for level in 1..=5 {
        let l = logged(level, 0, || mode.call(&inst))?;
        ensure!(
            paths_json(&l.result) == paths_json(&want),
            "at level {level}: {:?}, without any message {want:?}", l.result
        );
        ensure!(l.timeouts == 0, "says that there was a timeout, but there is none");
        count(obs, level, &l);
    }
    // the accept function of the file interface cannot be seeded
    if mode.prob.is_none() {
        let dir = files::Scratch::new(&ctx.scratch, "c32");
        let (sp, dp, out) = (dir.path.join("s"), dir.path.join("d"), dir.path.join("o"));
        files::write(&sp, &inst.adj, "serde_json", false);
        files::write(&dp, &inst.order, "serde_json", false);
        let s = |p: &std::path::PathBuf| p.to_str().unwrap().to_string();
        let r = logged(5, 0, || {
            interface::run_serialized(
                (s(&sp), "serde_json"), (s(&dp), "serde_json"), mode.do_search, None, mode.nthreads, mode.task_bound, None,
                (s(&out), "serde_json"),
            )
            .map_err(|e| e.to_string())
        })?;
        ensure!(r.result.is_ok(), "with everything logged: {:?}", r.result);
        let got = files::decode_paths(&fs::read(&out).unwrap(), "serde_json").map_err(Fail::Violation)?;
        ensure!(got == files::tuples(&want), "with everything logged {got:?} is written, not {want:?}");
        obs.count("files_compared", 1);
    }
    if want.len() > 1 {
        obs.nontrivial(inst.hash() ^ model::fnv(v.to_string().as_bytes()));
        obs.sample = Some(json!({"paths": paths_json(&want)}));
    }
    Ok(())
}

/// Complete searches on several threads.
fn threads(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let level = v["level"].as_u64().unwrap() as usize;
    let Some(want) = model::front(&inst, 3_000_000) else {
        return Err(Fail::Inconclusive("too long for the reference".into()));
    };
    FORCE.store(if v["slow"] == 0 { 0 } else { 16 }, SeqCst);
    let l = logged(level, v["slow"].as_u64().unwrap(), || mode.call(&inst))?;
    ensure!(
        pairs(&l.result) == want,
        "at level {level}: {:?}, the best ones are {want:?}", pairs(&l.result)
    );
    for p in &l.result {
        model::check_pattern(&inst, &p.steps).map_err(Fail::Violation)?;
    }
    ensure!(l.timeouts == 0, "says that there was a timeout, but there is none");
    count(obs, level, &l);
    if l.events > 4 {
        obs.count("threaded_runs_logged", 1);
        obs.nontrivial(inst.hash() ^ model::fnv(v.to_string().as_bytes()));
    }
    Ok(())
}

/// A message about the timeout if, and only if, there was one that mattered.
fn said(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let level = v["level"].as_u64().unwrap() as usize;
    let Some(want) = model::front(&inst, 3_000_000) else {
        return Err(Fail::Inconclusive("too long for the reference".into()));
    };
    FORCE.store(v["force"].as_u64().unwrap() as usize, SeqCst);
    let t = Instant::now();
    let l = logged(level, 0, || mode.call(&inst))?;
    let (elapsed, timeout) = (t.elapsed(), Duration::from_micros(mode.timeout_us.unwrap()));
    let complete = pairs(&l.result) == want;
    if l.timeouts == 0 {
        ensure!(
            complete,
            "nothing is said about a timeout, but the search was cut short: {:?}, the best ones are {want:?}",
            pairs(&l.result)
        );
        obs.count("ended_without_message", 1);
    } else {
        ensure!(elapsed >= timeout, "says that there was a timeout after {elapsed:?}, it is only after {timeout:?}");
        ensure!(
            l.timeouts as usize <= if mode.nthreads < 2 { 1 } else { usize::MAX },
            "says {} times that there was a timeout", l.timeouts
        );
        obs.count(if complete { "timeouts_complete" } else { "timeouts_incomplete" }, 1);
        obs.count(&format!("timeouts_{}", mode.label()), 1);
        if !complete {
            obs.nontrivial(inst.hash() ^ model::fnv(v.to_string().as_bytes()));
        }
    }
    count(obs, level, &l);
    Ok(())
}

fn end(c: &mut std::process::Child) -> Option<i32> {
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(40) {
        if let Some(s) = c.try_wait().unwrap() {
            return Some(s.code().unwrap_or(-1));
        }
        thread::sleep(Duration::from_millis(1));
    }
    c.kill().ok();
    c.wait().ok();
    None
}

fn program(ctx: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let cut = mode.timeout_us.is_some();
    let want = if cut { vec![] } else { calm("run", || mode.call(&inst))? };
    let dir = files::Scratch::new(&ctx.scratch, "c32");
    let (sp, dp, out, log) = (dir.path.join("s"), dir.path.join("d"), dir.path.join("o"), dir.path.join("log"));
    files::write(&sp, &inst.adj, "serde_json", false);
    files::write(&dp, &inst.order, "bincode", false);
    let mut c = Command::new(std::env::var("VH_CLI").expect("VH_CLI"));
    c.arg(&sp).arg("serde_json").arg(&dp).arg("bincode").arg(&out).arg("serde_json");
    if mode.do_search {
        c.arg("-s");
    }
    c.arg(format!("-n{}", mode.nthreads));
    if let Some(b) = mode.task_bound {
        c.arg(format!("-b{b}"));
    }
    if let Some(t) = mode.timeout_us {
        c.arg(format!("-t{}", t / 1_000_000));
    }
    match v["log"].as_str() {
        Some(l) => c.env("RUST_LOG", l),
        None => c.env_remove("RUST_LOG"),
    };
    c.stdin(Stdio::null()).stderr(fs::File::create(dir.path.join("err")).unwrap());
    let place = v["stdout"].as_str().unwrap();
    match place {
        "file" => c.stdout(fs::File::create(&log).unwrap()),
        "full" => c.stdout(fs::OpenOptions::new().write(true).open("/dev/full").unwrap()),
        "gone" => {
            let (r, w) = io::pipe().unwrap();
            drop(r);
            c.stdout(w)
        },
        _ => c.stdout(Stdio::null()),
    };
    let shown = format!("RUST_LOG={} {:?} with stdout: {place}", v["log"], c.get_args());
    let mut child = c.spawn().unwrap();
    drop(c);
    let Some(code) = end(&mut child) else {
        return Err(Fail::Violation(format!("does not end within 40 s: {shown}")));
    };
    ensure!(
        code == 0,
        "exit status {code}: {shown}: {}", fs::read_to_string(dir.path.join("err")).unwrap_or_default()
    );
    let got = fs::read(&out).map_err(|e| Fail::Violation(format!("{shown}: exit status 0, but no output: {e}")))?;
    let got = files::decode_paths(&got, "serde_json").map_err(Fail::Violation)?;
    let text = fs::read(&log).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    let told = text.to_lowercase().contains("timeout");
    if cut {
        obs.count("program_cut_short", 1);
    } else if mode.nthreads < 2 || !mode.do_search {
        ensure!(got == files::tuples(&want), "{shown}: {got:?}, but the library says {want:?}");
    } else {
        let p: Vec<(usize, usize)> = got.iter().map(|g| (g.0, g.1)).collect();
        ensure!(p == pairs(&want), "{shown}: {got:?}, but the library says {want:?}");
    }
    if place == "file" && v["messages"] == true {
        ensure!(
            told == cut,
            "{shown}: {} about a timeout", if told { "there is a message" } else { "nothing is said" }
        );
        obs.count("program_messages_compared", 1);
    }
    obs.count("log_bytes", text.len() as u64);
    obs.count(&format!("program_stdout_{place}"), 1);
    if !text.is_empty() || place == "gone" || place == "full" {
        obs.nontrivial(inst.hash() ^ model::fnv(shown.as_bytes()));
        obs.sample = Some(json!({"run": shown, "log_bytes": text.len(), "paths": pairs(&want)}));
    }
    Ok(())
}

fn main() {
    #[cfg(mbqc_verif)]
    mbqc_scheduling::verif_hooks::install(hook);
    tracing::subscriber::set_global_default(Monitor).unwrap();
    let mut run = Runner::new();
    let n = run.ctx().cases(600, 20_000);
    run.group("same", n, 0.25, 1, |_, r, _| {
        let inst = affordable(r, 1, 9, 300_000, gen::wide_inst);
        let mut m = Mode::random(r, true);
        m.timeout_us = None;
        m.nthreads = r.below(2) as u16;
        if r.chance(0.1) {
            m.do_search = false;
            m.nthreads = r.below(5) as u16;
        }
        if let Some((_, seed)) = &mut m.prob {
            seed.get_or_insert(r.next());
        }
        case(&inst, &m)
    }, same);
    let n = run.ctx().cases(300, 10_000);
    run.group("threads", n, 0.25, 1, |_, r, _| {
        let inst = affordable(r, 2, 8, 100_000, gen::wide_inst);
        let bound = *r.pick(&[None, Some(0), Some(2), Some(5), Some(20)]);
        let mut m = Mode::threaded(r.range(2, 8) as u16, bound);
        if r.chance(0.4) {
            m.prob = Some((Func::Const(1.), Some(r.next())));
        }
        let mut v = case(&inst, &m);
        v["level"] = json!(r.range(3, 5));
        v["slow"] = json!(if r.chance(0.7) { r.next() >> 8 | 1 } else { 0 });
        v
    }, threads);
    let n = run.ctx().cases(800, 30_000);
    run.group("said", n, 0.25, 1, |_, r, _| {
        let inst = affordable(r, 4, 9, 1_000_000, gen::wide_inst);
        let mut m = Mode::SEARCH;
        m.nthreads = *r.pick(&[0, 1, 1, 2, 3, 8]);
        m.task_bound = *r.pick(&[None, Some(0), Some(3), Some(20)]);
        m.timeout_us = Some(*r.pick(&[0, 1, 20, 50, 100, 200, 400, 800, 2000, 10_000]));
        if r.chance(0.4) {
            m.prob = Some((Func::Const(1.), Some(r.next())));
        }
        let mut v = case(&inst, &m);
        v["level"] = json!(r.range(3, 5));
        v["force"] = json!(*r.pick(&[0, 0, 1, 1, 5, 40]));
        v
    }, said);
    let n = run.ctx().cases(60, 1500);
    run.group("program", n, 0.25, 4, |_, r, i| {
        let cut = i % 12 == 5;
        let mut m = if r.chance(0.1) && !cut { Mode::GREEDY } else { Mode::SEARCH };
        m.nthreads = *r.pick(&[1, 1, 2, 4]);
        m.task_bound = *r.pick(&[None, Some(0), Some(3), Some(20)]);
        let inst = if cut {
            // a path of 60 nodes without dependencies
            m.timeout_us = Some(1_000_000);
            m.task_bound = Some(3);
            let n = r.range(40, 60);
            Inst {
                adj: (0..n).map(|i| [i.wrapping_sub(1), i + 1].into_iter().filter(|j| *j < n).collect()).collect(),
                order: vec![(0..n).map(|i| (i, vec![])).collect()],
            }
        } else {
            affordable(r, 2, 8, 100_000, gen::wide_inst)
        };
        // what RUST_LOG is, and whether messages at info level are written
        let (log, messages) = *r.pick(&[
            (None, true), (Some("info"), true), (Some("debug"), true), (Some("trace"), true),
            (Some("mbqc_scheduling=trace"), true), (Some("error"), false), (Some("off"), false), (Some(""), false),
            (Some("!?=,=debug=="), false),
        ]);
        let mut v = case(&inst, &m);
        v["log"] = json!(log);
        v["messages"] = json!(messages);
        v["stdout"] = json!(*r.pick(&["file", "file", "file", "full", "gone", "null"]));
        v
    }, program);
    run.finish();
}
