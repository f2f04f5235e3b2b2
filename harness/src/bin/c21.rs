//! C21: runs end, leave no thread behind, and race-free; built with sanitizers as well.
//! A panicking accept function is noticed.
use std::{
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst},
        Arc,
    },
    thread,
    time::{Duration, Instant},
};

use mbqc_scheduling::{interface, probabilistic::AcceptFunc, timer::Timer};
use serde_json::{json, Value};
use vh::{
    chaos, ensure, files, gen, hooks,
    model::{self, Inst},
    modes::{affordable, case, Func, Mode},
    rng::Rng,
    run::{calm, guarded, Ctx, Fail, Obs, Runner},
};

/// Sanitized builds: nothing that would order threads which the code leaves unordered.
fn quiet() -> bool {
    std::env::var("VH_QUIET").is_ok()
}

fn threads_now() -> usize {
    std::fs::read_dir("/proc/self/task").map_or(0, |d| d.count())
}

static REST: AtomicUsize = AtomicUsize::new(0);

fn resting() -> Result<(), usize> {
    let rest = REST.load(SeqCst);
    let t = Instant::now();
    loop {
        let n = threads_now();
        if n <= rest {
            return Ok(());
        }
        if t.elapsed() > Duration::from_secs(20) {
            return Err(n - rest);
        }
        thread::sleep(Duration::from_micros(200));
    }
}

fn runs(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let chaos_us = v["chaos_us"].as_u64().filter(|_| !quiet());
    if chaos_us.is_some() && REST.load(SeqCst) == 0 {
        chaos::with_chaos(1, || ());
    }
    if REST.load(SeqCst) == 0 {
        chaos::with_chaos(1, || ());
        thread::sleep(Duration::from_millis(5));
        REST.store(threads_now(), SeqCst);
    }
    // a user's function that shares state between the threads, correctly
    let calls = Arc::new(AtomicU64::new(0));
    let prob = mode.prob.as_ref().map(|(f, seed)| match f {
        Func::Const(p) => {
            let (p, c) = (*p, calls.clone());
            (AcceptFunc::Custom(Box::new(move |_, _, _, _, _, _, _| {
                c.fetch_add(1, SeqCst);
                p
            })), *seed)
        },
        f => (f.build(), *seed),
    });
    let go = || {
        interface::run(
            &inst.adj, &inst.order, mode.do_search, mode.timeout_us.map(Duration::from_micros),
            mode.nthreads, mode.task_bound, prob,
        )
    };
    let (paths, log) = if quiet() {
        (calm("run", go)?, vec![])
    } else {
        let plan = hooks::Plan::from_json(&v["plan"]);
        let run = || hooks::planned(plan, go);
        match chaos_us {
            Some(us) => calm("run", || chaos::with_chaos(us as u32, run))?,
            None => calm("run", run)?,
        }
    };
    for p in &paths {
        model::check_pattern(&inst, &p.steps).map_err(Fail::Violation)?;
        ensure!(
            p.time == p.steps.len() && p.space == model::space(&inst.adj, &p.steps),
            "wrong costs: {p:?}"
        );
    }
    if let Err(n) = resting() {
        return Err(Fail::Violation(format!("{n} threads are left behind, 20 s after the end of the run")));
    }
    obs.count("runs", 1);
    obs.count(&format!("mode_{}", mode.label()), 1);
    obs.count("accept_calls", calls.load(SeqCst));
    obs.max("stops_at_instructions", vh::step::pauses());
    obs.count("events", log.len() as u64);
    if mode.nthreads >= 2 && mode.do_search {
        obs.nontrivial(inst.hash() ^ model::fnv(mode.json().to_string().as_bytes()));
        if !log.is_empty() {
            obs.distinct("interleavings", hooks::interleaving(&log));
        }
        obs.sample = Some(json!({"paths": paths.len(), "events": log.len()}));
    }
    Ok(())
}

/// The timer shared by threads, for the sanitizers.
fn timers(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let mut r = Rng::new(v["seed"].as_u64().unwrap());
    for _ in 0..10 {
        let mut timer = Timer::new();
        let forever = r.chance(0.5);
        timer.start(if forever { Duration::from_secs(3600) } else { Duration::from_micros(r.below(300) as u64) });
        let stop = AtomicBool::new(false);
        let (t, stop) = (&timer, &stop);
        let k = r.range(1, 4);
        thread::scope(|s| {
            for _ in 0..k {
                s.spawn(move || {
                    while !stop.load(SeqCst) && !t.finished() {
                        thread::yield_now();
                    }
                });
            }
            if forever {
                thread::sleep(Duration::from_micros(r.below(200) as u64));
                stop.store(true, SeqCst);
            }
        });
        drop(timer);
        obs.count("timers", 1);
    }
    Ok(())
}

fn panicking(path: &str) {
    let v: Value = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
    let inst = Inst::from_json(&v);
    let mode = Mode::from_json(&v["mode"]);
    let at = v["at"].as_u64().unwrap();
    let p = v["p"].as_f64().unwrap();
    let calls = Arc::new(AtomicU64::new(0));
    let c = calls.clone();
    let f = AcceptFunc::Custom(Box::new(move |_, _, _, _, _, _, _| {
        if c.fetch_add(1, SeqCst) == at {
            panic!("the user's function panics");
        }
        p
    }));
    let res = guarded(|| {
        interface::run(
            &inst.adj, &inst.order, true, mode.timeout_us.map(Duration::from_micros), mode.nthreads,
            mode.task_bound, Some((f, Some(1))),
        )
        .len()
    });
    println!("{}", json!({"calls": calls.load(SeqCst), "returned": res.is_ok()}));
}

fn panics(ctx: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let dir = files::Scratch::new(&ctx.scratch, "c21");
    let path = dir.path.join("case");
    std::fs::write(&path, v.to_string()).unwrap();
    let mut child = Command::new(std::env::current_exe().unwrap())
        .env("VH_CHILD", &path)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if t.elapsed() > Duration::from_secs(30) {
            child.kill().ok();
            child.wait().ok();
            return Err(Fail::Violation(format!(
                "the run does not end within 30 s after the accept function panicked at call {}", v["at"]
            )));
        }
        thread::sleep(Duration::from_millis(1));
    };
    let mut text = String::new();
    std::io::Read::read_to_string(child.stdout.as_mut().unwrap(), &mut text).ok();
    let at = v["at"].as_u64().unwrap();
    match serde_json::from_str::<Value>(&text) {
        Ok(rep) => {
            let reached = rep["calls"].as_u64().unwrap() > at;
            ensure!(
                !(reached && rep["returned"] == true),
                "the accept function panicked at call {at}, but the run returns normally"
            );
            ensure!(reached || rep["returned"] == true, "a panic without one of the accept function");
            obs.count(if reached { "panics_reported" } else { "panic_not_reached" }, 1);
            if reached {
                let m = Mode::from_json(&v["mode"]);
                obs.count(if m.nthreads < 2 { "panics_single_threaded" } else { "panics_multi_threaded" }, 1);
                obs.distinct("panic_cases", model::fnv(v.to_string().as_bytes()));
            }
        },
        // ended by the panic
        Err(_) => {
            ensure!(!status.success(), "the process ends with success in the run");
            obs.count("panics_aborted", 1);
        },
    }
    Ok(())
}

fn main() {
    if let Ok(path) = std::env::var("VH_CHILD") {
        return panicking(&path);
    }
    let mut run = Runner::new();
    let n = run.ctx().cases(1500, 60_000);
    run.group("runs", n, 0.4, 1, |_, r, i| {
        let mut inst = affordable(r, 2, 8, 30_000, gen::inst);
        let mut m = Mode::random(r, true);
        m.do_search = true;
        m.nthreads = if r.chance(0.1) { 1 } else { *r.pick(&[2, 2, 3, 4, 8, 16]) };
        if i % 4 == 0 {
            // many threads in flight when the timeout strikes
            inst = gen::wide_inst(r, 10, 20);
            m.timeout_us = Some(*r.pick(&[0, 50, 500, 2000, 10_000]));
            m.task_bound = Some(*r.pick(&[3, 20, 60]));
        }
        if r.chance(0.1) {
            m.timeout_us = Some(3_600_000_000);
            inst = affordable(r, 1, 6, 3000, gen::inst);
        }
        let mut v = case(&inst, &m);
        v["plan"] = hooks::Plan::random(r).json();
        if r.chance(0.4) {
            v["chaos_us"] = json!(*r.pick(&[10, 100, 400]));
        }
        v
    }, runs);
    if !quiet() {
        let n = run.ctx().cases(6000, 200_000);
        run.group("stopped", n, 0.3, 1, |_, r, _| {
            let inst = affordable(r, 2, 5, 2000, gen::inst);
            let mut m = Mode::random(r, true);
            m.do_search = true;
            m.nthreads = *r.pick(&[2, 3, 4, 8]);
            m.task_bound = *r.pick(&[None, Some(0), Some(1), Some(2), Some(3), Some(5)]);
            let mut v = case(&inst, &m);
            v["plan"] = hooks::Plan {
                seed: r.next(),
                p_sync: *r.pick(&[0., 0.3, 1.]),
                p_stop: *r.pick(&[0.2, 0.5, 1.]),
                stop_us: *r.pick(&[50, 150, 500]),
                ..hooks::Plan::QUIET
            }
            .json();
            v
        }, runs);
    }
    let n = run.ctx().cases(40, 2000);
    run.group("timers", n, 0.1, 1, |_, r, _| json!({"seed": r.next()}), timers);
    if !quiet() {
        let n = run.ctx().cases(240, 8000);
        run.group("panics", n, 0.3, 8, |_, r, i| {
            let inst = affordable(r, 4, 7, 30_000, gen::wide_inst);
            let m = Mode {
                nthreads: *[1, 2, 3, 4].get(i % 4).unwrap(),
                task_bound: *r.pick(&[None, Some(0), Some(1), Some(4)]),
                timeout_us: r.chance(0.5).then_some(3_600_000_000),
                ..Mode::SEARCH
            };
            let mut v = case(&inst, &m);
            v["at"] = json!(*r.pick(&[0, 0, 1, 5, 30, 200]));
            v["p"] = json!(*r.pick(&[0., 0.5, 1., 1.]));
            v
        }, panics);
    }
    run.finish();
}
