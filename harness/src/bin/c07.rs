//! C07: an expired timeout ends the search within a bounded amount of work; a run that
//! returns before its timeout has passed is complete.
use std::{
    sync::{
        atomic::{AtomicU64, Ordering::SeqCst},
        Arc,
    },
    thread,
    time::{Duration, Instant},
};

use mbqc_scheduling::{interface, probabilistic::AcceptFunc};
use serde_json::{json, Value};
use vh::{
    ensure, gen,
    model::{self, Inst},
    modes::{duration, long_timeout, affordable, case, pairs, Func, Mode},
    run::{calm, violated, Ctx, Fail, Obs, Runner},
};

/// A problem whose complete search takes very long, but that has only few first steps.
fn endless(r: &mut vh::rng::Rng) -> Inst {
    let chains = r.range(3, 5);
    let n = r.range(24, 40);
    let mut adj = vec![Vec::new(); n];
    for i in 0..n {
        for j in i + 1..n {
            if r.chance(0.12) {
                adj[i].push(j);
                adj[j].push(i);
            }
        }
    }
    let deps: Vec<(usize, Vec<usize>)> = (0..n)
        .map(|i| (i, if i >= chains { vec![i - chains] } else { vec![] }))
        .collect();
    Inst { adj, order: gen::layer(r, &deps) }
}

/// Independent nodes: very many first steps.
fn wide(r: &mut vh::rng::Rng) -> Inst {
    let n = r.range(26, 34);
    let mut adj = vec![Vec::new(); n];
    for i in 0..n {
        for j in i + 1..n {
            if r.chance(0.1) {
                adj[i].push(j);
                adj[j].push(i);
            }
        }
    }
    Inst { adj, order: vec![(0..n).map(|i| (i, vec![])).collect()] }
}

/// Runs `f` in a thread of its own; gives up on it when `stop` says so.
fn watched<T: Send + 'static>(
    f: impl FnOnce() -> T + Send + 'static,
    mut stop: impl FnMut() -> Option<String>,
) -> Result<T, Fail> {
    let h = thread::spawn(move || calm("run", f));
    let t = Instant::now();
    while !h.is_finished() {
        if let Some(why) = stop() {
            if !h.is_finished() {
                return violated(why);
            }
        }
        // close to the end of short runs, not busy in long ones
        thread::sleep((t.elapsed() / 50).clamp(Duration::from_micros(20), Duration::from_millis(5)));
    }
    h.join().unwrap()
}

struct Probe {
    start: Instant,
    expiry: Duration,
    /// Calls that started clearly after the expiry.
    late: AtomicU64,
    calls: AtomicU64,
}

const GRACE: Duration = Duration::from_millis(300);
const INTERVAL: u64 = 1000;
/// Far more than the work that is left after the expiry, on any machine.
const LATE: Duration = Duration::from_secs(6);

/// One attempt; Ok(None) when the search ended by itself before the timeout.
fn attempt(inst: &Inst, mode: &Mode, answer: f64) -> Result<Option<(u64, u64, f64)>, Fail> {
    let expiry = duration(mode.timeout_us.unwrap());
    let threads = mode.nthreads.max(1) as u64;
    let threaded = mode.nthreads >= 2;
    let probe = Arc::new(Probe {
        start: Instant::now(),
        expiry,
        late: AtomicU64::new(0),
        calls: AtomicU64::new(0),
    });
    // allowed late calls
    let tasks = mode.task_bound.unwrap_or(0) as u64 + 1;
    let allowed = if threaded { INTERVAL * tasks } else { 10 };
    let p = probe.clone();
    let accept = move |_: f64, _: f64, _: f64, _: f64, _: f64, _: f64, _: f64| {
        p.calls.fetch_add(1, SeqCst);
        let now = p.start.elapsed();
        if now > p.expiry + GRACE {
            let late = p.late.fetch_add(1, SeqCst) + 1;
            if !threaded {
                // do not hold up the others once enough was seen
                thread::sleep(Duration::from_millis(if late > 100 { 1000 } else { 50 }));
            } else if late > allowed + 100_000 {
                thread::sleep(Duration::from_millis(100));
            }
        } else if now > p.expiry {
            // wait until the expiry has certainly become visible
            thread::sleep(p.expiry + GRACE - now);
        }
        answer
    };
    let (i, m) = (inst.clone(), mode.clone());
    let p = probe.clone();
    let paths = watched(
        move || {
            interface::run(
                &i.adj,
                &i.order,
                true,
                Some(expiry),
                m.nthreads,
                m.task_bound,
                Some((AcceptFunc::Custom(Box::new(accept)), Some(1))),
            )
        },
        move || {
            let late = p.late.load(SeqCst);
            if p.start.elapsed() > expiry + GRACE + 2 * LATE {
                return Some(format!("not yet returned {:?} after a timeout of {expiry:?}", 2 * LATE));
            }
            (late > allowed + 50 * threads).then(|| {
                format!(
                    "still going on after {late} accept calls that started more than {GRACE:?} after \
                     the timeout of {expiry:?} (allowed: {allowed}; {threads} threads, {tasks} tasks)"
                )
            })
        },
    )?;
    let took = probe.start.elapsed();
    for path in &paths {
        model::check_pattern(inst, &path.steps).map_err(Fail::Violation)?;
    }
    if took < expiry {
        return Ok(None);
    }
    let late = probe.late.load(SeqCst);
    if late > allowed {
        return violated(format!(
            "{late} accept calls started more than {GRACE:?} after the timeout of {expiry:?} \
             (allowed: {allowed}; {threads} threads, {tasks} tasks)"
        ));
    }
    Ok(Some((probe.calls.load(SeqCst), late, took.as_secs_f64())))
}

/// Timing verdicts are repeated: an overloaded machine does not make a violation.
fn thrice<T>(mut f: impl FnMut() -> Result<T, Fail>) -> Result<T, Fail> {
    let mut last = f();
    for i in 0..2 {
        match last {
            Err(Fail::Violation(_)) => {
                thread::sleep(Duration::from_millis(200 * (i + 1)));
                last = f();
            },
            other => return other,
        }
    }
    last
}

fn counted(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let answer = v["answer"].as_f64().unwrap();
    match thrice(|| attempt(&inst, &mode, answer))? {
        None => obs.count("ended_before_timeout", 1),
        Some((calls, late, took)) => {
            obs.count("expired_runs", 1);
            obs.count("expired_runs_rejecting", (answer == 0.) as u64);
            obs.count("accept_calls", calls);
            obs.count("late_accept_calls", late);
            obs.max("late_accept_calls", late);
            obs.nontrivial(inst.hash() ^ model::fnv(mode.json().to_string().as_bytes()));
            obs.sample = Some(json!({"accept_calls": calls, "late": late, "took_s": took}));
        },
    }
    Ok(())
}

/// The deterministic search on a problem that never ends has to return soon after the
/// timeout, and not before it.
fn plain(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let timeout = duration(mode.timeout_us.unwrap());
    let took = thrice(|| {
        let t = Instant::now();
        let (i, m) = (inst.clone(), mode.clone());
        let paths = watched(
            move || m.call(&i),
            || {
                (t.elapsed() > timeout + LATE)
                    .then(|| format!("not yet returned {LATE:?} after a timeout of {timeout:?}"))
            },
        )?;
        let took = t.elapsed();
        for path in &paths {
            model::check_pattern(&inst, &path.steps).map_err(Fail::Violation)?;
        }
        if inst.order.len() == 1 && mode.prob.is_none() {
            ensure!(took >= timeout, "ended after {took:?}, before the timeout of {timeout:?} and before \
                 all of the at least 2^26 first steps were looked at");
        }
        Ok(took)
    })?;
    obs.count("plain_expired_runs", 1);
    obs.max("plain_overrun_us", took.saturating_sub(timeout).as_micros() as u64);
    obs.nontrivial(inst.hash() ^ model::fnv(mode.json().to_string().as_bytes()));
    Ok(())
}

/// Returned before the timeout had passed: then the result has to be complete.
fn complete(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let Some(want) = model::front(&inst, 20_000_000) else {
        return Err(Fail::Inconclusive("too many patterns for the oracle".into()));
    };
    let timeout = duration(mode.timeout_us.unwrap());
    let t = Instant::now();
    let paths = calm("run", || mode.call(&inst))?;
    let took = t.elapsed();
    let got = pairs(&paths);
    if took < timeout {
        ensure!(
            got == want,
            "returned after {took:?}, before the timeout of {timeout:?}, with {got:?}, but the Pareto \
             front is {want:?}"
        );
        obs.count("returned_before_timeout", 1);
        if mode.timeout_us.unwrap() < 1_000_000 {
            obs.count("returned_before_short_timeout", 1);
        }
    } else {
        ensure!(timeout < Duration::from_secs(600), "waited for the timeout");
        obs.count("returned_after_timeout", 1);
        obs.count("returned_after_timeout_incomplete", (got != want) as u64);
    }
    if want.len() >= 2 {
        obs.nontrivial(inst.hash() ^ model::fnv(mode.json().to_string().as_bytes()));
        obs.sample = Some(json!({"took_us": took.as_micros() as u64, "front": want, "got": got}));
    }
    Ok(())
}

fn main() {
    let mut run = Runner::new();
    let n = run.ctx().cases(64, 1500);
    run.group("counted", n, 0.3, 16, |_, r, i| {
        let inst = if i % 4 < 2 { endless(r) } else { wide(r) };
        let mut m = Mode::SEARCH;
        m.timeout_us = Some(*r.pick(&[0, 300, 1000, 20_000, 60_000]));
        m.nthreads = if i % 2 == 0 { r.below(2) as u16 } else { *r.pick(&[2, 3, 4]) };
        m.task_bound = Some(r.below(4) as u32);
        let mut c = case(&inst, &m);
        // whatever is rejected, the search of the wide ones does not end
        c["answer"] = json!(if i % 4 < 2 { 1. } else { *r.pick(&[0., 0., 0.5, 1.]) });
        c
    }, counted);
    let n = run.ctx().cases(60, 1500);
    run.group("plain", n, 0.2, 4, |_, r, _| {
        let inst = if r.chance(0.6) { endless(r) } else { wide(r) };
        let mut m = Mode::SEARCH;
        m.timeout_us = Some(*r.pick(&[0, 1, 300, 1000, 20_000, 100_000]));
        m.nthreads = *r.pick(&[0, 1, 2, 4]);
        m.task_bound = *r.pick(&[None, Some(0), Some(2), Some(20)]);
        // may be pruned so heavily, or rejected, that nothing is found
        if r.chance(0.3) {
            m.prob = Some((Func::Const(*r.pick(&[0., 0.001, 1.])), Some(r.next())));
        }
        case(&inst, &m)
    }, plain);
    let n = run.ctx().cases(4000, 200_000);
    run.group("complete", n, 0.35, 8, |_, r, i| {
        let inst = affordable(r, 4, 9, 200_000, if i % 3 == 0 { gen::inst } else { gen::wide_inst });
        let mut m = Mode::SEARCH;
        m.timeout_us = Some(if i % 4 == 0 {
            long_timeout(r)
        } else {
            *r.pick(&[50, 200, 1000, 5000, 20_000, 500_000])
        });
        m.nthreads = *r.pick(&[0, 1, 1, 2, 3, 8]);
        m.task_bound = *r.pick(&[None, Some(0), Some(3)]);
        case(&inst, &m)
    }, complete);
    // longer searches that cross many synchronisation intervals before the timeout
    let n = run.ctx().cases(60, 3000);
    run.group("complete_long", n, 0.15, 4, |_, r, _| {
        let inst = affordable(r, 9, 10, 10_000_000, gen::wide_inst);
        let mut m = Mode::SEARCH;
        m.timeout_us = Some(long_timeout(r));
        m.nthreads = *r.pick(&[1, 2, 4]);
        m.task_bound = *r.pick(&[None, Some(1), Some(8)]);
        case(&inst, &m)
    }, complete);
    run.finish();
}
