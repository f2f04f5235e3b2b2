//! C20: the timer, watched by any number of threads and dropped at any moment.
use std::{
    sync::{
        atomic::{AtomicBool, Ordering::SeqCst},
        Mutex,
    },
    thread,
    time::{Duration, Instant},
};

use mbqc_scheduling::timer::Timer;
use serde_json::{json, Value};
use vh::{
    modes::{duration, long_timeout},
    chaos, ensure,
    rng::Rng,
    step,
    run::{calm, guarded, Ctx, Fail, Obs, Runner},
};

/// Far above any delay of a loaded machine.
const LATE: Duration = Duration::from_secs(20);

fn maybe_chaos<T>(v: &Value, f: impl FnOnce() -> T) -> T {
    match v["chaos_us"].as_u64() {
        Some(us) => chaos::with_chaos(us as u32, f),
        None => f(),
    }
}

/// Now and then, stop this thread at some instruction of what follows.
fn maybe_stop(r: &mut Rng) {
    if r.chance(0.3) {
        step::arm((2f64).powf(r.unit() * 12.) as u32, *r.pick(&[20, 100, 300]));
    }
}

/// Fires when due, not earlier, and stays so.
fn fires(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let d = Duration::from_micros(v["us"].as_u64().unwrap());
    let pollers = v["pollers"].as_u64().unwrap() as usize;
    let busy = v["busy"] == true;
    let mut timer = calm("Timer::new", Timer::new)?;
    ensure!(!timer.finished(), "finished before it was started");
    let seed = v["seed"].as_u64().unwrap();
    thread::sleep(Duration::from_micros(v["wait_us"].as_u64().unwrap()));
    ensure!(!timer.finished(), "finished before it was started");
    let problems: Mutex<Vec<String>> = Mutex::new(Vec::new());
    let polls = std::sync::atomic::AtomicU64::new(0);
    let before = Instant::now();
    calm("Timer::start", || timer.start(d))?;
    let t = &timer;
    let latest = Mutex::new(Duration::ZERO);
    maybe_chaos(v, || {
        thread::scope(|s| {
            for i in 0..pollers {
                let (problems, polls, latest) = (&problems, &polls, &latest);
                s.spawn(move || {
                    let mut r = Rng::new(seed ^ i as u64);
                    let mut k = 0;
                    loop {
                        let asked = Instant::now();
                        let now = t.finished();
                        // asked before this
                        let at = Instant::now() - before;
                        k += 1;
                        if now {
                            if at < d {
                                problems.lock().unwrap().push(format!("finished after {at:?} of {d:?}"));
                            }
                            let mut l = latest.lock().unwrap();
                            *l = (*l).max(at.saturating_sub(d));
                            break;
                        }
                        if asked - before > d + LATE {
                            problems.lock().unwrap().push(format!("not finished {:?} after its {d:?}", asked - before - d));
                            return;
                        }
                        if !busy {
                            thread::sleep(Duration::from_micros(r.below(300) as u64));
                        }
                    }
                    // it stays finished
                    for _ in 0..50 {
                        k += 1;
                        if !t.finished() {
                            problems.lock().unwrap().push("no longer finished".into());
                            return;
                        }
                        if r.chance(0.1) {
                            thread::sleep(Duration::from_micros(50));
                        }
                    }
                    polls.fetch_add(k, SeqCst);
                });
            }
        })
    });
    if let Some(p) = problems.into_inner().unwrap().pop() {
        return Err(Fail::Violation(p));
    }
    let dropping = Instant::now();
    calm("dropping a finished timer", move || drop(timer))?;
    ensure!(dropping.elapsed() < LATE, "dropping a finished timer takes {:?}", dropping.elapsed());
    obs.count("polls", polls.load(SeqCst));
    obs.count("timers_fired", 1);
    obs.max("latest_notice_us", latest.into_inner().unwrap().as_micros() as u64);
    obs.nontrivial(seed);
    obs.sample = Some(json!({"us": d.as_micros() as u64, "pollers": pollers}));
    Ok(())
}

/// Dropped long before it is due, at some moment.
fn dropped(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let ds = [Duration::from_secs(3600), Duration::MAX, Duration::from_secs(u64::MAX), Duration::from_secs(1 << 40)];
    let mut r = Rng::new(v["seed"].as_u64().unwrap());
    let reps = v["reps"].as_u64().unwrap();
    maybe_chaos(v, || {
        for _ in 0..reps {
            let d = if r.chance(0.5) {
                duration(long_timeout(&mut r)).saturating_add(Duration::from_nanos(r.below(2) as u64))
            } else {
                *r.pick(&ds)
            };
            let mut timer = Timer::new();
            let started = r.chance(0.95);
            if started {
                maybe_stop(&mut r);
                calm("Timer::start", || timer.start(d))?;
                if r.chance(0.5) {
                    step::disarm();
                }
            }
            let pollers = if r.chance(0.1) { r.range(1, 6) } else { 0 };
            let early = AtomicBool::new(false);
            let pause = match r.below(4) {
                0 => 0,
                1 => r.below(30),
                2 => r.below(200),
                _ => r.below(1500),
            };
            let t = &timer;
            let body = || {
                if pause > 30 {
                    thread::sleep(Duration::from_micros(pause as u64));
                } else {
                    let s = Instant::now();
                    while s.elapsed() < Duration::from_micros(pause as u64) {}
                }
            };
            if pollers == 0 {
                body();
            } else {
                thread::scope(|s| {
                    for _ in 0..pollers {
                        let early = &early;
                        s.spawn(move || {
                            for _ in 0..100 {
                                if t.finished() {
                                    early.store(true, SeqCst);
                                }
                            }
                        });
                    }
                    body();
                });
            }
            ensure!(!timer.finished() && !early.load(SeqCst), "finished after {pause} µs of {d:?} (started: {started})");
            let at = Instant::now();
            maybe_stop(&mut r);
            if let Err(p) = guarded(move || drop(timer)) {
                return Err(Fail::Violation(format!("dropping panicked: {p}")));
            }
            step::disarm();
            let took = at.elapsed();
            ensure!(took < LATE, "dropping a timer with most of {d:?} left takes {took:?}");
            obs.count("dropped_before_due", 1);
            obs.max("longest_drop_us", took.as_micros() as u64);
        }
        Ok(())
    })?;
    obs.max("stops_at_instructions", step::pauses());
    obs.distinct("drop_histories", v["seed"].as_u64().unwrap());
    Ok(())
}

/// Dropped around the moment it is due.
fn close(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let mut r = Rng::new(v["seed"].as_u64().unwrap());
    maybe_chaos(v, || {
        for _ in 0..v["reps"].as_u64().unwrap() {
            let d = Duration::from_micros(r.below(200) as u64);
            let mut timer = Timer::new();
            let before = Instant::now();
            maybe_stop(&mut r);
            calm("Timer::start", || timer.start(d))?;
            step::disarm();
            let stop = Duration::from_micros(r.below(300) as u64);
            let mut fired = false;
            while before.elapsed() < stop {
                let f = timer.finished();
                let at = before.elapsed();
                ensure!(!f || at >= d, "finished after {at:?} of {d:?}");
                ensure!(f || !fired, "no longer finished");
                fired |= f;
            }
            let at = Instant::now();
            maybe_stop(&mut r);
            if let Err(p) = guarded(move || drop(timer)) {
                return Err(Fail::Violation(format!("dropping panicked: {p}")));
            }
            step::disarm();
            ensure!(at.elapsed() < LATE, "dropping takes {:?}", at.elapsed());
            obs.count("dropped_when_due", 1);
            obs.count("of_these_fired", fired as u64);
        }
        Ok(())
    })
}

/// Never started: never finished.
fn idle(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let timer = if v["default"] == true { Timer::default() } else { Timer::new() };
    for _ in 0..20 {
        ensure!(!timer.finished(), "finished without having been started");
        thread::sleep(Duration::from_millis(1));
    }
    calm("dropping", move || drop(timer))?;
    obs.count("never_started", 1);
    Ok(())
}

fn main() {
    step::install();
    let mut run = Runner::new();
    let n = run.ctx().cases(6000, 100_000);
    run.group("fires", n, 0.4, 8, |_, r, _| {
        let mut v = json!({
            "us": *r.pick(&[0, 1, 50, 500, 2000, 2000, 10_000, 30_000]) + r.below(100),
            "pollers": *r.pick(&[1, 1, 2, 4, 9]),
            "busy": r.chance(0.3), "wait_us": *r.pick(&[0, 0, 100, 3000]), "seed": r.next(),
        });
        if r.chance(0.2) {
            v["chaos_us"] = json!(*r.pick(&[20, 300]));
        }
        v
    }, fires);
    let n = run.ctx().cases(400, 20_000);
    run.group("dropped", n, 0.35, 8, |_, r, i| {
        let mut v = json!({"reps": 50, "seed": r.next()});
        if i % 4 == 3 {
            v["chaos_us"] = json!(*r.pick(&[20, 200]));
        }
        v
    }, dropped);
    let n = run.ctx().cases(200, 10_000);
    run.group("close", n, 0.2, 6, |_, r, i| {
        let mut v = json!({"reps": 50, "seed": r.next()});
        if i % 4 == 3 {
            v["chaos_us"] = json!(*r.pick(&[20, 200]));
        }
        v
    }, close);
    run.group("idle", 16, 0.05, 8, |_, _, i| json!({"i": i, "default": i % 2 == 0}), idle);
    run.finish();
}
