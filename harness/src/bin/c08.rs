//! C08: no pattern a search has reached is lost. Monitors the patterns reported at the
//! observation point and the minimal memory told to the accept function, against the
//! returned paths, for every mode and every ending.
use std::sync::{
    atomic::{AtomicU64, Ordering::SeqCst},
    Arc,
};
use std::time::Duration;

use mbqc_scheduling::{
    interface::{self, Path},
    probabilistic::AcceptFunc,
};
use serde_json::{json, Value};
use vh::{
    chaos, ensure, gen,
    hooks::{self, Event, Plan},
    model::{self, Inst},
    modes::{affordable, case, pairs, Func, Mode},
    run::{calm, Ctx, Fail, Obs, Runner},
};

fn call(inst: &Inst, mode: &Mode, least: &Arc<AtomicU64>) -> Vec<Path> {
    let prob = mode.prob.as_ref().map(|(f, seed)| {
        let f = f.build().get_accept_func();
        let least = least.clone();
        let wrapped = move |a: f64, min: f64, c: f64, d: f64, e: f64, g: f64, h: f64| {
            if min < 1e15 {
                least.fetch_min(min as u64, SeqCst);
            }
            if a < 1e15 {
                least.fetch_min(a as u64, SeqCst);
            }
            f(a, min, c, d, e, g, h)
        };
        (AcceptFunc::Custom(Box::new(wrapped)), *seed)
    });
    interface::run(
        &inst.adj,
        &inst.order,
        mode.do_search,
        mode.timeout_us.map(Duration::from_micros),
        mode.nthreads,
        mode.task_bound,
        prob,
    )
}

fn judge(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let plan = Plan::from_json(&v["plan"]);
    let chaos_us = v["chaos_us"].as_u64().unwrap() as u32;
    for round in 0..v["rounds"].as_u64().unwrap() {
        let least = Arc::new(AtomicU64::new(u64::MAX));
        let plan = Plan { seed: plan.seed.wrapping_add(round), ..plan };
        let (paths, found) = calm("run", || {
            if mode.nthreads < 2 {
                hooks::local(|| call(&inst, &mode, &least))
            } else {
                let (p, log) = hooks::planned(plan, || {
                    if chaos_us > 0 {
                        chaos::with_chaos(chaos_us, || call(&inst, &mode, &least))
                    } else {
                        call(&inst, &mode, &least)
                    }
                });
                let found = log.into_iter().filter_map(|e| match e {
                    Event::Found { time, space, .. } => Some((time, space)),
                    _ => None,
                });
                (p, found.collect())
            }
        })?;
        let got = pairs(&paths);
        let label = mode.label();
        for &(t, s) in &found {
            ensure!(
                got.iter().any(|&(gt, gs)| gt <= t && gs <= s),
                "{label}: a pattern with time {t} and space {s} was found, but only {got:?} returned"
            );
        }
        let least = least.load(SeqCst);
        if least != u64::MAX {
            obs.count("least_memory_told", 1);
            ensure!(
                got.iter().any(|&(_, gs)| gs as u64 <= least),
                "{label}: the accept function was told that memory {least} had been found, but only \
                 {got:?} returned"
            );
        }
        obs.count("runs", 1);
        obs.count(&format!("runs_{label}"), 1);
        obs.count("patterns_found", found.len() as u64);
        // how the run ended
        if mode.do_search && found.len() >= 2 {
            obs.nontrivial(
                inst.hash() ^ model::fnv(format!("{found:?}{}", mode.json()).as_bytes()),
            );
            obs.sample = Some(json!({"found": found, "returned": got}));
        }
    }
    Ok(())
}

fn main() {
    let mut run = Runner::new();
    let wrap = |r: &mut vh::rng::Rng, inst: &Inst, mode: &Mode, rounds: u64, chaos: bool| {
        let mut v = case(inst, mode);
        v["plan"] = Plan::random(r).json();
        v["chaos_us"] = json!(if chaos { *r.pick(&[20, 150]) } else { 0 });
        v["rounds"] = json!(rounds);
        v
    };
    let n = run.ctx().cases(1500, 60_000);
    run.group("threaded", n, 0.4, 1, |_, r, i| {
        let inst = affordable(r, 4, 8, 20_000, if i % 3 == 0 { gen::inst } else { gen::wide_inst });
        let mut m = Mode::random(r, true);
        m.do_search = true;
        m.nthreads = *r.pick(&[2, 3, 4, 8]);
        if i % 4 == 0 {
            m.prob = None;
        }
        wrap(r, &inst, &m, 4, i % 5 == 0)
    }, judge);
    let n = run.ctx().cases(300, 12_000);
    run.group("threaded_cut_short", n, 0.25, 1, |_, r, _| {
        let inst = gen::wide_inst(r, 9, 16);
        let mut m = Mode::random(r, false);
        m.do_search = true;
        m.nthreads = *r.pick(&[2, 3, 4, 8]);
        wrap(r, &inst, &m, 2, false)
    }, judge);
    let n = run.ctx().cases(200, 10_000);
    run.group("long", n, 0.1, 1, |_, r, _| {
        let hi = *r.pick(&[20, 40, 70, 128]);
        let inst = gen::long_inst(r, 11, hi, 3000);
        let mut m = Mode::random(r, true);
        m.do_search = true;
        m.nthreads = *r.pick(&[1, 2, 4]);
        wrap(r, &inst, &m, 2, false)
    }, judge);
    // many trade-offs
    let n = run.ctx().cases(200, 10_000);
    run.group("fronts", n, 0.1, 1, |_, r, i| {
        let hi = r.range(10, 30);
        let inst = gen::tradeoff_inst(r, hi, 20_000);
        let mut m = Mode::random(r, true);
        m.do_search = true;
        m.nthreads = *r.pick(&[1, 2, 4]);
        if i % 2 == 0 {
            m.prob = None;
        }
        wrap(r, &inst, &m, 2, false)
    }, judge);
    // single-threaded: events are noted per thread, so cases can run side by side
    let n = run.ctx().cases(3000, 120_000);
    run.group("single", n, 0.25, 8, |_, r, i| {
        let small = i % 3 != 0;
        let inst =
            if small { affordable(r, 4, 9, 50_000, gen::wide_inst) } else { gen::wide_inst(r, 9, 18) };
        let mut m = Mode::random(r, small);
        m.do_search = true;
        m.nthreads = 1;
        if let Some((Func::Const(p), _)) = &mut m.prob {
            *p = p.max(0.3);
        }
        wrap(r, &inst, &m, 1, false)
    }, judge);
    run.finish();
}
