//! C28: runs in one process do not influence one another: what came before, and what goes
//! on at the same time, does not change a result.
use std::{
    process::Command,
    sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
    thread,
    time::Duration,
};

use mbqc_scheduling::{interface, probabilistic::AcceptFunc};
use serde_json::{json, Value};
use vh::{
    ensure, gen,
    model::{self, Inst},
    modes::{affordable, case, pairs, paths_json, Func, Mode},
    rng::Rng,
    run::{calm, guarded, Ctx, Fail, Obs, Runner},
};

/// What is determined about a run.
fn outcome(c: &Value) -> Result<Value, Fail> {
    let inst = Inst::from_json(c);
    let mode = Mode::from_json(&c["mode"]);
    let paths = calm("run", || mode.call(&inst))?;
    Ok(if mode.nthreads >= 2 { json!(pairs(&paths)) } else { paths_json(&paths) })
}

/// A run with no part in the comparison, that ends in whatever way.
fn disturb(r: &mut Rng) -> &'static str {
    let inst = gen::inst(r, 5, 9);
    let big = gen::wide_inst(r, 20, 30);
    match r.below(6) {
        5 => {
            // one that gets far, in few steps and with little memory, before it is cut off
            let n = r.range(12, 18);
            let far = Inst { adj: vec![vec![]; n], order: vec![(0..n).map(|i| (i, vec![])).collect()] };
            let m = Mode { timeout_us: Some(20_000 + r.below(40_000) as u64), nthreads: r.below(3) as u16, ..Mode::SEARCH };
            guarded(|| m.call(&far)).ok();
            "cut"
        },
        0 => {
            let m = Mode { timeout_us: Some(r.below(800) as u64), nthreads: r.below(5) as u16, task_bound: Some(5), ..Mode::SEARCH };
            guarded(|| m.call(&big)).ok();
            "timeout"
        },
        1 => {
            let at = r.below(20) as u64;
            let calls = AtomicU64::new(0);
            let n = r.below(4) as u16;
            guarded(|| {
                interface::run(
                    &inst.adj, &inst.order, true, Some(Duration::from_secs(2)), n, Some(3),
                    Some((
                        AcceptFunc::Custom(Box::new(move |_, _, _, _, _, _, _| {
                            assert!(calls.fetch_add(1, SeqCst) != at, "on purpose");
                            0.9
                        })),
                        None,
                    )),
                )
            })
            .ok();
            "panic"
        },
        2 => {
            let m = Mode { prob: Some((Func::Const(0.3), None)), nthreads: r.below(3) as u16, ..Mode::SEARCH };
            guarded(|| m.call(&inst)).ok();
            "random"
        },
        3 => {
            // a sweep that is left half way
            guarded(|| {
                use mbqc_scheduling::scheduler::{space, time, Scheduler};
                let g = space::GraphBuffer::from_sparse(inst.adj.clone());
                let mut b = time::DependencyBuffer::new(inst.n());
                let p = time::PathGenerator::<time::Partitioner>::from_dependency_graph(&inst.order, &mut b, None);
                let s = Scheduler::new(p, space::Graph::new(g.as_buffer()));
                s.into_iter().take(r.below(30)).count()
            })
            .ok();
            "sweep"
        },
        _ => {
            guarded(|| Mode::GREEDY.call(&inst)).ok();
            "greedy"
        },
    }
}

fn batch(ctx: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let cases = v["cases"].as_array().unwrap();
    let seed = v["seed"].as_u64().unwrap();
    let mut alone = Vec::new();
    for (i, c) in cases.iter().enumerate() {
        let name = ctx.scratch.join(format!("c28-{}-{i}-{:x}", std::process::id(), model::fnv(v.to_string().as_bytes())));
        std::fs::write(&name, serde_json::to_vec(c).unwrap()).unwrap();
        let out = Command::new(std::env::current_exe().unwrap()).env("VH_CHILD", &name).output().unwrap();
        std::fs::remove_file(&name).ok();
        if !out.status.success() {
            return Err(Fail::Inconclusive(format!("child process: {}", out.status)));
        }
        alone.push(serde_json::from_slice::<Value>(&out.stdout).unwrap());
        obs.count("fresh_processes", 1);
    }
    // after others
    let mut r = Rng::new(seed);
    let mut order: Vec<usize> = (0..cases.len()).flat_map(|i| [i, i]).collect();
    r.shuffle(&mut order);
    for i in &order {
        let mut before = "nothing";
        if r.chance(0.5) {
            before = disturb(&mut r);
            obs.count(&format!("after_{before}"), 1);
        }
        let got = outcome(&cases[*i])?;
        ensure!(
            got == alone[*i],
            "after other runs ({before} just before): {got} instead of {} for {}", alone[*i], cases[*i]
        );
        obs.count("runs_after_others", 1);
    }
    // at the same time as others
    let stop = AtomicBool::new(false);
    let disturbances = AtomicU64::new(0);
    let res: Vec<Result<u64, Fail>> = thread::scope(|s| {
        for k in 0..2 {
            let (stop, disturbances) = (&stop, &disturbances);
            s.spawn(move || {
                let mut r = Rng::new(seed ^ (77 + k));
                while !stop.load(SeqCst) {
                    disturb(&mut r);
                    disturbances.fetch_add(1, SeqCst);
                }
            });
        }
        let hands: Vec<_> = (0..4u64)
            .map(|k| {
                let (cases, alone, order) = (&cases, &alone, order.clone());
                s.spawn(move || {
                    let mut order = order;
                    Rng::new(seed ^ k).shuffle(&mut order);
                    for i in &order {
                        let got = outcome(&cases[*i])?;
                        ensure!(
                            got == alone[*i],
                            "at the same time as other runs: {got} instead of {} for {}", alone[*i], cases[*i]
                        );
                    }
                    Ok(order.len() as u64)
                })
            })
            .collect();
        let res = hands.into_iter().map(|h| h.join().unwrap()).collect();
        stop.store(true, SeqCst);
        res
    });
    for x in res {
        obs.count("runs_beside_others", x?);
    }
    obs.count("disturbances_beside", disturbances.into_inner());
    for (c, a) in cases.iter().zip(&alone) {
        if a.as_array().is_some_and(|a| !a.is_empty()) {
            obs.nontrivial(Inst::from_json(c).hash() ^ model::fnv(c["mode"].to_string().as_bytes()));
        }
        obs.count(&format!("cases_{}", Mode::from_json(&c["mode"]).label()), 1);
    }
    obs.sample = Some(json!({"cases": cases.len(), "alone": alone[0]}));
    Ok(())
}

fn main() {
    if let Ok(path) = std::env::var("VH_CHILD") {
        let c: Value = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
        match outcome(&c) {
            Ok(d) => println!("{d}"),
            Err(_) => std::process::exit(1),
        }
        return;
    }
    let mut run = Runner::new();
    let n = run.ctx().cases(40, 2000);
    run.group("batches", n, 1., 4, |_, r, _| {
        // problems of the same shape, so that what is left of one would fit another
        let size = r.range(3, 8);
        let same = gen::inst(r, size, size);
        let cases: Vec<Value> = (0..16)
            .map(|k| {
                let mut inst = match k % 4 {
                    0 => same.clone(),
                    1 => Inst { adj: gen::graph(r, size), order: same.order.clone() },
                    2 => affordable(r, size, size, 60_000, gen::inst),
                    _ => affordable(r, 2, 9, 60_000, gen::wide_inst),
                };
                if model::count_patterns(&inst) > 60_000 {
                    inst = affordable(r, 2, 6, 60_000, gen::inst);
                }
                let mut m = Mode { nthreads: *r.pick(&[0, 1, 1, 1, 2, 3]), ..Mode::SEARCH };
                m.do_search = !r.chance(0.15);
                m.task_bound = *r.pick(&[None, Some(0), Some(3)]);
                if r.chance(0.2) {
                    // never due
                    m.timeout_us = Some(*r.pick(&[120_000_000, 3_600_000_000]));
                }
                if m.nthreads < 2 && r.chance(0.4) {
                    let f = match r.below(3) {
                        0 => Func::Builtin,
                        1 => Func::random(r),
                        _ => Func::Const(*r.pick(&[0.2, 0.5, 0.8])),
                    };
                    m.prob = Some((f, Some(r.next() >> r.below(64))));
                }
                case(&inst, &m)
            })
            .collect();
        json!({"cases": cases, "seed": r.next()})
    }, batch);
    run.finish();
}
