//! C11: accept decisions control the search: always, never, as decided, and with the given
//! probability in between.
use std::collections::HashMap;
use std::sync::{
    atomic::{AtomicU64, Ordering::SeqCst},
    Arc, Mutex,
};

use mbqc_scheduling::{interface, probabilistic::AcceptFunc};
use serde_json::{json, Value};
use vh::{
    ensure, gen,
    model::{self, Inst},
    modes::{affordable, case, hash_accept, pairs, Func, Mode},
    stat::within,
    run::{calm, Ctx, Fail, Obs, Runner},
    sim,
};

/// Accepting with probability 1 or more: the exhaustive search.
fn always(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let Some(want) = model::front(&inst, 20_000_000) else {
        return Err(Fail::Inconclusive("too many patterns for the oracle".into()));
    };
    let got = pairs(&calm("run", || mode.call(&inst))?);
    ensure!(got == want, "accepting always gives {got:?}, the exhaustive search {want:?}");
    obs.count("always_runs", 1);
    if want.len() >= 2 {
        obs.nontrivial(inst.hash() ^ model::fnv(mode.json().to_string().as_bytes()));
    }
    Ok(())
}

/// Rejecting everything: no path.
fn never(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let paths = calm("run", || mode.call(&inst))?;
    ensure!(paths.is_empty(), "rejecting everything still returns {paths:?}");
    obs.count("never_runs", 1);
    Ok(())
}

/// Decisions of a pure function: the result is that of the restated search.
fn decided(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let Some((Func::Hash { salt, p }, _)) = mode.prob else { panic!("case") };
    let rejected = std::cell::Cell::new(0u64);
    let Some(want) = sim::search(&inst, 3_000_000, |a| {
        let ok = hash_accept(salt, p, sim::to_f64(a)) >= 1.;
        rejected.set(rejected.get() + !ok as u64);
        ok
    }) else {
        return Err(Fail::Inconclusive("too long for the restated search".into()));
    };
    let paths = calm("run", || mode.call(&inst))?;
    let got = pairs(&paths);
    ensure!(
        got == want.front(),
        "with these decisions the search reaches {:?}, but {got:?} is returned", want.front()
    );
    obs.count("decided_runs", 1);
    obs.count("rejected_steps", rejected.get());
    if rejected.get() > 0 && !got.is_empty() {
        obs.nontrivial(inst.hash() ^ salt);
        obs.sample = Some(json!({"rejected_steps": rejected.get(), "returned": got}));
    }
    Ok(())
}

/// On a chain every accepted step leads to exactly one more decision.
fn chain(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let p = v["p"].as_f64().unwrap();
    let n = v["nodes"].as_u64().unwrap() as usize;
    let runs = v["runs"].as_u64().unwrap();
    let seed = v["seed"].as_u64();
    let nthreads = v["nthreads"].as_u64().unwrap() as u16;
    let inst = Inst {
        adj: vec![Vec::new(); n],
        order: (0..n).map(|i| vec![(i, if i > 0 { vec![i - 1] } else { vec![] })]).collect(),
    };
    // decisions and acceptances by position in the chain
    let mut asked = vec![0u64; n + 1];
    for run in 0..runs {
        let calls = Arc::new(Mutex::new(Vec::new()));
        let c = calls.clone();
        let f = move |_: f64, _: f64, _: f64, _: f64, _: f64, rest: f64, _: f64| {
            c.lock().unwrap().push(rest as usize);
            p
        };
        let paths = calm("run", || {
            interface::run(
                &inst.adj, &inst.order, true, None, nthreads, None,
                Some((AcceptFunc::Custom(Box::new(f)), seed.map(|s| s.wrapping_add(run * 0x1234_5678_9abc)))),
            )
        })?;
        for rest in calls.lock().unwrap().iter() {
            asked[n - 1 - rest] += 1;
        }
        asked[n] += !paths.is_empty() as u64;
    }
    let first = if nthreads >= 2 { 1 } else { 0 };
    ensure!(asked[first] == runs, "{} decisions about the first step in {runs} runs", asked[first]);
    for i in first..n {
        let (a, b) = (asked[i], asked[i + 1]);
        ensure!(
            within(b, a, p),
            "step {i} was accepted in {b} of {a} cases (probability {p}, seed {seed:?}, {nthreads} threads)"
        );
        obs.count("frequency_tests", 1);
        obs.count("decisions", a);
    }
    obs.nontrivial(model::fnv(v.to_string().as_bytes()));
    Ok(())
}

/// Siblings: among the first steps of one run, the given share is accepted. A first step
/// is seen to be accepted when a decision below it follows.
fn siblings(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let p = v["p"].as_f64().unwrap();
    let n = v["nodes"].as_u64().unwrap() as usize;
    let inst = Inst {
        adj: vec![Vec::new(); n],
        order: vec![(0..n).map(|i| (i, vec![])).collect()],
    };
    let first = Arc::new(AtomicU64::new(0));
    let taken = Arc::new(AtomicU64::new(0));
    let state = Arc::new(AtomicU64::new(0));
    let (a, b, s) = (first.clone(), taken.clone(), state.clone());
    let f = move |_: f64, _: f64, last_max: f64, _: f64, _: f64, rest: f64, _: f64| {
        if last_max == 0. {
            s.store(0, SeqCst);
            if rest == 0. {
                return 0.; // the one step that measures everything
            }
            a.fetch_add(1, SeqCst);
            p
        } else {
            if s.swap(1, SeqCst) == 0 {
                b.fetch_add(1, SeqCst);
            }
            0.
        }
    };
    let paths = calm("run", || {
        interface::run(
            &inst.adj, &inst.order, true, None, 1, None,
            Some((AcceptFunc::Custom(Box::new(f)), v["seed"].as_u64())),
        )
    })?;
    ensure!(paths.is_empty(), "every pattern was rejected, but {paths:?} is returned");
    let (a, b) = (first.load(SeqCst), taken.load(SeqCst));
    ensure!(a == (1 << n) - 2, "{a} decisions about first steps instead of {}", (1 << n) - 2);
    ensure!(within(b, a, p), "{b} of {a} first steps accepted with probability {p}");
    obs.count("frequency_tests", 1);
    obs.count("decisions", a);
    obs.nontrivial(model::fnv(v.to_string().as_bytes()));
    Ok(())
}

/// Tasks of one multi-threaded run: after measuring one of two free nodes, a chain of steps is
/// tried. How far the tasks get has to be as independent as their decisions.
fn tasks(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let p = v["p"].as_f64().unwrap();
    let c = v["chain"].as_u64().unwrap() as usize;
    let runs = v["runs"].as_u64().unwrap();
    let seed = v["seed"].as_u64();
    let mut order = vec![vec![(0, vec![]), (1, vec![])]];
    for i in 2..c + 2 {
        order.push(vec![(i, if i == 2 { vec![0, 1] } else { vec![i - 1] })]);
    }
    let inst = Inst { adj: vec![Vec::new(); c + 2], order };
    let (mut same, mut n) = (0, 0);
    // how far two tasks of consecutive runs get
    let (mut same_next, mut n_next, mut last) = (0, 0, Vec::new());
    for run in 0..runs {
        let tried = Arc::new(Mutex::new(HashMap::<_, Vec<usize>>::new()));
        let t = tried.clone();
        let f = move |_: f64, _: f64, last_max: f64, _: f64, _: f64, rest: f64, _: f64| {
            // 1: a single node was measured in every step so far (there are no edges); a run
            // never completes a path, so that nothing is pruned
            if last_max != 1. || rest == 0. {
                return 0.;
            }
            let mut t = t.lock().unwrap();
            let t = t.entry(std::thread::current().id()).or_default();
            if rest == c as f64 {
                t.push(0);
            } else if let Some(k) = t.last_mut() {
                *k += 1;
            }
            p
        };
        let paths = calm("run", || {
            interface::run(
                &inst.adj, &inst.order, true, None, v["nthreads"].as_u64().unwrap() as u16,
                v["task_bound"].as_u64().map(|b| b as u32),
                Some((AcceptFunc::Custom(Box::new(f)), seed.map(|s| s.wrapping_add(run)))),
            )
        })?;
        ensure!(paths.is_empty(), "every pattern was rejected, but {paths:?} is returned");
        let mut k: Vec<usize> = tried.lock().unwrap().values().flatten().copied().collect();
        ensure!(k.len() == 2, "{} tasks that measure one node first, instead of 2", k.len());
        same += (k[0] == k[1]) as u64;
        n += 1;
        k.sort();
        if !last.is_empty() {
            n_next += 1;
            same_next += (k == last) as u64;
        }
        last = k;
    }
    // number of steps tried: accepted with probability p each, the last one is never reached
    let at = |k: usize| if k + 1 < c { p.powi(k as i32) * (1. - p) } else { p.powi(k as i32) };
    let equal: f64 = (0..c).map(|k| at(k).powi(2)).sum();
    ensure!(
        within(same, n, equal),
        "two tasks of one run get equally far in {same} of {n} runs (expected: a share of {equal:.3})"
    );
    // pairs of one run and pairs of the next one
    let pairs: f64 = (0..c)
        .flat_map(|a| (a..c).map(move |b| (a, b)))
        .map(|(a, b)| (at(a) * at(b) * if a == b { 1. } else { 2. }).powi(2))
        .sum();
    // (those are not quite independent of one another: twice as many as they count for)
    ensure!(
        within(same_next / 2, n_next / 2, pairs.max(1e-3)) || (same_next as f64) < pairs * n_next as f64,
        "two runs with different seeds get equally far in {same_next} of {n_next} cases (expected: a \
         share of {pairs:.3})"
    );
    obs.count("frequency_tests", 2);
    obs.count("task_pairs", n);
    obs.nontrivial(model::fnv(v.to_string().as_bytes()));
    Ok(())
}

fn main() {
    let mut run = Runner::new();
    let n = run.ctx().cases(2500, 100_000);
    run.group("always", n, 0.2, 4, |_, r, i| {
        let inst = affordable(r, 3, 8, 50_000, if i % 2 == 0 { gen::inst } else { gen::wide_inst });
        let mut m = Mode::threaded(*r.pick(&[0, 1, 1, 2, 4]), *r.pick(&[None, Some(0), Some(4)]));
        let p = *r.pick(&[1., 1.0000001, 2., 1e300]);
        m.prob = Some((Func::Const(p), r.chance(0.5).then(|| r.next())));
        case(&inst, &m)
    }, always);
    let n = run.ctx().cases(2000, 50_000);
    run.group("never", n, 0.1, 8, |_, r, _| {
        let inst = affordable(r, 1, 9, 100_000, gen::inst);
        let mut m = Mode { nthreads: r.below(2) as u16, ..Mode::SEARCH };
        m.prob = Some((Func::Const(*r.pick(&[0., -0.0, 1e-300, -1e-300, -0.3, -1., -1e300])), r.chance(0.5).then(|| r.next())));
        case(&inst, &m)
    }, never);
    let n = run.ctx().cases(6000, 200_000);
    run.group("decided", n, 0.25, 8, |_, r, i| {
        let inst = affordable(r, 3, 9, 50_000, if i % 3 == 0 { gen::inst } else { gen::wide_inst });
        let mut m = Mode { nthreads: r.below(2) as u16, ..Mode::SEARCH };
        let p = *r.pick(&[0.4, 0.7, 0.9]);
        m.prob = Some((Func::Hash { salt: r.next(), p }, r.chance(0.5).then(|| r.next())));
        case(&inst, &m)
    }, decided);
    let n = run.ctx().cases(1000, 50_000);
    run.group("long", n, 0.15, 8, |_, r, _| {
        let hi = *r.pick(&[20, 40, 70, 128]);
        let inst = gen::long_inst(r, 11, hi, 20_000);
        let mut m = Mode { nthreads: r.below(2) as u16, ..Mode::SEARCH };
        let p = *r.pick(&[0.9, 0.97, 0.99]);
        m.prob = Some((Func::Hash { salt: r.next(), p }, r.chance(0.5).then(|| r.next())));
        case(&inst, &m)
    }, decided);
    let n = run.ctx().cases(48, 1500);
    run.group("chain", n, 0.2, 8, |_, r, i| {
        let nthreads = if i % 6 == 5 { 2 } else { r.below(2) };
        json!({
            "p": *r.pick(&[0.03, 0.1, 0.35, 0.5, 0.8, 0.97, 0.999]),
            "nodes": r.range(4, 12),
            "runs": if nthreads == 2 { 1500 } else { 4000 },
            "seed": if r.chance(0.7) { Some(r.next()) } else { None },
            "nthreads": nthreads,
        })
    }, chain);
    let n = run.ctx().cases(64, 2000);
    run.group("siblings", n, 0.1, 8, |_, r, _| {
        json!({
            "p": *r.pick(&[0.01, 0.1, 0.35, 0.5, 0.8, 0.97]),
            "nodes": r.range(7, 11),
            "seed": if r.chance(0.7) { Some(r.next()) } else { None },
        })
    }, siblings);
    let n = run.ctx().cases(32, 1000);
    run.group("tasks", n, 0.1, 4, |_, r, _| {
        json!({
            "p": *r.pick(&[0.3, 0.5, 0.6, 0.8]),
            "chain": r.range(5, 14),
            "runs": 400,
            "nthreads": *r.pick(&[2, 2, 3, 4, 8]),
            // both single nodes have to be tasks of their own
            "task_bound": *r.pick(&[None, Some(3), Some(4), Some(10)]),
            "seed": if r.chance(0.7) { Some(r.next()) } else { None },
        })
    }, tasks);
    run.finish();
}
