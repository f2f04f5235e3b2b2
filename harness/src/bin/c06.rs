//! C06: without do_search, the schedule measures every node in its earliest step, and no
//! other setting matters.
use serde_json::{json, Value};
use vh::{
    ensure, gen,
    model::{self, Inst},
    modes::{affordable, case, paths_json, Mode},
    rng::Rng,
    run::{calm, Ctx, Fail, Obs, Runner},
};

fn short(x: &impl std::fmt::Debug) -> String {
    format!("{x:?}").chars().take(1500).collect()
}

fn judge(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = match v["huge"].as_u64() {
        Some(seed) => gen::huge_inst(&mut Rng::new(seed), v["nodes"].as_u64().unwrap() as usize, v["wide"] == true),
        None => Inst::from_json(v),
    };
    let mode = Mode::from_json(&v["mode"]);
    let paths = calm("run", || mode.call(&inst))?;
    ensure!(paths.len() == 1, "{} paths without do_search", paths.len());
    let p = &paths[0];
    let depth = model::depth(&inst);
    ensure!(p.time == depth, "time {}, but the longest dependency chain has {depth} nodes", p.time);
    ensure!(p.steps.len() == depth, "{} steps instead of {depth}", p.steps.len());
    model::check_pattern(&inst, &p.steps).map_err(Fail::Violation)?;
    let asap = model::asap(&inst);
    for (i, step) in p.steps.iter().enumerate() {
        for b in step {
            ensure!(asap[b] == i, "node {b} measured in step {i}, possible in step {}", asap[b]);
        }
    }
    let plain = calm("run", || Mode::GREEDY.call(&inst))?;
    ensure!(
        paths_json(&plain) == paths_json(&paths),
        "settings that only concern the search change the result: {} instead of {}", short(&paths), short(&plain)
    );
    obs.max("nodes", inst.n() as u64);
    obs.max("steps", depth as u64);
    if v["exhaustive"] == true {
        let all = calm("run", || Mode::SEARCH.call(&inst))?;
        ensure!(!all.is_empty(), "the exhaustive search found nothing");
        ensure!(
            all[0].time == p.time && all[0].space <= p.space,
            "time-optimal path ({}, {}), but the search starts with ({}, {})",
            p.time, p.space, all[0].time, all[0].space
        );
        obs.count("compared_with_search", 1);
        obs.count("search_needs_less_space", (all[0].space < p.space) as u64);
    }
    if depth >= 2 {
        obs.nontrivial(inst.hash());
        if inst.n() < 12 {
            obs.sample = Some(paths_json(&paths));
        }
    }
    Ok(())
}

fn main() {
    let mut run = Runner::new();
    let settings = |r: &mut vh::rng::Rng| {
        let mut m = Mode::random(r, true);
        m.do_search = false;
        if r.chance(0.3) {
            m.timeout_us = Some(0);
        }
        m
    };
    let n = run.ctx().cases(8000, 400_000);
    run.group("small", n, 0.45, 8, |_, r, _| {
        let inst = affordable(r, 1, 9, 100_000, gen::inst);
        let mut v = case(&inst, &settings(r));
        v["exhaustive"] = json!(true);
        v
    }, judge);
    let n = run.ctx().cases(4000, 200_000);
    run.group("large", n, 0.3, 8, |_, r, _| {
        let hi = *r.pick(&[15, 30, 60]);
        case(&gen::inst(r, 8, hi), &settings(r))
    }, judge);
    let n = run.ctx().cases(100, 4000);
    run.group("huge", n, 0.1, 8, |_, r, _| case(&gen::inst(r, 100, 350), &settings(r)), judge);
    let n = run.ctx().cases(24, 600);
    run.group("thousands", n, 0.15, 8, |_, r, i| {
        let wide = i % 3 != 0;
        let nodes = if wide { gen::thousands(r, i) } else { r.range(400, 2500) };
        json!({"huge": r.next(), "nodes": nodes, "wide": wide, "mode": settings(r).json()})
    }, judge);
    // nothing to measure
    run.group("empty", 8, 0.1, 2, |_, r, i| {
        let adj = gen::graph(r, i);
        case(&Inst { adj, order: vec![] }, &settings(r))
    }, judge);
    run.finish();
}
