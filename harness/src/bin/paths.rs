//! C01 (validity), C02 (exact costs), C03 (shape of the result): monitors on the value
//! returned by `interface::run` for every mode, including cut-short and probabilistic
//! runs. VH_PROP selects the judge.
use serde_json::{json, Value};
use vh::{
    ensure, gen,
    model::{self, Inst},
    modes::{affordable, case, paths_json, Mode},
    rng::Rng,
    run::{calm, Ctx, Fail, Obs, Runner},
};

fn judge(prop: &str, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = match v["huge"].as_u64() {
        Some(seed) => gen::huge_inst(&mut Rng::new(seed), v["nodes"].as_u64().unwrap() as usize, true),
        None => Inst::from_json(v),
    };
    let mode = Mode::from_json(&v["mode"]);
    let paths = calm("run", || mode.call(&inst))?;
    let label = mode.label();
    obs.count(&format!("runs_{label}"), 1);
    obs.count("paths", paths.len() as u64);
    if !mode.do_search {
        ensure!(paths.len() == 1, "{} paths without do_search", paths.len());
    }
    obs.max("nodes", inst.n() as u64);
    let shown = || serde_json::to_string(&paths_json(&paths)).unwrap();
    for p in &paths {
        obs.count("steps", p.steps.len() as u64);
        obs.max("largest_space", p.space as u64);
        match prop {
            "C01" => model::check_pattern(&inst, &p.steps)
                .map_err(|e| Fail::Violation(format!("{label}: {e}; path {:?}", p.steps)))?,
            "C02" => {
                let real = model::space(&inst.adj, &p.steps);
                ensure!(
                    p.time == p.steps.len(),
                    "{label}: time {} for {} steps {:?}", p.time, p.steps.len(), p.steps
                );
                ensure!(
                    p.space == real,
                    "{label}: reported space {}, needed {real}, for {:?}", p.space, p.steps
                );
            },
            _ => {},
        }
    }
    if prop == "C03" {
        for w in paths.windows(2) {
            ensure!(
                w[0].time < w[1].time && w[0].space > w[1].space,
                "{label}: not a strict front: {}", shown()
            );
        }
    }
    let ok = match prop {
        "C01" => paths.iter().any(|p| p.steps.len() >= 2) && inst.num_deps() > 0,
        "C02" => paths.iter().any(|p| p.space >= 2) && inst.num_edges() > 0,
        _ => paths.len() >= 2,
    };
    if ok {
        obs.nontrivial(inst.hash() ^ model::fnv(mode.json().to_string().as_bytes()));
        obs.distinct("results", vh::modes::digest(&paths));
    }
    obs.max("paths_of_one_run", paths.len() as u64);
    if ok && inst.n() < 100 {
        obs.sample = Some(json!({"returned": paths_json(&paths)}));
    }
    Ok(())
}

fn main() {
    let prop = std::env::var("VH_PROP").expect("VH_PROP");
    let mut run = Runner::new();
    let j = |_: &Ctx, v: &Value, o: &mut Obs| judge(&prop, v, o);

    // small problems, all modes
    let n = run.ctx().cases(6000, 400_000);
    run.group("small", n, 0.4, 8, |c, r, i| {
        let limit = if c.thorough { 200_000 } else { 30_000 };
        let mut inst = affordable(r, 1, 9, limit, if i % 2 == 0 { gen::inst } else { gen::wide_inst });
        // nothing to measure
        if i % 60 == 7 {
            inst.order.clear();
            if r.chance(0.3) {
                inst.adj.clear();
            }
        }
        case(&inst, &Mode::random(r, true))
    }, j);
    // middling and large problems, cut short
    let n = run.ctx().cases(2500, 150_000);
    run.group("large", n, 0.3, 8, |_, r, i| {
        let hi = *r.pick(&[12, 16, 24, 40, 80]);
        let inst = if i % 3 == 0 { gen::wide_inst(r, 8, hi.min(24)) } else { gen::inst(r, 8, hi) };
        case(&inst, &Mode::random(r, false))
    }, j);
    // many trade-offs
    let n = run.ctx().cases(600, 40_000);
    run.group("fronts", n, 0.2, 8, |_, r, i| {
        let hi = r.range(10, 26);
        let inst = gen::tradeoff_inst(r, hi, 20_000);
        let mut m = Mode::random(r, i % 4 > 0);
        m.do_search = true;
        if i % 2 == 0 {
            m.prob = None;
        }
        case(&inst, &m)
    }, j);
    // very large problems, time-optimal only
    let n = run.ctx().cases(60, 2000);
    run.group("huge", n, 0.2, 8, |_, r, _| {
        let inst = gen::inst(r, 60, 220);
        let mut m = Mode::random(r, false);
        m.do_search = false;
        case(&inst, &m)
    }, j);
    // thousands of nodes
    let n = run.ctx().cases(24, 600);
    run.group("thousands", n, 0.1, 8, |_, r, i| {
        let mut m = Mode::random(r, false);
        m.do_search = i % 3 == 0 && prop != "C03";
        m.timeout_us = Some(50_000);
        let nodes = if m.do_search { r.range(300, 1500) } else { gen::thousands(r, i) };
        json!({"huge": r.next(), "nodes": nodes, "mode": m.json()})
    }, j);
    run.finish();
}
