//! C04: the single-threaded exhaustive search returns exactly the Pareto front, against
//! dynamic programming over sets of measured nodes.
use serde_json::{json, Value};
use vh::{
    ensure, gen,
    model::{self, Inst},
    modes::{affordable, case, pairs, Mode},
    run::{calm, Ctx, Fail, Obs, Runner},
};

fn judge(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let Some(want) = model::front(&inst, 20_000_000) else {
        return Err(Fail::Inconclusive("too many patterns for the oracle".into()));
    };
    let (want, inst) = match v["pad"].as_array() {
        Some(pad) => {
            let pad: Vec<usize> = pad.iter().map(|p| p.as_u64().unwrap() as usize).collect();
            let r = &mut vh::rng::Rng::new(pad[2] as u64);
            let want: Vec<_> = want.iter().map(|(t, s)| (t + pad[0] + pad[1], *s)).collect();
            obs.count("padded", 1);
            (want, gen::padded(r, &inst, pad[0], pad[1]))
        },
        None => (want, inst),
    };
    let got = pairs(&calm("run", || mode.call(&inst))?);
    ensure!(got == want, "front {got:?}, but the Pareto front is {want:?}");
    obs.count(&format!("fronts_of_length_{}", want.len()), 1);
    obs.max("nodes", inst.n() as u64);
    if want.len() >= 2 {
        obs.nontrivial(inst.hash());
        obs.sample = Some(json!({"front": want}));
    }
    Ok(())
}

/// All graphs and all orderings of `n` nodes with dependencies from lower to higher
/// labels, with and without the transitive dependencies listed.
fn enumerate(n: usize) -> Vec<Inst> {
    let pairs: Vec<(usize, usize)> =
        (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).collect();
    let mut orders = Vec::new();
    'rel: for rel in 0u32..1 << pairs.len() {
        let has = |i: usize, j: usize| {
            rel & (1 << pairs.iter().position(|p| *p == (i, j)).unwrap()) != 0
        };
        for i in 0..n {
            for j in i + 1..n {
                for k in j + 1..n {
                    if has(i, j) && has(j, k) && !has(i, k) {
                        continue 'rel;
                    }
                }
            }
        }
        let mut lists = Vec::new();
        for full in [false, true] {
            let deps: Vec<(usize, Vec<usize>)> = (0..n)
                .map(|k| {
                    let d = (0..k)
                        .filter(|&i| {
                            has(i, k) && (full || !(i + 1..k).any(|j| has(i, j) && has(j, k)))
                        })
                        .collect();
                    (k, d)
                })
                .collect();
            if !lists.contains(&deps) {
                lists.push(deps);
            }
        }
        orders.extend(lists);
    }
    let mut out = Vec::new();
    for g in 0u32..1 << pairs.len() {
        let mut adj = vec![Vec::new(); n];
        for (b, (i, j)) in pairs.iter().enumerate() {
            if g & (1 << b) != 0 {
                adj[*i].push(*j);
                adj[*j].push(*i);
            }
        }
        for d in &orders {
            let mut r = vh::rng::Rng::new(g as u64);
            out.push(Inst { adj: adj.clone(), order: gen::layer(&mut r, d) });
        }
    }
    out
}

fn main() {
    let mut run = Runner::new();
    let st = |r: &mut vh::rng::Rng| Mode {
        nthreads: *r.pick(&[0, 1]),
        task_bound: *r.pick(&[None, Some(0), Some(5)]),
        ..Mode::SEARCH
    };
    let top = if run.ctx().thorough { 5 } else { 4 };
    let all: Vec<Inst> = (1..=top).flat_map(enumerate).collect();
    run.group("all_small", all.len(), 0.3, 8, |_, r, i| case(&all[i], &st(r)), judge);
    let n = run.ctx().cases(6000, 400_000);
    run.group("random", n, 0.25, 8, |c, r, _| {
        let limit = if c.thorough { 3_000_000 } else { 300_000 };
        let inst = affordable(r, 5, 10, limit, gen::inst);
        case(&inst, &st(r))
    }, judge);
    let n = run.ctx().cases(5000, 300_000);
    run.group("wide", n, 0.25, 8, |c, r, _| {
        let limit = if c.thorough { 10_000_000 } else { 1_000_000 };
        let inst = affordable(r, 5, 9, limit, gen::wide_inst);
        case(&inst, &st(r))
    }, judge);
    // many steps
    let n = run.ctx().cases(1500, 100_000);
    run.group("long", n, 0.2, 8, |c, r, _| {
        let limit = if c.thorough { 500_000 } else { 20_000 };
        let hi = *r.pick(&[20, 40, 70, 128]);
        case(&gen::long_inst(r, 11, hi, limit), &st(r))
    }, judge);
    // hundreds of steps: known problems between chains
    let n = run.ctx().cases(200, 10_000);
    run.group("padded", n, 0.2, 8, |_, r, i| {
        let inst = if i % 2 == 0 { gen::tradeoff_inst(r, 14, 2000) } else { affordable(r, 4, 7, 2000, gen::wide_inst) };
        let most = *r.pick(&[30, 120, 260, 500]);
        let mut v = case(&inst, &st(r));
        v["pad"] = json!([r.below(most), r.below(most), r.below(1 << 30)]);
        v
    }, judge);
    // many trade-offs
    let n = run.ctx().cases(400, 20_000);
    run.group("fronts", n, 0.25, 8, |c, r, i| {
        let (hi, limit) = if c.thorough { (32, 1_000_000) } else { (26, if i % 10 == 0 { 200_000 } else { 20_000 }) };
        case(&{ let hi = r.range(10, hi); gen::tradeoff_inst(r, hi, limit) }, &st(r))
    }, judge);
    run.finish();
}
