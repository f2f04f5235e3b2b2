//! C15: node states and memory counters of graphs that are measured in any order.
use mbqc_scheduling::scheduler::{
    space::{AlreadyMeasured, Graph, GraphBuffer, State},
    time::{DependencyBuffer, MeasurableSet, Partitioner, PathGenerator},
    tree::{Focus, Step, Sweep},
    Scheduler,
};
use serde_json::{json, Value};
use vh::{
    ensure, gen,
    model::{self, Adj, Inst},
    modes::affordable,
    rng::Rng,
    run::{calm, Ctx, Fail, Obs, Runner},
};

fn compare(adj: &Adj, g: &Graph, steps: &[Vec<usize>], what: &str) -> Result<(), Fail> {
    let c = model::costs(adj, steps);
    let mut measured = vec![false; adj.len()];
    let mut touched = vec![false; adj.len()];
    for &b in steps.iter().flatten() {
        measured[b] = true;
        touched[b] = true;
        adj[b].iter().for_each(|&x| touched[x] = true);
    }
    ensure!(g.nodes().len() == adj.len(), "{what}: {} nodes instead of {}", g.nodes().len(), adj.len());
    for (i, (state, neighbours)) in g.nodes().iter().enumerate() {
        let want = match (measured[i], touched[i]) {
            (true, _) => State::Measured,
            (false, true) => State::InMemory,
            (false, false) => State::Sleeping,
        };
        ensure!(*state == want, "{what}: node {i} is {state:?} instead of {want:?} after {steps:?}");
        ensure!(**neighbours == adj[i], "{what}: neighbours of {i} are {neighbours:?}, not {:?}", adj[i]);
    }
    let want = (c.last().map_or(0, |c| c.after), c.iter().map(|c| c.peak).max().unwrap_or(0));
    let got = (g.current_memory(), g.max_memory());
    ensure!(got == want, "{what}: memory now and at most {got:?}, expected {want:?} after {steps:?}");
    Ok(())
}

/// Any order: a graph knows no ordering.
fn alone(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let adj: Adj = serde_json::from_value(v["adj"].clone()).unwrap();
    let n = adj.len();
    let mut r = Rng::new(v["seed"].as_u64().unwrap());
    let buffer = GraphBuffer::from_sparse(adj.clone());
    let mut g = Graph::new(if r.chance(0.5) { buffer.as_buffer() } else { &adj });
    let mut left: Vec<usize> = (0..n).collect();
    r.shuffle(&mut left);
    let mut steps: Vec<Vec<usize>> = Vec::new();
    compare(&adj, &g, &steps, "new graph")?;
    let stop = r.range(0, n);
    let every = n / 60 + 1;
    while left.len() > stop || r.chance(0.3) {
        let most = if r.chance(0.5) { 2.max(n / 30) } else { left.len() };
        let k = r.below(left.len().min(most) + 1);
        let step: Vec<usize> = left.drain(..k).collect();
        let before = g.clone();
        let ctx = format!("step {step:?}");
        let copy = calm(&ctx, || g.focus(&step))?;
        ensure!(g == before, "the copying form changes the graph at {ctx} after {steps:?}");
        match copy {
            Ok(c) => {
                let res = calm(&ctx, || g.focus_inplace(&step))?;
                ensure!(res.is_ok(), "{ctx} after {steps:?}: {res:?}");
                ensure!(c == g, "{ctx} after {steps:?}: copied {c:?}, in place {g:?}");
            },
            Err(e) => return Err(Fail::Violation(format!("{ctx} after {steps:?}: {e:?}"))),
        }
        steps.push(step);
        if steps.len() % every == 0 || left.is_empty() {
            compare(&adj, &g, &steps, "graph")?;
        }
        obs.count("steps", 1);
        // an invalid step
        let done: Vec<usize> = steps.iter().flatten().copied().collect();
        if !done.is_empty() && r.chance(0.5) {
            let bad = *r.pick(&done);
            let mut step: Vec<usize> = left.iter().copied().take(r.below(3)).collect();
            let twice = !step.is_empty() && r.chance(0.3);
            let bad = if twice { step[0] } else { bad };
            // the only node that is named in vain, wherever it stands
            let at = if twice { r.range(1, step.len()) } else { r.range(0, step.len()) };
            step.insert(at, bad);
            let before = g.clone();
            let res = calm("invalid step", || g.focus(&step))?;
            ensure!(
                res.as_ref().err() == Some(&AlreadyMeasured(bad)),
                "step {step:?} after {steps:?} gives {res:?}, expected an error naming {bad}"
            );
            ensure!(g == before, "the copying form changes the graph in {step:?} after {steps:?}");
            let mut copy = g.clone();
            let res = calm("invalid step", || copy.focus_inplace(&step))?;
            ensure!(
                res == Err(AlreadyMeasured(bad)),
                "step {step:?} in place after {steps:?} gives {res:?}, expected an error naming {bad}"
            );
            obs.count("errors", 1);
        }
        if left.is_empty() {
            break;
        }
    }
    if steps.iter().filter(|s| !s.is_empty()).count() >= 2 && adj.iter().any(|a| !a.is_empty()) {
        obs.nontrivial(model::fnv(format!("{adj:?}{steps:?}").as_bytes()));
        if n < 8 {
            obs.sample = Some(json!({"steps": steps, "memory": [g.current_memory(), g.max_memory()]}));
        }
    }
    obs.max("nodes", n as u64);
    Ok(())
}

/// Within a scheduler, where optimised builds use other code.
fn scheduled(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mut r = Rng::new(v["seed"].as_u64().unwrap());
    let mut b = DependencyBuffer::new(inst.n());
    let gen = calm("creation", || PathGenerator::<Vec<usize>>::from_dependency_graph(&inst.order, &mut b, None))?;
    let mut s = Scheduler::new(gen, Graph::new(&inst.adj));
    let mut steps: Vec<Vec<usize>> = Vec::new();
    loop {
        compare(&inst.adj, s.space(), &steps, "scheduler")?;
        let mut free = s.time().measurable().set().to_vec();
        if free.is_empty() {
            break;
        }
        r.shuffle(&mut free);
        free.truncate(r.range(1, free.len()));
        if r.chance(0.5) {
            s = match calm("focus", || s.focus(&free))? {
                Ok(new) => new,
                Err(e) => return Err(Fail::Violation(format!("{free:?} after {steps:?}: {e}"))),
            };
        } else if let Err(e) = calm("focus_inplace", || s.focus_inplace(&free))? {
            return Err(Fail::Violation(format!("{free:?} after {steps:?}: {e}")));
        }
        steps.push(free);
        obs.count("scheduler_steps", 1);
    }
    // and while sweeping
    let mut b = DependencyBuffer::new(inst.n());
    let gen = calm("creation", || PathGenerator::<Partitioner>::from_dependency_graph(&inst.order, &mut b, None))?;
    let mut sweep = Sweep::new(Scheduler::new(gen, Graph::new(&inst.adj)));
    let mut path: Vec<Vec<usize>> = Vec::new();
    let mut k = 0;
    while let Some(step) = calm("sweep", || sweep.next())? {
        match step {
            Step::Forward(set) => path.push(set),
            Step::Backward(_) => {
                path.pop();
            },
        }
        compare(&inst.adj, sweep.current().space(), &path, "sweep")?;
        obs.count("sweep_steps", 1);
        k += 1;
        if k > 400 {
            break;
        }
        if !path.is_empty() && r.chance(0.1) && sweep.skip_current().is_ok() {
            path.pop();
            compare(&inst.adj, sweep.current().space(), &path, "sweep after skipping")?;
        }
    }
    if inst.num_edges() > 0 {
        obs.distinct("scheduled_histories", inst.hash() ^ model::fnv(format!("{steps:?}").as_bytes()));
    }
    Ok(())
}

fn main() {
    let mut run = Runner::new();
    let n = run.ctx().cases(250_000, 8_000_000);
    run.group("alone", n, 0.4, 8, |_, r, _| {
        let hi = *r.pick(&[3, 6, 10, 10, 20, 60]);
        let n = r.range(0, hi);
        json!({"adj": gen::graph(r, n), "seed": r.next()})
    }, alone);
    let n = run.ctx().cases(400, 20_000);
    run.group("large", n, 0.1, 8, |_, r, i| {
        let n = if i % 8 == 0 { {
            let hi = *r.pick(&[3000, 10_000, 70_000]);
            r.range(1000, hi)
        } } else { r.range(60, 700) };
        let adj = if n > 300 { gen::huge_inst(r, n, true).adj } else { gen::graph(r, n) };
        json!({"adj": adj, "seed": r.next()})
    }, alone);
    let n = run.ctx().cases(60_000, 2_000_000);
    run.group("scheduled", n, 0.5, 8, |_, r, _| {
        let inst = if r.chance(0.7) { affordable(r, 1, 9, 100_000, gen::inst) } else { gen::inst(r, 8, 40) };
        let mut v = inst.json();
        v["seed"] = json!(r.next());
        v
    }, scheduled);
    run.finish();
}
