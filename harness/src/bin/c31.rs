//! C31: the most parallel step is tried first, so that whatever a search returns when it is
//! cut short begins with a time-optimal pattern.
use std::collections::BTreeSet;

use mbqc_scheduling::scheduler::{
    space::Graph,
    time::{DependencyBuffer, PathGenerator},
    tree::{Step, Sweep},
    Scheduler,
};
use serde_json::{json, Value};
use vh::{
    ensure, gen, hooks,
    model::{self, Inst},
    modes::{affordable, case, pairs, Func, Mode},
    rng::Rng,
    run::{calm, Ctx, Fail, Obs, Runner},
};

fn set(v: &[usize]) -> BTreeSet<usize> {
    v.iter().copied().collect()
}

/// The first child of every state measures all that can be measured.
fn sweep(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let r = &mut Rng::new(v["seed"].as_u64().unwrap());
    let limit = v["limit"].as_u64().unwrap();
    let p = v["p"].as_f64().unwrap();
    let deps = inst.deps();
    let mut b1 = DependencyBuffer::new(inst.n());
    let time = PathGenerator::from_dependency_graph(&inst.order, &mut b1, None);
    let mut sweep: Sweep<_> = Scheduler::new(time, Graph::new(&inst.adj)).into_iter();
    let mut done: BTreeSet<usize> = BTreeSet::new();
    let mut path: Vec<Vec<usize>> = Vec::new();
    let mut fresh = true;
    let mut firsts = 0;
    for _ in 0..limit {
        match calm("next", || sweep.next())? {
            None => break,
            Some(Step::Forward(step)) => {
                if fresh {
                    let all: BTreeSet<usize> = deps
                        .iter()
                        .filter(|(b, d)| !done.contains(b) && d.iter().all(|d| done.contains(d)))
                        .map(|(b, _)| *b)
                        .collect();
                    ensure!(set(&step) == all, "after {path:?}: first tries {step:?} instead of all of {all:?}");
                    firsts += 1;
                }
                if r.chance(p) {
                    if calm("skip", || sweep.skip_current())?.is_err() {
                        break;
                    }
                    fresh = false;
                } else {
                    done.extend(&step);
                    path.push(step);
                    fresh = true;
                }
            },
            Some(Step::Backward(_)) => {
                for b in path.pop().unwrap() {
                    done.remove(&b);
                }
                fresh = false;
            },
        }
    }
    obs.count("first_steps", firsts);
    if firsts > 2 && inst.num_deps() > 0 {
        obs.nontrivial(model::fnv(v.to_string().as_bytes()));
    }
    Ok(())
}

/// A path along which everything is measured as soon as possible.
fn greedy(inst: &Inst) -> Result<(usize, usize), Fail> {
    let p = calm("run", || Mode::GREEDY.call(inst))?;
    ensure!(p.len() == 1, "time-optimal run returned {} paths", p.len());
    ensure!(p[0].time == model::depth(inst), "time-optimal run returned a path of {} steps", p[0].time);
    Ok((p[0].time, p[0].space))
}

/// The first pattern found is the greedy one.
fn found(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let want = greedy(&inst)?;
    let (paths, found) = hooks::local(|| calm("run", || mode.call(&inst)));
    let paths = paths?;
    ensure!(
        found.first().is_none_or(|f| *f == want),
        "first found a pattern with costs {:?} instead of {want:?}", found[0]
    );
    ensure!(!paths.is_empty(), "nothing returned");
    ensure!(paths[0].time == want.0 && paths[0].space <= want.1, "returned {:?}, time-optimal is {want:?}", pairs(&paths));
    obs.count("first_patterns", !found.is_empty() as u64);
    if inst.num_deps() > 0 && found.len() > 1 {
        obs.nontrivial(inst.hash());
    }
    Ok(())
}

/// Cut short at any moment: nothing, or a time-optimal pattern at the front.
fn cut(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let want = greedy(&inst)?;
    let paths = calm("run", || mode.call(&inst))?;
    obs.count(if paths.is_empty() { "cut_empty" } else { "cut_with_results" }, 1);
    if let Some(p) = paths.first() {
        ensure!(
            p.time == want.0 && p.space <= want.1,
            "cut short after {:?} us: returned {:?}, but a time-optimal pattern with costs {want:?} is tried first",
            mode.timeout_us, pairs(&paths)
        );
        obs.count(&format!("cut_{}", mode.label()), 1);
        obs.nontrivial(inst.hash() ^ model::fnv(mode.json().to_string().as_bytes()));
    }
    Ok(())
}

fn main() {
    hooks::init();
    let mut run = Runner::new();
    let n = run.ctx().cases(3000, 100_000);
    run.group("sweep", n, 0.25, 8, |_, r, i| {
        let inst = match i % 4 {
            0 => gen::inst(r, 2, 40),
            1 => gen::wide_inst(r, 3, 30),
            _ => gen::inst(r, 1, 9),
        };
        let mut v = inst.json();
        v["seed"] = json!(r.next());
        v["limit"] = json!(r.range(10, 3000));
        v["p"] = json!(*r.pick(&[0., 0.05, 0.3, 0.8]));
        v
    }, sweep);
    let n = run.ctx().cases(3000, 100_000);
    run.group("found", n, 0.25, 8, |_, r, _| {
        let inst = affordable(r, 1, 9, 30_000, gen::inst);
        let mut m = Mode { nthreads: r.below(2) as u16, ..Mode::SEARCH };
        if r.chance(0.3) {
            m.prob = Some((Func::Const(*r.pick(&[1., 2.])), None));
        }
        case(&inst, &m)
    }, found);
    let n = run.ctx().cases(3000, 60_000);
    run.group("cut", n, 0.3, 4, |_, r, i| {
        let inst = match i % 4 {
            0 => gen::wide_inst(r, 8, 30),
            1 => gen::inst(r, 10, 60),
            2 => gen::inst(r, 60, 300),
            _ => gen::inst(r, 3, 10),
        };
        let mut m = Mode { nthreads: r.below(2) as u16, ..Mode::SEARCH };
        // logarithmic, from before the first pattern to long after
        m.timeout_us = Some(2f64.powf(r.unit() * 13.) as u64);
        if r.chance(0.25) {
            m.nthreads = r.range(2, 4) as u16;
            m.task_bound = Some(0);
        }
        if r.chance(0.3) {
            m.prob = Some((Func::Const(*r.pick(&[1., 2.])), None));
        }
        case(&inst, &m)
    }, cut);
    // among the first steps, where better patterns follow each other closely
    let n = run.ctx().cases(10_000, 300_000);
    run.group("early", n, 0.2, 6, |_, r, _| {
        let mut inst = gen::wide_inst(r, 6, 24);
        if r.chance(0.6) {
            inst.order = vec![(0..inst.n()).map(|i| (i, vec![])).collect()];
        }
        let mut m = Mode { nthreads: r.below(2) as u16, ..Mode::SEARCH };
        m.timeout_us = Some(10 + (2f64.powf(r.unit() * 6.) * 8.) as u64);
        case(&inst, &m)
    }, cut);
    run.finish();
}
