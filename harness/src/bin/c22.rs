//! C22: the task bound limits the number of search tasks, and the tasks cover the search.
//! Counts the task-start events.
use std::collections::BTreeSet;

use serde_json::{json, Value};
use vh::{
    ensure, gen,
    hooks::{self, Event, Plan},
    model::{self, Inst},
    modes::{affordable, case, pairs, Mode},
    run::{calm, Ctx, Fail, Obs, Runner},
};

fn judge(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let plan = Plan::from_json(&v["plan"]);
    let (paths, log) = calm("run", || hooks::planned(plan, || mode.call(&inst)))?;
    let starts: Vec<i64> = log
        .iter()
        .filter_map(|e| match e {
            Event::Start { task } => Some(*task),
            _ => None,
        })
        .collect();
    if starts.is_empty() {
        return Err(Fail::Inconclusive("no task-start events".into()));
    }
    let bound = mode.task_bound.map_or(100_000, |b| b as usize);
    ensure!(
        starts.len() <= bound + 1,
        "{} tasks started with task bound {:?}", starts.len(), mode.task_bound
    );
    let split = starts.iter().filter(|t| **t >= 0).count();
    ensure!(split <= bound, "{split} tasks split off with task bound {:?}", mode.task_bound);
    if mode.exhaustive() {
        let Some(want) = model::front(&inst, 20_000_000) else {
            return Err(Fail::Inconclusive("too many patterns for the oracle".into()));
        };
        let got = pairs(&paths);
        ensure!(
            got == want,
            "task bound {:?} ({} tasks): {got:?} instead of {want:?}", mode.task_bound, starts.len()
        );
        obs.count("covering_runs", 1);
    }
    obs.count("runs", 1);
    obs.count("tasks", starts.len() as u64);
    obs.max("tasks", starts.len() as u64);
    if starts.len() == bound + 1 {
        obs.count("bound_reached", 1);
        obs.nontrivial(inst.hash() ^ bound as u64);
        let ids: BTreeSet<_> = starts.iter().take(20).collect();
        obs.sample = Some(json!({"tasks": starts.len(), "first ids": ids}));
    }
    Ok(())
}

fn main() {
    let mut run = Runner::new();
    let n = run.ctx().cases(3000, 100_000);
    run.group("small", n, 0.6, 1, |_, r, i| {
        let inst = affordable(r, 3, 8, 20_000, if i % 2 == 0 { gen::inst } else { gen::wide_inst });
        let first = inst.order[0].len() as u32;
        let all = (1u32 << first.min(20)) - 1;
        let bound = match r.below(8) {
            0 | 1 => Some(0),
            2 => Some(1),
            3 => Some(r.below(all as usize + 3) as u32),
            4 => Some(all),
            5 => Some(all.saturating_sub(1)),
            6 => None,
            _ => Some(*r.pick(&[2, 3, 17, 1000, u32::MAX])),
        };
        let mut m = Mode::threaded(*r.pick(&[2, 3, 4, 8]), bound);
        if r.chance(0.2) {
            m.prob = Some((vh::modes::Func::random(r), Some(r.next())));
        }
        let mut v = case(&inst, &m);
        v["plan"] = Plan::QUIET.json();
        v
    }, judge);
    // many possible tasks; every task stops at its first step
    let n = run.ctx().cases(30, 300);
    run.group("many", n, 0.2, 1, |_, r, _| {
        let n = r.range(12, 30);
        let bound = *r.pick(&[0, 1, 5, 50, 999, 3000]);
        let inst = Inst { adj: gen::graph(r, n), order: vec![(0..n).map(|i| (i, vec![])).collect()] };
        let mut m = Mode::threaded(*r.pick(&[2, 4, 8]), Some(bound));
        m.timeout_us = Some(0);
        let mut v = case(&inst, &m);
        v["plan"] = Plan { p_sync: 1., ..Plan::QUIET }.json();
        v
    }, judge);
    // without a bound: more than 100000 first steps
    let n = run.ctx().cases(1, 4);
    run.group("default", n, 0.2, 1, |_, r, i| {
        let n = 17 + i;
        let inst = Inst { adj: gen::graph(r, n), order: vec![(0..n).map(|i| (i, vec![])).collect()] };
        let mut m = Mode::threaded(8, None);
        m.timeout_us = Some(0);
        let mut v = case(&inst, &m);
        v["plan"] = Plan { p_sync: 1., ..Plan::QUIET }.json();
        v
    }, judge);
    run.finish();
}
