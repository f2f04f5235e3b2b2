//! C05: the multi-threaded search returns the Pareto front under every schedule. Schedules
//! are diversified by delays and forced synchronisations at the observation points and by
//! preempting threads at arbitrary instructions with signals.
use serde_json::{json, Value};
use vh::{
    chaos, ensure, gen,
    hooks::{self, Event, Plan},
    model::{self, Inst},
    modes::{affordable, case, pairs, Mode},
    step,
    run::{calm, Ctx, Fail, Obs, Runner},
};

fn judge(ctx: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let Some(want) = model::front(&inst, 20_000_000) else {
        return Err(Fail::Inconclusive("too many patterns for the oracle".into()));
    };
    let (want, inst) = match v["pad"].as_array() {
        Some(pad) => {
            let pad: Vec<usize> = pad.iter().map(|p| p.as_u64().unwrap() as usize).collect();
            let r = &mut vh::rng::Rng::new(pad[2] as u64);
            let want: Vec<_> = want.iter().map(|(t, s)| (t + pad[0] + pad[1], *s)).collect();
            obs.count("padded", 1);
            (want, gen::padded(r, &inst, pad[0], pad[1]))
        },
        None => (want, inst),
    };
    let plan = Plan::from_json(&v["plan"]);
    let rounds = v["rounds"].as_u64().unwrap();
    for round in 0..rounds {
        let plan = Plan { seed: plan.seed.wrapping_add(round), ..plan };
        let chaos_us = v["chaos_us"].as_u64().unwrap() as u32;
        let (paths, log) = calm("run", || {
            hooks::planned(plan, || {
                if chaos_us > 0 {
                    chaos::with_chaos(chaos_us, || mode.call(&inst))
                } else {
                    mode.call(&inst)
                }
            })
        })?;
        let got = pairs(&paths);
        ensure!(
            got == want,
            "round {round}: {got:?} with {} threads and task bound {:?}, but the Pareto front is \
             {want:?}; events {log:?}",
            mode.nthreads,
            mode.task_bound
        );
        obs.count("runs", 1);
        obs.max("threads", mode.nthreads as u64);
        let tasks = log.iter().filter(|e| matches!(e, Event::Start { .. })).count();
        obs.max("tasks", tasks as u64);
        for e in &log {
            obs.count(
                match e {
                    Event::Start { .. } => "events_task_start",
                    Event::Sync { .. } => "events_forced_sync",
                    Event::Merge { .. } => "events_merge",
                    Event::Found { .. } => "events_pattern_found",
                },
                1,
            );
        }
        // a schedule is non-trivial when tasks overlap: some task starts before another
        // one merged
        let first_merge = log.iter().position(|e| matches!(e, Event::Merge { .. }));
        let last_start = log.iter().rposition(|e| matches!(e, Event::Start { .. }));
        if want.len() >= 2 && tasks >= 2 && first_merge > Some(1) && last_start.is_some() {
            let id = inst.hash() ^ hooks::interleaving(&log);
            obs.nontrivial(id);
            obs.distinct("interleavings", id);
        }
    }
    if ctx.thorough || want.len() >= 2 {
        obs.sample = Some(json!({"front": want}));
    }
    obs.max("preemption_signals", chaos::delivered());
    obs.max("stops_at_instructions", step::pauses());
    Ok(())
}

fn main() {
    let mut run = Runner::new();
    let gen_case = |lo: usize, hi: usize, limit: u128, rounds: u64, chaos: bool| {
        move |_: &Ctx, r: &mut vh::rng::Rng, i: usize| {
            let inst =
                affordable(r, lo, hi, limit, if i % 3 == 0 { gen::inst } else { gen::wide_inst });
            let nthreads = if r.chance(0.02) { *r.pick(&[255, 256, 257, 512, 1000]) } else { *r.pick(&[2, 2, 3, 4, 4, 6, 8, 16]) };
            let bound = match r.below(5) {
                0 => Some(0),
                1 => Some(1),
                2 => Some(r.range(2, 6) as u32),
                3 => Some(r.range(5, 300) as u32),
                _ => None,
            };
            let mut v = case(&inst, &Mode::threaded(nthreads, bound));
            v["plan"] = Plan::random(r).json();
            v["chaos_us"] = json!(if chaos { *r.pick(&[20, 100, 400]) } else { 0 });
            v["rounds"] = json!(rounds);
            v
        }
    };
    let n = run.ctx().cases(1600, 60_000);
    run.group("planned", n, 0.3, 1, gen_case(4, 8, 20_000, 6, false), judge);
    let n = run.ctx().cases(500, 20_000);
    run.group("preempted", n, 0.2, 1, gen_case(4, 8, 20_000, 4, true), judge);
    // many small runs, whose tasks stop at some instruction near a start, a synchronisation
    // or a merge
    let n = run.ctx().cases(400, 20_000);
    run.group("stopped", n, 0.2, 1, |c, r, i| {
        let mut v = gen_case(2, 6, 3000, 24, i % 8 == 7)(c, r, i);
        let p = Plan { delay_us: 0, ..Plan::from_json(&v["plan"]) };
        v["plan"] = Plan {
            p_sync: *r.pick(&[0., 0.3, 1.]),
            p_slow: 0.,
            p_stop: *r.pick(&[0.2, 0.5, 1.]),
            stop_us: *r.pick(&[50, 150, 500]),
            ..p
        }
        .json();
        v
    }, judge);
    // many steps
    let n = run.ctx().cases(120, 6000);
    run.group("long", n, 0.1, 1, |c, r, i| {
        let mut v = gen_case(2, 4, 3000, 3, i % 4 == 0)(c, r, i);
        let hi = *r.pick(&[20, 40, 70, 128]);
        let inst = gen::long_inst(r, 11, hi, 3000).json();
        v["spacial_graph"] = inst["spacial_graph"].clone();
        v["dependency_graph"] = inst["dependency_graph"].clone();
        v
    }, judge);
    // many trade-offs
    let n = run.ctx().cases(150, 6000);
    run.group("fronts", n, 0.15, 1, |c, r, i| {
        let mut v = gen_case(2, 4, 3000, 3, i % 4 == 0)(c, r, i);
        let hi = r.range(10, 30);
        // some between chains of hundreds of nodes
        let inst = if i % 4 == 3 {
            let before = if r.chance(0.5) { 0 } else { r.below(260) };
            v["pad"] = json!([before, r.below(260), r.below(1 << 30)]);
            // hundreds of thousands of steps
            let p = Plan::from_json(&v["plan"]);
            v["plan"] = Plan { p_sync: p.p_sync.min(0.005), p_delay: 0., p_stop: 0., ..p }.json();
            v["chaos_us"] = json!(0);
            gen::tradeoff_inst(r, 12, 500).json()
        } else {
            gen::tradeoff_inst(r, hi, 20_000).json()
        };
        v["spacial_graph"] = inst["spacial_graph"].clone();
        v["dependency_graph"] = inst["dependency_graph"].clone();
        v
    }, judge);
    // without perturbation, larger problems that reach the real synchronisation interval
    let n = run.ctx().cases(200, 8000);
    run.group("larger", n, 0.2, 1, |c, r, i| {
        let mut v = gen_case(8, 10, 3_000_000, 2, i % 2 == 0)(c, r, i);
        let mut p = Plan { p_sync: 0., p_delay: 0., ..Plan::from_json(&v["plan"]) };
        if r.chance(0.3) {
            p.p_sync = 0.02;
        }
        v["plan"] = p.json();
        v
    }, judge);
    run.finish();
}
