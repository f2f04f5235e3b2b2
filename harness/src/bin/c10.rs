//! C10: what a custom accept function is told. For one thread the recorded calls are
//! compared with the calls of an independent restatement of the search; for several
//! threads every call has to be one of the reachable transitions with plausible minima.
use std::{
    collections::{BTreeMap, HashMap, HashSet},
    sync::{Arc, Mutex},
    time::Duration,
};

use mbqc_scheduling::{interface, probabilistic::AcceptFunc};
use serde_json::{json, Value};
use vh::{
    ensure, gen,
    hooks::{self, Plan},
    model::{self, Bits, Inst},
    modes::{affordable, case, hash_accept, pairs, Func, Mode},
    run::{calm, Ctx, Fail, Obs, Runner},
    sim,
};

type Calls = Vec<[f64; 7]>;

fn record(inst: &Inst, mode: &Mode) -> Result<(Vec<(usize, usize)>, Calls), Fail> {
    let log: Arc<Mutex<Calls>> = Arc::default();
    let (func, seed) = mode.prob.clone().unwrap();
    let f = func.build().get_accept_func();
    let l = log.clone();
    let wrapped = move |a: f64, b: f64, c: f64, d: f64, e: f64, g: f64, h: f64| {
        l.lock().unwrap().push([a, b, c, d, e, g, h]);
        f(a, b, c, d, e, g, h)
    };
    let paths = calm("run", || {
        interface::run(
            &inst.adj,
            &inst.order,
            true,
            mode.timeout_us.map(Duration::from_micros),
            mode.nthreads,
            mode.task_bound,
            Some((AcceptFunc::Custom(Box::new(wrapped)), seed)),
        )
    })?;
    let calls = std::mem::take(&mut *log.lock().unwrap());
    Ok((pairs(&paths), calls))
}

const NAMES: [&str; 7] = [
    "bound_best_mem", "minimal_mem", "last_max_mem", "last_cur_mem", "cur_mem",
    "num_remaining_nodes", "num_total_nodes",
];

fn single(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let Some((Func::Hash { salt, p }, _)) = mode.prob else { panic!("case") };
    let Some(want) = sim::search(&inst, 3_000_000, |a| {
        hash_accept(salt, p, sim::to_f64(a)) >= 1.
    }) else {
        return Err(Fail::Inconclusive("too long for the restated search".into()));
    };
    let (_, calls) = record(&inst, &mode)?;
    for (i, (got, exp)) in calls.iter().zip(&want.calls).enumerate() {
        let exp = sim::to_f64(*exp);
        for k in 0..7 {
            ensure!(
                got[k] == exp[k],
                "call {i}: {} is {}, should be {}; all arguments {got:?}, should be {exp:?}",
                NAMES[k], got[k], exp[k]
            );
        }
    }
    ensure!(
        calls.len() == want.calls.len(),
        "{} accept decisions instead of {}", calls.len(), want.calls.len()
    );
    obs.count("calls_checked", calls.len() as u64);
    obs.count("calls_with_known_minimum", calls.iter().filter(|c| c[1] < 1e15).count() as u64);
    obs.count("calls_where_minima_differ", calls.iter().filter(|c| c[0] != c[1]).count() as u64);
    if calls.iter().any(|c| c[0] != c[1]) || (calls.len() >= 5 && calls[calls.len() - 1][1] < 1e15) {
        obs.nontrivial(inst.hash() ^ salt);
        obs.sample = Some(json!({"first_calls": &want.calls[..want.calls.len().min(4)]}));
    }
    Ok(())
}

/// All (last_max, last_cur, cur, remaining) of reachable transitions, with the bounds on
/// the lengths at which they can happen.
fn transitions(inst: &Inst) -> HashMap<[u64; 4], HashSet<usize>> {
    let bits = Bits::new(inst);
    let mut out: HashMap<[u64; 4], HashSet<usize>> = HashMap::new();
    let mut seen = HashSet::from([(0 as model::Mask, 0usize, 0usize)]);
    let mut todo = vec![(0 as model::Mask, 0usize, 0usize)];
    while let Some((m, peak, len)) = todo.pop() {
        let free = bits.measurable(m);
        let mut s = free;
        while s != 0 {
            let now = m | s;
            let new_peak = peak.max(bits.peak(m, s));
            let rest = bits.all & !now;
            let least =
                len + 1 + if rest == 0 { 0 } else if rest & !bits.measurable(now) == 0 { 1 } else { 2 };
            let last_cur = bits.in_memory(m) as u64;
            out.entry([peak as u64, last_cur, bits.in_memory(now) as u64, rest.count_ones() as u64])
                .or_default()
                .insert(least);
            if seen.insert((now, new_peak, len + 1)) {
                todo.push((now, new_peak, len + 1));
            }
            s = (s - 1) & free;
        }
    }
    out
}

fn threaded(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let plan = Plan::from_json(&v["plan"]);
    let legal = transitions(&inst);
    let Some(per_time) = model::least_space_per_time(&inst, 20_000_000) else {
        return Err(Fail::Inconclusive("too many patterns for the oracle".into()));
    };
    // least possible space with at most t steps
    let least: BTreeMap<usize, usize> = per_time
        .keys()
        .map(|t| (*t, *per_time.range(..=*t).map(|(_, s)| s).min().unwrap()))
        .collect();
    let (res, _) = hooks::planned(plan, || record(&inst, &mode));
    let (front, calls) = res?;
    for (i, c) in calls.iter().enumerate() {
        let key = [c[2] as u64, c[3] as u64, c[4] as u64, c[5] as u64];
        let Some(lens) = legal.get(&key) else {
            ensure!(
                false,
                "call {i}: no step of any pattern has last_max_mem {}, last_cur_mem {}, cur_mem {} and {} \
                 nodes left", c[2], c[3], c[4], c[5]
            );
            unreachable!()
        };
        ensure!(c[6] == inst.n() as f64, "call {i}: {} nodes in total", c[6]);
        ensure!(
            c[0] >= c[1],
            "call {i}: bound_best_mem {} is less than minimal_mem {}", c[0], c[1]
        );
        for x in [c[0], c[1]] {
            ensure!(
                x == usize::MAX as f64 || (x.fract() == 0. && x >= 0. && x <= inst.n() as f64),
                "call {i}: {x} is neither a memory nor unknown"
            );
        }
        if c[1] < 1e15 {
            obs.count("threaded_calls_with_known_minimum", 1);
            let best = *least.values().min().unwrap();
            ensure!(c[1] >= best as f64, "call {i}: minimal_mem {}, but no pattern needs less than {best}", c[1]);
            ensure!(
                front.iter().any(|(_, s)| *s as f64 <= c[1]),
                "call {i}: minimal_mem {} was never found: {front:?}", c[1]
            );
        }
        if c[0] < 1e15 {
            let ok = lens.iter().any(|l| least.range(..=*l).next_back().is_some_and(|(_, s)| *s as f64 <= c[0]));
            ensure!(ok, "call {i}: bound_best_mem {} cannot have been found for so short a path", c[0]);
        }
    }
    obs.count("threaded_calls_checked", calls.len() as u64);
    if calls.iter().any(|c| c[1] < 1e15) {
        obs.nontrivial(inst.hash() ^ model::fnv(mode.json().to_string().as_bytes()));
    }
    Ok(())
}

fn main() {
    let mut run = Runner::new();
    let n = run.ctx().cases(8000, 300_000);
    run.group("single", n, 0.4, 8, |_, r, i| {
        let inst = if i % 3 == 0 {
            affordable(r, 1, 10, 60_000, gen::inst)
        } else {
            affordable(r, 3, 9, 60_000, gen::wide_inst)
        };
        let mut m = Mode { nthreads: r.below(2) as u16, ..Mode::SEARCH };
        let p = *r.pick(&[0.3, 0.6, 0.8, 0.95, 1.]);
        m.prob = Some((Func::Hash { salt: r.next(), p }, r.chance(0.5).then(|| r.next())));
        case(&inst, &m)
    }, single);
    let n = run.ctx().cases(1000, 50_000);
    run.group("long", n, 0.2, 8, |_, r, _| {
        let hi = *r.pick(&[20, 40, 70, 128]);
        let inst = gen::long_inst(r, 11, hi, 20_000);
        let mut m = Mode { nthreads: r.below(2) as u16, ..Mode::SEARCH };
        let p = *r.pick(&[0.9, 0.97, 1.]);
        m.prob = Some((Func::Hash { salt: r.next(), p }, r.chance(0.5).then(|| r.next())));
        case(&inst, &m)
    }, single);
    let n = run.ctx().cases(1200, 50_000);
    run.group("threaded", n, 0.4, 1, |_, r, _| {
        let inst = affordable(r, 3, 7, 5000, gen::wide_inst);
        let mut m = Mode::random(r, true);
        m.do_search = true;
        m.nthreads = *r.pick(&[2, 3, 4]);
        let f = match r.below(3) {
            0 => Func::Const(0.8),
            1 => Func::Builtin,
            _ => Func::Hash { salt: r.next(), p: 0.85 },
        };
        m.prob = Some((f, Some(r.next())));
        let mut v = case(&inst, &m);
        let mut p = Plan::random(r);
        p.p_sync = p.p_sync.max(0.1);
        v["plan"] = p.json();
        v
    }, threaded);
    run.finish();
}
