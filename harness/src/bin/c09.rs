//! C09: identical runs return identical paths, in this process and in others; different
//! seeds lead to different decisions.
use std::process::Command;

use serde_json::{json, Value};
use vh::{
    ensure, gen,
    model::{self, Inst},
    modes::{affordable, case, digest, paths_json, Func, Mode},
    run::{calm, Ctx, Fail, Obs, Runner},
};

fn digests(cases: &[Value]) -> Result<Vec<u64>, Fail> {
    let mut out = Vec::new();
    for c in cases {
        let inst = Inst::from_json(c);
        let mode = Mode::from_json(&c["mode"]);
        out.push(digest(&calm("run", || mode.call(&inst))?));
    }
    Ok(out)
}

fn batch(ctx: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let cases = v["cases"].as_array().unwrap();
    let first = digests(cases)?;
    let again = digests(cases)?;
    for (i, c) in cases.iter().enumerate() {
        ensure!(
            first[i] == again[i],
            "two runs in one process differ: {} then {} for {c}",
            first[i], again[i]
        );
        let inst = Inst::from_json(c);
        let mode = Mode::from_json(&c["mode"]);
        // with fewer than two threads, how many does not matter
        let other = Mode { nthreads: 1 - mode.nthreads, ..mode.clone() };
        let a = calm("run", || mode.call(&inst))?;
        let b = calm("run", || other.call(&inst))?;
        ensure!(paths_json(&a) == paths_json(&b), "0 and 1 threads differ: {a:?} and {b:?} for {c}");
        if !a.is_empty() {
            obs.nontrivial(inst.hash() ^ model::fnv(mode.json().to_string().as_bytes()));
        }
        obs.count("runs", 4);
        obs.count(&format!("cases_{}", mode.label()), 1);
    }
    let name = ctx.scratch.join(format!("c09-{}-{:x}", std::process::id(), model::fnv(v.to_string().as_bytes())));
    std::fs::write(&name, serde_json::to_vec(cases).unwrap()).unwrap();
    for round in 0..2 {
        let out = Command::new(std::env::current_exe().unwrap())
            .env("VH_CHILD", &name)
            .env(format!("PADDING_{round}"), "x".repeat(round * 1000))
            .output()
            .unwrap();
        if !out.status.success() {
            return Err(Fail::Inconclusive(format!("child process: {}", out.status)));
        }
        let other: Vec<u64> = serde_json::from_slice(&out.stdout).unwrap();
        obs.count("child_processes", 1);
        for (i, c) in cases.iter().enumerate() {
            ensure!(first[i] == other[i], "a run in another process differs for {c}");
        }
    }
    std::fs::remove_file(&name).ok();
    obs.sample = Some(json!({"cases": cases.len(), "first": cases[0]["mode"]}));
    Ok(())
}

/// Among many seeds, that differ in any bit, results have to differ somewhere.
fn seeds(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let base = v["seed"].as_u64().unwrap();
    let trace = |seed: u64| -> Result<u64, Fail> {
        let log = std::sync::Arc::new(std::sync::Mutex::new(0u64));
        let l = log.clone();
        let f = move |a: f64, b: f64, c: f64, d: f64, e: f64, g: f64, h: f64| {
            let mut l = l.lock().unwrap();
            for x in [a, b, c, d, e, g, h] {
                *l = (*l ^ x.to_bits()).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
            }
            0.5
        };
        calm("run", || {
            mbqc_scheduling::interface::run(
                &inst.adj, &inst.order, true, None, 1, None,
                Some((mbqc_scheduling::probabilistic::AcceptFunc::Custom(Box::new(f)), Some(seed))),
            )
        })?;
        let t = *log.lock().unwrap();
        Ok(t)
    };
    let zero = trace(base)?;
    ensure!(zero == trace(base)?, "the same seed gives different decisions");
    // the trace of decisions has far more than 64 bits: equal traces mean the bit is ignored
    let mut known = std::collections::HashMap::from([(zero, base)]);
    let mut tried = std::collections::HashSet::from([base]);
    let related = [
        !base,
        base.wrapping_neg(),
        base.swap_bytes(),
        base.reverse_bits(),
        base.rotate_left(32),
        base.rotate_left(1),
        base >> 1,
        base << 1,
        base >> 32,
        base << 32,
        base as u32 as u64,
        base as f64 as u64,
        base.wrapping_add(1),
        base.wrapping_sub(1),
    ];
    for other in (0..64).map(|b| base ^ (1 << b)).chain(related).chain(0..16).chain((1..16).map(u64::wrapping_neg)) {
        if tried.insert(other) {
            if let Some(s) = known.insert(trace(other)?, other) {
                return Err(Fail::Violation(format!("seeds {s} and {other} decide the same")));
            }
        }
    }
    obs.count("seed_bits", 64);
    obs.count("seeds", tried.len() as u64);
    obs.nontrivial(inst.hash() ^ base);
    Ok(())
}

fn main() {
    if let Ok(path) = std::env::var("VH_CHILD") {
        let cases: Vec<Value> = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
        match digests(&cases) {
            Ok(d) => println!("{}", serde_json::to_string(&d).unwrap()),
            Err(_) => std::process::exit(1),
        }
        return;
    }
    let mut run = Runner::new();
    let n = run.ctx().cases(96, 4000);
    run.group("batches", n, 0.7, 8, |_, r, _| {
        let cases: Vec<Value> = (0..40)
            .map(|k| {
                let inst = if k % 2 == 0 {
                    affordable(r, 2, 9, 60_000, gen::inst)
                } else {
                    affordable(r, 4, 9, 60_000, gen::wide_inst)
                };
                let mut m = Mode { nthreads: r.below(2) as u16, ..Mode::SEARCH };
                m.do_search = !r.chance(0.1);
                m.task_bound = *r.pick(&[None, Some(0), Some(3)]);
                if r.chance(0.75) {
                    let f = match r.below(4) {
                        0 => Func::Builtin,
                        1 => Func::random(r),
                        _ => Func::Const(*r.pick(&[0.2, 0.5, 0.8, 0.95])),
                    };
                    m.prob = Some((f, Some(r.next() >> r.below(64))));
                }
                case(&inst, &m)
            })
            .collect();
        json!({"cases": cases})
    }, batch);
    let n = run.ctx().cases(24, 400);
    run.group("seeds", n, 0.3, 8, |_, r, _| {
        // about 2^8 first-layer decisions, so that equal traces cannot be chance
        let n = r.range(7, 8);
        let inst = Inst {
            adj: vec![Vec::new(); n],
            order: vec![(0..n).map(|i| (i, vec![])).collect()],
        };
        let mut v = inst.json();
        v["seed"] = json!(if r.chance(0.3) { r.below(3) as u64 } else { r.next() });
        v
    }, seeds);
    run.finish();
}
