//! C23: transcripts of deterministic runs and of instructed schedulers, to be compared
//! between builds by the driver (VH_DUMP).
use std::{io::Write, sync::Mutex};

use mbqc_scheduling::scheduler::{
    space::Graph,
    time::{DependencyBuffer, MeasurableSet, Partitioner, PathGenerator},
    tree::{Focus, Step, Sweep},
    Scheduler,
};
use serde_json::{json, Value};
use vh::{
    gen,
    model::{self, Inst},
    modes::{affordable, case, pairs, Func, Mode},
    rng::Rng,
    run::{guarded, Ctx, Fail, Obs, Runner},
};

static DUMP: Mutex<Option<std::fs::File>> = Mutex::new(None);

fn dump(group: &str, v: &Value, transcript: String) {
    let hash = model::fnv(transcript.as_bytes());
    let mut d = DUMP.lock().unwrap();
    let f = d.get_or_insert_with(|| {
        std::fs::File::create(std::env::var("VH_DUMP").expect("VH_DUMP")).unwrap()
    });
    let short: String = transcript.chars().take(800).collect();
    let rec = json!({"group": group, "case": v, "hash": format!("{hash:x}"), "transcript": short});
    let mut line = serde_json::to_vec(&rec).unwrap();
    line.push(b'\n');
    f.write_all(&line).unwrap();
}

fn runs(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let t = match guarded(|| mode.call(&inst)) {
        Ok(p) if mode.nthreads < 2 || !mode.do_search => format!("{p:?}"),
        Ok(p) => format!("{:?}", pairs(&p)),
        Err(_) => "panic".to_string(),
    };
    let panicked = t.starts_with("panic");
    dump("runs", v, t);
    obs.count("runs", 1);
    obs.count("runs_that_panicked", panicked as u64);
    obs.count(&format!("mode_{}", mode.label()), 1);
    if inst.num_deps() > 0 {
        obs.nontrivial(inst.hash() ^ model::fnv(mode.json().to_string().as_bytes()));
    }
    Ok(())
}

fn seen<T: MeasurableSet>(s: &Scheduler<T>) -> String {
    let (t, g) = (s.time(), s.space());
    format!(
        "{:?} {} {} {} {} {:?}",
        t.measurable().set(), t.num_remaining_nodes(), t.has_unmeasureable(), g.current_memory(), g.max_memory(),
        g.nodes().iter().map(|n| n.0).collect::<Vec<_>>()
    )
}

fn walk<T: MeasurableSet + Clone>(inst: &Inst, seed: u64, mut s: Scheduler<T>, out: &mut String) -> u64 {
    let mut r = Rng::new(seed);
    let n = inst.n();
    let mut k = 0;
    for _ in 0..3 * n + 8 {
        let mut free = s.time().measurable().set().to_vec();
        free.sort();
        r.shuffle(&mut free);
        let keep = if free.is_empty() { 0 } else { r.range(1, free.len()) };
        let mut set = free[..keep].to_vec();
        match r.below(8) {
            0 => set = (0..r.range(0, n + 2)).map(|_| r.below(n + 2)).collect(),
            1 if !set.is_empty() => set.push(*r.pick(&set.clone())),
            2 => set.push(r.below(n + 1)),
            _ => {},
        }
        let res = if r.chance(0.5) {
            match s.focus(&set) {
                Ok(new) => {
                    *out += &format!("| {}", seen(&s));
                    s = new;
                    Ok(())
                },
                Err(e) => Err(e),
            }
        } else {
            s.focus_inplace(&set)
        };
        *out += &format!("{set:?} {res:?} {}; ", seen(&s));
        k += 1;
    }
    k
}

fn manual(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let seed = v["seed"].as_u64().unwrap();
    let mut out = String::new();
    let mut steps = 0;
    let res = guarded(|| {
        let (mut b1, mut b2, mut b3) =
            (DependencyBuffer::new(inst.n()), DependencyBuffer::new(inst.n()), DependencyBuffer::new(inst.n()));
        let g1 = PathGenerator::<Vec<usize>>::from_dependency_graph(&inst.order, &mut b1, None);
        let g2 = PathGenerator::<Partitioner>::from_dependency_graph(&inst.order, &mut b2, None);
        let g3 = PathGenerator::<Partitioner>::from_dependency_graph(&inst.order, &mut b3, None);
        steps += walk(&inst, seed, Scheduler::new(g1, Graph::new(&inst.adj)), &mut out);
        steps += walk(&inst, seed, Scheduler::new(g2, Graph::new(&inst.adj)), &mut out);
        let mut sweep = Sweep::new(Scheduler::new(g3, Graph::new(&inst.adj)));
        for _ in 0..300 {
            let Some(s) = sweep.next() else { break };
            match s {
                Step::Forward(f) => out += &format!("+{f:?} {} ", seen(sweep.current())),
                Step::Backward(b) => out += &format!("-{b:?} {} ", seen(sweep.current())),
            }
            steps += 1;
        }
    });
    if res.is_err() {
        out += "panic";
        obs.count("walks_that_panicked", 1);
    }
    dump("manual", v, out);
    obs.count("instructions_and_sweep_steps", steps);
    obs.nontrivial(inst.hash() ^ seed);
    Ok(())
}

fn main() {
    let mut run = Runner::new();
    let n = run.ctx().cases(4000, 120_000);
    run.group("runs", n, 0.5, 8, |_, r, i| {
        let inst = match i % 3 {
            0 => affordable(r, 0, 9, 20_000, gen::inst),
            1 => affordable(r, 3, 8, 20_000, gen::wide_inst),
            _ => gen::inst(r, 1, 40),
        };
        let mut m = Mode { nthreads: *r.pick(&[0, 1, 1, 1, 2, 4]), task_bound: *r.pick(&[None, Some(0), Some(3)]), ..Mode::SEARCH };
        m.do_search = i % 3 != 2;
        if m.nthreads < 2 && r.chance(0.5) {
            let f = if r.chance(0.5) {
                Func::Hash { salt: r.next(), p: *r.pick(&[0.3, 0.7, 0.95]) }
            } else {
                Func::Const(*r.pick(&[0.2, 0.6, 0.9, 1.]))
            };
            m.prob = Some((f, Some(r.next())));
        }
        case(&inst, &m)
    }, runs);
    let n = run.ctx().cases(8000, 300_000);
    run.group("manual", n, 0.5, 8, |_, r, _| {
        let hi = *r.pick(&[4, 8, 12, 24]);
        let mut v = gen::inst(r, 0, hi).json();
        v["seed"] = json!(r.next());
        v
    }, manual);
    run.finish();
}
