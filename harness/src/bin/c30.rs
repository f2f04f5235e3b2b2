//! C30: a search works on as many tasks at the same time as it was given threads, never on
//! more, and without threads on the calling one only.
use std::{
    collections::HashSet,
    sync::{Arc, Condvar, Mutex},
    thread::{self, ThreadId},
    time::{Duration, Instant},
};

use mbqc_scheduling::{interface, probabilistic::AcceptFunc};
use serde_json::{json, Value};
use vh::{
    ensure, gen,
    model::{self, Inst},
    modes::affordable,
    rng::Rng,
    run::{calm, Ctx, Fail, Obs, Runner},
};

/// Far above any delay of a loaded machine.
const PATIENCE: Duration = Duration::from_secs(15);

#[derive(Default)]
struct Seen {
    all: HashSet<ThreadId>,
    inside: usize,
    most: usize,
    open: bool,
    calls: u64,
}

/// Every call waits until `want` of them are in progress.
fn meet(inst: &Inst, n: u16, bound: Option<u32>, want: usize, late: Option<Duration>) -> Result<(Seen, bool), Fail> {
    let shared = Arc::new((Mutex::new(Seen::default()), Condvar::new()));
    let s = shared.clone();
    let start = Instant::now();
    calm("run", || {
        interface::run(
            &inst.adj, &inst.order, true, late, n, bound,
            Some((
                AcceptFunc::Custom(Box::new(move |_, _, _, _, _, _, _| {
                    let (lock, cond) = &*s;
                    let mut seen = lock.lock().unwrap();
                    seen.calls += 1;
                    seen.all.insert(thread::current().id());
                    seen.inside += 1;
                    seen.most = seen.most.max(seen.inside);
                    if seen.inside >= want {
                        seen.open = true;
                        cond.notify_all();
                        // would there be one more?
                        if seen.most == want {
                            seen = cond.wait_timeout(seen, Duration::from_millis(3)).unwrap().0;
                        }
                    }
                    while !seen.open && start.elapsed() < PATIENCE {
                        seen = cond.wait_timeout(seen, Duration::from_secs(1)).unwrap().0;
                    }
                    seen.open = true;
                    cond.notify_all();
                    seen.inside -= 1;
                    0.
                })),
                Some(1),
            )),
        )
    })?;
    let seen = std::mem::take(&mut *shared.0.lock().unwrap());
    Ok((seen, start.elapsed() < PATIENCE))
}

fn together(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let n = v["nthreads"].as_u64().unwrap() as u16;
    let bound = v["bound"].as_u64().map(|b| b as u32);
    let late = v["timeout"].as_u64().map(Duration::from_secs);
    // one thread may be the calling one, that only waits
    let least = n as usize - 1;
    let mut tries = 0;
    let seen = loop {
        tries += 1;
        // who waits for all of them would miss that one less is in order
        let (seen, fast) = meet(&inst, n, bound, n as usize, late)?;
        if fast || seen.most >= least || tries == 2 {
            break seen;
        }
    };
    ensure!(
        seen.most >= least,
        "{n} threads, {} tasks with steps to decide upon: only {} at the same time within {PATIENCE:?}",
        bound.map_or("all".into(), |b| b.to_string()), seen.most
    );
    ensure!(seen.all.len() <= n as usize, "{} threads worked instead of {n}", seen.all.len());
    obs.count("calls", seen.calls);
    obs.max("most_at_the_same_time", seen.most as u64);
    obs.count("met", (seen.most == n as usize) as u64);
    obs.distinct("nthreads", n as u64);
    obs.nontrivial(inst.hash() ^ model::fnv(v.to_string().as_bytes()));
    Ok(())
}

fn alone(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let seen = Arc::new(Mutex::new(Vec::new()));
    let s = seen.clone();
    let me = thread::current().id();
    calm("run", || {
        interface::run(
            &inst.adj, &inst.order, v["search"] == true, v["timeout"].as_u64().map(Duration::from_secs),
            v["nthreads"].as_u64().unwrap() as u16, v["bound"].as_u64().map(|b| b as u32),
            Some((
                AcceptFunc::Custom(Box::new(move |_, _, _, _, _, _, _| {
                    s.lock().unwrap().push(thread::current().id());
                    0.7
                })),
                Some(v["seed"].as_u64().unwrap()),
            )),
        )
    })?;
    let seen = seen.lock().unwrap();
    ensure!(seen.iter().all(|t| *t == me), "{} of {} calls came from other threads than the calling one",
        seen.iter().filter(|t| **t != me).count(), seen.len());
    obs.count("calls_alone", seen.len() as u64);
    if seen.len() > 1 {
        obs.nontrivial(inst.hash() ^ model::fnv(v.to_string().as_bytes()));
    }
    Ok(())
}

/// Many first steps, all of which need less memory than the first one.
fn problem(r: &mut Rng) -> Inst {
    let first = r.range(5, 7);
    let more = r.below(4);
    let n = first + more;
    let mut order = vec![(0..first).map(|i| (i, vec![])).collect::<Vec<_>>()];
    if more > 0 {
        // needs all of the first layer, so that nothing ends early
        order.push((first..n).map(|i| (i, (0..first).collect())).collect());
    }
    Inst { adj: vec![Vec::new(); n], order }
}

fn main() {
    let mut run = Runner::new();
    let n = run.ctx().cases(300, 6000);
    run.group("together", n, 0.6, 4, |_, r, i| {
        let inst = problem(r);
        let n = if i % 40 == 39 { r.range(17, 30) } else { r.range(2, 16) };
        let mut v = inst.json();
        v["nthreads"] = json!(n);
        v["bound"] = match r.below(3) {
            0 => json!(null),
            1 => json!(n + 1 + r.below(5)),
            _ => json!(r.range(31, 200)),
        };
        v["timeout"] = if r.chance(0.3) { json!(3600) } else { json!(null) };
        v
    }, together);
    // as many as a large machine has, and numbers that do not fit into a byte
    let n = run.ctx().cases(10, 60);
    run.group("crowd", n, 0.6, 2, |_, r, _| {
        let inst = Inst { adj: vec![Vec::new(); 10], order: vec![(0..10).map(|i| (i, vec![])).collect()] };
        let n = *r.pick(&[33, 65, 100, 129, 200, 257, 300]);
        let mut v = inst.json();
        v["nthreads"] = json!(n);
        v["bound"] = if r.chance(0.5) { json!(null) } else { json!(n + 1 + r.below(500)) };
        v["timeout"] = json!(null);
        v
    }, together);
    let n = run.ctx().cases(1000, 20_000);
    run.group("alone", n, 0.3, 8, |_, r, _| {
        let inst = affordable(r, 3, 7, 5_000, gen::inst);
        let mut v = inst.json();
        v["search"] = json!(!r.chance(0.1));
        v["nthreads"] = json!(r.below(2));
        v["bound"] = if r.chance(0.5) { json!(r.below(9)) } else { json!(null) };
        v["timeout"] = if r.chance(0.3) { json!(3600) } else { json!(null) };
        v["seed"] = json!(r.next() >> 1);
        v
    }, alone);
    run.finish();
}
