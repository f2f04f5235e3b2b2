//! C13: a sweep visits every valid pattern exactly once, in properly nested steps; skipping
//! a node omits exactly what is below it.
use std::collections::{HashMap, HashSet};

use mbqc_scheduling::scheduler::{
    space::Graph,
    time::{DependencyBuffer, MeasurableSet, Partitioner, PathGenerator},
    tree::{Focus, FocusIterator, Step, Sweep},
    Scheduler,
};
use serde_json::{json, Value};
use vh::{
    ensure, gen,
    model::{self, Bits, Inst, Mask},
    modes::affordable,
    rng::Rng,
    run::{calm, Ctx, Fail, Obs, Runner},
};

/// What can be seen of a swept state.
trait View: FocusIterator<IterItem = Vec<usize>> + Sized {
    /// The leaf item has to be this (`None`: nothing but "is a leaf").
    fn leaf(item: &Self::LeafItem) -> Option<usize>;
    fn measurable(&self) -> Vec<usize>;
    fn blocked(&self) -> bool;
    fn memory(&self) -> Option<(usize, usize)>;
}

impl View for PathGenerator<'_, Partitioner> {
    fn leaf(_: &()) -> Option<usize> {
        None
    }
    fn measurable(&self) -> Vec<usize> {
        self.measurable().set().to_vec()
    }
    fn blocked(&self) -> bool {
        self.has_unmeasureable()
    }
    fn memory(&self) -> Option<(usize, usize)> {
        None
    }
}

impl View for Scheduler<'_, Partitioner> {
    fn leaf(item: &usize) -> Option<usize> {
        Some(*item)
    }
    fn measurable(&self) -> Vec<usize> {
        self.time().measurable().set().to_vec()
    }
    fn blocked(&self) -> bool {
        self.time().has_unmeasureable()
    }
    fn memory(&self) -> Option<(usize, usize)> {
        Some((self.space().current_memory(), self.space().max_memory()))
    }
}

fn skipped(salt: u64, p: f64, masks: &[Mask]) -> bool {
    let mut h = salt;
    for m in masks {
        h = (h ^ *m as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(31);
    }
    Rng::new(h).unit() < p
}

fn state_is<T: View>(inst: &Inst, bits: &Bits, s: &T, path: &[Vec<usize>], what: &str) -> Result<(), Fail> {
    let done = path.iter().fold(0, |m, s| m | model::mask(s));
    let here = s.measurable();
    ensure!(
        model::mask(&here) == bits.measurable(done) && here.len() == bits.measurable(done).count_ones() as usize,
        "{what}: after {path:?} measurable is {here:?}, expected {:b}", bits.measurable(done)
    );
    let blocked = bits.all & !done & !bits.measurable(done) != 0;
    ensure!(s.blocked() == blocked, "{what}: has_unmeasureable is {} after {path:?}", s.blocked());
    if let Some((now, max)) = s.memory() {
        let c = model::costs(&inst.adj, path);
        let want = (c.last().map_or(0, |c| c.after), c.iter().map(|c| c.peak).max().unwrap_or(0));
        ensure!((now, max) == want, "{what}: memory {:?} after {path:?}, expected {want:?}", (now, max));
    }
    Ok(())
}

/// Sweep to the end, or for `limit` items.
fn sweep<T: View>(
    inst: &Inst,
    start: T,
    prefix: &[Vec<usize>],
    skip: Option<(u64, f64)>,
    limit: usize,
    what: &str,
    obs: &mut Obs,
) -> Result<Option<HashMap<Vec<Mask>, usize>>, Fail> {
    let bits = Bits::new(inst);
    let mut sweep = Sweep::new(start);
    let mut path = prefix.to_vec();
    let mut masks: Vec<Mask> = prefix.iter().map(|s| model::mask(s)).collect();
    let base = prefix.len();
    let mut found: HashMap<Vec<Mask>, usize> = HashMap::new();
    let mut seen: HashSet<Vec<Mask>> = HashSet::new();
    let (mut forward, mut backward, mut skips) = (0u64, 0u64, 0u64);
    state_is(inst, &bits, sweep.current(), &path, what)?;
    let mut ended = false;
    for _ in 0..limit {
        match calm(what, || sweep.next())? {
            None => {
                ended = true;
                break;
            },
            Some(Step::Forward(set)) => {
                forward += 1;
                path.push(set.clone());
                masks.push(model::mask(&set));
                model::check_prefix(inst, &path).map_err(|e| Fail::Violation(format!("{what}: {e} in {path:?}")))?;
                ensure!(seen.insert(masks.clone()), "{what}: {path:?} is visited twice");
                ensure!(sweep.stack().len() + base == path.len(), "{what}: stack of {} states at {path:?}", sweep.stack().len());
                state_is(inst, &bits, sweep.current(), &path, what)?;
                if let Some((salt, p)) = skip {
                    if skipped(salt, p, &masks) {
                        skips += 1;
                        ensure!(sweep.skip_current().is_ok(), "{what}: skipping {path:?} fails");
                        path.pop();
                        masks.pop();
                        state_is(inst, &bits, sweep.current(), &path, &format!("{what} after skipping"))?;
                    }
                }
            },
            Some(Step::Backward(leaf)) => {
                backward += 1;
                ensure!(path.len() > base, "{what}: a step back from the start");
                let done = masks.iter().fold(0, |m, s| m | s);
                ensure!(
                    leaf.is_some() == (done == bits.all),
                    "{what}: leaf reported: {}, at {path:?}", leaf.is_some()
                );
                if let Some(item) = leaf {
                    if let Some(space) = T::leaf(&item) {
                        let want = model::space(&inst.adj, &path);
                        ensure!(space == want, "{what}: leaf {path:?} has memory {space}, expected {want}");
                    }
                    *found.entry(masks.clone()).or_default() += 1;
                }
                path.pop();
                masks.pop();
                ensure!(sweep.stack().len() + base == path.len(), "{what}: stack of {} states at {path:?}", sweep.stack().len());
            },
        }
    }
    obs.count("forward_steps", forward);
    obs.count("backward_steps", backward);
    obs.count("skips", skips);
    obs.count("complete_branches", found.len() as u64);
    if !ended {
        return Ok(None);
    }
    ensure!(path.len() == base, "{what}: the sweep ends at {path:?}");
    ensure!(forward == backward + skips, "{what}: {forward} forward, {backward} backward steps, {skips} skips");
    ensure!(sweep.next().is_none(), "{what}: the sweep goes on after its end");
    ensure!(sweep.skip_current().is_err(), "{what}: skipping the start succeeds");
    Ok(Some(found))
}

fn both(inst: &Inst, prefix: &[Vec<usize>], skip: Option<(u64, f64)>, limit: usize, obs: &mut Obs) -> Result<Vec<Option<HashMap<Vec<Mask>, usize>>>, Fail> {
    let mut b1 = DependencyBuffer::new(inst.n());
    let mut b2 = DependencyBuffer::new(inst.n());
    let time = calm("creation", || PathGenerator::<Partitioner>::from_dependency_graph(&inst.order, &mut b1, None))?;
    let gen = calm("creation", || PathGenerator::<Partitioner>::from_dependency_graph(&inst.order, &mut b2, None))?;
    let mut sched = Scheduler::new(time, Graph::new(&inst.adj));
    let mut gen = gen;
    for (i, step) in prefix.iter().enumerate() {
        // as after choosing the beginning by hand, and after a look ahead
        if i % 2 == 0 {
            let s = calm("focus_inplace", || (sched.focus_inplace(step).is_ok(), gen.focus_inplace(step).is_ok()))?;
            ensure!(s == (true, true), "choosing {step:?} of {prefix:?} fails");
        } else {
            calm("next_and_focus", || (sched.next_and_focus().is_some(), gen.next_and_focus().is_some()))?;
            let (Ok(s), Ok(g)) = calm("focus", || (sched.focus(step), gen.focus(step)))? else {
                return Err(Fail::Violation(format!("choosing {step:?} of {prefix:?} fails")));
            };
            (sched, gen) = (s, g);
        }
    }
    Ok(vec![
        sweep(inst, sched, prefix, skip, limit, "Scheduler", obs)?,
        sweep(inst, gen, prefix, skip, limit, "PathGenerator", obs)?,
    ])
}

/// Some valid beginning.
fn begin(inst: &Inst, v: &Value) -> Vec<Vec<usize>> {
    let mut prefix = Vec::new();
    let Some(p) = v["prefix"].as_array() else { return prefix };
    let bits = Bits::new(inst);
    let mut r = Rng::new(p[0].as_u64().unwrap());
    let mut done = 0;
    for _ in 0..p[1].as_u64().unwrap() {
        let free = bits.measurable(done);
        let mut step: Vec<usize> = (0..inst.n()).filter(|i| free >> i & 1 == 1 && r.chance(0.4)).collect();
        r.shuffle(&mut step);
        if step.is_empty() {
            break;
        }
        done |= model::mask(&step);
        prefix.push(step);
    }
    prefix
}

fn complete(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let skip = v["skip"].as_array().map(|s| (s[0].as_u64().unwrap(), s[1].as_f64().unwrap()));
    let Some(all) = model::all_patterns(&inst, 200_000) else {
        return Err(Fail::Inconclusive("too many patterns".into()));
    };
    let prefix = begin(&inst, v);
    let pm: Vec<Mask> = prefix.iter().map(|s| model::mask(s)).collect();
    let expected: HashSet<Vec<Mask>> = all
        .into_iter()
        .filter(|p| p.starts_with(&pm))
        .filter(|p| match skip {
            Some((salt, q)) => !(pm.len() + 1..=p.len()).any(|k| skipped(salt, q, &p[..k])),
            None => true,
        })
        // a sweep over nothing has no branch
        .filter(|p| p.len() > pm.len())
        .collect();
    for (found, what) in both(&inst, &prefix, skip, usize::MAX, obs)?.into_iter().zip(["Scheduler", "PathGenerator"]) {
        let found = found.unwrap();
        for (p, k) in &found {
            ensure!(*k == 1, "{what}: {p:?} (as masks) is visited {k} times");
            ensure!(expected.contains(p), "{what}: {p:?} (as masks) is visited, but should not");
        }
        if found.len() != expected.len() {
            let missing = expected.iter().find(|p| !found.contains_key(*p)).unwrap();
            return Err(Fail::Violation(format!("{what}: {missing:?} (as masks) is never visited")));
        }
    }
    obs.max("branches_of_one_sweep", expected.len() as u64);
    if expected.len() >= 2 && inst.num_deps() > 0 {
        obs.nontrivial(inst.hash() ^ v["skip"].to_string().bytes().fold(0, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3)));
        obs.sample = Some(json!({"branches": expected.len()}));
    }
    Ok(())
}

fn beginning(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let skip = v["skip"].as_array().map(|s| (s[0].as_u64().unwrap(), s[1].as_f64().unwrap()));
    let limit = v["limit"].as_u64().unwrap() as usize;
    let prefix = begin(&inst, v);
    let bits = Bits::new(&inst);
    let done = prefix.iter().fold(0, |m, s| m | model::mask(s));
    let free = bits.measurable(done).count_ones();
    for (ended, what) in both(&inst, &prefix, skip, limit, obs)?.iter().zip(["Scheduler", "PathGenerator"]) {
        // each choice among the first `free` nodes is visited, whatever is skipped
        ensure!(
            ended.is_none() || (1u128 << free.min(100)) <= limit as u128 + 1,
            "{what}: the sweep ends within {limit} items, with {free} nodes measurable at first"
        );
    }
    obs.max("nodes", inst.n() as u64);
    obs.max("measurable_at_first", free as u64);
    obs.distinct("begun_sweeps", inst.hash());
    Ok(())
}

/// The state's own account against the history (no limit on the number of nodes).
fn long_state_is<T: View>(inst: &Inst, s: &T, path: &[Vec<usize>], what: &str) -> Result<(), Fail> {
    let deps = inst.deps();
    let done: HashSet<usize> = path.iter().flatten().copied().collect();
    let mut want: Vec<usize> = inst
        .nodes()
        .into_iter()
        .filter(|b| !done.contains(b) && deps[b].iter().all(|d| done.contains(d)))
        .collect();
    want.sort();
    let mut here = s.measurable();
    here.sort();
    let k = path.len();
    ensure!(here == want, "{what}: after {k} steps measurable is {here:?}, expected {want:?}");
    let blocked = done.len() + want.len() < deps.len();
    ensure!(s.blocked() == blocked, "{what}: has_unmeasureable is {} after {k} steps", s.blocked());
    if let Some((now, max)) = s.memory() {
        let c = model::costs(&inst.adj, path);
        let want = (c.last().map_or(0, |c| c.after), c.iter().map(|c| c.peak).max().unwrap_or(0));
        ensure!((now, max) == want, "{what}: memory {:?} after {path:?}, expected {want:?}", (now, max));
    }
    Ok(())
}

fn sorted(step: &[usize]) -> Vec<usize> {
    let mut s = step.to_vec();
    s.sort();
    s
}

/// Sweep a problem of any size; everything off the target is skipped (`None`: nothing is).
/// Returns the complete patterns.
fn guided<T: View>(
    inst: &Inst,
    start: T,
    target: Option<&[Vec<usize>]>,
    check: &mut Rng,
    rate: f64,
    what: &str,
    obs: &mut Obs,
) -> Result<Vec<Vec<Vec<usize>>>, Fail> {
    let total = inst.nodes().len();
    let mut sweep = Sweep::new(start);
    let mut path: Vec<Vec<usize>> = Vec::new();
    // children seen below every state of the path, and how many it has
    let mut below: Vec<(HashSet<Vec<usize>>, u32)> = vec![(HashSet::new(), sweep.current().measurable().len() as u32)];
    let mut found = Vec::new();
    let mut steps = 0u64;
    loop {
        steps += 1;
        let full = |(seen, m): (HashSet<Vec<usize>>, u32), path: &Vec<Vec<usize>>| -> Result<(), Fail> {
            ensure!(
                seen.len() as u64 == (1u64 << m) - 1,
                "{what}: {} children below {path:?}, which has {m} measurable nodes", seen.len()
            );
            Ok(())
        };
        match calm(what, || sweep.next())? {
            None => {
                ensure!(path.is_empty(), "{what}: the sweep ends at {path:?}");
                full(below.pop().unwrap(), &path)?;
                break;
            },
            Some(Step::Forward(set)) => {
                let set = sorted(&set);
                let last = below.last_mut().unwrap();
                ensure!(last.0.insert(set.clone()), "{what}: {set:?} twice below {path:?}");
                path.push(set);
                ensure!(sweep.stack().len() == path.len(), "{what}: stack of {} states at step {}", sweep.stack().len(), path.len());
                let off = target.is_some_and(|t| !t.starts_with(&path));
                if check.chance(rate) || (target.is_some() && !off) {
                    model::check_prefix(inst, &path).map_err(|e| Fail::Violation(format!("{what}: {e} in {path:?}")))?;
                    long_state_is(inst, sweep.current(), &path, what)?;
                }
                if off {
                    ensure!(sweep.skip_current().is_ok(), "{what}: skipping {path:?} fails");
                    path.pop();
                } else {
                    below.push((HashSet::new(), sweep.current().measurable().len() as u32));
                }
            },
            Some(Step::Backward(leaf)) => {
                ensure!(!path.is_empty(), "{what}: a step back from the start");
                full(below.pop().unwrap(), &path)?;
                let done: usize = path.iter().map(|s| s.len()).sum();
                ensure!(leaf.is_some() == (done == total), "{what}: leaf reported: {}, at {path:?}", leaf.is_some());
                if let Some(item) = leaf {
                    model::check_pattern(inst, &path).map_err(|e| Fail::Violation(format!("{what}: {e} in {path:?}")))?;
                    if let Some(space) = T::leaf(&item) {
                        let want = model::space(&inst.adj, &path);
                        ensure!(space == want, "{what}: leaf {path:?} has memory {space}, expected {want}");
                    }
                    found.push(path.clone());
                }
                path.pop();
            },
        }
    }
    ensure!(sweep.next().is_none(), "{what}: the sweep goes on after its end");
    obs.count("long_sweep_steps", steps);
    obs.count("complete_branches", found.len() as u64);
    Ok(found)
}

type Found = Vec<Vec<Vec<usize>>>;

fn both_guided(inst: &Inst, target: Option<&[Vec<usize>]>, seed: u64, rate: f64, obs: &mut Obs) -> Result<[Found; 2], Fail> {
    let mut b1 = DependencyBuffer::new(inst.n());
    let mut b2 = DependencyBuffer::new(inst.n());
    let time = calm("creation", || PathGenerator::<Partitioner>::from_dependency_graph(&inst.order, &mut b1, None))?;
    let gen = calm("creation", || PathGenerator::<Partitioner>::from_dependency_graph(&inst.order, &mut b2, None))?;
    let sched = Scheduler::new(time, Graph::new(&inst.adj));
    let mut r = Rng::new(seed);
    Ok([
        guided(inst, sched, target, &mut r, rate, "Scheduler", obs)?,
        guided(inst, gen, target, &mut r, rate, "PathGenerator", obs)?,
    ])
}

/// Long problems whose patterns can be listed by hand: layers of one or two nodes, each
/// depending on the whole layer before.
fn deep(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mut expected: Vec<Vec<Vec<usize>>> = vec![Vec::new()];
    for layer in &inst.order {
        let l: Vec<usize> = layer.iter().map(|(b, _)| *b).collect();
        let ways: Vec<Vec<Vec<usize>>> = match l[..] {
            [a] => vec![vec![vec![a]]],
            [a, b] => vec![vec![sorted(&[a, b])], vec![vec![a], vec![b]], vec![vec![b], vec![a]]],
            _ => unreachable!(),
        };
        expected = expected
            .into_iter()
            .flat_map(|p| ways.iter().map(move |w| [p.clone(), w.clone()].concat()))
            .collect();
    }
    expected.sort();
    for (mut found, what) in both_guided(&inst, None, inst.hash(), 0.02, obs)?.into_iter().zip(["Scheduler", "PathGenerator"]) {
        found.sort();
        ensure!(
            found == expected,
            "{what}: {} patterns of {} steps or more found, {} exist", found.len(), inst.order.len(), expected.len()
        );
    }
    obs.max("deepest_sweep", inst.n() as u64);
    obs.nontrivial(inst.hash());
    Ok(())
}

/// One pattern of a large problem has to be found, when everything else is skipped.
fn target(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let target: Vec<Vec<usize>> = serde_json::from_value(v["target"].clone()).expect("target");
    for (found, what) in both_guided(&inst, Some(&target), inst.hash(), 0.02, obs)?.into_iter().zip(["Scheduler", "PathGenerator"]) {
        ensure!(found.len() == 1, "{what}: {target:?} is found {} times", found.len());
    }
    obs.max("deepest_target", target.len() as u64);
    obs.count("targets_found", 2);
    obs.nontrivial(inst.hash() ^ model::fnv(v["target"].to_string().as_bytes()));
    Ok(())
}

fn exhaust<T: View>(mut s: T, what: &str, obs: &mut Obs) -> Result<(), Fail> {
    let mut m = s.measurable();
    m.sort();
    let before = s.memory();
    let mut seen = vec![false; 1 << m.len()];
    let mut n = 0u64;
    while let Some((_, set)) = calm(what, || s.next_and_focus())? {
        n += 1;
        let mut k = 0usize;
        for b in &set {
            let Ok(i) = m.binary_search(b) else {
                return Err(Fail::Violation(format!("{what}: {set:?} is offered, but measurable is {m:?}")));
            };
            ensure!(k >> i & 1 == 0, "{what}: {b} is repeated in {set:?}");
            k |= 1 << i;
        }
        ensure!(k != 0, "{what}: an empty step is offered");
        ensure!(!seen[k], "{what}: {set:?} is offered twice");
        seen[k] = true;
    }
    ensure!(n as usize == seen.len() - 1, "{what}: {n} steps are offered from {} measurable nodes", m.len());
    let mut after = s.measurable();
    after.sort();
    ensure!(after == m && s.memory() == before, "{what}: looking at the children changes the state");
    ensure!(calm(what, || s.next_and_focus())?.is_none(), "{what}: children after the last");
    obs.count("children", n);
    obs.max("measurable_at_once", m.len() as u64);
    Ok(())
}

/// All children of one state with many measurable nodes.
fn children(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let first: Vec<usize> = serde_json::from_value(v["first"].clone()).expect("first");
    let mut b1 = DependencyBuffer::new(inst.n());
    let mut b2 = DependencyBuffer::new(inst.n());
    let time = calm("creation", || PathGenerator::<Partitioner>::from_dependency_graph(&inst.order, &mut b1, None))?;
    let mut gen = calm("creation", || PathGenerator::<Partitioner>::from_dependency_graph(&inst.order, &mut b2, None))?;
    let mut sched = Scheduler::new(time, Graph::new(&inst.adj));
    if !first.is_empty() {
        let s = calm("focus_inplace", || (sched.focus_inplace(&first).is_ok(), gen.focus_inplace(&first).is_ok()))?;
        ensure!(s == (true, true), "choosing {first:?} fails");
    }
    exhaust(sched, "Scheduler", obs)?;
    exhaust(gen, "PathGenerator", obs)?;
    obs.nontrivial(inst.hash());
    Ok(())
}

/// Relabel at random, with a random sparse graph.
fn dress(r: &mut Rng, n: usize, order: Vec<Vec<(usize, Vec<usize>)>>) -> Inst {
    let mut name: Vec<usize> = (0..n).collect();
    r.shuffle(&mut name);
    let mut adj = vec![Vec::new(); n];
    let p = *r.pick(&[0.5, 1.5, 3.0]) / n.max(1) as f64;
    for i in 0..n {
        for j in i + 1..n {
            if r.chance(p) || (j == i + 1 && p < 1.0 / n as f64) {
                adj[name[i]].push(name[j]);
                adj[name[j]].push(name[i]);
            }
        }
    }
    let order = order
        .into_iter()
        .map(|l| {
            let mut l: Vec<_> = l
                .into_iter()
                .map(|(b, d)| {
                    let mut d: Vec<usize> = d.into_iter().map(|x| name[x]).collect();
                    r.shuffle(&mut d);
                    (name[b], d)
                })
                .collect();
            r.shuffle(&mut l);
            l
        })
        .collect();
    Inst { adj, order }
}

fn gen_deep(r: &mut Rng, most: usize) -> Value {
    let layers = r.range(30, most);
    let pairs = r.below(5);
    let mut wide = vec![false; layers];
    for _ in 0..pairs {
        let at = if r.chance(0.4) { layers - 1 - r.below(5) } else { r.below(layers) };
        wide[at] = true;
    }
    let mut order: Vec<Vec<(usize, Vec<usize>)>> = Vec::new();
    let mut n = 0;
    for w in wide {
        let prev: Vec<usize> = order.last().map_or(vec![], |l: &Vec<(usize, Vec<usize>)>| l.iter().map(|x| x.0).collect());
        order.push((0..1 + w as usize).map(|k| (n + k, prev.clone())).collect());
        n += 1 + w as usize;
    }
    dress(r, n, order).json()
}

fn gen_target(r: &mut Rng) -> Value {
    let w = r.range(2, 8);
    let n = r.range(w, 70);
    let p = *r.pick(&[0.0, 0.1, 0.4]);
    // chains (few nodes are measurable at once), with dependencies across
    let listed: Vec<(usize, Vec<usize>)> = (0..n)
        .map(|i| {
            let mut d = if i >= w { vec![i - w] } else { vec![] };
            for _ in 0..2 {
                let j = r.below(i + 1);
                if j < i && !d.contains(&j) && r.chance(p) {
                    d.push(j);
                }
            }
            (i, d)
        })
        .collect();
    let order = gen::layer(r, &listed);
    let inst = dress(r, n, order);
    let deps = inst.deps();
    let mut left = inst.nodes();
    let mut done: HashSet<usize> = HashSet::new();
    let mut pattern: Vec<Vec<usize>> = Vec::new();
    let q = *r.pick(&[0.3, 0.6, 0.95]);
    while !left.is_empty() {
        let free: Vec<usize> = left.iter().copied().filter(|b| deps[b].iter().all(|d| done.contains(d))).collect();
        let mut step: Vec<usize> = free.iter().copied().filter(|_| r.chance(q)).collect();
        if step.is_empty() {
            step.push(*r.pick(&free));
        }
        step.sort();
        left.retain(|b| !step.contains(b));
        done.extend(&step);
        pattern.push(step);
    }
    let mut v = inst.json();
    v["target"] = json!(pattern);
    v
}

fn gen_children(r: &mut Rng, i: usize, most: usize) -> Value {
    let m = 8 + i % (most - 7);
    // m nodes free, at once or after a first step; others that wait for them
    let late = r.chance(0.5);
    let k = if late { r.range(1, 3) } else { 0 };
    let more = r.below(10);
    let n = k + m + more;
    let mut order: Vec<Vec<(usize, Vec<usize>)>> = Vec::new();
    if k > 0 {
        order.push((0..k).map(|b| (b, vec![])).collect());
    }
    order.push((k..k + m).map(|b| (b, if k > 0 { vec![r.below(k)] } else { vec![] })).collect());
    if more > 0 {
        order.push((k + m..n).map(|b| (b, vec![k + r.below(m)])).collect());
    }
    let inst = dress(r, n, order);
    let first: Vec<usize> = if k > 0 { inst.order[0].iter().map(|x| x.0).collect() } else { vec![] };
    let mut v = inst.json();
    v["first"] = json!(first);
    v
}

fn main() {
    let mut run = Runner::new();
    let skip = |r: &mut Rng, v: &mut Value| {
        if r.chance(0.6) {
            v["skip"] = json!([r.next(), *r.pick(&[0.02, 0.1, 0.3, 0.6, 1.0])]);
        }
        if r.chance(0.3) {
            v["prefix"] = json!([r.next(), r.range(1, 4)]);
        }
    };
    run.group("tiny", 40, 0.1, 4, |_, r, i| {
        let n = i / 8;
        let mut v = gen::inst(r, n, n).json();
        skip(r, &mut v);
        v
    }, complete);
    let n = run.ctx().cases(9000, 300_000);
    let lim = if run.ctx().thorough { 60_000 } else { 6000 };
    run.group("complete", n, 0.6, 8, |_, r, _| {
        let inst = affordable(r, 1, 11, lim, gen::inst);
        let mut v = inst.json();
        skip(r, &mut v);
        v
    }, complete);
    let n = run.ctx().cases(2000, 80_000);
    run.group("beginning", n, 0.3, 8, |_, r, _| {
        let mut v = gen::inst(r, 8, 32).json();
        v["limit"] = json!(r.range(100, 3000));
        if r.chance(0.7) {
            // many skips: other regions of the tree
            v["skip"] = json!([r.next(), *r.pick(&[0.3, 0.6, 0.9, 0.99])]);
        }
        if r.chance(0.5) {
            v["prefix"] = json!([r.next(), r.range(1, 8)]);
        }
        v
    }, beginning);
    // more measurable nodes than an integer has bits
    let n = run.ctx().cases(500, 20_000);
    run.group("wide", n, 0.3, 8, |_, r, i| {
        let m = r.range(20, 126);
        let n = r.range(m, 128);
        let late = r.chance(0.3);
        // some more, that wait for one or for many
        let mut order = vec![(0..m).map(|b| (b, vec![])).collect::<Vec<_>>()];
        if m < n {
            order.push((m..n).map(|b| (b, if late { (0..m).collect() } else { vec![r.below(m)] })).collect());
        }
        let mut v = dress(r, n, order).json();
        v["limit"] = json!(r.range(150, 2500));
        if i % 3 != 0 {
            v["skip"] = json!([r.next(), *r.pick(&[0.9, 0.99, 1.0])]);
        }
        if r.chance(0.2) {
            v["prefix"] = json!([r.next(), 1]);
        }
        v
    }, beginning);
    let most = if run.ctx().thorough { 21 } else { 18 };
    let n = run.ctx().cases(22, 400);
    run.group("children", n, 0.3, 8, move |_, r, i| gen_children(r, i, most), children);
    let most = if run.ctx().thorough { 1000 } else { 300 };
    let n = run.ctx().cases(60, 2000);
    run.group("deep", n, 0.25, 8, move |_, r, _| gen_deep(r, most), deep);
    let n = run.ctx().cases(400, 20_000);
    run.group("target", n, 0.3, 8, |_, r, _| gen_target(r), target);
    run.finish();
}
