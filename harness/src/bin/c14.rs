//! C14: instructing path generators and schedulers step by step, with valid and invalid
//! instructions.
use std::collections::HashSet;

use mbqc_scheduling::scheduler::{
    space::Graph,
    time::{DependencyBuffer, MeasurableSet, NotMeasurable, Partitioner, PathGenerator},
    tree::Focus,
    InstructionError, Scheduler,
};
use serde_json::{json, Value};
use vh::{
    ensure, gen,
    model::{self, Inst},
    rng::Rng,
    run::{calm, Ctx, Fail, Obs, Runner},
};

trait Sched: Clone {
    fn inplace(&mut self, set: &[usize]) -> Result<(), Vec<usize>>;
    fn copied(&mut self, set: &[usize]) -> Result<Self, Vec<usize>>;
    /// (measurable, remaining, has_unmeasureable, memory now, largest memory, states)
    fn seen(&self) -> Seen;
}
/// Which nodes come first among the measurable ones is not compared.
type Seen = (Vec<usize>, usize, bool, Option<(usize, usize, String)>);

fn sorted(set: &[usize]) -> Vec<usize> {
    let mut s = set.to_vec();
    s.sort();
    s
}

fn names(e: InstructionError) -> Vec<usize> {
    match e {
        InstructionError::NotMeasurable(NotMeasurable(v)) => v,
        InstructionError::AlreadyMeasured(b) => vec![b.0],
    }
}

impl<T: MeasurableSet + Clone> Sched for PathGenerator<'_, T> {
    fn inplace(&mut self, set: &[usize]) -> Result<(), Vec<usize>> {
        self.focus_inplace(set).map_err(|e| e.0)
    }
    fn copied(&mut self, set: &[usize]) -> Result<Self, Vec<usize>> {
        self.focus(set).map_err(|e| e.0)
    }
    fn seen(&self) -> Seen {
        (sorted(self.measurable().set()), self.num_remaining_nodes(), self.has_unmeasureable(), None)
    }
}

impl<T: MeasurableSet + Clone> Sched for Scheduler<'_, T> {
    fn inplace(&mut self, set: &[usize]) -> Result<(), Vec<usize>> {
        self.focus_inplace(set).map_err(names)
    }
    fn copied(&mut self, set: &[usize]) -> Result<Self, Vec<usize>> {
        self.focus(set).map_err(names)
    }
    fn seen(&self) -> Seen {
        let t = self.time();
        let g = self.space();
        let states = format!("{:?}", g.nodes().iter().map(|n| n.0).collect::<Vec<_>>());
        (
            sorted(t.measurable().set()),
            t.num_remaining_nodes(),
            t.has_unmeasureable(),
            Some((g.current_memory(), g.max_memory(), states)),
        )
    }
}

/// The problem's view: which nodes can be measured, and so on.
struct Want<'a> {
    inst: &'a Inst,
    done: HashSet<usize>,
    steps: Vec<Vec<usize>>,
}

impl Want<'_> {
    fn measurable(&self) -> HashSet<usize> {
        self.inst
            .order
            .iter()
            .flatten()
            .filter(|(b, d)| !self.done.contains(b) && d.iter().all(|x| self.done.contains(x)))
            .map(|(b, _)| *b)
            .collect()
    }
    fn check(&self, s: &Seen, what: &str) -> Result<(), Fail> {
        let free = self.measurable();
        let left = self.inst.nodes().len() - self.done.len();
        let got: HashSet<usize> = s.0.iter().copied().collect();
        ensure!(
            got == free && s.0.len() == free.len(),
            "{what}: measurable is {:?}, expected {free:?} after {:?}", s.0, self.steps
        );
        ensure!(s.1 == left, "{what}: {} nodes remaining, expected {left} after {:?}", s.1, self.steps);
        ensure!(
            s.2 == (left > free.len()),
            "{what}: has_unmeasureable is {} after {:?}", s.2, self.steps
        );
        if let Some((now, max, _)) = &s.3 {
            let c = model::costs(&self.inst.adj, &self.steps);
            let want = (c.last().map_or(0, |c| c.after), c.iter().map(|c| c.peak).max().unwrap_or(0));
            ensure!((*now, *max) == want, "{what}: memory {:?}, expected {want:?} after {:?}", (now, max), self.steps);
        }
        Ok(())
    }
    /// The nodes that an instruction names in vain.
    fn offending(&self, set: &[usize]) -> Vec<usize> {
        let mut free = self.measurable();
        let mut bad: Vec<usize> = set.iter().copied().filter(|b| !free.remove(b)).collect();
        bad.sort();
        bad.dedup();
        bad
    }
}

fn instruction(r: &mut Rng, want: &Want) -> Vec<usize> {
    let mut free: Vec<usize> = want.measurable().into_iter().collect();
    free.sort();
    r.shuffle(&mut free);
    let n = want.inst.n();
    let k = if free.is_empty() { 0 } else { r.range(1, free.len()) };
    let mut set = free[..k].to_vec();
    match r.below(14) {
        // repeated
        0 if !set.is_empty() => {
            let b = *r.pick(&set);
            for _ in 0..r.range(1, 3) {
                set.push(b);
            }
        },
        // already measured
        1 if !want.done.is_empty() => {
            let mut d: Vec<usize> = want.done.iter().copied().collect();
            d.sort();
            set.push(*r.pick(&d));
        },
        // anything
        2 => set = (0..r.range(0, n + 2)).map(|_| r.below(n + 2)).collect(),
        // not yet measurable
        3 => {
            let mut rest: Vec<usize> = (0..n).filter(|b| !want.done.contains(b) && !free.contains(b)).collect();
            r.shuffle(&mut rest);
            if let Some(b) = rest.pop() {
                set.push(b);
            }
        },
        // everything, more than can be measured
        4 => set = (0..n + r.below(4)).collect(),
        // unknown nodes
        5 => set.push(*r.pick(&[n, n + 7, usize::MAX])),
        // only invalid ones
        6 => set = (0..r.range(1, 4)).map(|i| n + i).collect(),
        // nothing
        7 => set.clear(),
        // all that can be measured
        8 => set = free,
        _ => {},
    }
    r.shuffle(&mut set);
    set
}

fn walk<S: Sched>(inst: &Inst, seed: u64, mut s: S, what: &str, obs: &mut Obs) -> Result<u64, Fail> {
    let mut r = Rng::new(seed);
    let mut want = Want { inst, done: HashSet::new(), steps: Vec::new() };
    let mut trace = 0u64;
    want.check(&s.seen(), what)?;
    // large problems: in big steps
    let most = if inst.n() > 100 { 60 } else { 6 * inst.n() + 10 };
    for i in 0..most {
        let set = instruction(&mut r, &want);
        let bad = want.offending(&set);
        let before = s.seen();
        let copy_first = r.chance(0.5);
        let ctx = format!("{what}, instruction {set:?} after {:?}", want.steps);
        let mut other = s.clone();
        let copied = calm(&ctx, || if copy_first { s.copied(&set) } else { other.copied(&set) })?;
        let kept = if copy_first { s.seen() } else { other.seen() };
        ensure!(kept == before, "{ctx}: the copying form changes the original from {before:?} to {kept:?}");
        let res = calm(&ctx, || s.inplace(&set))?;
        for (form, err) in [("in-place", res.as_ref().err()), ("copying", copied.as_ref().err())] {
            match err {
                None => ensure!(bad.is_empty(), "{ctx}: the {form} form accepts it, though {bad:?} cannot be measured"),
                Some(e) => {
                    ensure!(!bad.is_empty(), "{ctx}: the {form} form refuses it, naming {e:?}");
                    let mut e = e.clone();
                    e.sort();
                    e.dedup();
                    ensure!(e == bad, "{ctx}: the {form} form names {e:?}, not {bad:?}");
                },
            }
        }
        if bad.is_empty() {
            want.done.extend(&set);
            if !set.is_empty() {
                want.steps.push(set.clone());
            }
            let (a, b) = (s.seen(), copied.unwrap_or_else(|_| unreachable!()).seen());
            ensure!(a == b, "{ctx}: in place {a:?}, copied {b:?}");
            obs.count(if set.is_empty() { "accepted_empty" } else { "accepted" }, 1);
        } else {
            ensure!(s.seen() == before, "{ctx}: the refused instruction changes {before:?} to {:?}", s.seen());
            obs.count("refused", 1);
            obs.count("refused_longer_than_measurable", (set.len() > before.0.len()) as u64);
        }
        want.check(&s.seen(), &ctx)?;
        trace = (trace ^ model::fnv(format!("{set:?}{bad:?}").as_bytes())).rotate_left(7);
        if want.done.len() == inst.nodes().len() && i % 3 == 0 {
            break;
        }
    }
    obs.count("completed", (want.done.len() == inst.nodes().len()) as u64);
    Ok(trace)
}

fn judge(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let seed = v["seed"].as_u64().unwrap();
    // buffers may be longer than the problem
    let mut b: Vec<DependencyBuffer> = (0..4).map(|i| DependencyBuffer::new(inst.n() + (seed as usize + i) % 3)).collect();
    let [b0, b1, b2, b3] = &mut b[..] else { unreachable!() };
    let g0 = calm("creation", || PathGenerator::<Vec<usize>>::from_dependency_graph(&inst.order, b0, None))?;
    let g1 = calm("creation", || PathGenerator::<Partitioner>::from_dependency_graph(&inst.order, b1, None))?;
    let g2 = calm("creation", || PathGenerator::<Vec<usize>>::from_dependency_graph(&inst.order, b2, None))?;
    let g3 = calm("creation", || PathGenerator::<Partitioner>::from_dependency_graph(&inst.order, b3, None))?;
    let t = walk(&inst, seed, g0, "PathGenerator<Vec>", obs)?;
    let same = [
        walk(&inst, seed, g1, "PathGenerator<Partitioner>", obs)?,
        walk(&inst, seed, Scheduler::new(g2, Graph::new(&inst.adj)), "Scheduler<Vec>", obs)?,
        walk(&inst, seed, Scheduler::new(g3, Graph::new(&inst.adj)), "Scheduler<Partitioner>", obs)?,
    ];
    ensure!(same.iter().all(|x| *x == t), "the four forms go different ways");
    if inst.num_deps() > 0 {
        obs.nontrivial(inst.hash() ^ t);
        obs.sample = Some(json!({"trace": t}));
    }
    Ok(())
}

fn main() {
    let mut run = Runner::new();
    let n = run.ctx().cases(120_000, 4_000_000);
    run.group("small", n, 0.6, 8, |_, r, _| {
        let mut v = gen::inst(r, 0, 9).json();
        v["seed"] = json!(r.next());
        v
    }, judge);
    let n = run.ctx().cases(4000, 150_000);
    run.group("large", n, 0.25, 8, |_, r, _| {
        let mut v = gen::inst(r, 10, 40).json();
        v["seed"] = json!(r.next());
        v
    }, judge);
    let n = run.ctx().cases(60, 3000);
    run.group("hundreds", n, 0.15, 8, |_, r, _| {
        let hi = *r.pick(&[140, 300, 700]);
        let n = r.range(65, hi);
        let inst = match r.below(4) {
            3 => {
                // nearly all need the same node
                let n = r.range(n, 3 * n);
                let mut inst = gen::huge_inst(r, n, true);
                let mut name: Vec<usize> = (0..n).collect();
                r.shuffle(&mut name);
                let first = r.range(2, 5);
                let p = r.unit();
                inst.order = vec![
                    name[..first].iter().map(|&b| (b, vec![])).collect(),
                    name[first..].iter().map(|&b| {
                        let mut d = vec![name[0]];
                        if r.chance(p) {
                            d.push(name[r.range(1, first - 1)]);
                        }
                        (b, d)
                    }).collect(),
                ];
                inst
            },
            0 => gen::inst(r, 65, hi.min(200)),
            w => gen::huge_inst(r, n, w == 1),
        };
        let mut v = inst.json();
        v["seed"] = json!(r.next());
        v
    }, judge);
    run.finish();
}
