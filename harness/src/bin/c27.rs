//! C27: a sweep walks any tree depth first, whatever implements its nodes.
use std::{
    cmp::Ordering,
    hash::{Hash, Hasher},
    sync::{
        atomic::{AtomicI64, Ordering::SeqCst},
        Arc,
    },
};

use mbqc_scheduling::scheduler::tree::{EmptyStack, FocusIterator, Step, Sweep};
use serde_json::{json, Value};
use vh::{
    ensure, model,
    rng::Rng,
    run::{calm, Ctx, Fail, Obs, Runner},
};

struct Tree {
    children: Vec<Vec<usize>>,
    /// Not only leaves may have something to give.
    gives: Vec<bool>,
    alive: AtomicI64,
}

struct At {
    tree: Arc<Tree>,
    node: usize,
    next: usize,
}

impl At {
    fn new(tree: &Arc<Tree>, node: usize, next: usize) -> Self {
        tree.alive.fetch_add(1, SeqCst);
        Self { tree: tree.clone(), node, next }
    }
}
impl Clone for At {
    fn clone(&self) -> Self {
        Self::new(&self.tree, self.node, self.next)
    }
}
impl Drop for At {
    fn drop(&mut self) {
        self.tree.alive.fetch_sub(1, SeqCst);
    }
}
impl PartialEq for At {
    fn eq(&self, o: &Self) -> bool {
        (self.node, self.next) == (o.node, o.next)
    }
}
impl Eq for At {}
impl PartialOrd for At {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for At {
    fn cmp(&self, o: &Self) -> Ordering {
        (self.node, self.next).cmp(&(o.node, o.next))
    }
}
impl Hash for At {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.node, self.next).hash(h);
    }
}

impl FocusIterator for At {
    type IterItem = (usize, usize);
    type LeafItem = String;
    fn next_and_focus(&mut self) -> Option<(Self, Self::IterItem)> {
        let child = *self.tree.children[self.node].get(self.next)?;
        self.next += 1;
        Some((At::new(&self.tree, child, 0), (self.node, child)))
    }
    fn at_leaf(&self) -> Option<String> {
        self.tree.gives[self.node].then(|| format!("v{}", self.node))
    }
}

type Event = Step<(usize, usize), Option<String>>;

/// The documented walk, as a list of everything that happens.
fn walk(t: &Tree, node: usize, out: &mut Vec<Event>) {
    // an own stack: trees may be deep
    let mut todo = vec![(node, 0, true)];
    while let Some((node, k, root)) = todo.pop() {
        match t.children[node].get(k) {
            Some(c) => {
                out.push(Step::Forward((node, *c)));
                todo.push((node, k + 1, root));
                todo.push((*c, 0, false));
            },
            None if !root => out.push(Step::Backward(t.gives[node].then(|| format!("v{node}")))),
            None => {},
        }
    }
}

fn tree(v: &Value) -> Arc<Tree> {
    let r = &mut Rng::new(v["seed"].as_u64().unwrap());
    let n = v["nodes"].as_u64().unwrap() as usize;
    let mut children = vec![Vec::new(); n];
    let shape = v["shape"].as_u64().unwrap();
    let mut name: Vec<usize> = (0..n).collect();
    r.shuffle(&mut name[1..]);
    for i in 1..n {
        let parent = match shape {
            0 => r.below(i),
            1 => i - 1,
            2 => 0,
            3 => (i - 1) / 2,
            4 => i.saturating_sub(r.range(1, 3)),
            _ => {
                if r.chance(0.1) { r.below(i) } else { i - 1 }
            },
        };
        children[name[parent]].push(name[i]);
    }
    let inner = *r.pick(&[0., 0., 0.5, 1.]);
    let leaf = *r.pick(&[1., 1., 0.5, 0.]);
    let gives = children.iter().map(|c| r.chance(if c.is_empty() { leaf } else { inner })).collect();
    Arc::new(Tree { children, gives, alive: AtomicI64::new(0) })
}

fn plain(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let t = tree(v);
    let mut want = Vec::new();
    walk(&t, 0, &mut want);
    let mut sweep = Sweep::new(At::new(&t, 0, 0));
    let mut depth = 0;
    let mut deepest = 0;
    for (i, w) in want.iter().enumerate() {
        let got = calm("next", || sweep.next())?;
        ensure!(got.as_ref() == Some(w), "step {i} is {got:?} instead of {w:?}");
        match w {
            Step::Forward((a, b)) => {
                depth += 1;
                ensure!(sweep.current().node == *b, "step {i}: now at {} instead of {b}", sweep.current().node);
                ensure!(sweep.stack().last().is_some_and(|s| s.node == *a), "step {i}: came from elsewhere than {a}");
            },
            Step::Backward(_) => depth -= 1,
        }
        deepest = deepest.max(depth);
        ensure!(sweep.stack().len() == depth, "step {i}: {} states stacked at depth {depth}", sweep.stack().len());
        let alive = t.alive.load(SeqCst);
        ensure!(alive == depth as i64 + 1, "step {i}: {alive} states alive at depth {depth}");
    }
    for _ in 0..3 {
        let got = calm("next", || sweep.next())?;
        ensure!(got.is_none(), "goes on after the end with {got:?}");
        ensure!(sweep.current().node == 0 && sweep.stack().is_empty(), "not at the root after the end");
    }
    ensure!(sweep.skip_current() == Err(EmptyStack), "the root could be skipped");
    ensure!(sweep.current().node == 0, "skipping the root moved");
    drop(sweep);
    ensure!(t.alive.load(SeqCst) == 0, "{} states alive after the sweep was dropped", t.alive.load(SeqCst));
    obs.count("steps", want.len() as u64);
    obs.max("deepest", deepest as u64);
    obs.max("most_steps", want.len() as u64);
    if t.children.iter().filter(|c| c.len() > 1).count() > 0 && deepest > 1 {
        obs.nontrivial(model::fnv(v.to_string().as_bytes()));
    }
    Ok(())
}

/// Skips at any moment, copies, and the iterator's other methods.
fn skips(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let t = tree(v);
    let r = &mut Rng::new(v["seed"].as_u64().unwrap() ^ 0xabcd);
    let p = v["p"].as_f64().unwrap();
    // what is still to come at each level, outermost first
    let mut levels: Vec<(usize, Vec<usize>)> = vec![(0, t.children[0].clone())];
    let mut sweep = Sweep::new(At::new(&t, 0, 0));
    let mut copies = 0;
    let mut skipped = 0;
    let mut steps = 0;
    loop {
        // of a long stack, not always all
        let from = if levels.len() <= 1000 || steps % 101 == 0 { 0 } else { levels.len() - 3 };
        ensure!(
            sweep.stack().len() + 1 == levels.len()
                && sweep.stack().iter().chain([sweep.current()]).skip(from).map(|s| s.node).eq(levels.iter().skip(from).map(|l| l.0)),
            "after {steps} steps and {skipped} skips: at {:?} instead of {:?}",
            sweep.stack().iter().chain([sweep.current()]).map(|s| s.node).collect::<Vec<_>>(),
            levels.iter().map(|l| l.0).collect::<Vec<_>>()
        );
        let alive = t.alive.load(SeqCst);
        ensure!(alive == levels.len() as i64, "{alive} states alive on {} levels", levels.len());
        if r.chance(p) {
            let res = calm("skip_current", || sweep.skip_current())?;
            if levels.len() == 1 {
                ensure!(res == Err(EmptyStack), "the root could be skipped");
                obs.count("root_skips", 1);
            } else {
                ensure!(res == Ok(()), "could not skip at depth {}", levels.len() - 1);
                levels.pop();
                skipped += 1;
            }
            continue;
        }
        if copies < 5 && r.chance(0.05) {
            copies += 1;
            let copy = sweep.clone();
            ensure!(copy == sweep && Ord::cmp(&copy, &sweep) == Ordering::Equal, "a copy differs");
            // all that is to come, level by level
            let mut want = Vec::new();
            for (d, (node, rest)) in levels.iter().enumerate().rev() {
                for c in rest {
                    want.push(Step::Forward((*node, *c)));
                    walk(&t, *c, &mut want);
                    want.push(Step::Backward(t.gives[*c].then(|| format!("v{c}"))));
                }
                if d > 0 {
                    want.push(Step::Backward(t.gives[*node].then(|| format!("v{node}"))));
                }
            }
            let (lo, hi) = copy.size_hint();
            ensure!(lo <= want.len() && hi.is_none_or(|h| want.len() <= h), "announced {lo} to {hi:?} steps of {}", want.len());
            ensure!(copy.clone().count() == want.len(), "counted {} steps of {}", copy.clone().count(), want.len());
            ensure!(copy.clone().last() == want.last().cloned(), "the last step of a copy differs");
            let k = r.below(want.len() + 2);
            ensure!(copy.clone().nth(k) == want.get(k).cloned(), "step {k} of a copy differs");
            ensure!(copy.clone().eq(want), "a copy goes on differently");
            obs.count("copies", 1);
        }
        let got = calm("next", || sweep.next())?;
        let (node, rest) = levels.last_mut().unwrap();
        let node = *node;
        let want = if rest.is_empty() {
            if levels.len() == 1 {
                None
            } else {
                levels.pop();
                Some(Step::Backward(t.gives[node].then(|| format!("v{node}"))))
            }
        } else {
            let c = rest.remove(0);
            levels.push((c, t.children[c].clone()));
            Some(Step::Forward((node, c)))
        };
        ensure!(got == want, "after {steps} steps and {skipped} skips: {got:?} instead of {want:?}");
        steps += 1;
        if want.is_none() {
            break;
        }
    }
    drop(sweep);
    ensure!(t.alive.load(SeqCst) == 0, "{} states alive after the sweep was dropped", t.alive.load(SeqCst));
    obs.count("steps", steps);
    obs.count("skips", skipped);
    if skipped > 0 && steps > 3 {
        obs.nontrivial(model::fnv(v.to_string().as_bytes()));
    }
    Ok(())
}

fn case(r: &mut Rng, most: usize) -> Value {
    json!({"nodes": r.range(1, most), "shape": r.below(6), "seed": r.next()})
}

fn main() {
    let mut run = Runner::new();
    let n = run.ctx().cases(8000, 200_000);
    run.group("plain", n, 0.4, 8, |ctx, r, i| {
        let most = match i % 400 {
            399 => if ctx.thorough { 300_000 } else { 70_000 },
            300..399 => 2000,
            _ => 60,
        };
        case(r, most)
    }, plain);
    let n = run.ctx().cases(8000, 200_000);
    run.group("skips", n, 0.6, 8, |_, r, i| {
        let most = match i % 200 {
            199 => 20_000,
            49 | 99 | 149 => 1000,
            _ => 50,
        };
        let mut v = case(r, most);
        // not all too soon
        v["p"] = json!(if i % 400 == 399 { 0.0002 } else { *r.pick(&[0.02, 0.1, 0.3, 0.6]) });
        v
    }, skips);
    run.finish();
}
