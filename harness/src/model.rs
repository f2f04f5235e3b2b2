//! The reference model. It is written from the problem statement (README.md and the
//! documentation of `interface::run`), not from the implementation: it works on sets of
//! measured nodes and never keeps node states or counters.
use std::collections::{BTreeMap, HashMap};

pub type Adj = Vec<Vec<usize>>;
pub type Order = Vec<Vec<(usize, Vec<usize>)>>;
pub type Steps = Vec<Vec<usize>>;

/// A scheduling problem: a graph on `0..adj.len()` and a layered strict partial order on
/// the nodes that have to be measured.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Inst {
    pub adj: Adj,
    pub order: Order,
}

impl Inst {
    pub fn n(&self) -> usize {
        self.adj.len()
    }
    /// Nodes that have to be measured.
    pub fn nodes(&self) -> Vec<usize> {
        self.order.iter().flatten().map(|(b, _)| *b).collect()
    }
    pub fn deps(&self) -> HashMap<usize, &[usize]> {
        self.order.iter().flatten().map(|(b, d)| (*b, d.as_slice())).collect()
    }
    pub fn num_edges(&self) -> usize {
        self.adj.iter().map(|a| a.len()).sum::<usize>() / 2
    }
    pub fn num_deps(&self) -> usize {
        self.order.iter().flatten().map(|(_, d)| d.len()).sum()
    }
    /// FNV over the debug form: identifies the instance across runs and builds.
    pub fn hash(&self) -> u64 {
        fnv(format!("{:?}{:?}", self.adj, self.order).as_bytes())
    }
    pub fn json(&self) -> serde_json::Value {
        serde_json::json!({"spacial_graph": self.adj, "dependency_graph": self.order})
    }
    pub fn from_json(v: &serde_json::Value) -> Self {
        Self {
            adj: serde_json::from_value(v["spacial_graph"].clone()).expect("spacial_graph"),
            order: serde_json::from_value(v["dependency_graph"].clone())
                .expect("dependency_graph"),
        }
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    bytes.iter().fold(0xcbf2_9ce4_8422_2325, |h, b| {
        (h ^ *b as u64).wrapping_mul(0x0100_0000_01b3)
    })
}

/// What happens in one measurement step, from the model's point of view.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct StepCost {
    /// Qubits in memory while the step is carried out.
    pub peak: usize,
    /// Qubits in memory after the step's nodes have been measured and freed.
    pub after: usize,
}

/// Is `steps` a prefix of a valid measurement pattern? Every step is non-empty, measures
/// nodes that have to be measured and were not measured before, and only nodes whose
/// dependencies were measured in strictly earlier steps.
pub fn check_prefix(inst: &Inst, steps: &[Vec<usize>]) -> Result<(), String> {
    let deps = inst.deps();
    let mut at: HashMap<usize, usize> = HashMap::new();
    for (i, step) in steps.iter().enumerate() {
        if step.is_empty() {
            return Err(format!("step {i} is empty"));
        }
        for b in step {
            if !deps.contains_key(b) {
                return Err(format!("step {i} measures {b}, which is not in the ordering"));
            }
            if let Some(j) = at.insert(*b, i) {
                return Err(format!("node {b} is measured in step {j} and in step {i}"));
            }
        }
    }
    for (b, i) in &at {
        for d in deps[b] {
            match at.get(d) {
                Some(j) if j < i => {},
                Some(j) => {
                    return Err(format!(
                        "node {b} is measured in step {i}, but its dependency {d} only in step {j}"
                    ))
                },
                None => {
                    return Err(format!(
                        "node {b} is measured in step {i}, but its dependency {d} never"
                    ))
                },
            }
        }
    }
    Ok(())
}

/// A complete valid pattern: a valid prefix that measures every node.
pub fn check_pattern(inst: &Inst, steps: &[Vec<usize>]) -> Result<(), String> {
    check_prefix(inst, steps)?;
    let done: usize = steps.iter().map(|s| s.len()).sum();
    let all = inst.nodes();
    if done != all.len() {
        let seen: std::collections::HashSet<_> = steps.iter().flatten().collect();
        let missing: Vec<_> = all.iter().filter(|b| !seen.contains(b)).collect();
        return Err(format!("nodes {missing:?} are never measured"));
    }
    Ok(())
}

/// Memory costs of a pattern: before a node is measured, it and all its neighbours have
/// to be initialized; a measured node never occupies memory again.
pub fn costs(adj: &[Vec<usize>], steps: &[Vec<usize>]) -> Vec<StepCost> {
    let n = adj.len();
    let mut touched = vec![false; n];
    let mut measured = vec![false; n];
    let count = |t: &[bool], m: &[bool]| (0..n).filter(|&i| t[i] && !m[i]).count();
    let mut out = Vec::with_capacity(steps.len());
    // plain recount per step: quadratic, but it cannot drift
    for step in steps {
        for &b in step {
            touched[b] = true;
            for &x in &adj[b] {
                touched[x] = true;
            }
        }
        let peak = count(&touched, &measured);
        for &b in step {
            measured[b] = true;
        }
        out.push(StepCost { peak, after: count(&touched, &measured) });
    }
    out
}

pub fn space(adj: &[Vec<usize>], steps: &[Vec<usize>]) -> usize {
    costs(adj, steps).iter().map(|c| c.peak).max().unwrap_or(0)
}

/// Length of the longest dependency chain = the least number of steps.
pub fn depth(inst: &Inst) -> usize {
    asap(inst).values().max().map_or(0, |d| d + 1)
}

/// The earliest step in which every node can be measured.
pub fn asap(inst: &Inst) -> HashMap<usize, usize> {
    let deps = inst.deps();
    let mut done: HashMap<usize, usize> = HashMap::new();
    let mut todo: Vec<usize> = inst.nodes();
    while !todo.is_empty() {
        let mut rest = Vec::new();
        let before = todo.len();
        for b in todo {
            let mut level = Some(0);
            for d in deps[&b] {
                level = match (level, done.get(d)) {
                    (Some(l), Some(dl)) => Some(l.max(dl + 1)),
                    _ => None,
                };
            }
            match level {
                Some(l) => {
                    done.insert(b, l);
                },
                None => rest.push(b),
            }
        }
        assert!(rest.len() < before, "the instance has a dependency cycle");
        todo = rest;
    }
    done
}

/// A set of nodes.
pub type Mask = u128;

/// Bit-set form, for instances with at most 128 nodes.
#[derive(Clone, Debug)]
pub struct Bits {
    pub n: usize,
    pub closed: Vec<Mask>, // node and neighbours
    pub deps: Vec<Mask>,
    pub all: Mask,
}

impl Bits {
    pub fn new(inst: &Inst) -> Self {
        let n = inst.n();
        assert!(n <= 128);
        let mut deps = vec![0; n];
        let mut all = 0;
        for (b, d) in inst.order.iter().flatten() {
            all |= 1 << b;
            deps[*b] = d.iter().fold(0, |m, x| m | 1 << x);
        }
        let closed = (0..n)
            .map(|i| inst.adj[i].iter().fold((1 as Mask) << i, |m, x| m | 1 << x))
            .collect();
        Self { n, closed, deps, all }
    }
    pub fn touched(&self, measured: Mask) -> Mask {
        let mut t = 0;
        let mut m = measured;
        while m != 0 {
            let i = m.trailing_zeros() as usize;
            t |= self.closed[i];
            m &= m - 1;
        }
        t
    }
    pub fn measurable(&self, measured: Mask) -> Mask {
        let mut r = 0;
        let mut m = self.all & !measured;
        while m != 0 {
            let i = m.trailing_zeros() as usize;
            if self.deps[i] & !measured == 0 {
                r |= 1 << i;
            }
            m &= m - 1;
        }
        r
    }
    pub fn peak(&self, measured: Mask, step: Mask) -> usize {
        (self.touched(measured | step) & !measured).count_ones() as usize
    }
    pub fn in_memory(&self, measured: Mask) -> usize {
        (self.touched(measured) & !measured).count_ones() as usize
    }
}

/// For every number of steps, the least space of a pattern with exactly that many steps;
/// dynamic programming over the sets of measured nodes. `None` when it would take more
/// than `budget` transitions.
pub fn least_space_per_time(inst: &Inst, budget: u64) -> Option<BTreeMap<usize, usize>> {
    let bits = Bits::new(inst);
    // states and transitions first, so that they are expanded only once
    let mut index: HashMap<Mask, usize> = HashMap::new();
    let mut states = vec![0 as Mask];
    index.insert(0, 0);
    let mut edges: Vec<(u32, u32, u8)> = Vec::new();
    let mut next = 0;
    let mut used = 0u64;
    while next < states.len() {
        let m = states[next];
        let free = bits.measurable(m);
        if free.count_ones() >= 40 {
            return None;
        }
        used += 1u64 << free.count_ones();
        if used > budget {
            return None;
        }
        let mut s = free;
        while s != 0 {
            let to = m | s;
            let id = *index.entry(to).or_insert_with(|| {
                states.push(to);
                states.len() - 1
            });
            edges.push((next as u32, id as u32, bits.peak(m, s) as u8));
            s = (s - 1) & free;
        }
        next += 1;
    }
    let goal = index[&bits.all];
    let mut out = BTreeMap::new();
    let mut cur = vec![u8::MAX; states.len()];
    cur[0] = 0;
    for t in 0..=bits.all.count_ones() as usize {
        if cur[goal] != u8::MAX {
            out.insert(t, cur[goal] as usize);
        }
        let mut new = vec![u8::MAX; states.len()];
        for &(a, b, p) in &edges {
            let v = cur[a as usize];
            if v != u8::MAX {
                let v = v.max(p);
                if v < new[b as usize] {
                    new[b as usize] = v;
                }
            }
        }
        cur = new;
    }
    Some(out)
}

/// The Pareto front (time, space): for every listed time no pattern with at most that
/// many steps needs less space, and no dominated pair is listed.
pub fn front(inst: &Inst, budget: u64) -> Option<Vec<(usize, usize)>> {
    let mut best = usize::MAX;
    let mut out = Vec::new();
    for (t, s) in least_space_per_time(inst, budget)? {
        if s < best {
            best = s;
            out.push((t, s));
        }
    }
    Some(out)
}

/// All complete valid patterns, as sequences of node masks, in no particular order.
/// `None` when there are more than `limit`.
pub fn all_patterns(inst: &Inst, limit: usize) -> Option<Vec<Vec<Mask>>> {
    fn go(bits: &Bits, m: Mask, path: &mut Vec<Mask>, out: &mut Vec<Vec<Mask>>, lim: usize) -> bool {
        if m == bits.all {
            out.push(path.clone());
            return out.len() <= lim;
        }
        let free = bits.measurable(m);
        let mut s = free;
        while s != 0 {
            path.push(s);
            if !go(bits, m | s, path, out, lim) {
                return false;
            }
            path.pop();
            s = (s - 1) & free;
        }
        true
    }
    let bits = Bits::new(inst);
    let mut out = Vec::new();
    go(&bits, 0, &mut Vec::new(), &mut out, limit).then_some(out)
}

/// Number of complete valid patterns (memoised count; saturating).
pub fn count_patterns(inst: &Inst) -> u128 {
    fn go(bits: &Bits, m: Mask, memo: &mut HashMap<Mask, u128>) -> u128 {
        if m == bits.all {
            return 1;
        }
        if let Some(c) = memo.get(&m) {
            return *c;
        }
        let free = bits.measurable(m);
        let mut s = free;
        let mut c = 0u128;
        while s != 0 {
            c = c.saturating_add(go(bits, m | s, memo));
            s = (s - 1) & free;
        }
        memo.insert(m, c);
        c
    }
    go(&Bits::new(inst), 0, &mut HashMap::new())
}

pub fn mask(step: &[usize]) -> Mask {
    step.iter().fold(0, |m, b| m | 1 << b)
}

/// How many steps (forward) a depth-first search with the known bounds takes, about; `None`
/// when there are more than `limit`.
pub fn search_steps(inst: &Inst, limit: usize) -> Option<usize> {
    fn walk(b: &Bits, done: Mask, depth: usize, peak: usize, best: &mut [usize], left: &mut usize) -> Option<()> {
        let free = b.measurable(done);
        let mut s = free;
        while s != 0 {
            *left = left.checked_sub(1)?;
            let (now, peak) = (done | s, peak.max(b.peak(done, s)));
            let rest = b.all & !now;
            let more = if rest == 0 { 0 } else { 2 - (b.measurable(now) == rest) as usize };
            if peak < best[depth + 1 + more] {
                if rest == 0 {
                    for m in &mut best[depth + 1..] {
                        *m = peak.min(*m);
                    }
                } else {
                    walk(b, now, depth + 1, peak, best, left)?;
                }
            }
            s = (s - 1) & free;
        }
        Some(())
    }
    let bits = Bits::new(inst);
    let mut left = limit;
    let mut best = vec![usize::MAX; bits.all.count_ones() as usize + 3];
    walk(&bits, 0, 0, 0, &mut best, &mut left)?;
    Some(limit - left)
}
