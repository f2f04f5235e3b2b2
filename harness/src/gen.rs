//! Random scheduling problems. Every generated ordering is a valid `PartialOrderGraph`
//! as documented by pauli_tracker: a node in layer i > 0 has a dependency in layer i-1,
//! all its dependencies are in earlier layers, layer 0 has no dependencies.
use std::collections::HashMap;

use crate::{
    model::{Adj, Inst, Order},
    rng::Rng,
};

pub fn graph(r: &mut Rng, n: usize) -> Adj {
    let mut e: Vec<(usize, usize)> = Vec::new();
    match r.below(11) {
        0 => {},
        1 => e.extend((1..n).map(|i| (i - 1, i))),
        2 => e.extend((0..n).filter(|_| n > 2).map(|i| (i, (i + 1) % n))),
        3 => e.extend((1..n).map(|i| (0, i))),
        4 => {
            for i in 0..n {
                e.extend((i + 1..n).map(|j| (i, j)));
            }
        },
        5 => {
            let w = r.range(1, 4);
            for i in 0..n {
                if (i + 1) % w != 0 && i + 1 < n {
                    e.push((i, i + 1));
                }
                if i + w < n {
                    e.push((i, i + w));
                }
            }
        },
        6 => e.extend((1..n).map(|i| (r.below(i), i))),
        7 => {
            let cut = r.range(0, n);
            let p = r.unit();
            for i in 0..cut {
                for j in cut..n {
                    if r.chance(p) {
                        e.push((i, j));
                    }
                }
            }
        },
        _ => {
            let p = *r.pick(&[0.1, 0.2, 0.3, 0.5, 0.7]);
            for i in 0..n {
                for j in i + 1..n {
                    if r.chance(p) {
                        e.push((i, j));
                    }
                }
            }
        },
    }
    let mut name: Vec<usize> = (0..n).collect();
    r.shuffle(&mut name);
    let mut adj = vec![Vec::new(); n];
    for (a, b) in e {
        let (a, b) = (name[a], name[b]);
        if a != b && !adj[a].contains(&b) {
            adj[a].push(b);
            adj[b].push(a);
        }
    }
    for a in adj.iter_mut() {
        r.shuffle(a);
    }
    adj
}

/// Canonical layering of a dependency relation (longest chain), shuffled inside.
pub fn layer(r: &mut Rng, deps: &[(usize, Vec<usize>)]) -> Order {
    let map: HashMap<usize, &Vec<usize>> = deps.iter().map(|(b, d)| (*b, d)).collect();
    let mut level: HashMap<usize, usize> = HashMap::new();
    let mut todo: Vec<usize> = deps.iter().map(|(b, _)| *b).collect();
    while !todo.is_empty() {
        todo.retain(|b| {
            let mut l = 0;
            for d in map[b] {
                match level.get(d) {
                    Some(x) => l = l.max(x + 1),
                    None => return true,
                }
            }
            level.insert(*b, l);
            false
        });
    }
    let depth = level.values().max().map_or(0, |d| d + 1);
    let mut order: Order = vec![Vec::new(); depth];
    for (b, d) in deps {
        let mut d = d.clone();
        r.shuffle(&mut d);
        order[level[b]].push((*b, d));
    }
    for l in order.iter_mut() {
        r.shuffle(l);
    }
    order
}

pub fn order(r: &mut Rng, n: usize, partial: bool) -> Order {
    let mut nodes: Vec<usize> = (0..n).collect();
    r.shuffle(&mut nodes);
    if partial && n > 1 {
        nodes.truncate(r.range(1, n));
    }
    let m = nodes.len();
    // direct dependencies by position in `nodes`
    let mut deps: Vec<Vec<usize>> = vec![Vec::new(); m];
    match r.below(9) {
        0 => {},
        1 => {
            for i in 1..m {
                deps[i].push(i - 1);
            }
        },
        2 => {
            // a few parallel chains
            let k = r.range(1, 4);
            for i in k..m {
                deps[i].push(i - k);
            }
        },
        3 => {
            for i in 1..m {
                deps[i].push(r.below(i));
            }
        },
        4 => {
            // complete layers
            let w = r.range(1, 4);
            for i in w..m {
                let l = i / w;
                deps[i].extend((l - 1) * w..l * w);
            }
        },
        5 if !partial && n > 0 => return frames_order(r, n),
        _ => {
            let p = *r.pick(&[0.05, 0.1, 0.2, 0.35, 0.6]);
            for i in 1..m {
                for j in 0..i {
                    if r.chance(p) {
                        deps[i].push(j);
                    }
                }
            }
        },
    }
    // closure
    let mut below: Vec<Vec<bool>> = vec![vec![false; m]; m];
    for i in 0..m {
        for &j in &deps[i] {
            let row = below[j].clone();
            for (k, v) in row.into_iter().enumerate() {
                below[i][k] |= v;
            }
            below[i][j] = true;
        }
    }
    // listed dependencies: transitive ones may be listed or not
    let keep = *r.pick(&[0.0, 0.0, 0.3, 1.0]);
    let listed: Vec<(usize, Vec<usize>)> = (0..m)
        .map(|i| {
            let mut d = Vec::new();
            for j in 0..m {
                if below[i][j] {
                    let cover = !(0..m).any(|k| below[i][k] && below[k][j]);
                    if cover || r.chance(keep) {
                        d.push(nodes[j]);
                    }
                }
            }
            (nodes[i], d)
        })
        .collect();
    layer(r, &listed)
}

/// An ordering as users get it: Pauli frames turned into an ordering by pauli_tracker.
pub fn frames_order(r: &mut Rng, n: usize) -> Order {
    use pauli_tracker::{
        collection::{Base, Iterable, NaiveVector},
        pauli::PauliStack,
        tracker::frames::induced_order,
    };
    let p = *r.pick(&[0.1, 0.25, 0.5, 0.8]);
    let mut frames = NaiveVector::from(vec![PauliStack { z: vec![false; n], x: vec![false; n] }; n]);
    let mut pool: Vec<usize> = (0..n).collect();
    r.shuffle(&mut pool);
    let mut map = Vec::new();
    while let Some(bit) = pool.pop() {
        for &c in &pool {
            if r.chance(p) {
                let stack = frames.get_mut(c).expect("frame");
                if r.chance(0.5) {
                    stack.z[map.len()] = true;
                } else {
                    stack.x[map.len()] = true;
                }
            }
        }
        map.push(bit);
    }
    let order = induced_order::get_order(frames.iter_pairs(), &map);
    // get_order's lists depend on a randomly seeded hasher: sort, then shuffle with ours
    let mut flat: Vec<(usize, Vec<usize>)> = order.into_iter().flatten().collect();
    flat.sort();
    for (_, d) in flat.iter_mut() {
        d.sort();
    }
    layer(r, &flat)
}

pub fn inst(r: &mut Rng, lo: usize, hi: usize) -> Inst {
    let n = r.range(lo, hi);
    let partial = r.chance(0.12);
    let adj = graph(r, n);
    let order = order(r, n, partial);
    Inst { adj, order }
}

/// Instances whose front has several entries more often: few dependencies, sparse graph.
pub fn wide_inst(r: &mut Rng, lo: usize, hi: usize) -> Inst {
    let n = r.range(lo, hi);
    let p = *r.pick(&[0.15, 0.25, 0.4]);
    let mut adj = vec![Vec::new(); n];
    for i in 0..n {
        for j in i + 1..n {
            if r.chance(p) {
                adj[i].push(j);
                adj[j].push(i);
            }
        }
    }
    for a in adj.iter_mut() {
        r.shuffle(a);
    }
    let q = *r.pick(&[0.0, 0.05, 0.1, 0.2]);
    let mut nodes: Vec<usize> = (0..n).collect();
    r.shuffle(&mut nodes);
    let listed: Vec<(usize, Vec<usize>)> = (0..n)
        .map(|i| (nodes[i], (0..i).filter(|_| r.chance(q)).map(|j| nodes[j]).collect()))
        .collect();
    let order = layer(r, &listed);
    Inst { adj, order }
}

/// Thousands of nodes, in time and memory linear in their number. With few steps
/// (`wide`) or with many.
pub fn huge_inst(r: &mut Rng, n: usize, wide: bool) -> Inst {
    let mut name: Vec<usize> = (0..n).collect();
    r.shuffle(&mut name);
    let mut adj: Adj = vec![Vec::new(); n];
    for _ in 0..n * r.below(4) {
        let a = r.below(n);
        let b = if r.chance(0.5) { (a + r.range(1, 3)) % n } else { r.below(n) };
        let (a, b) = (name[a], name[b]);
        if a != b && !adj[a].contains(&b) {
            adj[a].push(b);
            adj[b].push(a);
        }
    }
    // more neighbours than a small integer counts
    if r.chance(0.4) {
        let h = name[r.below(n)];
        let p = r.unit();
        for o in 0..n {
            if o != h && r.chance(p) && !adj[o].contains(&h) {
                adj[o].push(h);
                adj[h].push(o);
            }
        }
    }
    r.shuffle(&mut name);
    let w = if wide { r.range(n / 20 + 1, n) } else { r.range(1, 6) };
    // and more dependencies, or dependents
    let (many, same) = (if r.chance(0.4) { 3.0 / n as f64 } else { 0.0 }, if r.chance(0.3) { r.unit() } else { 0.0 });
    let mut order: Order = Vec::new();
    // a small first layer, and one whose size needs more than 16 bits
    let (small, large) = if n > 66_000 { name.split_at(r.range(1, n - 65_600)) } else { name.split_at(0) };
    let layers: Vec<&[usize]> = if small.is_empty() { large.chunks(w).collect() } else { vec![small, large] };
    for layer in layers {
        let last: Vec<usize> = order.last().map_or(Vec::new(), |l: &Vec<(usize, Vec<usize>)>| l.iter().map(|x| x.0).collect());
        let all: usize = order.iter().map(Vec::len).sum();
        order.push(layer.iter().enumerate().map(|(i, &b)| {
            let mut d = Vec::new();
            if many > 0.0 && !last.is_empty() && (r.chance(many) || (i == 0 && all + layer.len() == n)) {
                // all before
                d = name[..all].to_vec();
                r.shuffle(&mut d);
            } else if !last.is_empty() && r.chance(same) {
                d.push(last[0]);
            } else if !last.is_empty() {
                d.push(*r.pick(&last));
                let more = *r.pick(&last);
                if more != d[0] && r.chance(0.5) {
                    d.push(more);
                }
            }
            (b, d)
        }).collect());
    }
    Inst { adj, order }
}

/// How many nodes for the `i`th case with thousands of them. What the library does with them
/// is quadratic: only seldom, and not with overflow checks, more than 2^16.
pub fn thousands(r: &mut Rng, i: usize) -> usize {
    match (cfg!(debug_assertions), i % 12) {
        (false, 1) => r.range(66_001, 70_000),
        (false, n) if n % 4 == 0 => r.range(4000, 16_000),
        (false, _) => r.range(1000, 8000),
        (true, _) => r.range(500, 4000),
    }
}

/// Long problems with few patterns (at most about `limit`): up to 128 nodes, hardly any of
/// which can be measured at the same time.
pub fn long_inst(r: &mut Rng, lo: usize, hi: usize, limit: u128) -> Inst {
    let n = r.range(lo, hi);
    let mut name: Vec<usize> = (0..n).collect();
    r.shuffle(&mut name);
    let mut layers: Vec<Vec<usize>> = Vec::new();
    let mut patterns = 1u128;
    let mut at = 0;
    // where the wider layers are
    let p = r.unit() * 0.6;
    while at < n {
        let w = if r.chance(p) { r.range(2, 4).min(n - at) } else { 1 };
        let more = [1, 1, 3, 13, 75][w];
        let w = if patterns * more > limit { 1 } else { w };
        patterns *= [1, 1, 3, 13, 75][w];
        layers.push(name[at..at + w].to_vec());
        at += w;
    }
    let extra = if r.chance(0.3) { 0.02 } else { 0. };
    let mut order: Order = Vec::new();
    for (i, l) in layers.iter().enumerate() {
        order.push(l.iter().map(|&b| {
            let mut d = if i > 0 { layers[i - 1].clone() } else { vec![] };
            for e in layers.iter().take(i.max(1) - 1).flatten() {
                if extra > 0. && r.chance(extra) {
                    d.push(*e);
                }
            }
            r.shuffle(&mut d);
            (b, d)
        }).collect());
    }
    let adj = if r.chance(0.3) {
        graph(r, n)
    } else {
        let mut adj = vec![Vec::new(); n];
        let (p, reach) = (*r.pick(&[0.1, 0.3, 0.5]), r.range(1, 12));
        for i in 0..n {
            for j in i + 1..(i + 1 + reach).min(n) {
                if r.chance(p) {
                    adj[name[i]].push(name[j]);
                    adj[name[j]].push(name[i]);
                }
            }
        }
        adj
    };
    Inst { adj, order }
}

/// Problems with long fronts: chains, each of whose first nodes has all others of its chain
/// as neighbours, so that every step by which the chains overlap less saves a qubit. Up to
/// `hi` nodes and at most `limit` steps of a search.
pub fn tradeoff_inst(r: &mut Rng, hi: usize, limit: usize) -> Inst {
    loop {
        let chains = if r.chance(0.8) { 2 } else { 3 };
        let (before, after) = (r.below(3), r.below(3));
        let most = ((hi - before - after) / chains).saturating_sub(1).max(1);
        let lens: Vec<usize> = {
            let least = if r.chance(0.5) { most } else { most.div_ceil(2) };
            (0..chains).map(|_| r.range(least, most)).collect()
        };
        let n = before + after + lens.iter().map(|l| l + 1).sum::<usize>();
        let mut name: Vec<usize> = (0..n).collect();
        r.shuffle(&mut name);
        let mut name = name.into_iter();
        let mut adj = vec![Vec::new(); n];
        let mut deps: Vec<(usize, Vec<usize>)> = Vec::new();
        let mut last: Option<usize> = None;
        let mut single = |deps: &mut Vec<(usize, Vec<usize>)>, name: &mut std::vec::IntoIter<usize>, need: Vec<usize>| {
            let b = name.next().unwrap();
            deps.push((b, need));
            b
        };
        for _ in 0..before {
            last = Some(single(&mut deps, &mut name, last.into_iter().collect()));
        }
        let mut ends = Vec::new();
        for &l in &lens {
            let head = single(&mut deps, &mut name, last.into_iter().collect());
            let mut end = head;
            for _ in 0..l {
                end = single(&mut deps, &mut name, vec![end]);
                adj[head].push(end);
                adj[end].push(head);
            }
            ends.push(end);
        }
        for _ in 0..after {
            ends = vec![single(&mut deps, &mut name, ends)];
        }
        if r.chance(0.3) {
            for _ in 0..r.range(1, 4) {
                let (a, b) = (r.below(n), r.below(n));
                if a != b && !adj[a].contains(&b) {
                    adj[a].push(b);
                    adj[b].push(a);
                }
            }
        }
        let inst = Inst { adj, order: layer(r, &deps) };
        if crate::model::search_steps(&inst, limit).is_some() {
            return inst;
        }
    }
}

/// The problem between two chains of nodes without neighbours: every pattern takes
/// `before + after` steps more, and at least one qubit.
pub fn padded(r: &mut Rng, inst: &Inst, before: usize, after: usize) -> Inst {
    let n = inst.n();
    let mut name: Vec<usize> = (n..n + before + after).collect();
    r.shuffle(&mut name);
    let mut adj = inst.adj.clone();
    adj.resize(n + before + after, Vec::new());
    let (first, last) = name.split_at(before);
    let mut order: Order = (0..before).map(|i| vec![(first[i], if i > 0 { vec![first[i - 1]] } else { vec![] })]).collect();
    for layer in &inst.order {
        order.push(layer.iter().map(|(b, d)| {
            let mut d = d.clone();
            if before > 0 && d.is_empty() {
                d.push(first[before - 1]);
            }
            (*b, d)
        }).collect());
    }
    let mut need: Vec<usize> = inst.nodes();
    for &b in last {
        order.push(vec![(b, need)]);
        need = vec![b];
    }
    Inst { adj, order }
}
