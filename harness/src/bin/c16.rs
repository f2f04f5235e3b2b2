//! C16: construction with node mappings, with checking, and in reused buffers.
use std::collections::HashSet;

use hashbrown::HashMap;
use mbqc_scheduling::scheduler::{
    space::GraphBuffer,
    time::{DependencyBuffer, MeasurableSet, Partitioner, PathGenerator},
    tree::{Focus, Step},
};
use serde_json::{json, Value};
use vh::{
    ensure, gen,
    model::{self, Inst, Order},
    modes::affordable,
    rng::Rng,
    run::{calm, Ctx, Fail, Obs, Runner},
};

fn sorted(adj: &[Vec<usize>]) -> Vec<Vec<usize>> {
    adj.iter()
        .map(|a| {
            let mut a = a.clone();
            a.sort();
            a
        })
        .collect()
}

fn edges(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let n = v["n"].as_u64().unwrap() as usize;
    let edges: Vec<(usize, usize)> = serde_json::from_value(v["edges"].clone()).unwrap();
    let map: Vec<(usize, usize)> = serde_json::from_value(v["map"].clone()).unwrap();
    let map: HashMap<usize, usize> = map.into_iter().collect();
    let relabel = |x: usize| map.get(&x).copied().unwrap_or(x);
    let mapped: Vec<(usize, usize)> = edges.iter().map(|&(a, b)| (relabel(a), relabel(b))).collect();
    let ctx = || format!("edges {edges:?}, mapping {map:?}");
    for check in [false, true] {
        let with = calm("GraphBuffer::new", || GraphBuffer::new(&edges, n, Some(&map), check))?;
        let plain = calm("GraphBuffer::new", || GraphBuffer::new(&mapped, n, None, check))?;
        ensure!(
            sorted(with.as_buffer()) == sorted(plain.as_buffer()),
            "checked: {check}: with the mapping {:?}, relabelled {:?}; {}", with.as_buffer(), plain.as_buffer(), ctx()
        );
        // what the list of edges says
        let mut want = vec![Vec::new(); n];
        let mut seen = HashSet::new();
        let mut dropped = 0;
        for &(a, b) in &mapped {
            if check && (a == b || !seen.insert((a.min(b), a.max(b)))) {
                dropped += 1;
                continue;
            }
            want[a].push(b);
            want[b].push(a);
        }
        ensure!(
            sorted(plain.as_buffer()) == sorted(&want),
            "checked: {check}: neighbours {:?}, expected {want:?}; {}", plain.as_buffer(), ctx()
        );
        obs.count("loops_and_repetitions_dropped", dropped);
    }
    obs.count("edge_lists", 1);
    if !edges.is_empty() && map.iter().any(|(a, b)| a != b) {
        obs.nontrivial(model::fnv(v.to_string().as_bytes()));
        obs.sample = Some(json!({"relabelled": mapped}));
    }
    Ok(())
}

fn gen_edges(_: &Ctx, r: &mut Rng, _: usize) -> Value {
    let n = if r.chance(0.03) { r.range(13, 90) } else { r.range(1, 12) };
    edge_list(r, n)
}

fn edge_list(r: &mut Rng, n: usize) -> Value {
    // several labels for one node
    if r.chance(0.25) {
        let top = n + r.below(12);
        let map: Vec<[usize; 2]> =
            (0..top).filter(|&i| i >= n || r.chance(0.4)).collect::<Vec<_>>().into_iter().map(|i| [i, r.below(n)]).collect();
        let edges: Vec<[usize; 2]> = (0..r.below(3 * n)).map(|_| [r.below(top), r.below(top)]).collect();
        return json!({"n": n, "edges": edges, "map": map});
    }
    // foreign labels for some of the nodes; a label that is no node may only occur mapped
    let mut foreign: Vec<usize> = (0..n).map(|i| n + 100 * i + r.below(100)).collect();
    r.shuffle(&mut foreign);
    let mut label: Vec<usize> = (0..n).collect();
    match r.below(3) {
        // any renaming to foreign labels
        0 => (0..n).for_each(|i| {
            if r.chance(0.6) {
                label[i] = foreign[i]
            }
        }),
        // a permutation among the nodes, with fixed points
        1 => {
            let mut some: Vec<usize> = (0..n).filter(|_| r.chance(0.6)).collect();
            let old = some.clone();
            r.shuffle(&mut some);
            for (a, b) in old.into_iter().zip(some) {
                label[a] = b;
            }
        },
        _ => {},
    }
    let mut map: Vec<[usize; 2]> = (0..n).filter(|&i| label[i] != i || r.chance(0.3)).map(|i| [label[i], i]).collect();
    // entries that do not occur
    if r.chance(0.3) {
        map.push([5000 + 200 * n, r.below(n)]);
    }
    r.shuffle(&mut map);
    let k = r.below(3 * n);
    let clean = r.chance(0.3);
    // a node with very many neighbours
    let hub = if n > 50 && r.chance(0.4) { Some(r.below(n)) } else { None };
    let mut have = HashSet::new();
    let mut edges = Vec::new();
    for _ in 0..k {
        let (a, b) = (r.below(n), r.below(n));
        let (a, b) = match hub {
            Some(h) if r.chance(0.7) => if r.chance(0.5) { (h, a) } else { (a, h) },
            _ => (a, b),
        };
        if clean && (a == b || !have.insert((a.min(b), a.max(b)))) {
            continue;
        }
        edges.push([label[a], label[b]]);
        if !clean && r.chance(0.2) {
            let mut e = [label[a], label[b]];
            if r.chance(0.5) {
                e.reverse();
            }
            edges.push(e);
        }
    }
    json!({"n": n, "edges": edges, "map": map})
}

/// All branches, as sorted steps.
fn branches(g: PathGenerator<'_, Partitioner>) -> Vec<Vec<Vec<usize>>> {
    let mut out = Vec::new();
    let mut path: Vec<Vec<usize>> = Vec::new();
    for step in g {
        match step {
            Step::Forward(mut s) => {
                s.sort();
                path.push(s);
            },
            Step::Backward(leaf) => {
                if leaf.is_some() {
                    out.push(path.clone());
                }
                path.pop();
            },
        }
    }
    out.sort();
    out
}

fn ordering(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let mut shared = DependencyBuffer::new(v["len"].as_u64().unwrap() as usize);
    let mut total = 0;
    for (i, job) in v["jobs"].as_array().unwrap().iter().enumerate() {
        let inst = Inst::from_json(&job["inst"]);
        let label: Vec<usize> = serde_json::from_value(job["label"].clone()).unwrap();
        let fixed: Vec<usize> = serde_json::from_value(job["fixed"].clone()).unwrap();
        let map: HashMap<usize, usize> = label
            .iter()
            .enumerate()
            .filter(|(i, l)| i != *l || fixed.contains(i))
            .map(|(i, l)| (*l, i))
            .collect();
        let foreign: Order = inst
            .order
            .iter()
            .map(|l| l.iter().map(|(b, d)| (label[*b], d.iter().map(|x| label[*x]).collect())).collect())
            .collect();
        let ctx = || format!("use {i} of the buffer, ordering {foreign:?}, mapping {map:?}");
        let mut fresh = DependencyBuffer::new(inst.n());
        let want = branches(calm("creation", || {
            PathGenerator::<Partitioner>::from_dependency_graph(&inst.order, &mut fresh, None)
        })?);
        if let Some(all) = model::all_patterns(&inst, 50_000) {
            let n = all.iter().filter(|p| !p.is_empty()).count();
            ensure!(want.len() == n, "{} branches instead of {n} for {:?}", want.len(), inst.order);
        }
        let mut alone = DependencyBuffer::new(inst.n());
        let mapped = branches(calm(&ctx(), || {
            PathGenerator::<Partitioner>::from_dependency_graph(&foreign, &mut alone, Some(&map))
        })?);
        ensure!(mapped == want, "with the mapping other patterns than relabelled: {}", ctx());
        // in the shared buffer, also through the manual form
        let reused = branches(calm(&ctx(), || {
            PathGenerator::<Partitioner>::from_dependency_graph(&foreign, &mut shared, Some(&map))
        })?);
        ensure!(reused == want, "other patterns in a used buffer than in a fresh one: {}", ctx());
        let mut g = calm(&ctx(), || {
            PathGenerator::<Vec<usize>>::from_dependency_graph(&inst.order, &mut shared, None)
        })?;
        for step in want.first().unwrap_or(&Vec::new()) {
            let res = calm(&ctx(), || g.focus_inplace(step))?;
            ensure!(res.is_ok(), "{res:?} in a used buffer: {}", ctx());
        }
        ensure!(g.measurable().set().is_empty(), "nodes left in a used buffer: {}", ctx());
        total += want.len();
        obs.count("orderings", 1);
        obs.count("mapped_orderings", (!map.is_empty()) as u64);
        if inst.num_deps() > 0 && i > 0 {
            obs.nontrivial(inst.hash() ^ model::fnv(format!("{label:?}").as_bytes()));
        }
    }
    obs.count("branches", total as u64);
    Ok(())
}

fn new<'l>(
    order: &Order,
    buffer: &'l mut DependencyBuffer,
    map: Option<&HashMap<usize, usize>>,
) -> Result<PathGenerator<'l, Vec<usize>>, Fail> {
    calm("creation", || PathGenerator::from_dependency_graph(order, buffer, map))
}

/// Large orderings: the same random walk with and without the mapping, in fresh and in used
/// buffers.
fn walks(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let mut r = Rng::new(v["seed"].as_u64().unwrap());
    let nodes: Vec<usize> = serde_json::from_value(v["nodes"].clone()).unwrap();
    let mut shared = DependencyBuffer::new(nodes.iter().max().unwrap() + r.below(3));
    for (i, &n) in nodes.iter().enumerate() {
        let inst = match r.below(3) {
            0 if n <= 200 => gen::inst(&mut r, n, n),
            1 if n <= 128 => gen::long_inst(&mut r, n, n, 1000),
            w => gen::huge_inst(&mut r, n, w == 2),
        };
        let mut label: Vec<usize> = (0..n).collect();
        match r.below(3) {
            0 => r.shuffle(&mut label),
            1 => (0..n).for_each(|i| {
                if r.chance(0.7) {
                    label[i] = n + 37 * i + r.below(30)
                }
            }),
            _ => {
                // a few exchanged
                for _ in 0..n / 3 {
                    let (a, b) = (r.below(n), r.below(n));
                    label.swap(a, b);
                }
            },
        }
        let fixed = r.chance(0.3);
        let map: HashMap<usize, usize> =
            label.iter().enumerate().filter(|(i, l)| i != *l || fixed).map(|(i, l)| (*l, i)).collect();
        let foreign: Order = inst
            .order
            .iter()
            .map(|l| l.iter().map(|(b, d)| (label[*b], d.iter().map(|x| label[*x]).collect())).collect())
            .collect();
        let mut fresh = DependencyBuffer::new(n);
        let mut alone = DependencyBuffer::new(n);
        // a use that is given up half-way
        if i > 0 {
            let mut g = new(&foreign, &mut shared, Some(&map))?;
            let some: Vec<usize> = g.measurable().set().iter().copied().take(3).collect();
            ensure!(g.focus_inplace(&some).is_ok(), "{some:?} is refused");
        }
        let mut all = [
            (new(&inst.order, &mut fresh, None)?, "relabelled"),
            (new(&foreign, &mut alone, Some(&map))?, "with the mapping"),
            (new(&foreign, &mut shared, Some(&map))?, "in a used buffer"),
        ];
        let deps = inst.deps();
        let mut done = HashSet::new();
        for _ in 0..200 {
            let mut seen: Vec<Vec<usize>> = all.iter().map(|(g, _)| g.measurable().set().to_vec()).collect();
            seen.iter_mut().for_each(|s| s.sort());
            let mut want: Vec<usize> = Vec::new();
            for (b, d) in &deps {
                if !done.contains(b) && d.iter().all(|x| done.contains(x)) {
                    want.push(*b);
                }
            }
            want.sort();
            for (s, (g, form)) in seen.iter().zip(&all) {
                ensure!(
                    *s == want && g.num_remaining_nodes() == deps.len() - done.len(),
                    "use {i}, {form}: measurable {s:?}, {} remaining, expected {want:?} and {} ({n} nodes)",
                    g.num_remaining_nodes(), deps.len() - done.len()
                );
            }
            if want.is_empty() {
                obs.count("large_orderings_completed", 1);
                break;
            }
            r.shuffle(&mut want);
            let most = r.range(1, want.len());
            want.truncate(most);
            for (g, form) in all.iter_mut() {
                let res = calm(form, || g.focus_inplace(&want))?;
                ensure!(res.is_ok(), "use {i}, {form}: {res:?} for {want:?}");
            }
            done.extend(want);
        }
        obs.count("large_orderings", 1);
        obs.max("largest_ordering", n as u64);
        obs.nontrivial(inst.hash() ^ model::fnv(format!("{label:?}").as_bytes()));
    }
    Ok(())
}

fn gen_ordering(_: &Ctx, r: &mut Rng, _: usize) -> Value {
    let mut len = 0;
    let jobs: Vec<Value> = (0..r.range(1, 5))
        .map(|_| {
            let inst = affordable(r, 0, 9, 3000, gen::inst);
            let n = inst.n();
            len = len.max(n);
            let mut label: Vec<usize> = (0..n).collect();
            match r.below(4) {
                0 => r.shuffle(&mut label),
                1 | 2 => (0..n).for_each(|i| {
                    if r.chance(0.6) {
                        label[i] = 50 + 37 * i + r.below(30)
                    }
                }),
                _ => {},
            }
            // a permutation with fixed points that are not listed
            let fixed: Vec<usize> = (0..n).filter(|_| r.chance(0.3)).collect();
            json!({"inst": inst.json(), "label": label, "fixed": fixed})
        })
        .collect();
    json!({"len": len + r.below(3), "jobs": jobs})
}

fn main() {
    let mut run = Runner::new();
    let n = run.ctx().cases(300_000, 9_000_000);
    run.group("edges", n, 0.25, 8, gen_edges, edges);
    let n = run.ctx().cases(20_000, 700_000);
    run.group("ordering", n, 0.5, 8, gen_ordering, ordering);
    let n = run.ctx().cases(300, 15_000);
    run.group("many_edges", n, 0.1, 8, |_, r, _| {
        let hi = *r.pick(&[200, 600, 5000, 70_000]);
        let n = r.range(90, hi);
        edge_list(r, n)
    }, edges);
    let n = run.ctx().cases(400, 15_000);
    run.group("walks", n, 0.15, 8, |_, r, _| {
        let nodes: Vec<usize> = (0..r.range(1, 4))
            .map(|_| {
                let hi = *r.pick(&[30, 130, 300, 3000]);
                r.range(10, hi)
            })
            .collect();
        json!({"nodes": nodes, "seed": r.next()})
    }, walks);
    run.finish();
}
