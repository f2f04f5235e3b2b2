//! C26: a partition iterator splits its set in every way exactly once.
use std::{
    collections::{BTreeMap, BTreeSet, HashSet, LinkedList, VecDeque},
    fmt::Debug,
    hash::Hash,
    iter,
    sync::Arc,
};

use mbqc_scheduling::scheduler::Partition;
use serde_json::{json, Value};
use vh::{
    ensure, model,
    rng::Rng,
    run::{calm, Ctx, Fail, Obs, Runner},
};

type Splits<I> = Vec<(Vec<I>, Vec<I>)>;

/// Every split of the first `len` elements; the others are never chosen.
fn all<I: Clone>(elems: &[I], len: usize) -> Splits<I> {
    (0..1usize << len)
        .map(|m| {
            let (mut l, mut r) = (Vec::new(), Vec::new());
            for (i, e) in elems.iter().enumerate() {
                if i < len && m >> i & 1 == 1 { &mut l } else { &mut r }.push(e.clone());
            }
            (l, r)
        })
        .collect()
}

/// Drain a partition, watching what it says about itself.
fn drain<T>(p: &mut Partition<T>, limit: usize) -> Result<Splits<T::Item>, Fail>
where
    T: IntoIterator + Clone,
{
    let mut out = Vec::new();
    let (lo, hi) = p.size_hint();
    while out.len() < limit {
        let Some(s) = calm("next", || p.next())? else { break };
        out.push(s);
    }
    ensure!(hi.is_none_or(|h| out.len() <= h), "announced at most {hi:?} splits, made {}", out.len());
    ensure!(lo <= out.len() || out.len() == limit, "announced at least {lo} splits, made {}", out.len());
    Ok(out)
}

fn whole<T, I>(set: T, len: usize, r: &mut Rng, obs: &mut Obs) -> Result<(), Fail>
where
    T: IntoIterator<Item = I> + Clone,
    I: Clone + Ord + Debug,
{
    let elems: Vec<I> = set.clone().into_iter().collect();
    let mut want = all(&elems, len);
    let total = want.len();
    let mut p = calm("new", || Partition::new(set.clone(), len))?;
    ensure!(p.set.clone().into_iter().eq(elems.iter().cloned()), "another set than the one given");
    let cut = r.below(total + 1);
    let mut got = drain(&mut p, cut)?;
    ensure!(got.len() == cut, "ended after {} of {total} splits", got.len());
    // a copy goes on by itself
    let mut copy = p.clone();
    let rest = drain(&mut p, total + 1)?;
    ensure!(p.set.clone().into_iter().eq(elems.iter().cloned()), "the set changed while iterating");
    let other = drain(&mut copy, total + 1)?;
    ensure!(rest == other, "a copy made after {cut} splits goes on differently");
    // skipping and counting are no different from stepping
    let fresh = || {
        let mut p = Partition::new(set.clone(), len);
        p.by_ref().take(cut).for_each(drop);
        p
    };
    ensure!(fresh().count() == rest.len(), "counted {} splits, made {}", fresh().count(), rest.len());
    ensure!(fresh().last() == rest.last().cloned(), "the last split differs from stepping");
    let k = r.below(total - cut + 2);
    ensure!(fresh().nth(k) == rest.get(k).cloned(), "skipping {k} splits differs from stepping");
    ensure!(fresh().collect::<Vec<_>>() == rest, "collecting differs from stepping");
    got.extend(rest);
    ensure!(got.len() == total, "{} splits instead of {total}", got.len());
    got.sort();
    want.sort();
    if let Some((g, w)) = got.iter().zip(&want).find(|(g, w)| g != w) {
        return Err(Fail::Violation(format!(
            "the splits are not all, each once, in the order of the set: {g:?} where {w:?} is due"
        )));
    }
    obs.count("splits", total as u64);
    obs.max("largest_set", elems.len() as u64);
    obs.max("most_splits", total as u64);
    Ok(())
}

fn small(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let e: Vec<u16> = serde_json::from_value(v["elements"].clone()).unwrap();
    let len = v["len"].as_u64().unwrap() as usize;
    let r = &mut Rng::new(v["seed"].as_u64().unwrap());
    let kind = v["kind"].as_u64().unwrap();
    let distinct: BTreeSet<u16> = e.iter().copied().collect();
    let some = len.min(distinct.len());
    match kind {
        0 => whole(e.clone(), len, r, obs)?,
        1 => whole(e.iter().map(|x| format!("{x}")).collect::<Vec<_>>(), len, r, obs)?,
        2 => whole(3..3 + e.len(), len, r, obs)?,
        3 => whole(distinct.clone(), some, r, obs)?,
        4 => whole(e.as_slice(), len, r, obs)?,
        5 => whole(e.iter().copied().collect::<VecDeque<_>>(), len, r, obs)?,
        6 => whole(e.iter().map(|x| (*x, vec![*x; 2])).collect::<LinkedList<_>>(), len, r, obs)?,
        7 => whole(distinct.iter().copied().collect::<HashSet<_>>(), some, r, obs)?,
        8 => whole(distinct.iter().map(|x| (*x, ())).collect::<BTreeMap<_, _>>(), some, r, obs)?,
        9 => whole(e.first().copied(), len.min(e.len()).min(1), r, obs)?,
        10 => whole(iter::repeat_n((), e.len()), len, r, obs)?,
        11 => whole(e.iter().map(|x| Arc::new(*x)).collect::<Vec<_>>(), len, r, obs)?,
        12 => whole(e.clone().into_boxed_slice().to_vec().into_iter().rev(), len, r, obs)?,
        _ => {
            let mut a = [0u16; 7];
            a.iter_mut().zip(&e).for_each(|(a, e)| *a = *e);
            whole(a, len.min(7), r, obs)?
        },
    }
    let mut d = calm("default", Partition::<Vec<u16>>::default)?;
    ensure!(
        d.next().is_some_and(|s| s == (vec![], vec![])) && d.next().is_none(),
        "the default is not the partition of the empty set"
    );
    obs.distinct("kinds", kind);
    if len >= 2 {
        obs.nontrivial(model::fnv(v.to_string().as_bytes()));
    }
    Ok(())
}

/// Beginnings of sets with too many splits to see them all.
fn large(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    fn go<I: Clone + Eq + Hash + Debug + Ord>(elems: Vec<I>, len: usize, limit: usize) -> Result<usize, Fail> {
        let mut p = calm("new", || Partition::new(elems.clone(), len))?;
        let got = drain(&mut p, limit)?;
        ensure!(got.len() == limit, "ended after {} splits of {len} elements", got.len());
        let index: std::collections::HashMap<&I, usize> = elems.iter().enumerate().map(|(i, e)| (e, i)).collect();
        let mut seen = HashSet::new();
        for (l, r) in &got {
            let pos = |s: &[I]| s.iter().map(|e| index[e]).collect::<Vec<_>>();
            let (a, b) = (pos(l), pos(r));
            ensure!(a.is_sorted() && b.is_sorted(), "not in the order of the set: {l:?} and {r:?}");
            ensure!(a.iter().all(|i| *i < len), "chose an element beyond the first {len}: {l:?}");
            let mut both = [a.clone(), b].concat();
            both.sort();
            ensure!(both == (0..elems.len()).collect::<Vec<_>>(), "lost or repeated elements: {l:?} and {r:?}");
            ensure!(seen.insert(a), "made the split {l:?} twice");
        }
        // a copy goes on with further ones
        for (l, _) in drain(&mut p.clone(), 200)? {
            ensure!(!seen.contains(&l.iter().map(|e| index[e]).collect::<Vec<_>>()), "made the split {l:?} twice");
        }
        Ok(got.len())
    }
    let (n, len) = (v["n"].as_u64().unwrap() as usize, v["len"].as_u64().unwrap() as usize);
    let limit = v["limit"].as_u64().unwrap() as usize;
    let k = if v["names"] == true {
        go((0..n).map(|i| format!("n{i}")).collect(), len, limit)?
    } else {
        go((0..n).rev().collect(), len, limit)?
    };
    obs.count("splits_of_large_sets", k as u64);
    obs.max("largest_set", n as u64);
    obs.nontrivial(model::fnv(v.to_string().as_bytes()));
    Ok(())
}

fn main() {
    let mut run = Runner::new();
    let n = run.ctx().cases(6000, 200_000);
    run.group("small", n, 0.6, 8, |ctx, r, i| {
        let most = if i % 200 == 199 { if ctx.thorough { 18 } else { 15 } } else { 10 };
        let n = r.range(0, most);
        let e: Vec<u64> = if r.chance(0.3) {
            (0..n).map(|_| r.below(4) as u64).collect()
        } else {
            let mut e: Vec<u64> = (0..n as u64).map(|x| x * 7 % 65_521).collect();
            r.shuffle(&mut e);
            e
        };
        let len = if r.chance(0.7) { n } else { r.range(0, n) };
        json!({"elements": e, "len": len, "kind": r.below(14), "seed": r.next()})
    }, small);
    let n = run.ctx().cases(400, 10_000);
    run.group("large", n, 0.4, 8, |_, r, _| {
        let n = match r.below(4) {
            0 => *r.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
            1 => r.range(18, 70),
            2 => r.range(70, 600),
            _ => r.range(20, 40),
        };
        let len = if r.chance(0.8) { n } else { r.range(18, n) };
        let limit = (1_000_000 / n).min(5_000);
        json!({"n": n, "len": len, "limit": limit, "names": r.chance(0.2)})
    }, large);
    run.finish();
}
