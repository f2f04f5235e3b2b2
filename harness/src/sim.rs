//! The search, restated: a walk over the public `Sweep` of a scheduler that decides with
//! the same accept function, but computes every quantity from the path with the reference
//! model.
use std::collections::BTreeMap;

use mbqc_scheduling::scheduler::{
    space::Graph,
    time::{DependencyBuffer, Partitioner, PathGenerator},
    tree::{FocusIterator, Step, Sweep},
    Scheduler,
};

use crate::model::{Bits, Inst, Mask};

pub type Args = [u64; 7];
pub const UNKNOWN: u64 = u64::MAX;

#[derive(Default, Debug)]
pub struct Outcome {
    /// Least space per number of steps of the patterns that were reached.
    pub found: BTreeMap<usize, usize>,
    /// Arguments of every accept decision, in order.
    pub calls: Vec<Args>,
    /// Steps of the sweep, forward and backward.
    pub steps: u64,
}

impl Outcome {
    pub fn front(&self) -> Vec<(usize, usize)> {
        let mut best = usize::MAX;
        let mut out = Vec::new();
        for (&t, &s) in &self.found {
            if s < best {
                best = s;
                out.push((t, s));
            }
        }
        out
    }
}

/// `None` when there are more than `limit` steps.
pub fn search(inst: &Inst, limit: usize, accept: impl FnMut(Args) -> bool) -> Option<Outcome> {
    let mut buffer = DependencyBuffer::new(inst.n());
    let scheduler = Scheduler::<Partitioner>::new(
        PathGenerator::from_dependency_graph(&inst.order, &mut buffer, None),
        Graph::new(&inst.adj),
    );
    walk(inst, &Bits::new(inst), scheduler.into_iter(), &[], limit, accept)
}

/// The steps of a search that is divided into at most `bound` tasks for first steps and one
/// for the rest, when no task knows what another one found.
pub fn tasks(inst: &Inst, bound: usize, limit: usize) -> Option<u64> {
    let bits = Bits::new(inst);
    let mut buffer = DependencyBuffer::new(inst.n());
    let mut scheduler = Scheduler::<Partitioner>::new(
        PathGenerator::from_dependency_graph(&inst.order, &mut buffer, None),
        Graph::new(&inst.adj),
    );
    let mut steps = 0;
    for _ in 0..bound {
        let Some((task, first)) = scheduler.next_and_focus() else { break };
        steps += walk(inst, &bits, task.into_iter(), &first, limit, |_| true)?.steps;
    }
    Some(steps + walk(inst, &bits, scheduler.into_iter(), &[], limit, |_| true)?.steps)
}

fn walk(
    inst: &Inst,
    bits: &Bits,
    mut sweep: Sweep<Scheduler<Partitioner>>,
    first: &[usize],
    limit: usize,
    mut accept: impl FnMut(Args) -> bool,
) -> Option<Outcome> {
    let mut out = Outcome::default();
    // (measured, peak so far, in memory now)
    let mut path: Vec<(Mask, usize, usize)> = Vec::new();
    if !first.is_empty() {
        let m = first.iter().fold(0 as Mask, |m, b| m | 1 << b);
        path.push((m, bits.peak(0, m), bits.in_memory(m)));
    }
    let best = |found: &BTreeMap<usize, usize>, t: usize| {
        found.range(..=t).map(|(_, s)| *s as u64).min().unwrap_or(UNKNOWN)
    };
    for _ in 0..limit {
        let step = sweep.next();
        out.steps += step.is_some() as u64;
        match step {
            None => return Some(out),
            Some(Step::Forward(set)) => {
                let step = set.iter().fold(0 as Mask, |m, b| m | 1 << b);
                let (m, peak, cur) = path.last().copied().unwrap_or((0, 0, 0));
                let now = m | step;
                let new_peak = peak.max(bits.peak(m, step));
                let new_cur = bits.in_memory(now);
                let rest = bits.all & !now;
                let free = bits.measurable(now);
                let least_len = path.len()
                    + 1
                    + if rest == 0 {
                        0
                    } else if rest & !free == 0 {
                        1
                    } else {
                        2
                    };
                let bound = best(&out.found, least_len);
                if new_peak as u64 >= bound {
                    let _ = sweep.skip_current();
                    continue;
                }
                let args = [
                    bound,
                    best(&out.found, usize::MAX),
                    peak as u64,
                    cur as u64,
                    new_cur as u64,
                    rest.count_ones() as u64,
                    inst.n() as u64,
                ];
                out.calls.push(args);
                if accept(args) {
                    path.push((now, new_peak, new_cur));
                } else {
                    let _ = sweep.skip_current();
                }
            },
            Some(Step::Backward(_)) => {
                if let Some((m, peak, _)) = path.last().copied() {
                    if m == bits.all {
                        let e = out.found.entry(path.len()).or_insert(usize::MAX);
                        *e = (*e).min(peak);
                    }
                }
                path.pop();
            },
        }
    }
    None
}

/// Least spaces as the code passes them.
pub fn to_f64(a: Args) -> [f64; 7] {
    a.map(|x| if x == UNKNOWN { usize::MAX as f64 } else { x as f64 })
}
