//! The ways of running the scheduler, as data, so that a case can be replayed.
use std::time::Duration;

use mbqc_scheduling::{
    interface::{self, Path},
    probabilistic::{AcceptFunc, HeavysideParameters},
};
use serde_json::{json, Value};

use crate::{
    model::{self, Inst},
    rng::Rng,
};

#[derive(Clone, Debug, PartialEq)]
pub enum Func {
    Builtin,
    Param { cutoff: f64, exps: [i32; 5] },
    /// Accepts with a constant probability.
    Const(f64),
    /// A pure function of the arguments: accepts always or never.
    Hash { salt: u64, p: f64 },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Mode {
    pub do_search: bool,
    pub timeout_us: Option<u64>,
    pub nthreads: u16,
    pub task_bound: Option<u32>,
    pub prob: Option<(Func, Option<u64>)>,
}

/// Pure function of the accept arguments with values 0 or 1.
pub fn hash_accept(salt: u64, p: f64, args: [f64; 7]) -> f64 {
    let mut h = salt;
    for a in args {
        h = (h ^ a.to_bits()).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        h ^= h >> 29;
    }
    if Rng::new(h).unit() < p {
        1.
    } else {
        0.
    }
}

impl Func {
    pub fn build(&self) -> AcceptFunc {
        match self {
            Func::Builtin => AcceptFunc::BuiltinHeavyside,
            Func::Param { cutoff, exps } => AcceptFunc::ParametrizedHeavyside {
                param: HeavysideParameters {
                    cutoff: *cutoff,
                    lin_num_total_nodes_exp: exps[0],
                    exp_num_total_nodes_exp: exps[1],
                    exp_num_remaining_nodes_exp: exps[2],
                    exp_diff_exp: exps[3],
                    exp_num_measured_nodes_exp: exps[4],
                },
            },
            Func::Const(p) => {
                let p = *p;
                AcceptFunc::Custom(Box::new(move |_, _, _, _, _, _, _| p))
            },
            Func::Hash { salt, p } => {
                let (salt, p) = (*salt, *p);
                AcceptFunc::Custom(Box::new(move |a, b, c, d, e, f, g| {
                    hash_accept(salt, p, [a, b, c, d, e, f, g])
                }))
            },
        }
    }
    fn json(&self) -> Value {
        match self {
            Func::Builtin => json!("builtin"),
            Func::Param { cutoff, exps } => json!({"cutoff": cutoff, "exps": exps}),
            Func::Const(p) => json!({"const": p}),
            Func::Hash { salt, p } => json!({"hash": salt, "p": p}),
        }
    }
    fn from_json(v: &Value) -> Self {
        if v == "builtin" {
            Func::Builtin
        } else if let Some(p) = v.get("const") {
            Func::Const(p.as_f64().unwrap())
        } else if let Some(s) = v.get("hash") {
            Func::Hash { salt: s.as_u64().unwrap(), p: v["p"].as_f64().unwrap() }
        } else {
            Func::Param {
                cutoff: v["cutoff"].as_f64().unwrap(),
                exps: serde_json::from_value(v["exps"].clone()).unwrap(),
            }
        }
    }
    pub fn random(r: &mut Rng) -> Self {
        match r.below(5) {
            0 => Func::Builtin,
            1 => Func::Param {
                cutoff: *r.pick(&[0., 0.5, 1., 2.]),
                exps: [
                    r.below(3) as i32,
                    r.below(2) as i32,
                    r.below(2) as i32,
                    r.range(1, 3) as i32,
                    r.below(2) as i32,
                ],
            },
            2 => Func::Const(*r.pick(&[0., 0.05, 0.3, 0.7, 0.95, 1., 2.5])),
            _ => Func::Hash { salt: r.next(), p: *r.pick(&[0.2, 0.5, 0.8, 0.95]) },
        }
    }
}

impl Mode {
    pub const GREEDY: Mode = Mode {
        do_search: false,
        timeout_us: None,
        nthreads: 1,
        task_bound: None,
        prob: None,
    };
    pub const SEARCH: Mode = Mode { do_search: true, ..Mode::GREEDY };

    pub fn threaded(nthreads: u16, task_bound: Option<u32>) -> Self {
        Mode { nthreads, task_bound, ..Mode::SEARCH }
    }
    pub fn json(&self) -> Value {
        json!({
            "do_search": self.do_search,
            "timeout_us": self.timeout_us,
            "nthreads": self.nthreads,
            "task_bound": self.task_bound,
            "prob": self.prob.as_ref().map(|(f, s)| json!({"func": f.json(), "seed": s})),
        })
    }
    pub fn from_json(v: &Value) -> Self {
        Mode {
            do_search: v["do_search"].as_bool().unwrap(),
            timeout_us: v["timeout_us"].as_u64(),
            nthreads: v["nthreads"].as_u64().unwrap() as u16,
            task_bound: v["task_bound"].as_u64().map(|b| b as u32),
            prob: v["prob"]
                .is_object()
                .then(|| (Func::from_json(&v["prob"]["func"]), v["prob"]["seed"].as_u64())),
        }
    }
    /// Does the mode run the exhaustive deterministic search to its end?
    pub fn exhaustive(&self) -> bool {
        self.do_search && self.timeout_us.is_none() && self.prob.is_none()
    }
    pub fn label(&self) -> String {
        let mut s = String::from(if self.do_search { "search" } else { "greedy" });
        if self.nthreads >= 2 {
            s += "_mt";
        }
        if self.timeout_us.is_some() {
            s += "_timeout";
        }
        if self.prob.is_some() {
            s += "_prob";
        }
        s
    }
    pub fn call(&self, inst: &Inst) -> Vec<Path> {
        interface::run(
            &inst.adj,
            &inst.order,
            self.do_search,
            self.timeout_us.map(duration),
            self.nthreads,
            self.task_bound,
            self.prob.as_ref().map(|(f, s)| (f.build(), *s)),
        )
    }
    /// Any mode; the search always ends soon when `small` instances are small.
    pub fn random(r: &mut Rng, small: bool) -> Self {
        let do_search = !r.chance(0.1);
        let timeout_us = if !small || r.chance(0.15) {
            Some(*r.pick(&[0, 1, 20, 100, 400, 1000, 3000, 8000]))
        } else {
            None
        };
        let nthreads = *r.pick(&[0, 1, 1, 2, 2, 3, 4, 6, 8]);
        let task_bound = match r.below(6) {
            0 if small => None,
            0 | 1 => Some(r.below(4) as u32),
            _ => Some(r.below(40) as u32),
        };
        let prob = r.chance(0.45).then(|| {
            (Func::random(r), r.chance(0.7).then(|| r.next() >> r.below(60)))
        });
        Mode { do_search, timeout_us, nthreads, task_bound, prob }
    }
}

pub fn pairs(paths: &[Path]) -> Vec<(usize, usize)> {
    paths.iter().map(|p| (p.time, p.space)).collect()
}

pub fn paths_json(paths: &[Path]) -> Value {
    json!(paths
        .iter()
        .map(|p| json!({"time": p.time, "space": p.space, "steps": p.steps}))
        .collect::<Vec<_>>())
}

pub fn digest(paths: &[Path]) -> u64 {
    model::fnv(format!("{paths:?}").as_bytes())
}

/// A case of an instance and a mode.
pub fn case(inst: &Inst, mode: &Mode) -> Value {
    let mut v = inst.json();
    v["mode"] = mode.json();
    v
}

/// Draw instances until an exhaustive search of one is affordable.
pub fn affordable(
    r: &mut Rng,
    lo: usize,
    hi: usize,
    limit: u128,
    draw: impl Fn(&mut Rng, usize, usize) -> Inst,
) -> Inst {
    let mut hi = hi;
    loop {
        for _ in 0..20 {
            let inst = draw(r, lo, hi);
            let c = model::count_patterns(&inst);
            if c <= limit {
                return inst;
            }
        }
        hi = (hi - 1).max(lo);
    }
}

/// Microseconds; the largest value means the longest duration.
pub fn duration(us: u64) -> Duration {
    if us == u64::MAX { Duration::MAX } else { Duration::from_micros(us) }
}

/// Hours to half a million years: durations that something narrower than a `Duration` may
/// not hold, so that what is left of them is nothing or little.
pub fn long_timeout(r: &mut Rng) -> u64 {
    loop {
        let unit = *r.pick(&[1u64, 1000, 1_000_000]);
        let t = match r.below(5) {
            0 => *r.pick(&[3_600_000_000, 86_400_000_000]),
            1 => u64::MAX,
            2 => u64::MAX / 4 * 3 + r.below(1000) as u64,
            _ => match unit.checked_mul(1 << r.range(31, 44)) {
                Some(t) => t + r.below(2000) as u64,
                None => continue,
            },
        };
        if t >= 3_600_000_000 {
            return t;
        }
    }
}
