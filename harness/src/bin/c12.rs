//! C12: values of the built-in and the parametrised accept function.
use mbqc_scheduling::probabilistic::{AcceptFunc, HeavysideParameters};
use serde_json::{json, Value};
use vh::{
    ensure,
    model,
    run::{calm, Ctx, Fail, Obs, Runner},
};

fn close(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()) || (a.abs() < 1e-250 && b.abs() < 1e-250)
}

/// x^k by repeated multiplication.
fn pow(x: f64, k: i32) -> f64 {
    let mut r = 1.;
    for _ in 0..k.unsigned_abs() {
        r *= x;
    }
    if k < 0 {
        1. / r
    } else {
        r
    }
}

fn num(v: &Value) -> f64 {
    match v.as_str() {
        Some("unknown") => usize::MAX as f64,
        _ => v.as_f64().unwrap(),
    }
}

fn args(v: &Value) -> [f64; 7] {
    let a = v["args"].as_array().unwrap();
    std::array::from_fn(|i| num(&a[i]))
}

fn gap(a: &[f64; 7]) -> f64 {
    let used = if a[4] > a[2] { a[4] } else { a[2] };
    a[1] - used
}

fn value(want_exponent: f64, factor: f64) -> f64 {
    factor * (-want_exponent).exp()
}

fn builtin(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let a = args(v);
    let func = if v["default"] == true { AcceptFunc::default() } else { AcceptFunc::BuiltinHeavyside };
    let f = func.get_accept_func();
    let got = calm("builtin", || f(a[0], a[1], a[2], a[3], a[4], a[5], a[6]))?;
    let (rest, total) = (a[5], a[6]);
    let d = gap(&a);
    let want = if d <= 0. { 0. } else { value(total * rest / pow(d, 3) / (total - rest), total * total) };
    ensure!(close(got, want), "built-in function of {a:?} is {got}, should be {want}");
    if v["reachable"] == true {
        ensure!(got >= 0., "built-in function of {a:?} is {got}");
    }
    // independent of the two documented-as-unused arguments
    let again = f(a[0] + 7., a[1], a[2], a[3] * 2. + 1., a[4], a[5], a[6]);
    ensure!(close(got, again), "the built-in function depends on unused arguments: {got} and {again}");
    if d > 0. && want > 0. && want < total * total * 0.999 {
        obs.nontrivial(model::fnv(v.to_string().as_bytes()));
    }
    obs.count(if d < 0. { "gap_negative" } else if d == 0. { "gap_zero" } else { "gap_positive" }, 1);
    obs.sample = Some(json!({"value": got}));
    Ok(())
}

fn parametrized(_: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let a = args(v);
    let cutoff = v["cutoff"].as_f64().unwrap();
    let e: [i32; 5] = serde_json::from_value(v["exps"].clone()).unwrap();
    let f = AcceptFunc::ParametrizedHeavyside {
        param: HeavysideParameters {
            cutoff,
            lin_num_total_nodes_exp: e[0],
            exp_num_total_nodes_exp: e[1],
            exp_num_remaining_nodes_exp: e[2],
            exp_diff_exp: e[3],
            exp_num_measured_nodes_exp: e[4],
        },
    }
    .get_accept_func();
    let got = calm("parametrized", || f(a[0], a[1], a[2], a[3], a[4], a[5], a[6]))?;
    let (rest, total) = (a[5], a[6]);
    let d = gap(&a);
    let exponent = pow(total, e[1]) * pow(rest, e[2]) / pow(d, e[3]) / pow(total - rest, e[4]);
    let want = if d < cutoff { 0. } else { value(exponent, pow(total, e[0])) };
    // near the ends of the number range the result depends on the order of operations
    let far = [pow(total, e[1]), pow(rest, e[2]), pow(d, e[3]), pow(total - rest, e[4]), pow(total, e[0])]
        .iter()
        .any(|x| *x != 0. && !(1e-60..1e60).contains(&x.abs()));
    let extreme = d >= cutoff && (exponent.abs() > 600. || exponent.is_nan() || far);
    if extreme {
        obs.count("extreme_arguments", 1);
        ensure!(far || !(want == 0. && got > 1e-200), "parametrised function of {a:?} with cutoff {cutoff}, {e:?} is {got}, should be 0");
        return Ok(());
    }
    ensure!(
        close(got, want),
        "parametrised function of {a:?} with cutoff {cutoff} and exponents {e:?} is {got}, should be {want}"
    );
    if d < 0. && d >= cutoff {
        obs.count("negative_gap_above_cutoff", 1);
    }
    if e.iter().any(|e| e.unsigned_abs() > 20) {
        obs.count("large_exponents", 1);
    }
    obs.count(if d < cutoff { "below_cutoff" } else if d == cutoff { "at_cutoff" } else { "above_cutoff" }, 1);
    if d >= cutoff && got > 0. && exponent.abs() > 1e-6 {
        obs.nontrivial(model::fnv(v.to_string().as_bytes()));
    }
    obs.sample = Some(json!({"value": got}));
    Ok(())
}

fn main() {
    let mut run = Runner::new();
    // arguments as the search passes them
    let reachable = |r: &mut vh::rng::Rng| -> Vec<Value> {
        let n = *r.pick(&[1, 2, 3, 5, 8, 12, 20, 60, 300]);
        let rest = if r.chance(0.2) { 0 } else { r.below(n) };
        let last_max = r.range(0, n);
        let cur = r.range(0, n);
        let minimal = match r.below(6) {
            0 => json!("unknown"),
            1 => json!(last_max.max(cur)),
            2 => json!(last_max.max(cur) + 1),
            _ => json!(r.range(0, n)),
        };
        let bound = if r.chance(0.5) { json!("unknown") } else { minimal.clone() };
        vec![bound, minimal, json!(last_max), json!(r.range(0, last_max)), json!(cur), json!(rest), json!(n)]
    };
    let anything = |r: &mut vh::rng::Rng| -> Vec<Value> {
        (0..7)
            .map(|_| match r.below(4) {
                0 => json!(r.below(10)),
                1 => json!(r.unit() * 20. - 10.),
                2 => json!(r.unit() * 200.),
                _ => json!((r.unit() * 10. - 5.).round()),
            })
            .collect()
    };
    let n = run.ctx().cases(200_000, 4_000_000);
    run.group("builtin", n, 0.35, 8, |_, r, i| {
        if i % 4 == 0 {
            // the total is a number of nodes, the remaining ones fewer
            let mut a = anything(r);
            a[6] = json!(r.range(2, 50));
            a[5] = json!(r.unit() * (a[6].as_f64().unwrap() - 1.));
            json!({"args": a, "default": i % 8 == 0})
        } else {
            json!({"args": reachable(r), "reachable": true, "default": i % 8 == 1})
        }
    }, builtin);
    run.group("parametrized", n, 0.6, 8, |_, r, i| {
        let a = if i % 3 == 0 { anything(r) } else { reachable(r) };
        let exps: Vec<i32> = (0..5).map(|_| r.range(0, 6) as i32 - 2).collect();
        let exps: Vec<i32> = if r.chance(0.5) { exps } else { exps.iter().map(|e| e.abs()).collect() };
        let v = json!({"args": a});
        let d = gap(&args(&v));
        let cutoff = match r.below(4) {
            0 if d.abs() < 1e9 => d,
            1 => 0.,
            2 => r.range(0, 4) as f64,
            _ => r.unit() * 6. - 1.,
        };
        json!({"args": a, "exps": exps, "cutoff": cutoff})
    }, parametrized);
    // exponents and cutoffs of any size, on values near one where they matter
    run.group("exponents", n / 4, 0.8, 8, |_, r, _| {
        let wide = *r.pick(&[3., 10., 40., 200., 2000.]);
        let near = |r: &mut vh::rng::Rng| {
            // with an exponent of `wide` at most something like 20 or 1/20
            (r.unit() * 6. - 3.).exp2().powf(1. / wide)
        };
        let (d, rest, measured) = (near(r), near(r), near(r));
        let total = rest + measured;
        let last_max = r.range(0, 4) as f64;
        let cur = if r.chance(0.5) { last_max } else { last_max - r.unit() };
        let d = if r.chance(0.2) { -d } else { d };
        let mut exps: Vec<i32> = (0..5).map(|_| (r.unit() * 2. * wide - wide) as i32).collect();
        // the total is about two
        exps[0] = exps[0].clamp(-60, 60);
        exps[1] = if r.chance(0.7) { r.range(0, 6) as i32 - 3 } else { exps[1].clamp(-60, 60) };
        let cutoff = match r.below(3) {
            0 => -1000. * r.unit(),
            1 => d - 0.5 * r.unit(),
            _ => d + r.unit() - 0.5,
        };
        json!({"args": [r.below(9), last_max.max(cur) + d, last_max, r.below(9), cur, rest, total], "exps": exps, "cutoff": cutoff})
    }, parametrized);
    run.finish();
}
