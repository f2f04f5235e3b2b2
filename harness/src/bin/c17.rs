//! C17: the file interface returns what the in-memory interface returns.
use std::{ffi::OsStr, fs, os::unix::{ffi::OsStrExt, fs::symlink}, path::PathBuf, time::Duration};

use mbqc_scheduling::interface::{self, Path};
use serde_json::{json, Value};
use vh::{
    ensure, files, gen,
    model::{self, Inst},
    modes::{affordable, case, pairs, paths_json, Func, Mode},
    rng::Rng,
    run::{calm, Ctx, Fail, Obs, Runner},
};

fn short(x: &impl std::fmt::Debug) -> String {
    let mut s = format!("{x:?}");
    if s.len() > 2000 {
        s.truncate(1000);
        s += " ... (cut)";
    }
    s
}

fn judge(ctx: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = match v["huge"].as_u64() {
        Some(seed) => gen::huge_inst(&mut Rng::new(seed), v["nodes"].as_u64().unwrap() as usize, v["wide"] == true),
        None => Inst::from_json(v),
    };
    let mode = Mode::from_json(&v["mode"]);
    let fmt: Vec<String> = serde_json::from_value(v["formats"].clone()).unwrap();
    let dir = files::Scratch::new(&ctx.scratch, "c17");
    let sp = dir.path.join("spacial graph");
    let odd = v["odd"] == true;
    // file names are bytes
    let dp = dir.path.join(if odd { OsStr::from_bytes(b"d\xe9pendances \xff") } else { OsStr::new("dépendances.json") });
    files::write(&sp, &inst.adj, &fmt[0], v["pretty"] == true);
    files::write(&dp, &inst.order, &fmt[1], v["pretty"] == true);
    let out: PathBuf = match v["place"].as_str().unwrap() {
        "nested" => dir.path.join("a/b c/d/out"),
        "existing_dir" => {
            fs::create_dir_all(dir.path.join("x/y")).unwrap();
            dir.path.join("x/y/out.json")
        },
        // relative to the working directory, without a directory
        "bare" => PathBuf::from(format!("bare-{}", dir.name())),
        "dots" => {
            fs::create_dir_all(dir.path.join("x/y")).unwrap();
            dir.path.join("x/.//y/../out")
        },
        "bytes" => dir.path.join(OsStr::from_bytes(b"\x80dir/\xfe\xff out")),
        // through a link, to a file that exists if `before` says so
        "link" => {
            fs::create_dir_all(dir.path.join("real")).unwrap();
            symlink("real/out", dir.path.join("link")).unwrap();
            dir.path.join("link")
        },
        "input" => sp.clone(),
        _ => dir.path.join("out"),
    };
    let bare = v["place"] == "bare";
    struct Remove(Option<PathBuf>);
    impl Drop for Remove {
        fn drop(&mut self) {
            if let Some(p) = &self.0 {
                fs::remove_file(p).ok();
            }
        }
    }
    let _remove = Remove(bare.then(|| out.clone()));
    if let Some(n) = v["before"].as_u64().filter(|_| v["place"] != "input") {
        if let Some(p) = out.parent().filter(|p| !p.as_os_str().is_empty()) {
            fs::create_dir_all(p).unwrap();
        }
        fs::write(&out, vec![b']'; n as usize]).unwrap();
    }
    let res = calm("run_serialized", || {
        interface::run_serialized(
            (&sp, &fmt[0]),
            (dp.as_os_str(), &fmt[1]),
            mode.do_search,
            mode.timeout_us.map(Duration::from_micros),
            mode.nthreads,
            mode.task_bound,
            mode.prob.as_ref().map(|(f, _)| f.build()),
            (&out, &fmt[2]),
        )
        .map_err(|e| e.to_string())
    })?;
    ensure!(res.is_ok(), "an error for a valid problem: {res:?}");
    let bytes = fs::read(&out).map_err(|e| Fail::Violation(format!("success, but no output: {e}")))?;
    let got = files::decode_paths(&bytes, &fmt[2]).map_err(|e| {
        Fail::Violation(format!("the {} output does not decode: {e}: {:?}", fmt[2], String::from_utf8_lossy(&bytes[..bytes.len().min(300)])))
    })?;
    // the library's own type decodes it as well
    let own: Vec<Path> = match fmt[2].as_str() {
        "serde_json" => serde_json::from_slice(&bytes).map_err(|e| Fail::Violation(format!("Path does not decode: {e}")))?,
        _ => bincode::deserialize(&bytes).map_err(|e| Fail::Violation(format!("Path does not decode: {e}")))?,
    };
    ensure!(
        files::tuples(&own) == got,
        "the output decodes to {} as Path, to {} by its format", short(&own), short(&got)
    );
    obs.max("largest_output_bytes", bytes.len() as u64);
    obs.count(&format!("place_{}", v["place"].as_str().unwrap()), 1);
    ensure!(
        (v["place"] == "input" || fs::read(&sp).unwrap() == files::bytes(&inst.adj, &fmt[0], v["pretty"] == true))
            && fs::read(&dp).unwrap() == files::bytes(&inst.order, &fmt[1], v["pretty"] == true),
        "an input file is changed"
    );
    let label = format!("formats_{}", fmt.iter().map(|f| &f[..1]).collect::<String>());
    obs.count(&label, 1);
    if v["cut"] == true {
        // a timeout: which paths were found in time varies
        for (time, space, steps) in &got {
            model::check_pattern(&inst, steps).map_err(Fail::Violation)?;
            ensure!(*time == steps.len() && *space == model::space(&inst.adj, steps), "wrong costs in the output of a search that was cut short: {got:?}");
        }
        obs.count("cut_short", 1);
        return Ok(());
    }
    let want = calm("run", || mode.call(&inst))?;
    if mode.nthreads < 2 || !mode.do_search {
        ensure!(got == files::tuples(&want), "the file says {}, in memory {}", short(&got), short(&want));
        obs.count("compared_steps", 1);
    } else {
        let p: Vec<(usize, usize)> = got.iter().map(|g| (g.0, g.1)).collect();
        ensure!(p == pairs(&want), "the file says {}, in memory {}", short(&got), short(&want));
        for (time, space, steps) in &got {
            model::check_pattern(&inst, steps).map_err(Fail::Violation)?;
            ensure!(*time == steps.len() && *space == model::space(&inst.adj, steps), "wrong costs in {}", short(&got));
        }
        obs.count("compared_costs", 1);
    }
    obs.count(&format!("mode_{}", mode.label()), 1);
    if inst.num_deps() > 0 && !got.is_empty() {
        obs.nontrivial(inst.hash() ^ model::fnv(format!("{}{fmt:?}", mode.json()).as_bytes()));
        if inst.n() < 20 {
            obs.sample = Some(json!({"paths": paths_json(&want)}));
        }
    }
    Ok(())
}

fn extend(r: &mut Rng, v: &mut Value, i: usize) {
    let f = ["serde_json", "bincode"];
    v["formats"] = json!([f[i & 1], f[i >> 1 & 1], f[i >> 2 & 1]]);
    v["place"] = json!(*r.pick(&["plain", "plain", "nested", "existing_dir", "bare", "dots", "bytes", "link", "input"]));
    v["odd"] = json!(r.chance(0.3));
    v["pretty"] = json!(r.chance(0.3));
    if r.chance(0.6) {
        v["before"] = json!(*r.pick(&[0, 1, 50, 5000]));
    }
}

fn main() {
    let mut run = Runner::new();
    let n = run.ctx().cases(12_000, 400_000);
    run.group("files", n, 0.65, 8, |_, r, i| {
        let inst = if i < 16 { gen::inst(r, 0, 1) } else { affordable(r, 1, 9, 20_000, gen::inst) };
        let mut m = Mode {
            do_search: !r.chance(0.3),
            nthreads: *r.pick(&[0, 1, 1, 1, 2, 4]),
            task_bound: *r.pick(&[None, Some(0), Some(2), Some(1000)]),
            timeout_us: r.chance(0.3).then_some(3_600_000_000),
            prob: None,
        };
        if r.chance(0.4) {
            // decisions without randomness: the file interface draws its own seed
            m.prob = Some(if m.nthreads < 2 && r.chance(0.7) {
                (Func::Hash { salt: r.next(), p: *r.pick(&[0.3, 0.7, 0.95]) }, Some(0))
            } else {
                (Func::Const(1.), Some(0))
            });
        }
        let mut v = case(&inst, &m);
        extend(r, &mut v, i);
        v
    }, judge);
    // inputs and outputs of more than 64 KiB, of more than 1 MiB
    let n = run.ctx().cases(32, 2000);
    run.group("large", n, 0.15, 8, |_, r, i| {
        let m = Mode { nthreads: *r.pick(&[0, 1, 3]), ..Mode::GREEDY };
        let wide = !r.chance(0.3);
        let nodes = if wide { gen::thousands(r, i) } else { r.range(1000, 4000) };
        let mut v = json!({"huge": r.next(), "nodes": nodes, "wide": wide, "mode": m.json()});
        extend(r, &mut v, i);
        if r.chance(0.3) {
            v["before"] = json!(*r.pick(&[100_000, 3_000_000]));
        }
        v
    }, judge);
    let n = run.ctx().cases(24, 400);
    run.group("timeout", n, 0.2, 8, |_, r, i| {
        // never ends by itself
        let n = r.range(30, 40);
        let inst = Inst { adj: gen::graph(r, n), order: vec![(0..n).map(|i| (i, vec![])).collect()] };
        let m = Mode {
            timeout_us: Some(*r.pick(&[0, 1000, 20_000])),
            nthreads: *r.pick(&[1, 2, 3]),
            task_bound: Some(5),
            prob: r.chance(0.3).then_some((Func::Const(0.5), None)),
            ..Mode::SEARCH
        };
        let mut v = case(&inst, &m);
        extend(r, &mut v, i);
        v["cut"] = json!(true);
        v
    }, judge);
    run.finish();
}
