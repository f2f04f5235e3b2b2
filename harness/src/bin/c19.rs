//! C19: the command line program does what its arguments say. VH_CLI names the program.
use std::{
    collections::HashMap,
    fs,
    path::{Path as FsPath, PathBuf},
    process::{Child, Command, Stdio},
    time::{Duration, Instant},
};

use serde_json::{json, Value};
use vh::{
    ensure, files, gen,
    model::{self, Inst},
    modes::{affordable, case, pairs, paths_json, Func, Mode},
    rng::Rng,
    stat,
    run::{calm, Ctx, Fail, Obs, Runner},
};

fn cli() -> Command {
    let mut c = Command::new(std::env::var("VH_CLI").expect("VH_CLI"));
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).env_remove("RUST_LOG");
    c
}

/// Killed and reaped when dropped.
struct Running(Child);
impl Drop for Running {
    fn drop(&mut self) {
        self.0.kill().ok();
        self.0.wait().ok();
    }
}

fn wait(c: &mut Running, limit: Duration) -> Option<(i32, Duration)> {
    let t = Instant::now();
    loop {
        if let Some(s) = c.0.try_wait().unwrap() {
            return Some((s.code().unwrap_or(-1), t.elapsed()));
        }
        if t.elapsed() > limit {
            return None;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

struct Setup {
    dir: files::Scratch,
    pos: [String; 6],
    out: PathBuf,
}

fn setup(ctx: &Ctx, inst: &Inst, fmt: &[String]) -> Setup {
    let dir = files::Scratch::new(&ctx.scratch, "c19");
    let (sp, dp, out) = (dir.path.join("s"), dir.path.join("d"), dir.path.join("new/o"));
    files::write(&sp, &inst.adj, &fmt[0], false);
    files::write(&dp, &inst.order, &fmt[1], false);
    let s = |p: &FsPath| p.to_str().unwrap().to_string();
    let pos = [s(&sp), fmt[0].clone(), s(&dp), fmt[1].clone(), s(&out), fmt[2].clone()];
    Setup { dir, pos, out }
}

/// Options in some spelling, mixed with the positional arguments.
fn arguments(r: &mut Rng, pos: &[String], m: &Mode) -> Vec<String> {
    let mut opts: Vec<Vec<String>> = Vec::new();
    let mut value = |r: &mut Rng, short: &str, long: &str, v: String| {
        opts.push(match r.below(5) {
            0 => vec![format!("-{short}"), v],
            1 => vec![format!("-{short}{v}")],
            2 => vec![format!("-{short}={v}")],
            3 => vec![format!("--{long}"), v],
            _ => vec![format!("--{long}={v}")],
        })
    };
    if let Some(t) = m.timeout_us {
        value(r, "t", "timeout", (t / 1_000_000).to_string());
    }
    if m.nthreads != 1 || r.chance(0.3) {
        value(r, "n", "nthreads", m.nthreads.to_string());
    }
    if let Some(b) = m.task_bound {
        value(r, "b", "task-bound", b.to_string());
    }
    let p = if r.chance(0.5) { "-p" } else { "--probablistic" };
    let s = if r.chance(0.5) { "-s" } else { "--search" };
    match (m.do_search, m.prob.is_some()) {
        (true, true) if r.chance(0.3) => opts.push(vec![(*r.pick(&["-sp", "-ps"])).into()]),
        (a, b) => {
            if a {
                opts.push(vec![s.into()]);
            }
            if b {
                opts.push(vec![p.into()]);
            }
        },
    }
    r.shuffle(&mut opts);
    let mut out: Vec<Vec<String>> = pos.iter().map(|p| vec![p.clone()]).collect();
    for o in opts {
        let at = r.below(out.len() + 1);
        out.insert(at, o);
    }
    out.concat()
}

fn read(s: &Setup, fmt: &str) -> Result<Vec<files::Tuple>, Fail> {
    let b = fs::read(&s.out).map_err(|e| Fail::Violation(format!("exit status 0, but no output: {e}")))?;
    files::decode_paths(&b, fmt).map_err(|e| Fail::Violation(format!("exit status 0, but the output does not decode: {e}")))
}

fn exact(ctx: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let fmt: Vec<String> = serde_json::from_value(v["formats"].clone()).unwrap();
    let s = setup(ctx, &inst, &fmt);
    let args = arguments(&mut Rng::new(v["seed"].as_u64().unwrap()), &s.pos, &mode);
    let shown = format!("{:?}", &args);
    let mut c = Running(cli().args(&args).spawn().unwrap());
    let Some((code, _)) = wait(&mut c, Duration::from_secs(40)) else {
        return Err(Fail::Violation(format!("does not end within 40 s: {shown}")));
    };
    ensure!(code == 0, "exit status {code} for {shown}");
    let got = read(&s, &fmt[2])?;
    let want = calm("run", || mode.call(&inst))?;
    if mode.nthreads < 2 || !mode.do_search {
        ensure!(got == files::tuples(&want), "{shown}: {got:?}, but the library says {want:?}");
    } else {
        let p: Vec<(usize, usize)> = got.iter().map(|g| (g.0, g.1)).collect();
        ensure!(p == pairs(&want), "{shown}: {got:?}, but the library says {want:?}");
    }
    obs.count("runs", 1);
    obs.count(&format!("mode_{}", mode.label()), 1);
    if inst.num_deps() > 0 {
        obs.nontrivial(inst.hash() ^ model::fnv(shown.as_bytes()));
        obs.sample = Some(json!({"arguments": args, "paths": paths_json(&want)}));
    }
    Ok(())
}

/// The result of a probabilistic search as often as the library gives it.
fn probabilistic(ctx: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let fmt: Vec<String> = serde_json::from_value(v["formats"].clone()).unwrap();
    let mode = Mode { prob: Some((Func::Builtin, None)), ..Mode::SEARCH };
    let lib = 3000;
    let mut freq: HashMap<Vec<(usize, usize)>, usize> = HashMap::new();
    for _ in 0..lib {
        *freq.entry(pairs(&calm("run", || mode.call(&inst))?)).or_default() += 1;
    }
    let n = if ctx.thorough { 150 } else { 60 };
    let mut seen: HashMap<Vec<(usize, usize)>, usize> = HashMap::new();
    let mut r = Rng::new(v["seed"].as_u64().unwrap());
    for _ in 0..n {
        let s = setup(ctx, &inst, &fmt);
        let args = arguments(&mut r, &s.pos, &mode);
        let mut c = Running(cli().args(&args).spawn().unwrap());
        let Some((code, _)) = wait(&mut c, Duration::from_secs(40)) else {
            return Err(Fail::Violation(format!("does not end within 40 s: {args:?}")));
        };
        ensure!(code == 0, "exit status {code} for {args:?}");
        let p = read(&s, &fmt[2])?.iter().map(|g| (g.0, g.1)).collect();
        *seen.entry(p).or_default() += 1;
    }
    let mut all: Vec<_> = freq.keys().chain(seen.keys()).cloned().collect();
    all.sort();
    all.dedup();
    for k in &all {
        let (a, b) = (*freq.get(k).unwrap_or(&0) as u64, *seen.get(k).unwrap_or(&0) as u64);
        let e = stat::two(a, lib as u64, b, n as u64);
        ensure!(
            e <= stat::LIMIT,
            "with -s -p, {k:?} comes out {b} of {n} times, from the library {a} of {lib} times"
        );
        obs.max("largest_deviation_exponent_x100", (e * 100.) as u64);
    }
    obs.count("probabilistic_runs", n as u64);
    obs.count("probabilistic_distributions_with_choice", (all.len() > 1) as u64);
    obs.nontrivial(inst.hash() ^ 7);
    Ok(())
}

/// A problem whose search never ends.
fn endless(n: usize) -> Inst {
    let mut adj = vec![Vec::new(); n];
    for i in 1..n {
        adj[i].push(i - 1);
        adj[i - 1].push(i);
    }
    Inst { adj, order: vec![(0..n).map(|i| (i, vec![])).collect()] }
}

/// As [endless], but each of the first tasks is endless as well: threads may end when
/// there is nothing left for them to do.
fn endless_tasks(n: usize, first: usize) -> Inst {
    let mut inst = endless(n);
    inst.order = vec![
        (0..first).map(|i| (i, vec![])).collect(),
        (first..n).map(|i| (i, vec![i % first])).collect(),
    ];
    inst
}

fn timeout(ctx: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = endless(32);
    let secs = v["secs"].as_u64();
    let fmt: Vec<String> = vec!["serde_json".into(), "bincode".into(), "serde_json".into()];
    let mode = Mode {
        timeout_us: secs.map(|s| s * 1_000_000),
        nthreads: v["threads"].as_u64().unwrap() as u16,
        task_bound: Some(10),
        ..Mode::SEARCH
    };
    let s = setup(ctx, &inst, &fmt);
    let args = arguments(&mut Rng::new(v["seed"].as_u64().unwrap()), &s.pos, &mode);
    let mut c = Running(cli().args(&args).spawn().unwrap());
    let Some(secs) = secs else {
        // without -t it goes on
        let end = wait(&mut c, Duration::from_secs(4));
        ensure!(end.is_none(), "a search that cannot be complete ends by itself: {end:?} for {args:?}");
        obs.count("unlimited_runs", 1);
        return Ok(());
    };
    // far below one minute, far above any delay
    match wait(&mut c, Duration::from_secs(secs + 40)) {
        None => return Err(Fail::Violation(format!("still running {} s after it was started: {args:?}", secs + 40))),
        Some((code, took)) => {
            ensure!(code == 0, "exit status {code} for {args:?}");
            ensure!(
                // the clock was read after the program had started
                took + Duration::from_millis(500) >= Duration::from_secs(secs),
                "ends after {took:?}, though there was more to search and time left: {args:?}"
            );
            obs.max("ms_after_the_timeout", took.saturating_sub(Duration::from_secs(secs)).as_millis() as u64);
        },
    }
    let got = read(&s, "serde_json")?;
    for (time, space, steps) in &got {
        model::check_pattern(&inst, steps).map_err(Fail::Violation)?;
        ensure!(*time == steps.len() && *space == model::space(&inst.adj, steps), "wrong costs in {got:?}");
    }
    ensure!(!got.is_empty() || secs == 0, "nothing found within {secs} s");
    obs.count("timed_runs", 1);
    Ok(())
}

fn threads_of(pid: u32) -> usize {
    fs::read_dir(format!("/proc/{pid}/task")).map_or(0, |d| d.count())
}

fn most_threads(c: &mut Running) -> Option<usize> {
    let t = Instant::now();
    let mut most = 0;
    while t.elapsed() < Duration::from_millis(1500) {
        most = most.max(threads_of(c.0.id()));
        if c.0.try_wait().unwrap().is_some() {
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    Some(most)
}

/// -n: as many threads as the library starts for that number.
fn threads(ctx: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let n = v["threads"].as_u64().unwrap() as u16;
    // more tasks than threads
    let (first, tasks) = if n > 30 { (9, 400) } else { (5, 200) };
    let inst = endless_tasks(60, first);
    let fmt: Vec<String> = vec!["serde_json".into(), "serde_json".into(), "serde_json".into()];
    let mode = Mode { nthreads: n, timeout_us: Some(30_000_000), task_bound: Some(tasks), ..Mode::SEARCH };
    let s = setup(ctx, &inst, &fmt);
    let mut args = arguments(&mut Rng::new(v["seed"].as_u64().unwrap()), &s.pos, &mode);
    if v["default"] == true {
        args.retain(|a| !a.starts_with("-n") && !a.starts_with("--nthreads") && a != "1");
    }
    let case = s.dir.path.join("case");
    fs::write(&case, vh::modes::case(&inst, &mode).to_string()).unwrap();
    for attempt in 0..3 {
        let mut c = Running(cli().args(&args).spawn().unwrap());
        let mut l = Running(
            Command::new(std::env::current_exe().unwrap())
                .env("VH_CHILD", &case)
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .unwrap(),
        );
        let (a, b) = (most_threads(&mut c), most_threads(&mut l));
        let (Some(a), Some(b)) = (a, b) else {
            if attempt == 2 {
                return Err(Fail::Inconclusive("the program or the library ended too soon".into()));
            }
            continue;
        };
        if a == b {
            obs.count("thread_counts_compared", 1);
            obs.max("threads", a as u64);
            return Ok(());
        }
        if attempt == 2 {
            return Err(Fail::Violation(format!("{a} threads for {args:?}, the library has {b} with nthreads = {n}")));
        }
    }
    Ok(())
}

/// -b, seen in the debug log of the search tasks (if there is one).
fn bound(ctx: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let width = v["width"].as_u64().unwrap() as usize;
    let inst = endless(width);
    let fmt: Vec<String> = vec!["bincode".into(), "serde_json".into(), "bincode".into()];
    let all = (1usize << width) - 1;
    let b = v["bound"].as_u64().map(|b| b as u32);
    let mode = Mode { nthreads: v["threads"].as_u64().unwrap() as u16, task_bound: b, ..Mode::SEARCH };
    let s = setup(ctx, &inst, &fmt);
    let args = arguments(&mut Rng::new(v["seed"].as_u64().unwrap()), &s.pos, &mode);
    let out = cli().args(&args).env("RUST_LOG", "debug").stdout(Stdio::piped()).output().unwrap();
    ensure!(out.status.success(), "{} for {args:?}", out.status);
    let log = String::from_utf8_lossy(&out.stdout).into_owned();
    let started = log.lines().filter(|l| l.contains("START: measure")).count();
    let single = log.lines().filter(|l| l.contains("START: measure: Some")).count();
    if started == 0 {
        obs.count("no_task_log", 1);
        return Ok(());
    }
    let want = b.map_or(all, |b| all.min(b as usize));
    ensure!(single == want && started == want + 1, "{started} tasks, {single} of them for a first step, expected {want}: {args:?}");
    obs.count("bounds_seen_in_log", 1);
    Ok(())
}

/// Arguments that cannot be used, and inputs and outputs that fail.
fn failing(ctx: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let fmt: Vec<String> = serde_json::from_value(v["formats"].clone()).unwrap();
    let s = setup(ctx, &inst, &fmt);
    let missing = s.dir.path.join("missing").to_str().unwrap().to_string();
    let broken = s.dir.path.join("broken").to_str().unwrap().to_string();
    fs::write(&broken, b"[[1").unwrap();
    let with = |i: usize, x: &str| {
        let mut p = s.pos.to_vec();
        p[i] = x.to_string();
        p
    };
    let plus = |more: &[&str]| {
        let mut p = s.pos.to_vec();
        p.extend(more.iter().map(|m| m.to_string()));
        p
    };
    let mut bad: Vec<Vec<String>> = vec![
        vec![],
        with(0, &missing), with(2, &missing), with(0, &broken), with(2, &broken),
        with(1, "json"), with(3, "json"), with(5, "json"), with(5, ""), with(1, "Bincode"),
        with(4, "/dev/full"), with(4, s.dir.path.to_str().unwrap()), with(4, &format!("{}/x", s.pos[0])),
    ];
    for o in [
        &["-t"][..], &["-n"], &["-b"], &["-t", "x"], &["-t", "-1"], &["-t", "1.5"], &["-t", "4294967296"], &["-t", ""],
        &["-n", "65536"], &["-n", "-1"], &["-n", "two"], &["-b", "-1"], &["-b", "4294967296"], &["-b", "1e3"],
        &["-x"], &["--serch"], &["one_more"], &["-s", "-s"], &["--search=true"], &["-t", "1", "-t", "2"], &["--timeout", "1s"],
        &["-n", "1", "-n", "2"], &["-p", "-p"], &["--probablistic=yes"],
    ] {
        bad.push(plus(o));
    }
    for k in 0..6 {
        bad.push(s.pos[..k].to_vec());
    }
    const KEPT: &[u8] = b"earlier results";
    fs::create_dir_all(s.out.parent().unwrap()).unwrap();
    for (i, args) in bad.iter().enumerate() {
        for search in [false, true] {
            let mut args = args.clone();
            if search && !args.is_empty() && !args.contains(&"-s".to_string()) {
                args.insert(0, "-s".into());
            }
            fs::write(&s.out, KEPT).unwrap();
            let mut c = Running(cli().args(&args).spawn().unwrap());
            let Some((code, _)) = wait(&mut c, Duration::from_secs(40)) else {
                return Err(Fail::Violation(format!("does not end within 40 s: {args:?}")));
            };
            ensure!(code != 0, "exit status 0 for {args:?}");
            ensure!(fs::read(&s.out).is_ok_and(|b| b == KEPT), "it fails, but the existing output is changed: {args:?}");
            obs.count("failures", 1);
            obs.distinct("failing_arguments", i as u64 * 2 + search as u64);
        }
    }
    // and what only asks for information
    for a in ["--help", "-h", "--version", "-V"] {
        let mut c = Running(cli().arg(a).spawn().unwrap());
        ensure!(wait(&mut c, Duration::from_secs(40)).is_some_and(|x| x.0 == 0), "{a} fails");
    }
    // the same problem without a mistake works
    let mut c = Running(cli().args(&s.pos).spawn().unwrap());
    ensure!(wait(&mut c, Duration::from_secs(40)).is_some_and(|x| x.0 == 0), "{:?} fails", s.pos);
    ensure!(fs::read(&s.out).is_ok_and(|b| b != KEPT), "exit status 0, but nothing written");
    Ok(())
}

fn main() {
    if let Ok(path) = std::env::var("VH_CHILD") {
        let v: Value = serde_json::from_slice(&fs::read(path).unwrap()).unwrap();
        Mode::from_json(&v["mode"]).call(&Inst::from_json(&v));
        return;
    }
    let mut run = Runner::new();
    let formats = |i: usize| {
        let f = ["serde_json", "bincode"];
        json!([f[i & 1], f[i >> 1 & 1], f[i >> 2 & 1]])
    };
    let n = run.ctx().cases(2000, 60_000);
    run.group("exact", n, 0.4, 8, |_, r, i| {
        let inst = if i % 2 == 0 { affordable(r, 1, 9, 10_000, gen::inst) } else { affordable(r, 3, 8, 10_000, gen::wide_inst) };
        let do_search = !r.chance(0.25);
        let m = Mode {
            do_search,
            nthreads: *r.pick(&[0, 1, 1, 1, 2, 4, 300]),
            task_bound: *r.pick(&[None, Some(0), Some(2), Some(u32::MAX)]),
            timeout_us: r.chance(0.4).then(|| *r.pick(&[3600, 256, 65_536, 1 << 24, u32::MAX as u64]) * 1_000_000),
            // without a search, the other settings do not matter
            prob: (!do_search && r.chance(0.4)).then_some((Func::Builtin, None)),
        };
        let mut v = case(&inst, &m);
        v["formats"] = formats(i);
        v["seed"] = json!(r.next());
        v
    }, exact);
    let n = run.ctx().cases(8, 120);
    run.group("probabilistic", n, 0.2, 8, |_, r, i| {
        let n = 4 + i % 4;
        // results that vary
        let inst = (0..200)
            .map(|_| affordable(r, n, n, 5000, gen::wide_inst))
            .find(|inst| {
                let all = pairs(&Mode::SEARCH.call(inst));
                let m = Mode { prob: Some((Func::Builtin, None)), ..Mode::SEARCH };
                (0..60).filter(|_| pairs(&m.call(inst)) == all).count() < 30
            })
            .unwrap_or_else(|| endless(5));
        let mut v = inst.json();
        v["formats"] = formats(i);
        v["seed"] = json!(r.next());
        v
    }, probabilistic);
    run.group("failing", 4, 0.2, 4, |_, r, i| {
        let mut v = gen::inst(r, 3, 6).json();
        v["formats"] = formats(i * 2 + 1);
        v
    }, failing);
    let n = run.ctx().cases(8, 60);
    run.group("bound", n, 0.1, 8, |_, r, i| {
        json!({"width": r.range(3, 6), "threads": r.range(2, 4), "seed": r.next(),
            "bound": *[None, Some(0), Some(1), Some(5), Some(1000)].get(i % 5).unwrap()})
    }, bound);
    let n = run.ctx().cases(6, 24);
    run.group("threads", n, 0.2, 3, |_, r, i| {
        json!({"threads": *[1, 2, 3, 257, 12, 1].get(i % 6).unwrap(), "default": i % 6 == 5, "seed": r.next()})
    }, threads);
    let n = run.ctx().cases(6, 24);
    run.group("timeout", n, 0.2, 6, |_, r, i| {
        let secs = [Some(1), Some(3), Some(0), None, Some(2), Some(1)];
        json!({"secs": secs.get(i % 6).unwrap(), "threads": *[1, 2, 1, 1, 3, 0].get(i % 6).unwrap(), "seed": r.next()})
    }, timeout);
    run.finish();
}
