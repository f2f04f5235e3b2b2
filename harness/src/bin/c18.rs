//! C18: failures of inputs, formats and outputs are reported, and an existing output is
//! left alone when nothing can be written to it.
use std::{fs, os::unix::fs::symlink, path::PathBuf, process::Command};

use mbqc_scheduling::interface;
use serde_json::{json, Value};
use vh::{
    ensure, files, gen,
    model::{self, Inst, Order},
    modes::{affordable, Mode},
    rng::Rng,
    run::{calm, guarded, Ctx, Fail, Obs, Runner},
};

type Out = Result<(), String>;

fn call(
    mode: &Mode,
    sp: (&PathBuf, &str),
    dp: (&PathBuf, &str),
    out: (&PathBuf, &str),
) -> Result<Out, String> {
    guarded(|| {
        interface::run_serialized(
            sp, dp, mode.do_search, None, mode.nthreads, mode.task_bound,
            mode.prob.as_ref().map(|(f, _)| f.build()),
            out,
        )
        .map_err(|e| e.to_string())
    })
}

const KEPT: &[u8] = b"results of last night, a very long run";

/// The call has to fail, without panicking, and the output has to stay as it is.
fn refused(mode: &Mode, sp: (&PathBuf, &str), dp: (&PathBuf, &str), out: (&PathBuf, &str), what: &str) -> Result<(), Fail> {
    fs::write(out.0, KEPT).unwrap();
    match call(mode, sp, dp, out) {
        Err(p) => return Err(Fail::Violation(format!("{what}: a panic instead of an error: {p}"))),
        Ok(Ok(())) => return Err(Fail::Violation(format!("{what}: success is returned"))),
        Ok(Err(_)) => {},
    }
    let now = fs::read(out.0).map_err(|e| Fail::Violation(format!("{what}: the existing output is gone: {e}")))?;
    ensure!(now == KEPT, "{what}: the existing output is changed to {:?}", String::from_utf8_lossy(&now));
    Ok(())
}

fn decodes(bytes: &[u8], format: &str, dep: bool) -> bool {
    match (format, dep) {
        ("serde_json", false) => serde_json::from_slice::<Vec<Vec<usize>>>(bytes).is_ok(),
        ("serde_json", true) => serde_json::from_slice::<Order>(bytes).is_ok(),
        (_, false) => bincode::deserialize::<Vec<Vec<usize>>>(bytes).is_ok(),
        (_, true) => bincode::deserialize::<Order>(bytes).is_ok(),
    }
}

fn inputs(ctx: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let fmt: Vec<String> = serde_json::from_value(v["formats"].clone()).unwrap();
    let mut r = Rng::new(v["seed"].as_u64().unwrap());
    let dir = files::Scratch::new(&ctx.scratch, "c18");
    let (sp, dp, out, bad) = (dir.path.join("s"), dir.path.join("d"), dir.path.join("o"), dir.path.join("bad"));
    let data = [files::bytes(&inst.adj, &fmt[0], false), files::bytes(&inst.order, &fmt[1], false)];
    fs::write(&sp, &data[0]).unwrap();
    fs::write(&dp, &data[1]).unwrap();
    let with = |which: usize, path: &PathBuf, f: &str, what: &str| {
        let what = format!("{what} as {} ({f})", ["spacial graph", "dependency graph"][which]);
        if which == 0 {
            refused(&mode, (path, f), (&dp, &fmt[1]), (&out, &fmt[2]), &what)
        } else {
            refused(&mode, (&sp, &fmt[0]), (path, f), (&out, &fmt[2]), &what)
        }
    };
    for which in 0..2 {
        let f = fmt[which].as_str();
        // truncated everywhere
        for k in 0..data[which].len() {
            if decodes(&data[which][..k], f, which == 1) {
                continue;
            }
            fs::write(&bad, &data[which][..k]).unwrap();
            with(which, &bad, f, &format!("a file truncated to {k} of {} bytes", data[which].len()))?;
            obs.count("truncations", 1);
        }
        // corrupted; what still decodes is another problem, not a failure
        for _ in 0..40 {
            let mut b = data[which].clone();
            for _ in 0..r.range(1, 3) {
                let at = r.below(b.len() + 1);
                match r.below(4) {
                    0 if at < b.len() => b[at] ^= 1 << r.below(8),
                    1 if at < b.len() => b[at] = *r.pick(b"[]{},:\"-.0e \xff\x00n"),
                    2 if at < b.len() => {
                        b.remove(at);
                    },
                    _ => b.insert(at, *r.pick(b"[]{},:\"-.0e \xff\x00n")),
                }
            }
            if decodes(&b, f, which == 1) {
                continue;
            }
            fs::write(&bad, &b).unwrap();
            with(which, &bad, f, &format!("the corrupted file {:?}", String::from_utf8_lossy(&b)))?;
            obs.count("corruptions", 1);
        }
        // something else altogether
        let garbage: Vec<&[u8]> = vec![
            b"", b" ", b"null", b"{}", b"[", b"[[", b"[[1],[0]]]", b"[[0],[\"1\"]]", b"[[1.5]]", b"[[-1]]", b"[[1],[0]] x",
            b"[[18446744073709551616]]", b"\xef\xbb\xbf[]", b"[[true]]", b"[1]", b"[[[1]]]", b"[[[0]]]", b"[[[0,[],1]]]", b"{\"0\":[]}",
            b"\xff\xff\xff\xff\xff\xff\xff\xff", b"\xff\xff\xff\xff\xff\xff\xff\x7f\x00", b"\x01\0\0\0\0\0\0", b"\x05\0\0\0\0\0\0\0",
            b"\x01\0\0\0\0\0\0\0\xff\xff\xff\xff\xff\xff\xff\xff\0\0\0\0\0\0\0\0",
        ];
        for g in garbage {
            if decodes(g, f, which == 1) {
                continue;
            }
            fs::write(&bad, g).unwrap();
            with(which, &bad, f, &format!("{:?}", String::from_utf8_lossy(g)))?;
            obs.count("garbage", 1);
        }
        // the other format
        let other = if f == "bincode" { "serde_json" } else { "bincode" };
        if !decodes(&data[which], other, which == 1) {
            fs::write(&bad, &data[which]).unwrap();
            with(which, &bad, other, "a file of another format")?;
            obs.count("other_format", 1);
        }
        // no readable file
        let dangling = dir.path.join("dangling");
        symlink(dir.path.join("nowhere"), &dangling).ok();
        for (p, what) in [
            (dir.path.join("missing"), "a missing file"),
            (dir.path.join("no/such/dir"), "a file in a missing directory"),
            (dir.path.clone(), "a directory"),
            (dangling, "a dangling link"),
            (sp.join("below"), "a file below a file"),
            (PathBuf::from("/proc/self/mem"), "an unreadable file"),
            (PathBuf::from(""), "no name"),
            (PathBuf::from("a\0b"), "an impossible name"),
        ] {
            with(which, &p, f, what)?;
            obs.count("unreadable", 1);
        }
    }
    // unknown formats
    for bad in ["", "json", "JSON", "Serde_json", "serde_json ", " bincode", "bincode2", "serde-json", "yaml", "serde_json\0", "b", "bincod"] {
        with(0, &sp, bad, "an unknown format")?;
        with(1, &dp, bad, "an unknown format")?;
        refused(&mode, (&sp, &fmt[0]), (&dp, &fmt[1]), (&out, bad), &format!("unknown output format {bad:?}"))?;
        obs.count("unknown_formats", 3);
    }
    obs.nontrivial(inst.hash() ^ model::fnv(format!("{fmt:?}{}", mode.json()).as_bytes()));
    obs.sample = Some(json!({"input_bytes": [data[0].len(), data[1].len()]}));
    Ok(())
}

fn outputs(ctx: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let fmt: Vec<String> = serde_json::from_value(v["formats"].clone()).unwrap();
    let dir = files::Scratch::new(&ctx.scratch, "c18");
    let (sp, dp) = (dir.path.join("s"), dir.path.join("d"));
    files::write(&sp, &inst.adj, &fmt[0], false);
    files::write(&dp, &inst.order, &fmt[1], false);
    let subdir = dir.path.join("dir");
    fs::create_dir(&subdir).unwrap();
    let file = dir.path.join("file");
    fs::write(&file, KEPT).unwrap();
    let full = dir.path.join("full");
    symlink("/dev/full", &full).ok();
    for (p, what) in [
        // only by a link: not to be replaced or removed
        (full, "a full disk"),
        (subdir, "a directory"),
        (file.join("out"), "a file below a file"),
        (file.join("a/b/out"), "a directory below a file"),
        (dir.path.join("x".repeat(300)), "too long a name"),
        (dir.path.join("x".repeat(300)).join("out"), "too long a directory name"),
        (dir.path.join("a\0b"), "an impossible name"),
        (PathBuf::from("/proc/self/mem/out"), "a file below a special file"),
    ] {
        match call(&mode, (&sp, &fmt[0]), (&dp, &fmt[1]), (&p, &fmt[2])) {
            Err(e) => return Err(Fail::Violation(format!("output to {what} ({}): a panic instead of an error: {e}", fmt[2]))),
            Ok(Ok(())) => return Err(Fail::Violation(format!("output to {what} ({}): success is returned", fmt[2]))),
            Ok(Err(_)) => {},
        }
        obs.count("failing_outputs", 1);
    }
    ensure!(fs::read(&file).is_ok_and(|b| b == KEPT), "a file that is in the way is changed");
    obs.nontrivial(inst.hash() ^ model::fnv(format!("{fmt:?}{}", mode.json()).as_bytes()));
    Ok(())
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn getrlimit(resource: i32, rlim: *mut [u64; 2]) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;

/// In a process of its own: the disk is full after k bytes, for every k.
fn limited(path: &str) {
    let v: Value = serde_json::from_slice(&fs::read(path).unwrap()).unwrap();
    let inst = match v["huge"].as_u64() {
        Some(seed) => gen::huge_inst(&mut Rng::new(seed), v["nodes"].as_u64().unwrap() as usize, true),
        None => Inst::from_json(&v),
    };
    let mode = Mode::from_json(&v["mode"]);
    let fmt: Vec<String> = serde_json::from_value(v["formats"].clone()).unwrap();
    let dir = PathBuf::from(format!("{path}.dir"));
    fs::create_dir_all(&dir).unwrap();
    let (sp, dp, out) = (dir.join("s"), dir.join("d"), dir.join("o"));
    files::write(&sp, &inst.adj, &fmt[0], false);
    files::write(&dp, &inst.order, &fmt[1], false);
    let mut lim = [0u64; 2];
    unsafe {
        signal(SIGXFSZ, 1);
        getrlimit(RLIMIT_FSIZE, &mut lim);
    }
    let set = |n: u64| unsafe { setrlimit(RLIMIT_FSIZE, &[n, lim[1]]) };
    let run = || call(&mode, (&sp, &fmt[0]), (&dp, &fmt[1]), (&out, &fmt[2]));
    let res = run();
    let len = fs::metadata(&out).map_or(0, |m| m.len());
    let mut report = vec![json!({"len": len, "ok": res == Ok(Ok(()))})];
    let mut limits: Vec<u64> = if len <= 3000 {
        (0..=len).collect()
    } else {
        // around the sizes of buffers, and the last bytes
        let mut r = Rng::new(v["seed"].as_u64().unwrap());
        let mut l: Vec<u64> = (0..30).map(|_| r.below(len as usize) as u64).collect();
        l.extend(0..3);
        l.extend((len - 10)..=len);
        for size in [1 << 10, 1 << 12, 1 << 13, 1 << 14, 1 << 16, 1 << 17, 1 << 20] {
            let last = len - len % size;
            l.extend([size - 1, size, size + 1, last.max(1) - 1, last, last + 1]);
        }
        l.retain(|k| *k <= len);
        l
    };
    limits.dedup();
    for k in limits {
        assert_eq!(set(k), 0);
        let res = run();
        set(lim[0]);
        let what = match res {
            Err(p) => format!("a panic: {p}"),
            Ok(Ok(())) => "success".into(),
            Ok(Err(_)) => "error".to_string(),
        };
        report.push(json!([k, what]));
    }
    fs::remove_dir_all(&dir).ok();
    println!("{}", json!(report));
}

fn disk(ctx: &Ctx, v: &Value, obs: &mut Obs) -> Result<(), Fail> {
    let dir = files::Scratch::new(&ctx.scratch, "c18");
    let path = dir.path.join("case");
    fs::write(&path, v.to_string()).unwrap();
    let out = Command::new(std::env::current_exe().unwrap())
        .env("VH_CHILD", &path)
        .env("VH_OUT", "/dev/null")
        .output()
        .unwrap();
    ensure!(out.status.success(), "a process with a limited disk ends with {}: {}", out.status, String::from_utf8_lossy(&out.stderr));
    let rep: Vec<Value> = serde_json::from_slice(&out.stdout).unwrap();
    let len = rep[0]["len"].as_u64().unwrap();
    ensure!(rep[0]["ok"] == true && len > 0, "no output without a limit");
    for r in &rep[1..] {
        let (k, what) = (r[0].as_u64().unwrap(), r[1].as_str().unwrap());
        let want = if k < len { "error" } else { "success" };
        ensure!(what == want, "{what} when the disk is full after {k} of {len} bytes ({})", v["formats"][2]);
        obs.count("full_disks", (k < len) as u64);
        obs.max("largest_output_bytes", len);
    }
    obs.distinct("full_disk_cases", model::fnv(v.to_string().as_bytes()));
    Ok(())
}

/// An output that can be written is replaced: the oracle for "left alone" is not vacuous.
fn good(ctx: &Ctx, v: &Value, _: &mut Obs) -> Result<(), Fail> {
    let inst = Inst::from_json(v);
    let mode = Mode::from_json(&v["mode"]);
    let fmt: Vec<String> = serde_json::from_value(v["formats"].clone()).unwrap();
    let dir = files::Scratch::new(&ctx.scratch, "c18");
    let (sp, dp, out) = (dir.path.join("s"), dir.path.join("d"), dir.path.join("o"));
    files::write(&sp, &inst.adj, &fmt[0], false);
    files::write(&dp, &inst.order, &fmt[1], false);
    fs::write(&out, KEPT).unwrap();
    let res = calm("run_serialized", || call(&mode, (&sp, &fmt[0]), (&dp, &fmt[1]), (&out, &fmt[2])))?;
    ensure!(res == Ok(Ok(())), "{res:?} for a valid problem");
    ensure!(fs::read(&out).is_ok_and(|b| b != KEPT), "success, but the output is still the old one");
    Ok(())
}

fn draw(r: &mut Rng, i: usize, hi: usize) -> Value {
    let f = ["serde_json", "bincode"];
    let inst = affordable(r, 1, hi, 3000, gen::inst);
    let mode = Mode {
        do_search: r.chance(0.7),
        nthreads: *r.pick(&[1, 1, 1, 3]),
        ..Mode::SEARCH
    };
    let mut v = inst.json();
    v["mode"] = mode.json();
    v["formats"] = json!([f[i & 1], f[i >> 1 & 1], f[i >> 2 & 1]]);
    v["seed"] = json!(r.next());
    v
}

fn main() {
    if let Ok(path) = std::env::var("VH_CHILD") {
        return limited(&path);
    }
    let mut run = Runner::new();
    let n = run.ctx().cases(160, 6000);
    run.group("inputs", n, 0.4, 8, |_, r, i| draw(r, i, 6), inputs);
    let n = run.ctx().cases(400, 12_000);
    run.group("outputs", n, 0.15, 8, |_, r, i| draw(r, i, 8), outputs);
    run.group("good", n / 4, 0.05, 8, |_, r, i| draw(r, i, 8), good);
    let n = run.ctx().cases(80, 3000);
    run.group("disk", n, 0.25, 8, |_, r, i| draw(r, i, 8), disk);
    // outputs of several buffers
    let n = run.ctx().cases(24, 600);
    run.group("large", n, 0.15, 8, |_, r, i| {
        let mut v = draw(r, i, 3);
        v["mode"] = Mode::GREEDY.json();
        v["huge"] = json!(r.next());
        v["nodes"] = json!(*r.pick(&[500, 1000, 5000, 9000]) + r.below(1000));
        v
    }, disk);
    run.finish();
}
