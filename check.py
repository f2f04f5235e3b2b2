#!/usr/bin/env python3
"""Run the check of one property:  check.py <ID> [--tier quick|thorough] [--replay FILE]

Builds the monitors against /repo's working tree, runs them, merges their reports, writes
evidence/<ID>.json.  Exit 0: held on everything explored.  Exit 1, with a VIOLATION line:
broken.  Exit 2: no verdict (build failure, monitor error, nothing observed)."""
import argparse
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF / "tools"))
sys.dont_write_bytecode = True
REPO = Path(os.environ.get("VH_REPO", "/repo"))
TARGET = VERIF / "target"
HARNESS = VERIF / "harness"


class NoVerdict(Exception):
    pass


class Violation(Exception):
    def __init__(self, message, replay):
        super().__init__(message)
        self.replay = replay


def log(*a):
    print("[check]", *a, flush=True)


BASE_ENV = {
    "CARGO_NET_OFFLINE": "true",
    "CARGO_TERM_COLOR": "never",
    "RUSTC_WRAPPER": "",
    "RUST_BACKTRACE": "0",
}


def child_env(extra=None):
    env = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET",
              "CARGO_PROFILE_DEV_DEBUG", "CARGO_INCREMENTAL", "RUST_LOG"):
        env.pop(k, None)
    env.update(BASE_ENV)
    for k, v in (extra or {}).items():
        env[k] = str(v)
    return env


def sh(cmd, env=None, timeout=600, cwd=None):
    """Run a command in its own process group; kill the whole group on timeout."""
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, errors="replace",
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out


def use_lock():
    """/repo's lock file is ignored by git there; without it, use the one of the harness."""
    lock = REPO / "mbqc_scheduling" / "Cargo.lock"
    if not lock.exists():
        src = Path("/opt/vp/mbqc_scheduling.Cargo.lock")
        if src.exists():
            shutil.copy(src, lock)


# name -> (RUSTFLAGS, toolchain, extra cargo arguments)
VARIANTS = {
    "hooks": ("--cfg mbqc_verif", None, []),
    "plain": ("", None, []),
    "tsan": ("-Zsanitizer=thread", "+nightly",
             ["-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"]),
    "asan": ("-Zsanitizer=address", "+nightly", ["--target", "x86_64-unknown-linux-gnu"]),
}


def build(variant, profile, bins):
    flags, toolchain, extra = VARIANTS[variant]
    target = TARGET / variant
    cmd = ["cargo"] + ([toolchain] if toolchain else []) + ["build", "--offline"]
    cmd += ["--manifest-path", str(HARNESS / "Cargo.toml"), "--target-dir", str(target)] + extra
    if profile == "release":
        cmd.append("--release")
    for b in bins:
        cmd += ["--bin", b]
    rc, out = sh(cmd, env=child_env({"RUSTFLAGS": flags}), timeout=800, cwd=str(HARNESS))
    if rc != 0:
        tail = "\n".join(out.splitlines()[-40:])
        raise NoVerdict(f"build of {bins} ({variant}, {profile}) failed:\n{tail}")
    d = target / ("x86_64-unknown-linux-gnu" if "--target" in extra else "")
    return {b: d / profile / b if profile == "release" else d / "debug" / b for b in bins}


def build_cli(profile="debug"):
    use_lock()
    target = TARGET / "cli"
    cmd = ["cargo", "build", "--offline", "--manifest-path",
           str(REPO / "mbqc_scheduling" / "Cargo.toml"), "--target-dir", str(target), "--bin",
           "mbqc_scheduling"]
    if profile == "release":
        cmd.append("--release")
    rc, out = sh(cmd, env=child_env(), timeout=800)
    if rc != 0:
        raise NoVerdict("build of the command line program failed:\n" + out[-3000:])
    return target / profile / "mbqc_scheduling"


# how a sanitizer's report becomes an exit status
SANITIZER = {
    "tsan": {"TSAN_OPTIONS": "exitcode=66:halt_on_error=1"},
    "asan": {"ASAN_OPTIONS": "exitcode=67:detect_leaks=1", "LSAN_OPTIONS": "exitcode=67"},
}


# their threads may all be waiting while a child process works
WAITS_FOR_CHILDREN = ("c09", "c18", "c19")


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.scratch = VERIF / "scratch" / f"{pid}-{os.getpid()}"
        self.scratch.mkdir(parents=True)
        self.evaluations = 0
        self.keys = set()
        self.sets = {}
        self.counters = {}
        self.maxima = {}
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self.notes = []
        self.complete = True

    # ---- running monitors -------------------------------------------------------
    def add_report(self, rep, job):
        self.evaluations += rep["evaluations"]
        self.keys.update(rep["keys"])
        for k, v in rep["sets"].items():
            self.sets.setdefault(k, set()).update(v)
        for k, v in rep["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        for k, v in rep["maxima"].items():
            self.maxima[k] = max(self.maxima.get(k, 0), v)
        for s in rep["samples"]:
            if len(self.samples) < 4 and len(json.dumps(s)) < 6000:
                self.samples.append(s)
        for v in rep["violations"]:
            self.violations.append({**v, "job": job})
        for v in rep["inconclusive"]:
            self.inconclusive.append({**v, "job": job})
        self.complete &= rep["complete"]

    def env_for(self, job, out, extra=None):
        e = {
            "VERIF_TIER": self.tier,
            # other cases in each profile, unless they are to be compared
            "VERIF_SEED": self.seed * 2 + (job["profile"] == "debug" and not job.get("same")), "VH_PROP": self.pid,
            "VH_OUT": out, "VH_SCRATCH": self.scratch, "TMPDIR": self.scratch,
            "VH_BUDGET": job["budget"], "VH_CASE_LIMIT": job.get("case_limit", 60),
            "VH_WORKERS": job.get("workers", 8),
            "VH_SHARD": job.get("shard", 0), "VH_SHARDS": job.get("shards", 1),
        }
        if job["bin"] not in WAITS_FOR_CHILDREN:
            e["VH_BLOCKED"] = 25
        e.update(SANITIZER.get(job["variant"], {}))
        if job.get("journal"):
            e["VH_JOURNAL"] = self.journal(job)
        e.update(job.get("env", {}))
        e.update(extra or {})
        return child_env(e)

    def journal(self, job):
        return self.scratch / f"journal-{self.tag(job)}"

    def tag(self, job):
        return "-".join(str(x) for x in (job["bin"], job["variant"], job["profile"],
                                         job.get("tag", ""), job.get("shard", 0)))

    def run_job(self, job):
        """One monitor process. A crash or a case that does not end is attributed to the
        case that was running."""
        exe = job["exe"]
        tag = self.tag(job)
        out = self.scratch / f"{tag}.json"
        limit = job["budget"] * 1.5 + job.get("case_limit", 60) + 60
        rc, text = sh([str(exe)], env=self.env_for(job, out), timeout=limit, cwd=str(self.scratch))
        slim = {k: job[k] for k in ("bin", "variant", "profile", "case_limit", "workers") if k in job}
        slim["env"] = {k: str(v) for k, v in job.get("env", {}).items()}
        if rc == 0:
            return slim, json.loads(out.read_text())
        if rc is None:
            raise NoVerdict(f"{tag} did not end within {limit:.0f} s\n{text[-2000:]}")
        if rc == 3:
            return slim, self.judge_hang(job, slim, json.loads(out.with_suffix(".hang").read_text()),
                                         json.loads(out.read_text()))
        if rc != 0 and job["variant"] in SANITIZER and "FATAL: " in text and "Sanitizer" in text \
                and "SUMMARY" not in text:
            # the tool cannot run here (memory layout, limits); the other jobs go on
            log(f"{tag}: the sanitizer could not run: {text[-400:]}")
            self.notes.append(f"{tag}: the sanitizer could not run here: {text[-400:]}")
            return slim, None
        if rc in (66, 67) and job["variant"] in SANITIZER:
            jp = self.journal(job)
            rec = json.loads(jp.read_text()) if jp.exists() else {"group": "start", "case": None}
            at = max(text.find("WARNING: ThreadSanitizer"), text.find("ERROR: "), 0)
            return slim, self.one_violation(rec, f"{job['variant']}: {text[at:at + 2500]}")
        if rc < 0 and rc not in (-signal.SIGKILL, -signal.SIGTERM):
            return slim, self.judge_crash(job, slim, rc, text)
        raise NoVerdict(f"{tag} ended with {rc}\n{text[-3000:]}")

    @staticmethod
    def one_violation(rec, message):
        return {"complete": False, "evaluations": 1, "keys": [], "sets": {}, "counters": {},
                "maxima": {}, "samples": [], "inconclusive": [],
                "violations": [{"group": rec["group"], "case": rec["case"], "message": message}]}

    def miri(self, seeds, few):
        """Small multi-threaded runs under Miri, one schedule per seed."""
        first = self.seed * 1000
        extra = {"VH_FEW": "1"} if few else {}
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--manifest-path",
               str(HARNESS / "Cargo.toml"), "--target-dir", str(TARGET / "miri"), "--bin", "c21m"]
        env = child_env({"RUSTFLAGS": VARIANTS["hooks"][0], "MIRIFLAGS":
                         "-Zmiri-disable-isolation "
                         f"-Zmiri-many-seeds={first}..{first + seeds}", **extra})
        t = time.time()
        rc, text = sh(cmd, env=env, timeout=120 + seeds * 20, cwd=str(HARNESS))
        ok = text.count("VH_OK")
        log(f"Miri: {ok} of {seeds} seeds in {time.time() - t:.1f} s")
        self.counters["miri_runs"] = self.counters.get("miri_runs", 0) + ok
        if rc == 0 and ok == seeds:
            return
        found = [k for k in ("Undefined Behavior", "deadlock", "panicked at", "data race",
                             "the evaluated program") if k in text]
        # without one of these, it is the tool that failed
        if not found or "error: could not compile" in text:
            raise NoVerdict(f"Miri ended with {rc}\n{text[-3000:]}")
        at = min(text.find(k) for k in found)
        self.violations.append({
            "group": "miri", "case": {"seeds": [first, first + seeds], "few": few},
            "message": "Miri: " + text[max(0, at - 200):at + 2500],
            "job": {"miri": True}})

    def replay_case(self, job, rec, name, limit):
        rp = self.scratch / f"{name}.replay"
        rp.write_text(json.dumps(rec))
        out = self.scratch / f"{name}.out"
        j = {**job, "case_limit": limit}
        rc, text = sh([str(job["exe"])], env=self.env_for(j, out, {"VH_REPLAY": rp}),
                      timeout=limit + 60, cwd=str(self.scratch))
        rep = json.loads(out.read_text()) if rc in (0, 3) and out.exists() else None
        return rc, rep, text

    def judge_hang(self, job, slim, rec, rep):
        base = job.get("case_limit", 60)
        if rec.get("blocked"):
            # no thread was switched to for 25 s, and none was waiting for a processor
            rep["violations"].append({"group": rec["group"], "case": rec["case"],
                                      "message": "the run does not end: all threads are blocked"})
            return rep
        log(f"a case of {rec['group']} did not end within {base} s; running it alone")
        hung = 0
        for i in range(2):
            rc, r, _ = self.replay_case(job, rec, f"hang{i}-{job['bin']}-{job.get('shard', 0)}", base)
            if rc == 3 or rc is None:
                hung += 1
            elif rc == 0 and r and r["violations"]:
                rep["violations"] += r["violations"]
                return rep
        if hung == 2:
            rep["violations"].append({"group": rec["group"], "case": rec["case"],
                                      "message": f"the run does not end (watched for {base} s, 3 times)"})
        else:
            rep["inconclusive"].append({"group": rec["group"], "case": rec["case"],
                                        "message": "a case did not end in time once, but did alone"})
        return rep

    def judge_crash(self, job, slim, rc, text):
        log(f"{job['bin']} died with signal {-rc}; looking for the case")
        jp = self.journal(job)
        out = jp.with_suffix(".out")
        rc2, text2 = sh([str(job["exe"])],
                        env=self.env_for({**job, "workers": 1, "budget": job["budget"] * 2}, out,
                                         {"VH_JOURNAL": jp}),
                        timeout=job["budget"] * 3 + 180, cwd=str(self.scratch))
        if rc2 is not None and rc2 < 0 and rc2 != -signal.SIGKILL and jp.exists():
            rec = json.loads(jp.read_text())
            return self.one_violation(rec, f"the process died with signal {-rc2}: {text2[-600:]}")
        raise NoVerdict(f"{job['bin']} died with signal {-rc} once, but not again\n{text[-2000:]}")

    def run_jobs(self, jobs, parallel):
        """jobs: dicts with bin, variant, profile, budget."""
        want = {}
        for j in jobs:
            want.setdefault((j["variant"], j["profile"]), set()).add(j["bin"])
        # one target directory per variant: two profiles of it one after the other
        for (v, p), bins in sorted(want.items()):
            t = time.time()
            exes = build(v, p, sorted(bins))
            log(f"built {sorted(bins)} ({v}, {p}) in {time.time() - t:.1f} s")
            for j in jobs:
                if (j["variant"], j["profile"]) == (v, p):
                    j["exe"] = exes[j["bin"]]
        todo = []
        for j in jobs:
            k = j.get("shards", 1)
            todo += [{**j, "shard": s} for s in range(k)]
        with ThreadPoolExecutor(parallel) as ex:
            for slim, rep in ex.map(self.run_job, todo):
                if rep is not None:
                    self.add_report(rep, slim)

    # ---- verdict ----------------------------------------------------------------
    def known(self):
        out = []
        for line in (VERIF / "known_findings.txt").read_text().splitlines():
            if line.startswith("finding: "):
                out.append(dict(w.split("=", 1) for w in line[9:].split(" what=")[0].split()
                                if "=" in w) | {"what": line.split(" what=", 1)[-1]})
        return [k for k in out if k.get("property") == self.pid]

    def finish(self, rule, assumptions, min_nontrivial=1, need=()):
        wall = time.time() - self.t0
        known = {k["case"]: k for k in self.known()}
        new = []
        for v in self.violations:
            h = case_hash(v)
            if h in known:
                print(f"KNOWN-FINDING: property={self.pid} {known[h]['what']}")
            else:
                new.append(v)
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.keys),
            "rule": rule,
            "samples": self.samples,
            "observed": self.counters,
            "largest": self.maxima,
            "distinct": {k: len(v) for k, v in self.sets.items()},
            "inconclusive_cases": len(self.inconclusive),
            "all_planned_cases_run": self.complete,
        }
        if self.notes:
            cov["notes"] = self.notes
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": cov, "assumptions": assumptions, "wall_s": round(wall, 2),
            "violations": len(new),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
        if new:
            d = VERIF / "replays"
            d.mkdir(exist_ok=True)
            for v in new[:3]:
                path = d / f"{self.pid}-{case_hash(v)}.json"
                path.write_text(json.dumps(v, indent=1) + "\n")
                log(f"{v['group']}: {v['message'][:1500]}")
                print(f"VIOLATION property={self.pid} replay={path}", flush=True)
            return 1
        for v in self.inconclusive[:5]:
            log(f"inconclusive: {v['group']}: {v['message'][:300]}")
        if len(self.inconclusive) > max(3, self.evaluations // 20):
            raise NoVerdict(f"{len(self.inconclusive)} of {self.evaluations} cases inconclusive")
        if len(self.keys) < min_nontrivial:
            raise NoVerdict(f"only {len(self.keys)} non-trivial cases observed")
        for n in need:
            if not self.counters.get(n):
                raise NoVerdict(f"nothing observed for {n}")
        log(f"{self.pid} held: {self.evaluations} evaluations, {len(self.keys)} distinct non-trivial,"
            f" {wall:.1f} s")
        return 0


def case_hash(v):
    s = json.dumps([v["group"], v["case"]], sort_keys=True)
    return hashlib.sha256(s.encode()).hexdigest()[:16]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    import checks
    spec = checks.CHECKS[a.property]
    c = Check(a.property, tier, seed)
    try:
        if a.replay:
            v = json.loads(Path(a.replay).read_text())
            if v["job"].get("miri"):
                c.seed = v["case"]["seeds"][0] // 1000
                c.miri(v["case"]["seeds"][1] - v["case"]["seeds"][0], v["case"]["few"])
                return c.finish("replay", [], 0)
            if v["job"].get("compare"):
                return checks.replay_compare(c, v)
            job = {**v["job"], "budget": 60}
            if "VH_CLI" in job.get("env", {}):
                job["env"]["VH_CLI"] = build_cli(Path(job["env"]["VH_CLI"]).parent.name)
            job["exe"] = build(job["variant"], job["profile"], [job["bin"]])[job["bin"]]
            for i in range(50):
                rc, rep, text = c.replay_case(job, {"group": v["group"], "case": v["case"]}, f"r{i}",
                                              job.get("case_limit", 60))
                if rc != 0 or rep["violations"]:
                    print(f"attempt {i}: exit {rc}", [x["message"] for x in rep["violations"]] if rep else text)
                    print(f"VIOLATION property={a.property} replay={a.replay}")
                    return 1
            print("not reproduced in 50 attempts")
            return 0
        return spec(c)
    except NoVerdict as e:
        print(f"[check] NO VERDICT for {a.property}: {e}", flush=True)
        return 2
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
