"""What each property's check runs."""
import os

import check as C


def jobs(bin, c, quick, thorough, profiles=("release", "debug"), variant="hooks", share=None,
         **kw):
    """One monitor process (or `shards` of them) per profile."""
    out = []
    for p in profiles:
        budget = thorough if c.thorough else quick
        if share:
            budget *= share.get(p, 1)
        out.append({"bin": bin, "variant": variant, "profile": p, "budget": budget, **kw})
    return out


TRUST = ["the reference model in harness/src/model.rs states the problem correctly",
         "single-threaded deterministic randomness from VERIF_SEED chooses the cases; nothing is "
         "concluded about inputs and schedules that were not run"]


def simple(bin, rule, quick=15, thorough=400, profiles=("release", "debug"), variant="hooks",
           parallel=2, assumptions=(), min_nontrivial=50, need=(), shards=1, scale=1, **kw):
    """`scale` multiplies the numbers of cases of the quick tier."""
    def go(c):
        env = {**kw.get("env", {}), "VH_SCALE": 1 if c.thorough else scale}
        more = {**kw, "env": env}
        c.run_jobs(jobs(bin, c, quick, thorough, profiles, variant, shards=shards, **more), parallel)
        return c.finish(rule, TRUST + list(assumptions), min_nontrivial, need)
    return go


def c19(c):
    todo = []
    for k, p in enumerate(("debug", "release")):
        todo += jobs("c19", c, 40, 400, profiles=("release",), tag=p, case_limit=150,
                     env={"VH_CLI": C.build_cli(p), "VERIF_SEED": c.seed * 2 + k})
    c.run_jobs(todo, 2)
    return c.finish(
        "random option combinations in random spellings and positions against the library's result; "
        "frequencies of probabilistic results; timeouts by the clock; thread counts from /proc; unusable "
        "arguments and failing files; both builds of the program; non-trivial: distinct (problem, command "
        "line) with dependencies and exit status 0",
        TRUST + ["time limits of 40 s are far above any delay of a loaded machine",
                 "the task bound is seen only through the program's debug log, when it has one"],
        50, ("runs", "failures", "probabilistic_runs", "timed_runs", "thread_counts_compared"))


def c21(c):
    t = c.thorough
    base = dict(case_limit=60, journal=True)
    quiet = {"VH_QUIET": "1"}
    todo = jobs("c21", c, 14, 300, shards=2, workers=4, **base)
    for v in ("tsan", "asan"):
        todo.append({"bin": "c21", "variant": v, "profile": "release", "budget": 400 if t else 14,
                     "shards": 2, "workers": 1, "env": {**quiet, "VH_SCALE": 1}, **base})
    if t:
        todo.append({"bin": "c21", "variant": "tsan", "profile": "debug", "budget": 300,
                     "shards": 2, "workers": 1, "env": quiet, **base})
    c.run_jobs(todo, 8)
    if not c.violations:
        c.miri(8 if not t else 200, few=not t)
    return c.finish(
        "random multi-threaded runs with timeouts and accept functions: threads counted after each run, "
        "preemption and delays injected, ThreadSanitizer (standard library instrumented as well), "
        "AddressSanitizer with leak detection; small runs under Miri, one schedule per seed; accept "
        "functions that panic at a given call; non-trivial: distinct multi-threaded (problem, settings)",
        TRUST + SCHED,
        50, ("runs", "panics_single_threaded", "panics_multi_threaded", "timers", "miri_runs"))


def c32(c):
    c.run_jobs(jobs("c32", c, 20, 500, profiles=("debug",), shards=2, case_limit=60, journal=True,
                    env={"VH_CLI": C.build_cli("debug"), "VH_SCALE": 1 if c.thorough else 4}), 2)
    return c.finish(
        "runs with and without a subscriber at each level, single-threaded and with 2-8 threads and delays in the "
        "subscriber; searches with timeouts of 0-10 ms whose messages are compared with their completeness; the "
        "program with values of RUST_LOG and kinds of standard output; non-trivial: distinct (problem, settings) "
        "with several results, events from several tasks, an incomplete result, or a program run that logs or "
        "cannot write",
        TRUST + SCHED[:1] + ["logging is as compiled in a build with debug assertions"],
        50, ("threaded_runs_logged", "timeouts_incomplete", "ended_without_message", "program_messages_compared",
             "program_stdout_gone", "program_stdout_full", "program_cut_short"))


def c23(c):
    d = {p: c.scratch / f"dump-{p}" for p in ("release", "debug")}
    todo = []
    for p in d:
        todo += jobs("c23", c, 15, 300, profiles=(p,), same=True,
                     env={"VH_DUMP": d[p], "VH_SCALE": 0.1 if c.thorough else 2})
    c.run_jobs(todo, 2)
    compare(c, d)
    return c.finish(
        "the same random problems and instruction sequences in a build with and a build without debug "
        "assertions, transcripts compared; non-trivial: distinct (problem, settings) or (problem, "
        "instructions) with dependencies",
        TRUST, 50, ("transcripts_compared",))


def replay_compare(c, v):
    d = {p: c.scratch / f"dump-{p}" for p in ("release", "debug")}
    for p in d:
        job = jobs("c23", c, 60, 60, profiles=(p,), same=True, env={"VH_DUMP": d[p]})[0]
        job["exe"] = C.build("hooks", p, ["c23"])["c23"]
        c.replay_case(job, {"group": v["group"], "case": v["case"]}, f"r-{p}", 120)
    compare(c, d)
    return c.finish("replay", [], 0)


def compare(c, dumps):
    import json
    read = {}
    for p, path in dumps.items():
        read[p] = {}
        with open(path) as f:
            for line in f:
                r = json.loads(line)
                read[p][r["group"] + json.dumps(r["case"], sort_keys=True)] = r
    both = set(read["release"]) & set(read["debug"])
    c.counters["transcripts_compared"] = c.counters.get("transcripts_compared", 0) + len(both)
    for k in sorted(both):
        a, b = read["release"][k], read["debug"][k]
        if a["hash"] != b["hash"]:
            ta, tb = a["transcript"], b["transcript"]
            i = next((i for i, (x, y) in enumerate(zip(ta, tb)) if x != y), min(len(ta), len(tb)))
            i = max(0, i - 60)
            c.violations.append({
                "group": a["group"], "case": a["case"],
                "message": f"optimised: ...{ta[i:i + 300]}  with debug assertions: ...{tb[i:i + 300]}",
                "job": {"bin": "c23", "variant": "hooks", "profile": "release", "compare": True}})
            if len(c.violations) >= 5:
                return


SCHED = ["schedules are those of this machine's scheduler, perturbed by delays and forced "
         "synchronisations at the observation points, by signals that preempt threads at arbitrary "
         "instructions, and by single-stepping to a chosen instruction and sleeping there"]

CHECKS = {
    "C01": simple(
        "paths",
        "random problems (1-9 nodes in all modes; 8-80 nodes with timeouts or accept functions; up "
        "to 220 nodes time-optimal only), settings drawn over search/timeout/threads/task "
        "bound/accept function; problems with nothing to measure; long fronts; non-trivial: distinct "
        "(problem, settings) with dependencies that "
        "returned a path of at least 2 steps",
        workers=8, scale=4),
    "C02": simple(
        "paths",
        "as C01; non-trivial: distinct (problem, settings) with edges that returned a path needing "
        "at least 2 qubits",
        workers=8, scale=4),
    "C03": simple(
        "paths",
        "as C01; non-trivial: distinct (problem, settings) that returned at least 2 paths",
        workers=8, scale=4),
    "C04": simple(
        "c04",
        "every graph and every ordering on up to 4 nodes (5 in the thorough tier), random problems "
        "of 5-10 nodes, problems with fronts of up to dozens of entries and of hundreds of steps; the "
        "front is compared with dynamic programming over sets of measured nodes; non-trivial: distinct problems whose front has at least 2 entries",
        scale=4),
    "C05": simple(
        "c05",
        "random problems of 4-10 nodes, long fronts, hundreds of steps, 2-16 threads, task bounds 0 to "
        "unlimited, several perturbed "
        "runs each; non-trivial: distinct (problem, order of task starts, synchronisations, finds "
        "and merges) with a front of at least 2 entries and overlapping tasks",
        quick=22, parallel=8, shards=4, workers=1, assumptions=SCHED,
        need=("events_task_start", "events_merge")),
    "C06": simple(
        "c06",
        "random problems of 1-350, some of up to 70000 nodes with all other settings drawn at random, compared with the "
        "longest dependency chains; up to 9 nodes also with the exhaustive search; non-trivial: "
        "distinct problems with a chain of at least 2 nodes",
        scale=8, case_limit=30, need=("compared_with_search", "search_needs_less_space")),
    "C07": simple(
        "c07",
        "problems that cannot be finished (24-40 nodes) with timeouts of 0-60 ms, accept calls "
        "counted after the expiry, repeated before a verdict; problems of 4-10 nodes with timeouts "
        "they meet or miss, results of runs that returned in time compared with the front; "
        "non-trivial: distinct (problem, settings) that returned before the timeout with at least "
        "2 paths, or that expired",
        quick=20, workers=16, case_limit=60, assumptions=SCHED,
        need=("expired_runs", "expired_runs_rejecting", "plain_expired_runs",
              "returned_before_timeout")),
    "C08": simple(
        "c08",
        "random problems of 4-18 nodes, deterministic and probabilistic, complete and cut short, 1-8 "
        "threads with perturbed schedules; every reported pattern and every memory told to the "
        "accept function is looked up in the result; non-trivial: distinct (problem, settings, found "
        "patterns) with at least 2 patterns found",
        quick=18, parallel=8, shards=4, assumptions=SCHED,
        need=("patterns_found", "least_memory_told")),
    "C09": simple(
        "c09",
        "batches of random problems and settings run several times in one process, with 0 and 1 "
        "threads, and in two other processes; all 64 single-bit changes of random seeds; "
        "non-trivial: distinct (problem, settings) that returned a path",
        scale=5, need=("child_processes", "seed_bits")),
    "C10": simple(
        "c10",
        "every accept call of random single-threaded runs is recomputed from a sweep of the same "
        "problem replayed with the same decisions; calls of multi-threaded runs are looked up in the set "
        "of all steps of the problem; non-trivial: distinct (problem, accept function) with at "
        "least one known minimum",
        scale=3, shards=2, parallel=4, workers=4,
        need=("calls_with_known_minimum", "calls_where_minima_differ", "threaded_calls_checked")),
    "C11": simple(
        "c11",
        "always-accepting functions against the exhaustive search; never-accepting ones; accept "
        "functions whose decisions are replayed on a sweep; acceptance frequencies of chains of "
        "steps and of siblings, and of different tasks (alarm below a chance of e^-25); non-trivial: distinct "
        "(problem, accept function)",
        scale=4, need=("always_runs", "never_runs", "rejected_steps", "frequency_tests")),
    "C12": simple(
        "c12",
        "argument tuples as a search passes them (drawn over their ranges, minima known and "
        "unknown, gap negative, zero, positive) and arbitrary ones, all parameters, large exponents; the value is "
        "compared with the documented formula (relative error 1e-9); non-trivial: distinct tuples "
        "with a value strictly between 0 and 1",
        scale=6, need=("gap_zero", "gap_positive", "gap_negative", "extreme_arguments")),
    "C13": simple(
        "c13",
        "complete sweeps of random problems with up to 6000 patterns (60000 in the thorough tier), also "
        "from states chosen by hand and with random skips, compared with an independent "
        "enumeration; beginnings of sweeps of 8-32 nodes; all children of states with 8-18 (21) "
        "measurable nodes; complete sweeps of up to 300 (1000) steps; single patterns of up to 70 "
        "nodes, everything else skipped; non-trivial: distinct (problem, skips) with dependencies "
        "and at least 2 branches, long problems, and targets",
        scale=2, need=("skips", "complete_branches", "children", "targets_found")),
    "C14": simple(
        "c14",
        "random sequences of valid instructions and of instructions that name repeated, measured, not "
        "yet measurable, unknown or too many nodes, given to path generators and schedulers of both "
        "kinds, copying and in place; non-trivial: distinct (problem with dependencies, sequence)",
        need=("accepted", "refused", "refused_longer_than_measurable")),
    "C15": simple(
        "c15",
        "random graphs of 0-60 nodes measured in any order, with erroneous steps; graphs inside "
        "schedulers that are instructed or swept; all states and counters recomputed from the "
        "history after every step; non-trivial: distinct (graph with edges, history)",
        scale=1, need=("errors", "scheduler_steps", "sweep_steps")),
    "C16": simple(
        "c16",
        "random edge lists with loops and repetitions, orderings of up to 9 nodes, mappings with "
        "foreign labels, permutations, fixed points and unused entries, buffers used up to 10 "
        "times; non-trivial: distinct edge lists with a mapping that changes labels, and orderings in "
        "a used buffer",
        need=("loops_and_repetitions_dropped", "mapped_orderings")),
    "C17": simple(
        "c17",
        "random problems and settings through files in all 8 combinations of formats, old contents "
        "and missing directories; problems of up to 60000 nodes with files of several buffers; non-trivial: distinct (problem with dependencies, settings, "
        "formats) that returned a path",
        scale=4, case_limit=40, need=("compared_steps", "compared_costs", "cut_short")),
    "C18": simple(
        "c18",
        "for random problems and all formats: every truncation, random corruptions, malformed and "
        "unreadable inputs, unknown formats, uncreatable outputs, a full disk after every number of "
        "bytes, and around the sizes of buffers for large outputs; non-trivial: distinct (problem, settings, formats)",
        scale=3, case_limit=60,
        need=("truncations", "corruptions", "unknown_formats", "failing_outputs", "full_disks")),
    "C19": c19,
    "C20": simple(
        "c20",
        "timers of 0-30 ms polled by 1-9 threads, dropped when due; timers of an hour and more "
        "dropped at random moments, with preemption; non-trivial: distinct timers that fired",
        quick=12, case_limit=90, assumptions=SCHED + ["a delay of 20 s is never the machine's"],
        need=("timers_fired", "dropped_before_due", "dropped_when_due", "never_started")),
    "C21": c21,
    "C22": simple(
        "c22",
        "random problems of 3-8 nodes with task bounds around 0, 1 and the number of first steps; "
        "12-30 nodes without dependencies; more than 100000 first steps without a bound; "
        "non-trivial: distinct (problem, bound) where the bound was reached",
        need=("bound_reached", "covering_runs")),
    "C23": c23,
    "C26": simple(
        "c26",
        "partitions of 0-15 (18) elements in 14 types of sets, with repeated elements and lengths below the "
        "size, copied at a random moment, against all splits; the first thousands of splits of 18-600 "
        "elements; non-trivial: distinct (set, type) with at least 2 elements to choose from",
        need=("splits", "splits_of_large_sets")),
    "C27": simple(
        "c27",
        "random trees of up to 70000 (300000) nodes in six shapes, walked completely, or with skips and "
        "copies at random moments; states alive counted after every step; non-trivial: distinct trees with "
        "branches below the root, or walks with skips",
        need=("steps", "skips", "copies", "root_skips")),
    "C28": simple(
        "c28",
        "batches of 16 problems of similar shape, each run alone in a fresh process, then twice in random "
        "order among runs that time out, panic, are random or are abandoned, then on 4 threads beside 2 "
        "threads of such runs; non-trivial: distinct (problem, settings) that returned a path",
        quick=25, parallel=2, need=("fresh_processes", "after_timeout", "after_panic", "runs_beside_others"),
        assumptions=SCHED),
    "C29": simple(
        "c29",
        "searches of 14-40 nodes for half a second (2 s) with the bytes allocated at once compared with a "
        "limit from the size of the problem; small runs repeated 60 times with the bytes left behind; "
        "non-trivial: distinct (problem, settings) with more allocations than half the limit in bytes, or "
        "repeated with results",
        quick=25, parallel=2, min_nontrivial=25, need=("long_enough", "again_returning", "again_panicking")),
    "C30": simple(
        "c30",
        "multi-threaded runs with 2-30, some with up to 300 threads, in whose accept function every call waits until as many calls "
        "are in progress as there are threads; thread identities of all calls; runs with 0 and 1 threads, also "
        "with a timeout; non-trivial: distinct (problem, settings) with calls",
        scale=3, assumptions=["a thread that has work starts it within 15 s, in one of two attempts"],
        need=("met", "calls_alone")),
    "C31": simple(
        "c31",
        "first children of the states of sweeps of 1-40 nodes with skips; first patterns found in complete "
        "searches; results of searches of 3-300 nodes cut short after 1 us to 8 ms, against the run without "
        "search; non-trivial: distinct (problem, settings) with dependencies and several patterns found, or that "
        "returned a path when cut short",
        scale=3, need=("first_steps", "first_patterns", "cut_with_results")),
    "C32": c32,
    "C33": simple(
        "c33",
        "patterns, accept calls, steps and allocations of complete searches of 3-10 nodes against the restated "
        "search; searches of 6-20 nodes on 2-6 threads, where each thread is followed in what it found and what "
        "was told to it; non-trivial: distinct (problem, settings) with several patterns found and at least half of "
        "all patterns pruned, or with bounds taken over from other threads",
        quick=20, scale=2, case_limit=60, assumptions=SCHED + [
            "an implementation makes at most 30 allocations per step"],
        need=("pruned_to_a_twentieth", "taken_over_at_once", "taken_over_soon", "totals_compared",
              "patterns_checked_against_others", "calls_checked_against_others")),
}
