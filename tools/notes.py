"""Per property: how it is decided, and what that is worth (for MANIFEST.json)."""
TECHNIQUE = {
    "C01": "monitor on returned schedules (dependency replay) under random problems and settings",
    "C02": "monitor on returned schedules: independent memory recount per step",
    "C03": "monitor on the shape of returned fronts",
    "C04": "differential monitor against dynamic programming over measured sets; small space enumerated",
    "C05": "schedule-perturbed stress (hooked delays, forced synchronisation, signal preemption) with "
           "an exact front oracle",
    "C06": "monitor against an earliest-step model, metamorphic over settings",
    "C07": "monitor counting accept calls after an observed expiry; completeness oracle for runs that "
           "returned before it",
    "C08": "event-log monitor: every pattern-found event is matched in the result (no-loss)",
    "C09": "replay monitor: identical runs in one and in several processes",
    "C10": "trace monitor: recorded accept calls against an independent restatement of the search",
    "C11": "trace monitor on accept decisions; statistical monitor (likelihood ratio beyond e^25) on frequencies",
    "C12": "differential monitor on function values, realistic and extreme arguments",
    "C13": "trace monitor on sweep iterators against an enumeration of all patterns",
    "C14": "reference-model monitor on random instruction sequences",
    "C15": "reference-model monitor on node states and memory counters",
    "C16": "metamorphic and reference monitors on constructors",
    "C17": "round-trip monitor on files against in-memory results",
    "C18": "fault injection on files (truncation, corruption, full device, missing) with an outcome monitor",
    "C19": "black-box monitor on the built command-line program",
    "C20": "timing monitor on real timers with polling threads, concurrent drops and injected preemption",
    "C21": "ThreadSanitizer, AddressSanitizer and Miri on the real search; thread-leak and panic monitors",
    "C22": "event-log monitor counting task starts",
    "C23": "differential monitor between the debug and the optimised build",
    "C26": "monitor on the items of partitions against an enumeration of all splits",
    "C27": "trace monitor on sweeps of random trees of a user-defined type, with live-instance counting",
    "C28": "differential monitor: runs after and beside other runs against the same run in a fresh process",
    "C29": "allocation monitor (counting allocator) on long and on repeated searches",
    "C30": "concurrency monitor: accept calls that wait for each other, thread identities",
    "C31": "trace monitor on sweeps and found patterns; monitor on results of runs cut short",
    "C32": "monitoring tracing subscriber; differential monitor with and without logging; faults on standard output",
    "C33": "online monitor of found patterns and accept calls per thread; step and allocation counts against a "
           "restated search",
}
BASE = "Held on the executions run, nothing more; counts are in the evidence file. "
NOTE = {
    "C01": BASE + "Both build profiles; trusts the 40-line validity check in harness/src/model.rs.",
    "C02": BASE + "Both build profiles; trusts the memory recount in harness/src/model.rs.",
    "C03": BASE + "Includes runs cut short by timeouts and probabilistic runs.",
    "C04": BASE + "All graphs and orderings with up to 4 (thorough: 5) nodes, random ones up to 10 nodes; "
           "larger problems are out of reach of the oracle.",
    "C05": BASE + "Interleavings come from perturbed scheduling, not from enumeration.",
    "C06": BASE + "Problems with up to a few hundred nodes.",
    "C07": BASE + "Promptness is decided on logical steps with generous clocks; a late timer thread on an "
           "overloaded machine is retried, not reported.",
    "C08": BASE + "Needs the pattern-found observation point.",
    "C09": BASE + "Includes child processes with different hash seeds and addresses.",
    "C10": BASE + "Exact trace for one thread, membership in the reachable transitions for several.",
    "C11": BASE + "Frequencies are tested by likelihood ratio; a chance of less than e^-25 is an alarm.",
    "C12": BASE + "Values are compared with a relative tolerance of 1e-9.",
    "C13": BASE + "Complete sweeps of problems with up to 60000 patterns, beginnings of larger ones.",
    "C14": BASE + "Both kinds of measurable sets, in-place and copying.",
    "C15": BASE + "Both build profiles.",
    "C16": BASE + "Mappings include swaps, partial and out-of-range labels.",
    "C17": BASE + "All combinations of formats; deterministic settings.",
    "C18": BASE + "Faults are those listed in DESIGN.md.",
    "C19": BASE + "The program is built from /repo in both profiles.",
    "C20": BASE + "Earliness is exact; lateness and drop use generous limits and retries.",
    "C21": BASE + "Sanitizers see only the code the workload reached; Miri runs several seeds with small "
           "problems.",
    "C22": BASE + "Needs the task-start observation point.",
    "C23": BASE + "Same cases in both builds, transcripts compared.",
    "C26": BASE + "14 types of sets; up to 15 (18) elements completely, up to 600 in part.",
    "C27": BASE + "Trees of up to 70000 (300000) nodes; trusts an independent walk of the same tree.",
    "C28": BASE + "Threaded runs are compared in their costs, which are determined.",
    "C29": BASE + "The limit is about 20 times what the unchanged code needs; leaks of less than 8 bytes per "
           "run are not seen.",
    "C30": BASE + "A missing thread is decided after 15 s of waiting, twice.",
    "C31": BASE + "Timeouts strike between a microsecond and 8 ms; sweeps of up to 40 nodes, runs of up to 300.",
    "C32": BASE + "Debug build only: the default features compile logging out of the optimised one.",
    "C33": BASE + "Exchange between threads is judged with a slack of 10000 steps, or at once where the observation "
           "point forces a synchronisation; allocations with a slack of five times what the unchanged code needs.",
}
NOT_APPLICABLE = {
    "C24": "python_lib needs pyo3 and the git dependency pauli_tracker_pyo3, which are not available "
           "offline: the package cannot be built here, so there are no executions to monitor.",
    "C25": "results needs git dependencies that are not available offline and refers to "
           "mbqc_scheduling::search::SpacialGraph, which does not exist at this commit: it cannot be "
           "built, so there are no executions to monitor.",
}
