#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
M = "mbqc_scheduling/src/"
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    a = {"files": [M + f if not f.startswith(("python_lib", "results")) else f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

VALID = "A problem is valid when the graph is symmetric without loops or multi-edges and the ordering is a layered strict partial order as pauli_tracker produces it (nodes may be missing from the ordering: they are never measured)."

p("C01", "Every returned schedule is a valid, complete measurement pattern",
  "For every valid problem and every way of running the scheduler (time-optimal only, exhaustive, probabilistic, with a timeout, single- or multi-threaded), every returned path measures each node of the ordering exactly once, in non-empty steps, and never measures a node before or in the same step as one of its dependencies. No other node is measured. This also holds when the run is cut short by the timeout.",
  ["inputs", "configurations", "schedules"],
  "All valid problems; all settings of do_search, timeout, nthreads, task_bound, probabilistic; all thread schedules.",
  "No existing test calls interface::run or search::search at all; the proptest re-implements the search loop and compares it with itself on one seed.",
  ["interface.rs", "search.rs", "search/threaded.rs", "scheduler.rs", "scheduler/time.rs"],
  [("current_path bookkeeping on forward, skip and backward steps", M + "search.rs forward/backward"),
   ("dependency counters that release a node when its last dependency is measured", M + "scheduler/time.rs update_unchecked"),
   ("init_path of split-off tasks", M + "search/threaded.rs do_search")],
  ["return value of interface::run"],
  [("deps_counter", "unmeasured dependencies per blocked node", M + "scheduler/time.rs"), ("current_path", "steps from the root to the current node of the sweep", M + "search.rs")])

p("C02", "Reported time and space costs of every returned path are exact",
  "For every returned path, in every mode, time is the number of its steps and space is the largest number of qubits simultaneously in memory when the pattern is carried out: before a node is measured it and all its neighbours are initialised, all nodes of a step are in memory together, and a measured node is freed after its step and never re-initialised.",
  ["inputs", "configurations", "schedules"],
  "All valid problems; all run modes and thread schedules.",
  "The space tests check one 4-node graph; the proptest compares memory figures from the same Graph code with each other, so a consistent accounting error stays invisible (BUILD.json notes one that left all tests passing).",
  ["scheduler/space.rs", "scheduler.rs", "search.rs", "search/threaded.rs"],
  [("current_memory/max_memory updates in measure, initialize and update_memory (separate checked and unchecked variants per build profile)", M + "scheduler/space.rs"),
   ("time taken from the map key / path length", M + "search.rs search, get_time_optimal")],
  ["return value of interface::run"],
  [("current_memory", "qubits in memory now", M + "scheduler/space.rs"), ("max_memory", "peak so far", M + "scheduler/space.rs")])

p("C03", "Search results form a strictly improving, sorted trade-off front",
  "Whatever the settings and however the search ends, the returned list is sorted by strictly increasing time and strictly decreasing space, so no returned path is dominated by or equal in cost to another. Without do_search exactly one path is returned.",
  ["inputs", "configurations", "schedules"],
  "All valid problems; exhaustive, probabilistic, timed-out and multi-threaded runs.",
  "The filtering code in search::search is not executed by any test (the proptest has its own copy).",
  ["search.rs"],
  [("final domination filter and sort", M + "search.rs search")],
  ["return value of interface::run"])

p("C04", "Single-threaded exhaustive search returns exactly the Pareto front",
  "For every valid problem with at least one node to measure, the deterministic single-threaded search without timeout returns exactly one path for every Pareto-optimal (time, space) pair over all valid measurement patterns and nothing else.",
  ["inputs"],
  "All valid problems (sampled up to sizes for which an independent dynamic program gives the front).",
  "The proptest checks its own copy of the loop, on at most 7 nodes, against an enumeration by the same sweep; neither the real search loop nor its pruning bound is tested.",
  ["search.rs", "scheduler/tree.rs", "scheduler/combinatoric.rs", "scheduler/time.rs", "scheduler/space.rs"],
  [("pruning by lower bound on the final path length", M + "search.rs minimum_path_length, forward"),
   ("best memory per time cost", M + "search.rs backward"),
   ("exhaustive sweep", M + "scheduler/tree.rs")],
  ["return value of interface::run"],
  [("best_memory", "least memory found for a path of at most that length", M + "search.rs")])

p("C05", "Multi-threaded search returns the same front for every schedule",
  "For every valid problem with at least one node to measure, every number of threads, every task bound and every interleaving of the worker threads, the deterministic search without timeout returns exactly the Pareto-optimal (time, space) pairs, the same as the single-threaded search.",
  ["inputs", "configurations", "schedules"],
  "All valid problems, nthreads >= 2, all task bounds (including 0 and 1), all interleavings of task start, synchronisation of the shared bounds, and merging of results.",
  "No test runs the threaded search; its result depends on the order in which workers synchronise (every 1000 steps) and merge, which a fixed input never varies.",
  ["search/threaded.rs", "search.rs"],
  [("per-task copy of the shared bounds, periodic synchronisation, merge under lock", M + "search/threaded.rs task, update"),
   ("split of the first tree layer into tasks plus one remainder task", M + "search/threaded.rs search")],
  ["return value of interface::run", "sync points (for injected delays)"],
  [("best_memory", "shared bound per time cost", M + "search/threaded.rs"), ("results", "shared best path per time cost", M + "search/threaded.rs")],
  "Delay points at task start, synchronisation and merge, and a build-time override of the synchronisation interval, under cfg(mbqc_verif).")

p("C06", "Without search, the schedule is time-minimal and measures nodes greedily",
  "For every valid problem of any size, running without do_search returns one path whose number of steps is the length of the longest dependency chain and in which every node is measured in the earliest step its dependencies allow. Its time equals the time of the first path an exhaustive search returns, whose space is never larger, and the timeout, thread and probabilistic settings have no influence on it.",
  ["inputs", "configurations"],
  "All valid problems, up to thousands of nodes; all other settings.",
  "search::get_time_optimal has no test.",
  ["search.rs", "interface.rs", "scheduler/time.rs"],
  [("measure everything measurable in each step", M + "search.rs get_time_optimal"), ("do_search dispatch", M + "interface.rs run")],
  ["return value of interface::run"])

p("C07", "A timeout ends the search promptly, and only an expired one does",
  "Once the timeout has passed, the search does only a bounded amount of further work (single-threaded: no further accept decisions beyond the one in progress and the few before the expiry becomes visible; multi-threaded: at most one synchronisation interval per task) and returns normally. A run that returns before its timeout has passed returns the complete result, and does not wait for the rest of the timeout.",
  ["inputs", "configurations", "schedules"],
  "Valid problems far too large to finish and problems that finish early; all timeouts, including zero; any number of threads.",
  "No test runs a search with a timeout; the Timer test is one wall-clock sample and is skipped as flaky.",
  ["search.rs", "search/threaded.rs", "timer.rs", "interface.rs"],
  [("timer check after every step, respectively every UPDATE_INTERVAL steps", M + "search.rs do_search, " + M + "search/threaded.rs update"),
   ("timer thread with condition variable and atomic flag", M + "timer.rs")],
  ["calls of a custom accept function", "return value and return time of interface::run"])

p("C08", "No pattern the search has found is lost",
  "However the search is configured and however it ends (completion, timeout, probabilistic rejection, any thread interleaving), every complete pattern it reached is matched by a returned path that is at least as good in both time and space. In particular a memory value that the accept function was told had already been found for a full path is achieved by some returned path.",
  ["inputs", "configurations", "schedules", "histories"],
  "All valid problems, accept functions, timeouts, thread counts and interleavings; all points at which the timeout can strike.",
  "Results are produced by concurrent tasks and merged at their end; no test interrupts or multi-threads a search.",
  ["search.rs", "search/threaded.rs"],
  [("results inserted when a leaf is left, merged under lock when a task ends", M + "search.rs backward, " + M + "search/threaded.rs task")],
  ["arguments of a custom accept function", "leaf-reached events", "return value of interface::run"],
  [("results", "best path per time cost", M + "search.rs, " + M + "search/threaded.rs")],
  "Event when a complete pattern is reached, under cfg(mbqc_verif).")

p("C09", "Runs without a source of nondeterminism are reproducible",
  "With nthreads below 2 and no timeout, two runs with the same problem and, if probabilistic, the same accept function and seed return identical paths, step for step, in the same process or another. Different seeds really lead to different random decisions.",
  ["inputs", "configurations"],
  "All valid problems, seeds and accept functions, single-threaded.",
  "No test runs the search twice; internal hash maps with random state could leak into the order of steps.",
  ["search.rs", "interface.rs"],
  [("generator seeded from the given seed", M + "search.rs do_probabilistic_search"), ("sorting of results", M + "search.rs search"), ("seed forwarded", M + "interface.rs run")],
  ["return value of interface::run in several processes"])

p("C10", "A custom accept function is told the documented quantities",
  "On every call, the accept function's arguments are what its documentation says about the step under decision: the least memory already found for full paths with at most as many steps as the path including the current step is known to need (its steps, plus one if nodes remain, plus two if some of them are not yet measurable), the least memory found for any full path so far, the peak memory and the memory after the previous step, the memory after the current step, the number of nodes still to be measured, and the number of nodes of the graph. Unknown minima are the largest machine integer.",
  ["inputs", "histories"],
  "All valid problems and all accept/reject histories, single-threaded; for multi-threaded runs, every call's arguments describe a step that exists in the problem.",
  "No test uses an accept function.",
  ["search.rs", "search/threaded.rs", "probabilistic.rs", "scheduler/time.rs", "scheduler/space.rs"],
  [("arguments collected around the sweep's step", M + "search.rs do_probabilistic_search, probabilistic_forward"), ("documented signature", M + "probabilistic.rs Accept"), ("remaining-node count", M + "scheduler/time.rs num_remaining_nodes")],
  ["calls of a custom accept function"])

p("C11", "Accept decisions control the search exactly as documented",
  "A probability of at least 1 accepts always: with such a function the result has exactly the costs of the exhaustive search. A probability of 0 (or less) rejects always: a rejected step and everything below it is absent from the single-threaded result, and rejecting everything yields no path there. In between, a step is accepted with the given probability, by decisions that differ between steps.",
  ["inputs", "configurations", "histories"],
  "All valid problems, all accept functions with values in [0, inf), all seeds.",
  "No test uses an accept function; the frequency of decisions is a statistical statement over many calls.",
  ["search.rs", "search/threaded.rs", "interface.rs"],
  [("accept >= 1 or uniform sample below accept", M + "search.rs probabilistic_forward")],
  ["calls of a custom accept function", "return value of interface::run"])

p("C12", "Built-in accept functions compute their documented formulas",
  "For all arguments, the built-in and the parametrised accept function return the value of their documented formula, with the parameters in their documented roles. For all arguments the search can pass, the built-in function returns a number that is not negative and not NaN (0 where the gap to the best memory is closed).",
  ["inputs", "configurations"],
  "All argument tuples reachable in a search, random other tuples, all parameter combinations.",
  "The formulas appear only in ignored doc-tests.",
  ["probabilistic.rs"],
  [("builtin_heavyside and create_parametrized_heavyside", M + "probabilistic.rs"), ("selection of the function", M + "probabilistic.rs AcceptFunc::get_accept_func")],
  ["AcceptFunc::get_accept_func"])

p("C13", "Sweeping a scheduler visits every valid pattern exactly once",
  "For every valid problem, iterating a scheduler (or a path generator alone) to the end yields properly nested forward and backward steps whose complete branches are exactly the valid measurement patterns, each once, each with its exact peak memory at the leaf; non-leaf steps back report no leaf. Skipping the current node omits exactly the patterns below it and changes nothing else.",
  ["inputs", "histories"],
  "All valid problems (sampled up to sizes that can be enumerated), all choices of nodes to skip.",
  "The tests list the paths of one 4-node ordering and count the unordered case up to 5 nodes; skipping is only tested through the same loop it is compared with.",
  ["scheduler.rs", "scheduler/tree.rs", "scheduler/time.rs", "scheduler/combinatoric.rs"],
  [("Sweep with its stack of earlier states", M + "scheduler/tree.rs"), ("power-set partition of the measurable set", M + "scheduler/combinatoric.rs"), ("next_and_focus/at_leaf", M + "scheduler.rs, " + M + "scheduler/time.rs")],
  ["items of the Sweep iterator of Scheduler and PathGenerator"],
  [("stack", "states on the branch to the current node", M + "scheduler/tree.rs")])

p("C14", "Manual scheduling accepts exactly the measurable sets and reports the rest",
  "When a scheduler or path generator is instructed step by step, an instruction succeeds if and only if it names distinct nodes that are measurable at that moment; afterwards the measurable nodes, the number of nodes left and the has-unmeasurable flag are those of the problem. Any other instruction, whatever its length, returns an error naming the offending nodes and leaves the state as it was, and the copying form never changes the original and leads to the same state as the in-place form.",
  ["inputs", "histories"],
  "All valid problems; all finite sequences of valid and invalid instructions.",
  "The tests make three invalid one-element instructions on one ordering.",
  ["scheduler.rs", "scheduler/time.rs"],
  [("partition of the measurable set by the instruction", M + "scheduler/time.rs partition"), ("time is checked before space is changed", M + "scheduler.rs focus_inplace")],
  ["return values and accessors of Scheduler and PathGenerator"],
  [("measurable", "nodes that may be measured now", M + "scheduler/time.rs")])

p("C15", "The graph's node states and memory counters match the measured history",
  "After any sequence of measurement steps on a graph, a node is measured, in memory or sleeping exactly according to whether it was measured, or it or a neighbour was involved in a step; the current memory is the number of nodes in memory, and the maximum memory the largest number in memory during any step so far. Measuring an already measured node is reported as an error naming it.",
  ["inputs", "histories"],
  "All graphs and all sequences of measurement steps (any order: a graph alone knows no ordering).",
  "One 4-node example; optimised builds use separate unchecked code that no test runs.",
  ["scheduler/space.rs", "scheduler.rs"],
  [("measure/initialize/update_memory", M + "scheduler/space.rs"), ("unchecked variants in optimised builds", M + "scheduler/space.rs")],
  ["Graph::nodes, current_memory, max_memory", "Scheduler::space in debug and optimised builds"],
  [("nodes", "state per node", M + "scheduler/space.rs")])

p("C16", "Construction with a node mapping equals constructing the relabelled problem",
  "Building a graph from an edge list, or a path generator from an ordering, with a node mapping gives the same as mapping all labels first (labels missing from the mapping stay); with checking enabled, loops and repeated edges in either direction are dropped and nothing else. Building a path generator in a dependency buffer that was used before gives the same as with a fresh one.",
  ["inputs", "histories"],
  "All edge lists and orderings, mappings, and sequences of reuses of a buffer.",
  "One example each with two mapped labels.",
  ["scheduler/space.rs", "scheduler/time.rs"],
  [("new_loop/new_body macros", M + "scheduler/space.rs"), ("update! on layers and dependency lists; resolve overwrites entries", M + "scheduler/time.rs from_dependency_graph")],
  ["GraphBuffer::as_buffer", "patterns generated by PathGenerator"])

p("C17", "File interface returns exactly what the in-memory interface returns",
  "For every valid problem and settings, reading the problem from JSON or bincode files and writing the result to a JSON or bincode file yields a file that decodes to the paths the in-memory call returns for the same settings, whatever the file held before; missing parent directories of the output are created. JSON results are objects with time, space and steps.",
  ["inputs", "configurations"],
  "All valid problems, all 8 combinations of formats, existing or missing output files and directories.",
  "No test touches run_serialized.",
  ["interface.rs"],
  [("serialize_to_file/deserialize_from_file/create", M + "interface.rs"), ("derived serialisation of Path", M + "interface.rs")],
  ["files written by interface::run_serialized"])

p("C18", "I/O and format failures are reported and leave existing output alone",
  "If an input is missing, truncated, malformed (it does not decode as its type in the declared format) or of an unknown format, or the output format is unknown, the file interface returns an error without panicking and an existing output file keeps its content. If the output cannot be created or any write to it fails (for example because the disk is full), an error is returned instead of success.",
  ["fault_sequences", "inputs"],
  "All truncation points and byte corruptions of small inputs, wrong formats, unreadable and uncreatable paths, writes that fail at every possible write.",
  "No test exercises any failure.",
  ["interface.rs"],
  [("error propagation with ?", M + "interface.rs"), ("format is matched before the file is created", M + "interface.rs serialize_to_file")],
  ["return value of interface::run_serialized", "output file content"])

p("C19", "The command line runs the search its arguments describe",
  "For every combination of options, the command-line program writes what the library returns for the corresponding settings (search on or off, timeout in seconds, threads, task bound, probabilistic with the built-in function) and exits with status 0; on any failure, including unusable arguments, it exits with a non-zero status and does not report success.",
  ["configurations", "inputs", "fault_sequences"],
  "All option combinations, option spellings, formats; failing inputs and outputs.",
  "main.rs and cli.rs have no tests.",
  ["main.rs", "cli.rs", "interface.rs"],
  [("argument definitions and parse", M + "cli.rs"), ("forwarding to run_serialized", M + "main.rs")],
  ["exit status and output file of the mbqc_scheduling binary"])

p("C20", "The timer never fires early, fires once due, and never delays its owner",
  "A timer reports finished only after at least its duration has passed since start was called, does so within bounded time after that, and stays finished; a timer that was not started never finishes. Dropping a timer returns promptly whatever is left of its duration, and this holds with any number of threads polling it.",
  ["schedules", "configurations", "histories"],
  "All durations from zero to the largest, any number of polling threads, drop at any moment.",
  "Its only test is one wall-clock sample with 10 ms margins, which is skipped as flaky.",
  ["timer.rs"],
  [("wait_timeout_while on a condition variable, atomic flag, notify and join on drop", M + "timer.rs")],
  ["Timer::finished, time taken by drop"],
  [("finished", "set once by the timer thread", M + "timer.rs")])

p("C21", "Concurrent search has no data race, deadlock, leak or undefined behaviour",
  "For all problems, thread counts, timeouts and accept functions, a run performs no data race and no undefined behaviour, always returns, and leaves no thread behind. If a user's accept function panics in a single- or multi-threaded run, the run does not hang and does not return as if nothing had happened.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "All interleavings and preemption points of the worker, timer and calling threads; panics at any accept call.",
  "No test runs the threaded code.",
  ["search/threaded.rs", "timer.rs", "search.rs"],
  [("mutexes taken in one order, scoped thread pool, timer joined on drop", M + "search/threaded.rs, " + M + "timer.rs")],
  ["ThreadSanitizer, Miri and AddressSanitizer reports", "threads of the process after a run"])

p("C22", "The task bound limits the number of search tasks",
  "A multi-threaded search with task bound b starts at most b tasks for individual first steps plus one task for everything that remains, for every b including 0, and without bound at most 100000 of them; the tasks together still cover the whole search.",
  ["inputs", "configurations"],
  "All valid problems, thread counts and task bounds.",
  "No test runs the threaded search.",
  ["search/threaded.rs", "search.rs", "interface.rs"],
  [("ntasks counter in the splitting loop", M + "search/threaded.rs search"), ("default bound", M + "interface.rs run")],
  ["task-start events"],
  [("ntasks", "tasks split off so far", M + "search/threaded.rs")],
  "Event at the start of each task, under cfg(mbqc_verif).")

p("C23", "Optimised and debug builds give the same answers",
  "For every valid problem, a build without debug assertions returns exactly the same paths as a build with them in every deterministic mode, and instructing its schedulers step by step gives the same results, errors and memory figures.",
  ["inputs", "configurations", "histories"],
  "All valid problems, deterministic modes, instruction sequences; both build profiles.",
  "Tests run in the debug profile only; the unchecked code paths of optimised builds are never executed by them.",
  ["scheduler.rs", "scheduler/space.rs"],
  [("cfg(debug_assertions) selects checked or unchecked space updates", M + "scheduler.rs, " + M + "scheduler/space.rs")],
  ["return values in both profiles"])

p("C24", "The Python package forwards problems, settings and results faithfully",
  "Calling run from Python returns the paths the Rust interface returns for the same problem and settings, conversions between Python and Rust objects lose nothing, and a custom Python accept function is refused with an error when more than one thread is requested.",
  ["inputs", "configurations"],
  "All problems and settings.",
  "tests/main.py is a demonstration without assertions.",
  ["python_lib/rust/src/lib.rs", "python_lib/rust/src/probabilistic.rs"],
  [("run, SpacialGraph, Paths, Path wrappers", "python_lib/rust/src/lib.rs")],
  ["Python objects"])

p("C25", "The results program draws random problems as parametrised and averages them",
  "The problems drawn for the published plots have the edge and correction densities given on the command line, and the reported means and deviations are those of the costs returned for them.",
  ["inputs", "configurations"],
  "All densities and sizes.",
  "The crate has no tests.",
  ["results/src/plots.rs", "results/src/plots/node.rs", "results/src/plots/density.rs"],
  [("get_graph, get_order, do_it", "results/src/plots.rs")],
  ["output JSON files"])

p("C26", "A partition iterator splits its set in every way exactly once",
  "For every set, whatever type holds it, and every length up to its size, a Partition yields each split of the set into chosen elements (among the first length of them) and all others exactly once, keeps the order of the set on both sides, ends after 2^length splits, and leaves its set as it was. A copy made at any moment goes on by itself, and counting, skipping or collecting agrees with stepping.",
  ["inputs", "histories"],
  "All sets, element types and lengths, including more than 64 elements (whose beginnings are observed); copies at any moment.",
  "Only the two-element sets of the scheduler's examples are ever partitioned in tests, and never with a length below the size of the set.",
  ["scheduler/combinatoric.rs"],
  [("powerset of indices merged with the enumerated set", M + "scheduler/combinatoric.rs next")],
  ["items of Partition"])

p("C27", "A sweep walks any tree depth-first and keeps only the states on its path",
  "For every implementation of FocusIterator, a Sweep goes forward into each child in order, comes back from every node but the root exactly once with the value that node gives, and ends when the root is exhausted, without ever coming back from it. Skipping the current node leaves out what is left below it and nothing else, and fails only at the root, changing nothing. Between steps only the states from the root to the current node are alive; a copy goes on by itself; the state and the stack it shows are those of the walk.",
  ["inputs", "histories"],
  "All trees (any depth, degree and values, inner nodes included), all sequences of steps, skips and copies.",
  "Tests sweep two scheduler trees of four nodes; no other implementation of the trait is used.",
  ["scheduler/tree.rs"],
  [("current state and stack of earlier states", M + "scheduler/tree.rs Sweep")],
  ["items, current() and stack() of Sweep", "live instances of the user's state type"],
  [("stack", "states from the root to the parent of the current one", M + "scheduler/tree.rs")])

p("C28", "Runs in one process do not influence one another",
  "A deterministic run returns what it returns in a fresh process, whatever ran before it in the same process or thread (runs that timed out or panicked in the user's accept function, abandoned sweeps, runs of problems of the same size included), and whatever runs at the same time on other threads.",
  ["histories", "schedules", "inputs"],
  "All sequences and overlaps of runs.",
  "Each test starts with fresh state and looks at one computation.",
  ["interface.rs", "search.rs", "search/threaded.rs", "timer.rs"],
  [("all state of a run is local to it (scheduler, bounds, results, timer)", M + "search.rs search, " + M + "search/threaded.rs search, " + M + "timer.rs")],
  ["return value of interface::run in a fresh and in a used process"])

p("C29", "The memory of a run depends on the problem's size, not on how long it searches",
  "However many patterns a run visits, the memory it holds at any moment is limited by the states along one path per thread, the best patterns and the waiting tasks: a fixed multiple of (nodes + 2) x (nodes + edges + dependencies) per thread and of (nodes + edges + dependencies) per task. When a run has returned and its result is dropped, or when it has ended with a panic of the user's accept function, nothing of it is left.",
  ["inputs", "configurations", "histories"],
  "All valid problems, all settings (with a bounded number of tasks), runs of any length, any number of runs.",
  "Tests neither measure memory nor search for long.",
  ["search.rs", "search/threaded.rs", "scheduler/tree.rs", "timer.rs"],
  [("stack of states", M + "scheduler/tree.rs Sweep"), ("one pattern per time cost", M + "search.rs backward")],
  ["bytes allocated, by a counting allocator"])

p("C30", "A multi-threaded search works on as many tasks at once as it has threads",
  "A search that is given n >= 2 threads carries out steps of n tasks at the same time whenever there are as many tasks left (n - 1, if one thread only manages the others), and never uses more than n threads for them. With fewer than two threads, every step and every call of the accept function happens on the calling thread.",
  ["configurations", "inputs", "schedules"],
  "All thread counts, task bounds and problems with enough first steps.",
  "No test runs the threaded search; its results do not show how many threads took part.",
  ["search/threaded.rs", "search.rs", "interface.rs"],
  [("scoped thread pool of nthreads, locks held only to exchange bounds and results", M + "search/threaded.rs search, update"), ("choice of the single-threaded search below 2 threads", M + "search.rs search")],
  ["threads on which the accept function is called, and how many of its calls overlap"])

p("C31", "The most parallel step is tried first, so results begin time-optimal",
  "From every state, the first step that a sweep or a search tries measures all nodes that can be measured. So the first pattern that a single-threaded search without rejections finds is the time-optimal one that a run without search returns, and whenever such a search, or a multi-threaded one with task bound 0, is cut short by its timeout and returns anything, the first returned path has the least possible number of steps and needs no more space than the run without search.",
  ["inputs", "configurations", "schedules"],
  "All valid problems, all states of their sweeps, all moments at which the timeout can strike.",
  "Tests do not look at the order of patterns, nor cut a search short.",
  ["scheduler/time.rs", "scheduler/combinatoric.rs", "search.rs", "search/threaded.rs"],
  [("partitions in the order of the powerset of what is not measured", M + "scheduler/combinatoric.rs next, " + M + "scheduler/time.rs next_and_focus")],
  ["items of Sweep, patterns found, return value of interface::run"])

p("C32", "Logging changes nothing, and a search that is cut short says so",
  "Whatever level is logged and whatever the subscriber does with the messages (and, for the program, whatever RUST_LOG is and whether its standard output can be written at all), a run returns what it returns without logging, ends, and leaves no tracing span entered or open. In a build with logging, a search that is stopped by its timeout says so at info level: when there is no such message, the returned front is the complete one; and there is none without a timeout, or before the timeout has passed.",
  ["configurations", "inputs", "schedules", "environment faults"],
  "All levels, all subscribers that return, all problems and settings, all moments of the timeout.",
  "Tests run without a subscriber, so the arguments of the messages (which take locks) are never evaluated.",
  ["search.rs", "search/threaded.rs", "main.rs"],
  [("messages at the start and end of a task, with the shared bounds locked; span of a task", M + "search/threaded.rs task"), ("timeout messages", M + "search.rs do_search, do_probabilistic_search, " + M + "search/threaded.rs"), ("subscriber of the program", M + "main.rs main")],
  ["return values with and without a tracing subscriber", "events and spans that reach the subscriber", "exit status, output file and standard output of the program"])

p("C33", "What is known prunes the search, on all threads",
  "A search without rejections never completes a pattern for which one with at most as many steps and at most as much space has been completed before, never asks about (or descends below) a step whose memory already reaches the least known space for the least number of steps that the rest can take (all nodes measured: none; all remaining nodes measurable: one more; otherwise two more), and so does no more steps than the depth-first search with that bound does. In a multi-threaded search, this holds for what a task has found itself at once, for what was merged before a task starts from its start, and for what other threads find while it runs within some thousand steps of both; all tasks together do not do more steps than they would if each of them only knew its own results.",
  ["inputs", "configurations", "schedules"],
  "All valid problems, thread counts and task bounds, all interleavings of tasks and synchronisations.",
  "Results stay right when pruning is lost; only the time grows, by orders of magnitude, and tests search tiny problems.",
  ["search.rs", "search/threaded.rs"],
  [("bound by the least remaining number of steps", M + "search.rs minimum_path_length, forward, probabilistic_forward"), ("known space for all larger numbers of steps", M + "search.rs backward"), ("exchange of bounds", M + "search/threaded.rs update, task, do_search, do_probabilistic_search")],
  ["patterns found, per thread and in order", "arguments and number of accept calls", "steps and allocations of a search"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
