#!/usr/bin/env python3
"""Single source for properties.jsonl (run it after editing)."""
import json
M="mbqc_scheduling/src/"
WF=("every well-formed input: neighbour lists of an undirected loop-free graph on nodes 0..n-1, and a layered strict "
    "partial order over (a subset of) these nodes in which every node occurs once and every node of a later layer lists "
    "distinct dependencies in earlier layers, at least one of them in the layer directly before")
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],
                   observe_at=observe or [],hook_needed=hook)))
p("C01","Every returned schedule is executable and complete",
  "Each path returned for a well-formed input measures every node of the measurement order exactly once, in non-empty steps, and measures a node only in a step strictly later than the steps of all nodes it depends on. This holds in every mode: time-optimal, exhaustive and probabilistic search, single- and multi-threaded, run to completion or cut short by a timeout.",
  ["inputs","configurations","schedules"],WF+", including ones with nothing to measure; every mode, thread count, task bound, timeout and accept function",
  "The proptest compares searches over the same generator with each other on one fixed seed and at most 7 nodes; no test looks at what run() returns, and none checks the order relation on returned steps.",
  [M+"search.rs",M+"search/threaded.rs",M+"scheduler/time.rs",M+"scheduler/tree.rs",M+"scheduler/combinatoric.rs",M+"interface.rs"],
  [("dependency counters and dependents table","scheduler/time.rs from_dependency_graph, update_unchecked"),("path recording while sweeping","search.rs do_search/backward/get_time_optimal"),("first step of a task","search/threaded.rs task")],
  [dict(name="current_path",meaning="steps taken on the branch being explored",where="search.rs do_search"),dict(name="deps_counter",meaning="open dependencies per blocked node",where="scheduler/time.rs PathGenerator")],
  ["return value of interface::run"])
p("C02","Reported time and space are the true costs of the reported steps",
  "For every returned path, time is its number of steps and space is the largest number of nodes simultaneously in memory while the steps are executed, where a node enters memory when it or one of its neighbours is measured for the first time and leaves it after the step in which it is measured itself. No mode or build profile reports a different cost for the same steps.",
  ["inputs","configurations"],WF+", including ones with nothing to measure; every mode, both build profiles (checked and unchecked memory tracking)",
  "A systematic error in the memory tracking is invisible to the existing tests (BUILD.json records one that passes all of them), the unit test covers one 4-node graph, and the unchecked release path is never run.",
  [M+"scheduler/space.rs",M+"search.rs",M+"search/threaded.rs",M+"scheduler.rs"],
  [("memory counting while measuring","scheduler/space.rs impl_measure, update_memory"),("leaf value of a sweep","scheduler.rs FocusIterator::at_leaf"),("maximum kept by the greedy schedule","search.rs get_time_optimal")],
  [dict(name="current_memory/max_memory",meaning="qubits in memory now / at most so far",where="scheduler/space.rs Graph")],
  ["time, space and steps of the returned paths"])
p("C03","Without search, the one path returned is time-optimal",
  "When no search is requested, exactly one path is returned; it measures every node as early as the order permits, so no valid schedule has fewer steps. The number of its steps is the length of the longest dependency chain.",
  ["inputs"],WF+", including empty ones and ones with more than 64 nodes",
  "get_time_optimal is called by no test.",
  [M+"search.rs",M+"interface.rs",M+"scheduler/time.rs"],
  [("greedy loop over the measurable set","search.rs get_time_optimal"),("mode selection","interface.rs run")],
  [],["interface::run with do_search = false"])
p("C04","An exhaustive single-threaded search returns exactly the Pareto frontier",
  "A single-threaded search without timeout and without accept function returns, for every non-empty well-formed input, exactly one path for every Pareto-optimal combination of time and space over all valid schedules, and nothing else. In particular pruning and filtering never discard an optimal trade-off.",
  ["inputs"],WF+", non-empty",
  "The proptest re-implements pruning and filtering in the test itself and never calls search(); the library's own forward/backward/minimum_path_length/filter are not exercised at all.",
  [M+"search.rs",M+"scheduler/time.rs",M+"scheduler/tree.rs",M+"scheduler/combinatoric.rs"],
  [("lower bound on the path length","search.rs minimum_path_length"),("pruning against best_memory","search.rs forward"),("recording of results","search.rs backward"),("final dominance filter","search.rs search")],
  [dict(name="best_memory",meaning="least space found for at most t steps",where="search.rs do_search")],
  ["interface::run with do_search = true, nthreads < 2"])
p("C05","Multi-threaded search returns the same frontier under every interleaving",
  "A search without timeout and accept function using any number of threads and any task bound terminates and returns exactly the Pareto-optimal combinations of time and space, whatever the order in which tasks start, exchange bounds and deliver their results.",
  ["schedules","inputs","configurations"],WF+", non-empty; all thread counts and task bounds; all interleavings of the tasks' start, bound exchange and result delivery",
  "The threaded search is never run by a test, and its outcome depends on thread scheduling and on when bounds are exchanged relative to what other tasks have found, which no finite set of runs fixes.",
  [M+"search/threaded.rs",M+"search.rs"],
  [("splitting by the first step, remaining task","search/threaded.rs search"),("bound exchange under the lock","search/threaded.rs update"),("delivery of results under both locks","search/threaded.rs task"),("task whose first step is already everything","search/threaded.rs do_search (update_counter == 0)")],
  [dict(name="best_memory (shared)",meaning="least space known to any task for at most t steps",where="search/threaded.rs search"),dict(name="this_best_mem",meaning="a task's copy of it",where="search/threaded.rs do_search"),dict(name="results (shared)",meaning="delivered path per length",where="search/threaded.rs search")],
  ["interface::run with nthreads >= 2"],"yield/log points before and after the lock acquisitions and a forced bound exchange (cfg mbqc_verif)")
p("C06","Result lists are sorted and free of dominated paths",
  "Every list of paths returned by a search - exhaustive or probabilistic, single- or multi-threaded, complete or cut by a timeout - is strictly increasing in time and strictly decreasing in space. Hence its first entry is the fastest path found and its last entry the one needing the least memory.",
  ["inputs","configurations","schedules"],WF+"; every search mode, accept function and timeout",
  "No test calls the function that sorts and filters the results.",
  [M+"search.rs"],[("dominance filter and sort","search.rs search")],[],["interface::run with do_search = true"])
p("C07","A sweep visits every valid schedule exactly once and skipping is exact",
  "Iterating a scheduler or path generator visits every valid sequence of measurement steps exactly once, as properly nested forward and backward moves, trying larger steps before smaller ones, and marks a backward move as leaving a complete schedule (with its memory requirement) exactly when nothing is left to measure. Skipping the node just entered leaves out exactly the schedules that start with the current path, and nothing else.",
  ["inputs","histories"],WF+"; every choice of which entered nodes are skipped",
  "Unit tests compare the sequence for one 4-node order and the count for unordered sets up to 5 nodes; skipping is only tested indirectly with one policy.",
  [M+"scheduler/tree.rs",M+"scheduler/combinatoric.rs",M+"scheduler/time.rs",M+"scheduler.rs"],
  [("stack of states","scheduler/tree.rs Sweep::next, skip_current"),("subset enumeration","scheduler/combinatoric.rs Partition::next"),("focusing on the next subset","scheduler/time.rs next_and_focus; scheduler.rs next_and_focus")],
  [dict(name="stack",meaning="states to return to",where="scheduler/tree.rs Sweep")],["items of Sweep over Scheduler and PathGenerator"])
p("C08","Manual stepping offers exactly the measurable nodes and rejects the rest",
  "After any history of accepted steps, the measurable set of a scheduler is exactly the set of unmeasured nodes all of whose dependencies are measured. Any requested step that is not a duplicate-free subset of it is answered with an error naming the offending nodes - never a panic - and changes nothing; a non-in-place step never changes the scheduler it is applied to.",
  ["inputs","histories"],WF+"; every finite sequence of valid and invalid step requests, in place or copying, on manual and iterating schedulers, with fresh or reused buffers",
  "One unit test tries four instructions on one order.",
  [M+"scheduler.rs",M+"scheduler/time.rs"],
  [("check of requested steps","scheduler/time.rs partition"),("dependency counting","scheduler/time.rs update_unchecked, focus_unchecked"),("time before space","scheduler.rs Focus for Scheduler")],
  [dict(name="measurable",meaning="nodes that can be measured now",where="scheduler/time.rs PathGenerator")],["Focus::focus, focus_inplace, measurable(), has_unmeasureable()"])
p("C09","The graph's memory tracking follows the measurement semantics",
  "For any sequence of measurement steps applied to a graph, every node is measured iff it was in a step, in memory iff it is unmeasured and has a measured neighbour, and asleep otherwise; current memory is the number of nodes in memory and maximum memory is the largest number that had to be in memory within any single step so far. A step naming an already measured node is refused with an error naming such a node, and the copying form leaves the original untouched.",
  ["inputs","histories"],"every undirected loop-free graph and every sequence of steps, with and without a time order, both build profiles",
  "One unit test measures two nodes of one 4-node graph.",
  [M+"scheduler/space.rs",M+"scheduler.rs"],
  [("state changes and counters","scheduler/space.rs initialize, impl_measure, update_memory"),("unchecked variants","scheduler/space.rs focus_inplace_unchecked, focus_unchecked")],
  [dict(name="nodes[].0",meaning="Sleeping / InMemory / Measured",where="scheduler/space.rs Graph")],["Graph::nodes, current_memory, max_memory"])
p("C10","The timer never fires early, fires once due, and can be dropped any time",
  "A timer reports finished never before its duration has elapsed since it was started, and soon afterwards, for every thread that asks, and once it has reported finished it does so until dropped. A timer that was not started never reports finished, and dropping a timer returns promptly whether or not it is running or due.",
  ["schedules","histories"],"all durations (including zero and very long ones), all interleavings of timer thread, polling threads and drop",
  "The timer's only tests depend on the wall clock and are excluded from the stable set; drop and the race between notification and expiry are untested.",
  [M+"timer.rs"],[("condition variable with predicate","timer.rs Timer::start"),("finished flag","timer.rs Timer::finished"),("notify and join","timer.rs Drop")],
  [dict(name="pair.0",meaning="the timer is being dropped",where="timer.rs"),dict(name="finished",meaning="due",where="timer.rs")],["Timer::new/start/finished/drop"])
p("C11","A timeout stops the search and keeps what was found",
  "A search given a timeout returns within a bounded amount of work per thread once the timeout has elapsed, no matter how much of the search is left or how many tasks are queued, and it does not stop before the timeout unless it is complete. Every complete schedule whose exploration was finished before the stop is in the returned list or dominated by a path in it.",
  ["schedules","inputs","configurations","crash_points"],WF+"; every point of the search at which the timeout may strike; single- and multi-threaded",
  "No test passes a timeout to a search.",
  [M+"search.rs",M+"search/threaded.rs",M+"timer.rs"],
  [("check after every move","search.rs do_search, do_probabilistic_search"),("check at every bound exchange and task start","search/threaded.rs update, task"),("delivery after a cut","search/threaded.rs task")],
  [],["interface::run with a timeout"])
p("C12","Accept functions decide exactly which steps may be taken",
  "A search with an accept function returns only schedules all of whose steps (in a multi-threaded search, all but the first) were accepted, a value of 1 or more always accepting, 0 always rejecting, and a value between being the probability of acceptance. If all values are 0 or at least 1, an uncut search returns exactly the Pareto frontier of the schedules made of accepted steps, so always accepting gives the exhaustive result.",
  ["inputs","configurations","schedules"],WF+"; every accept function; all seeds, thread counts and task bounds",
  "No test runs a probabilistic search.",
  [M+"search.rs",M+"search/threaded.rs",M+"probabilistic.rs"],
  [("acceptance decision","search.rs probabilistic_forward"),("search loops","search.rs do_probabilistic_search; search/threaded.rs do_probabilistic_search")],
  [],["interface::run with AcceptFunc::Custom"])
p("C13","Accept functions receive the documented quantities",
  "Whenever a search consults the accept function, the arguments describe the candidate step truthfully: the best space found so far for complete schedules (overall, and for those with no more steps than a completion of the candidate needs; usize::MAX if there is none), the maximum and current memory before the step, the current memory after it, the number of nodes still left to measure, and the total number of nodes.",
  ["inputs","histories"],WF+"; every history of acceptances and rejections",
  "No test runs a probabilistic search, so nothing looks at these arguments.",
  [M+"search.rs",M+"search/threaded.rs",M+"probabilistic.rs",M+"scheduler/time.rs"],
  [("argument passing","search.rs probabilistic_forward, do_probabilistic_search"),("remaining nodes","scheduler/time.rs num_remaining_nodes")],
  [],["arguments seen by AcceptFunc::Custom"])
p("C14","File-based runs equal in-memory runs and failures leave no output",
  "Running from files gives the same paths as running in memory on the deserialised inputs, for every combination of the supported formats, and the written file reads back as exactly those paths; missing parent directories of the output are created. If an input cannot be read or parsed or a format is unknown, an error is returned and the output file is neither created nor changed.",
  ["inputs","configurations","fault_sequences"],"every combination of formats, input file states (valid, missing, damaged), output locations (fresh, nested, existing, impossible) and search options; single faults and combinations of them",
  "run_serialized is called by no test.",
  [M+"interface.rs"],[("format dispatch","interface.rs serialize_to_file, deserialize_from_file"),("order of effects","interface.rs run_serialized, create")],
  [],["interface::run_serialized and the file system"])
p("C15","The command line tool performs the run its arguments describe",
  "The binary reads the two inputs, runs with exactly the given options (search flag, timeout, thread count, probabilistic flag, task bound) and writes the result to the given output, exiting with 0 iff that succeeded. Invalid arguments, unreadable inputs and unknown formats give a non-zero exit status and no output file.",
  ["inputs","configurations","fault_sequences"],"every combination of options and formats, with valid and invalid values",
  "The binary is started by no test.",
  [M+"main.rs",M+"cli.rs",M+"interface.rs"],[("argument parsing","cli.rs parse"),("argument mapping","main.rs main")],
  [],["exit status and output file of the mbqc_scheduling binary"])
p("C16","Parallelism stays within the requested threads and tasks",
  "With fewer than two threads the whole search runs on the calling thread; otherwise it runs on at most the requested number of worker threads, and with a task bound b on at most b separately started tasks besides the one that handles the remainder, for every b including 0. No search work goes on after the search has returned.",
  ["configurations","inputs","schedules"],WF+"; every thread count and task bound",
  "No test uses a thread count or task bound.",
  [M+"search.rs",M+"search/threaded.rs"],[("thread pool size, task loop","search/threaded.rs search"),("choice of single-threaded search","search.rs search")],
  [],["threads on which AcceptFunc::Custom is called"])
p("C17","Building graphs and orders under a relabelling preserves the problem",
  "A graph buffer built from an edge list has b among the neighbours of a exactly if the (relabelled) edges contain {a,b}, symmetrically, and with the check enabled each neighbour occurs once and self-loops are dropped. A path generator built with a relabelling behaves as the one built from the relabelled order, whatever a reused buffer held before.",
  ["inputs","histories"],"every edge list (with repeats, reversals and loops when checked), every injective (partial) relabelling, every reuse of buffers",
  "One unit test compares four fixed edge lists.",
  [M+"scheduler/space.rs",M+"scheduler/time.rs",M+"scheduler.rs"],[("edge insertion","scheduler/space.rs GraphBuffer::new, new_body"),("mapping of order nodes","scheduler/time.rs from_dependency_graph"),("partial mapping","scheduler.rs update!")],
  [],["GraphBuffer::as_buffer, PathGenerator::from_dependency_graph"])
p("C18","The provided accept functions cut off hopeless steps and scale sanely",
  "The provided accept functions return 0 when the headroom - the least space found so far minus the larger of current memory and previous maximum - is below the cutoff (0 for the built-in one). Otherwise, with positive headroom, the value is the documented n^l * exp(-n^t * r^e / (headroom^d * m^f)) for n nodes in total, r remaining and m = n - r measured ones and the configured exponents; hence, for positive exponents, it lies between 0 and n^l, which is attained when nothing remains, never grows with more remaining nodes and never shrinks with more headroom. With no headroom but nodes remaining the value is 0. The built-in (and default) one equals the parametrised one with cutoff 0 and exponents l=2, t=1, e=1, d=3, f=1.",
  ["inputs","configurations"],"all admissible arguments (0 < measured nodes <= total) and parameters",
  "The accept functions are evaluated by no test.",
  [M+"probabilistic.rs"],[("built-in formula","probabilistic.rs builtin_heavyside"),("parametrised formula","probabilistic.rs create_parametrized_heavyside"),("selection","probabilistic.rs get_accept_func")],
  [],["AcceptFunc::get_accept_func"])
p("C19","Single-threaded runs are reproducible",
  "Two single-threaded runs without timeout on the same input and options return identical paths, including the steps, if there is no accept function or the random seed is fixed. Different seeds, and runs without a fixed seed, can make different random choices.",
  ["inputs","configurations"],WF+"; every accept function and seed",
  "No test runs a seeded search.",
  [M+"search.rs",M+"interface.rs"],[("seeding","search.rs do_probabilistic_search"),("seed hand-over","interface.rs run")],
  [],["interface::run with nthreads < 2"])
B="python_lib/rust/src/"
p("C20","The Python bindings perform the call their arguments describe",
  "run() of the Python package calls the library exactly once with the graph, order, search flag, timeout (in seconds), thread count, task bound, accept function (built-in, parametrised with exactly the given parameters, or the custom callback, which gets the seven arguments in order and whose value is used) and seed that were given, with the documented defaults for arguments left out, and returns exactly the paths found. An order of another package is read through its into_py_graph method (with one warning). Values that do not fit, an invalid accept function and a custom callback with more than one thread raise an exception without calling the library. Objects are snapshots of the values they were made of; reading them changes nothing, taking the value leaves an empty object, and a run changes none of its arguments.",
  ["inputs","configurations","histories"],"every program that creates, reads, takes from and searches with these objects, with all combinations of given and omitted arguments",
  "The one Python test needs an installed package and compares one example; the crate is in no Rust workspace and never compiled by the stable tests.",
  [B+"lib.rs",B+"probabilistic.rs","python_lib/python/mbqc_scheduling/__init__.py","python_lib/python/mbqc_scheduling/probabilistic.py"],
  [("argument passing, defaults, refusals","python_lib/rust/src/lib.rs run"),("conversion of accept functions","python_lib/rust/src/probabilistic.rs to_real, AcceptFunc::__new__"),("taking values","python_lib/rust/src/lib.rs take_into_py_graph, take_into_py_paths")],
  [],["calls of interface::run made by the bindings and the values read from their objects"])
R="results/src/"
p("C21","The benchmark programs ask what they claim and report what they found",
  "The density and node programs draw, for every correction density or size, the announced number of independent problems: an undirected loop-free graph in which each pair of nodes is connected with the probability given by the density (constant, factor/(n-1) or factor/sqrt(n-1)), and a strict partial order over all the nodes (for two nodes, a dependency with the given probability). Each problem is given, unchanged, to the single-threaded time-optimal run, to the search with the built-in accept function, the timeout of this block and the announced number of threads, and - by the node program up to its exact size - to the exhaustive search; the timeouts are positive, do not shrink with the size of the problems, and add up to no more than the wall time. The written means and deviations are those of time and space of the time-optimal path, of the last path of the approximate search and of the first and last path of the exhaustive one, over the problems which have such a path. Densities outside [0,1] are refused without any run or output.",
  ["inputs","configurations"],"every size, density, kind of density, and every list of paths returned by the searches",
  "The programs have no test and are not compiled by the stable tests.",
  [R+"plots.rs",R+"plots/density.rs",R+"plots/node.rs",R+"cli.rs",R+"lib.rs"],
  [("problems, calls and statistics","results/src/plots.rs do_it, get_graph, get_order"),("blocks and timeouts","results/src/plots/node.rs run, timeouts; results/src/plots/density.rs run, timeouts"),("densities","results/src/plots.rs density_types, Density")],
  [],["calls of interface::run made by the programs and the file they write"])
p("C22","An accept function that fails makes the run fail",
  "If a call of a custom accept function panics, the call of run() that made it panics too, with that failure: it neither returns paths nor hangs (also not until a timeout), and it does not abort the process, for any number of threads and tasks and any number of failing calls. A thread on which the function has failed does not call it again in this run, no call is made after the run has ended, and a run in which no call fails returns normally. Later runs in the same process are not affected.",
  ["inputs","configurations","schedules"],WF+"; every set of failing calls, thread count, task bound and timeout, and every interleaving of the failures with the creation and execution of the tasks",
  "No test uses an accept function that fails or a multi-threaded search; whether the process survives depends on when the failures happen relative to the creation of the tasks.",
  [M+"search/threaded.rs",M+"search.rs",M+"timer.rs",M+"interface.rs"],
  [("calls of the accept function","search.rs probabilistic_forward"),("tasks in the threadpool","search/threaded.rs search"),("stopping the timer while unwinding","timer.rs Drop for Timer")],
  [],["return or panic of interface::run, calls of the accept function"])
p("C23","Runs do not influence each other",
  "The result of a run depends only on its own arguments: a run that is preceded by other runs in the same process, or made at the same time as others from different threads, ends in the same way as in a process of its own, and returns identical paths if it is single-threaded and has no accept function or a fixed seed, and the same times and spaces if it is multi-threaded without accept function. This includes runs among others which were cut by their timeouts or whose accept functions failed: their timeouts and failures are theirs only.",
  ["histories","schedules","configurations"],WF+"; every sequence and every overlapping of runs with any modes and options in one process",
  "The tests make runs of the library one after the other on one thread and look at no result of run().",
  [M+"search.rs",M+"search/threaded.rs",M+"timer.rs",M+"interface.rs"],
  [("data of a search: bounds, results, generator, path","search.rs do_search, do_probabilistic_search; search/threaded.rs search"),("the timer of a run","search.rs search, timer.rs Timer")],
  [],["interface::run called repeatedly and from several threads"])
p("C24","Logging does not change a run",
  "Whether and at which level somebody listens to what a run logs (a tracing subscriber in the process that uses the library, of any speed; RUST_LOG for the tool) has no influence on the run: it ends, in the same way (normally, with the failure of its accept function, with the same status of the tool), with identical paths if it is time-optimal, or single-threaded and has no accept function or a fixed seed, and with the same times and spaces if it is multi-threaded and complete. A run that is cut by its timeout ends with a listener, too.",
  ["inputs","configurations","schedules"],WF+"; every mode, thread count, task bound, timeout and accept function, every level and speed of the listener",
  "No test installs a listener, so no argument of a log message is ever evaluated in a test.",
  [M+"search.rs",M+"search/threaded.rs",M+"main.rs",M+"interface.rs"],
  [("log messages of the tasks","search/threaded.rs task, do_search, do_probabilistic_search"),("log messages of the searches","search.rs do_search, do_probabilistic_search"),("listener of the tool","main.rs main")],
  [],["interface::run with and without a listener, the tool with RUST_LOG"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
