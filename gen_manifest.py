#!/usr/bin/env python3
"""Writes MANIFEST.json (run it after editing)."""
import json
import subprocess
from pathlib import Path

ROOT = Path(__file__).resolve().parent
NOTE_TRACE = ("The specification is explored exhaustively for small instances by TLC; the code is bound to it by "
              "executing it and letting TLC validate every observed behaviour against the specification "
              "(exhaustive for inputs with up to 3 nodes, sampled for larger ones). Trusted: the JSON plumbing of the "
              "harness, TLC. ")
C = {
 "C01": ("TLA+/TLC: Operational.tla model checked; paths returned by the real code validated against Mbqc.tla (TracePaths)",
         NOTE_TRACE + "All search modes, thread counts, bounds, timeouts and accept functions are sampled."),
 "C02": ("TLA+/TLC: reported costs of real paths recomputed by TLC from the declarative memory semantics (TracePaths)",
         NOTE_TRACE + "Both build profiles, i.e. checked and unchecked memory tracking, are executed."),
 "C03": ("TLA+/TLC: greedy path of the real code validated against the ASAP specification (TracePaths)", NOTE_TRACE),
 "C04": ("TLA+/TLC: Search.tla model checked; frontier returned by the real code decided by exhaustive exploration of all undominated schedules (TraceFrontier)",
         NOTE_TRACE + "The frontier is recomputed by TLC from the declarative semantics without any pruning rule of the code."),
 "C05": ("TLA+/TLC: Threaded.tla model checked under all interleavings; its behaviours replayed in the real code at its lock points; results validated (TraceFrontier)",
         NOTE_TRACE + "Interleavings are those of task start, snapshot, bound exchange and merge (all accesses to shared data are under a lock at these points). "
         "Behaviours of the correct and of mutated specifications are replayed deterministically; free-running threads are sampled in addition."),
 "C06": ("TLA+/TLC: result lists of all search modes validated for order and non-domination (TracePaths)", NOTE_TRACE),
 "C07": ("TLA+/TLC: Sweep.tla model checked; logs of sweeps with skips of the real code replayed move by move (TraceSweep)", NOTE_TRACE),
 "C08": ("TLA+/TLC: Requests.tla and Operational.tla model checked; histories of valid and invalid requests replayed (TraceManual)", NOTE_TRACE),
 "C09": ("TLA+/TLC: Operational.tla model checked against Mbqc.tla; graph histories of the real code replayed (TraceGraph)", NOTE_TRACE),
 "C10": ("TLA+/TLC: Timer.tla model checked incl. liveness under all interleavings and spurious wakeups; timed histories of the real timer validated (TraceTimer)",
         "The specification is decided exhaustively for few durations; the real timer is sampled with real time, with generous tolerance for 'soon' so that a loaded machine causes no alarm."),
 "C11": ("TLA+/TLC: Search.tla/Threaded.tla with a timeout after any move model checked; searches of the real code cut at every move validated (TraceCut, TraceFrontier)",
         NOTE_TRACE + "Cuts at every move of small searches through the hook, at calls of the accept function and by plain timeouts elsewhere."),
 "C12": ("TLA+/TLC: Search.tla with arbitrary rejections model checked; real probabilistic searches replayed move by move (TraceSearch) and their result decided (TraceFrontier, TraceAsked)",
         NOTE_TRACE + "Values between 0 and 1 are decided by acceptance frequencies with a tolerance of 7 standard deviations."),
 "C13": ("TLA+/TLC: every call of the accept function in real searches compared with the specification's state (TraceSearch, TraceCalls)",
         NOTE_TRACE + "Known finding K1: the number of remaining nodes counts only the nodes that cannot be measured yet."),
 "C17": ("TLA+/TLC: Relabel.tla model checked; graphs and orders built by the real code from edge lists and relabellings validated (TraceBuild, TraceSweep)", NOTE_TRACE),
 "C14": ("TLA+/TLC: Iface.tla (a run from files, writing to a file, faults at every point) model checked; file-based runs of the real code validated against in-memory runs (TraceIface)",
         NOTE_TRACE + "Faults are missing, unreadable, truncated, malformed inputs and unwritable outputs."),
 "C15": ("TLA+/TLC: Cli.tla gives the run that an argument vector describes; the real tool, and the tool's source linked to a recording stand-in for the library, are executed on generated argument vectors and TLC decides the recorded call (TraceCli)",
         NOTE_TRACE + "Spelling of help texts is not covered."),
 "C16": ("TLA+/TLC: Pool.tla model checked; start and end of tasks and the threads of real runs validated against it (TracePool)",
         NOTE_TRACE + "Threads are observed through hooks, the operating system's thread ids in accept calls and CPU time."),
 "C18": ("TLA+/TLC: Accept.tla (exact cutoffs, intervals for scaling) model checked; values returned by the real accept functions on grids and random states validated by TLC (TraceAccept)",
         NOTE_TRACE + "Real numbers are represented by scaled integers; tolerance in the formula is stated in the specification."),
 "C19": ("TLA+/TLC: Copies.tla (two searches with the same decisions at different speeds) model checked; repeated and seeded runs of the real code compared by TLC (TraceRepro)",
         NOTE_TRACE + "Different choices for different seeds are decided statistically (false alarm probability below 2^-50)."),
 "C20": ("TLA+/TLC: Python.tla (heap of objects, calls, errors) model checked; programs executed with the bindings' real source, linked to stand-ins for pyo3 and the library, are validated operation by operation (TracePython)",
         "pyo3 and pauli_tracker_pyo3 are not available offline: the source of the bindings is compiled unchanged against stand-ins for them, whose conversions (overflow and type errors, defaults from the declared signatures) are trusted. If the source uses something of pyo3 that the stand-in lacks, the check says so and decides nothing."),
 "C21": ("TLA+/TLC: Bench.tla (blocks of problems, calls, statistics) model checked; all calls and the output of the real programs, linked to a stand-in for the library, are validated (TraceBench)",
         "The programs are written against an older interface of the library and are therefore compiled, unchanged, against a stand-in with that interface, which returns made-up paths. Numbers are compared in thousandths; densities and independence statistically (6.6 standard deviations)."),
 "C22": ("TLA+/TLC: Failing.tla (tasks whose calls may fail; mutants) model checked; runs of the real code with failing accept functions are validated call by call (TraceFailing)",
         NOTE_TRACE + "The interleavings of failures and task creation are sampled with free-running threads."),
 "C23": ("TLA+/TLC: Together.tla (several searches in one process; mutants that share something) model checked; histories of overlapping runs of the real code are compared with the same runs on their own (TraceTogether)",
         NOTE_TRACE + "The overlapping is that of free-running threads."),
 "C24": ("TLA+/TLC: Logging.tla (tasks with and without a listener; mutants) model checked; runs of the real code and of the tool with listeners of all levels are compared with silent ones (TraceLogging)",
         NOTE_TRACE + "The threads run freely; the listener formats everything and may be slow."),
}
extra = ROOT / "manifest_extra.json"
if extra.exists():
    C.update({k: tuple(v) for k, v in json.loads(extra.read_text()).items()})
props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines()]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep", "hooks.*mbqc_verif"],
                      capture_output=True, text=True).stdout.split()
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "hooks": {"guard": "mbqc_verif", "enable": "RUSTFLAGS=--cfg mbqc_verif (set by lib/core.py when it builds harness/)",
              "source_commits": hook},
    "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                "technique": C[p["id"]][0], "level": "model_checking", "level_note": C[p["id"]][1]}
               for p in props if p["id"] in C and (ROOT / "checks" / f"{p['id'].lower()}.py").exists()],
    "not_applicable": [{"property": p["id"], "reason": "its check is not built yet"}
                       for p in props if p["id"] not in C or
                       not (ROOT / "checks" / f"{p['id'].lower()}.py").exists()],
    "notes": "TLA+ checked with TLC. known_findings.json lists the recorded and repaired defects. "
             "If /repo does not compile with the hooks, the checks fall back to a build without them.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
