"""Building the harness, running it, running TLC, reporting."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
BUILD = VERIF / ".build"
SPEC = VERIF / "spec"
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
START = time.time()

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
STARTED = time.time()


class ToolError(Exception):
    pass


def log(*a):
    print(f"[{time.time() - START:6.1f}s]", *a, flush=True)


# ------------------------------------------------------------------ building

class Build:
    """The harness, compiled from the current working tree of /repo in both profiles."""

    def __init__(self, profiles=("dev", "release")):
        self.profiles = profiles
        self.hooks = True
        self.build()

    def _start(self, profile, hooks):
        env = dict(os.environ)
        env.pop("CARGO_TARGET_DIR", None)
        env.update(
            CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
            RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
            RUSTFLAGS="--cfg mbqc_verif --cap-lints warn" if hooks else "--cap-lints warn",
            CARGO_INCREMENTAL="0",
        )
        target = self.target(profile, hooks)
        cmd = ["cargo", "build", "--offline", "--quiet", "--bins",
               "--target-dir", str(target)]
        if profile == "release":
            cmd.append("--release")
        return subprocess.Popen(cmd, cwd=VERIF / "harness", env=env,
                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    @staticmethod
    def target(profile, hooks):
        return BUILD / f"target-{profile}{'' if hooks else '-nohooks'}"

    def build(self):
        BUILD.mkdir(exist_ok=True)
        for hooks in (True, False):
            procs = [(p, self._start(p, hooks)) for p in self.profiles]
            outs = [(p, q.communicate()[0], q.returncode) for p, q in procs]
            if all(rc == 0 for _, _, rc in outs):
                self.hooks = hooks
                if hooks and (gone := self._gone()):
                    log(f"NOTE: hooks are gone ({gone}); running the checks that need no hooks")
                    continue
                log(f"built the harness ({', '.join(self.profiles)}, hooks={hooks})")
                return
            msg = "\n".join(o for _, o, rc in outs if rc)
            if hooks:
                log("NOTE: /repo does not compile with the hooks on; "
                    "running the checks that need no hooks")
        raise ToolError("the harness does not build:\n" + msg[-4000:])

    def _gone(self):
        """the hooks that are not called any more, as far as they are needed"""
        adj = [[1], [0, 2], [1, 3], [2]]
        orders = [[[(0, []), (1, []), (2, [])], [(3, [0, 1])]],
                  [[(0, []), (1, [])], [(2, [0])], [(3, [2])]]]
        cmds, kinds = [], []
        for order in orders:
            for acc in ({}, {"accept": {"kind": "const", "v": 1.0, "log": True}, "seed": 1}):
                for par in ({}, {"nthreads": 2}):
                    o = {"steps": True, "gates": True, "seed": 1, "sync_prob": 1.0}
                    if par:
                        o["policy"] = "random"
                    cmds.append({"op": "run", "adj": adj, "order": order, "search": True,
                                 "observe": o, **acc, **par})
                    kinds.append(bool(acc) + 2 * bool(par))
        res = run_adapter(self, self.profiles[0], cmds)
        if any("log" not in r for r in res):
            # it is broken, which is not the fault of the hooks
            return None
        gone = []
        for m in range(4):
            seen = set()
            for k, r in zip(kinds, res):
                if k == m:
                    seen |= {e["k"] for e in r["log"]["events"]}
            for k in ["step"] + (["task", "snapshot", "sync", "done", "merge", "grant"]
                                 if m >= 2 else []):
                if k not in seen:
                    gone.append(k)
        return ", ".join(sorted(set(gone))) or None

    @staticmethod
    def _shim(crate, target, exe, what):
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
                   RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
                   RUSTFLAGS="--cap-lints warn", CARGO_INCREMENTAL="0")
        env.pop("CARGO_TARGET_DIR", None)
        BUILD.mkdir(exist_ok=True)
        p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--target-dir",
                            str(BUILD / target)], cwd=VERIF / crate, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            log(f"NOTE: {what} does not compile with the stand-in for the library:\n"
                + p.stdout[-1500:])
            return None
        return BUILD / target / "debug" / exe

    @staticmethod
    def cli_shim():
        """the command line tool linked to a stand-in for the library, or None"""
        return Build._shim("harness_cli", "target-cli", "cli_shim", "the command line tool")

    @staticmethod
    def results_shim():
        """the benchmark programs linked to a stand-in for the library, or None"""
        return Build._shim("harness_results", "target-results", "results",
                           "the source of the benchmark programs")

    @staticmethod
    def py_shim():
        """the python bindings linked to stand-ins for python and the library, or None"""
        return Build._shim("harness_py", "target-py", "py_shim", "the source of the bindings")

    _clock = None

    def clock(self, scale, spurious=0, seed=0):
        """the environment of a process whose time runs faster, or None"""
        if Build._clock is None:
            so = BUILD / "libclock.so"
            p = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", f"{so}.{os.getpid()}",
                                str(VERIF / "harness_clock" / "clock.c"), "-ldl"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            Build._clock = False
            if p.returncode == 0:
                os.replace(f"{so}.{os.getpid()}", so)
                Build._clock = str(so)
                # does it have the intended effect?
                t = time.time()
                r = run_adapter(self, self.profiles[0], [{"op": "clock", "ms": 100000}], 20.,
                                env=self.clock(1000, 50))[0]
                if time.time() - t > 15 or min(r.get("waited", 0), r.get("slept", 0)) < 100000:
                    log(f"NOTE: time cannot be accelerated here: {r}")
                    Build._clock = False
            else:
                log("NOTE: time cannot be accelerated here: " + p.stdout[-500:])
        if not Build._clock:
            return None
        return dict(os.environ, LD_PRELOAD=Build._clock, VT_SCALE=str(int(scale)),
                    VT_SPURIOUS=str(spurious), VT_SEED=str(seed))

    def bin(self, profile, name="adapter"):
        d = "debug" if profile == "dev" else "release"
        return self.target(profile, self.hooks) / d / name


# ------------------------------------------------------------------ the adapter

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = BUILD / f"run-{os.getpid()}"
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch.mkdir(parents=True)
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


_counter = [0, 0]    # processes, hanging cases


def run_adapter(build, profile, cmds, case_timeout=60.0, jobs=None, env=None):
    """Runs the commands, in a few processes; returns a list with the results.

    A panic of the code under test is {"panic": msg}, a dying process {"crash": rc} and a
    case that takes longer than case_timeout {"hang": true} - unless it ends within two and
    a half times as long when it is run alone: then it is only slow, on a busy machine.
    """
    results = _run_adapter(build, profile, cmds, case_timeout, jobs, env)
    hung = [k for k, r in enumerate(results) if r.get("hang")]
    late = not THOROUGH and time.time() - STARTED > 600
    if hung and not late:
        again = _run_adapter(build, profile, [cmds[hung[0]]], 2.5 * case_timeout, 1, env)[0]
        if not again.get("hang"):
            log(f"NOTE: case {hung[0]} is slow")
            for k in hung:
                results[k] = {"id": k, "skipped": True}
            results[hung[0]] = {**again, "id": hung[0]}
    return results


def _run_adapter(build, profile, cmds, case_timeout, jobs, env):
    jobs = jobs or max(1, min(6, len(cmds) // 8 + 1))
    exe = build.bin(profile)
    results = [None] * len(cmds)
    chunks = [list(range(j, len(cmds), jobs)) for j in range(jobs)]

    class Worker:
        def __init__(self, todo):
            self.todo = todo
            self.done = 0
            self.proc = None
            if todo:
                self.launch()

        def launch(self):
            _counter[0] += 1
            base = scratch() / f"a{_counter[0]}"
            self.fin = base.with_suffix(".in")
            self.fout = base.with_suffix(".out")
            with open(self.fin, "w") as f:
                for k in self.todo:
                    f.write(json.dumps({**cmds[k], "id": k}) + "\n")
            self.fout.write_text("")
            self.err = open(base.with_suffix(".err"), "w+")
            self.proc = subprocess.Popen([str(exe), str(self.fin), str(self.fout)],
                                         stdout=subprocess.DEVNULL, stderr=self.err,
                                         env=env)
            self.reader = open(self.fout)
            self.buf = ""
            self.last = time.time()

        def poll(self):
            """returns True if finished"""
            if self.proc is None:
                return True
            rc = self.proc.poll()
            data = self.reader.read()
            if data:
                self.buf += data
                while "\n" in self.buf:
                    line, self.buf = self.buf.split("\n", 1)
                    r = json.loads(line)
                    results[r["id"]] = r
                    self.last = time.time()
            self.todo = [k for k in self.todo if results[k] is None]
            if rc is not None:
                if rc == 3:
                    self.err.seek(0)
                    raise ToolError("harness error: " + self.err.read()[-2000:])
                self.proc = None
                if self.todo:
                    results[self.todo[0]] = {"id": self.todo[0], "crash": rc}
                    self.todo = self.todo[1:]
                    if self.todo:
                        self.launch()
                        return False
                return True
            if time.time() - self.last > case_timeout:
                self.proc.kill()
                self.proc.wait()
                self.proc = None
                results[self.todo[0]] = {"id": self.todo[0], "hang": True}
                self.todo = self.todo[1:]
                if self.todo:
                    self.launch()
                    return False
                return True
            return False

    workers = [Worker(c) for c in chunks if c]
    hung, enough = 0, max(1, 3 - _counter[1])
    while True:
        fin = [w.poll() for w in workers]
        if all(fin):
            break
        n = sum(1 for r in results if r is not None and r.get("hang"))
        late = not THOROUGH and time.time() - STARTED > 480
        if n > hung or late:
            hung = n
            if hung >= enough or late:
                # it is broken; do not spend the time on the rest
                for w in workers:
                    if w.proc is not None:
                        w.proc.kill()
                        w.proc.wait()
                break
        time.sleep(0.02)
    _counter[1] += hung
    return [r if r is not None else {"id": k, "skipped": True} for k, r in enumerate(results)]


def bad(r):
    return "panic" in r or "crash" in r or "hang" in r


# ------------------------------------------------------------------ TLC

class Tlc:
    def __init__(self):
        self.generated = 0
        self.distinct = 0


class TlcResult:
    pass


def tlc(module, cfg, data=None, workers=8, extra=(), timeout=3400 if THOROUGH else 800,
        heap="6g", expect=(0, 12), files=None, deque=False):
    """Runs TLC in a scratch directory with the modules of /verif/spec.

    cfg: the text of the configuration; data: written as data.json.
    """
    _counter[0] += 1
    d = scratch() / f"tlc{_counter[0]}"
    d.mkdir()
    for f in SPEC.glob("*.tla"):
        os.symlink(f, d / f.name)
    (d / "MC.cfg").write_text(cfg)
    if data is not None:
        (d / "data.json").write_text(json.dumps(data))
    for name, text in (files or {}).items():
        (d / name).write_text(text)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={d}"]
    if deque:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", classpath(), "tlc2.TLC", "-config", "MC.cfg", "-workers", str(workers),
            "-metadir", "meta", "-noGenerateSpecTE", *extra, f"{module}.tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module}")
    out = p.stdout
    r = TlcResult()
    r.module = module
    r.rc = p.returncode
    r.out = out
    r.dir = d
    r.wall = time.time() - t
    r.generated = r.distinct = 0
    r.invariant = None
    for line in out.splitlines():
        if "states generated" in line and "distinct states found" in line:
            w = line.replace(",", "").split()
            try:
                r.generated = int(w[0])
                r.distinct = int(w[w.index("distinct") - 1])
            except ValueError:
                pass
        if line.startswith("Error: Invariant ") and r.invariant is None:
            r.invariant = line.split()[2]
        if "is violated" in line and r.invariant is None and line.startswith("Error:"):
            r.invariant = line[len("Error: "):].split(" is violated")[0]
        if line.startswith("Error: Postcondition") or "Temporal properties were violated" in line:
            r.invariant = r.invariant or line[len("Error: "):]
    r.violated = r.rc in (12, 13) or (r.rc == 10 and "Postcondition" in out)
    shutil.rmtree(d / "meta", ignore_errors=True)
    if r.rc not in expect:
        raise ToolError(f"TLC failed on {module} (exit {r.rc}):\n" + out[-6000:])
    return r


def classpath():
    jars = [TLA_JAR]
    for c in sorted(Path("/opt/veriftools/tla").glob("*.jar")):
        if str(c) != TLA_JAR:
            jars.append(str(c))
    return ":".join(jars)


def last_state(out):
    """the variables of the last state of an error trace, as text"""
    state = {}
    cur = None
    for line in out.splitlines():
        if line.startswith("State ") and ":" in line:
            state = {}
            cur = None
        elif line.startswith("/\\ ") and " = " in line:
            k, v = line[3:].split(" = ", 1)
            state[k.strip()] = v.strip()
            cur = k.strip()
        elif " = " in line and not line.startswith(" ") and cur is None and state == {}:
            k, v = line.split(" = ", 1)
            if k.strip().isidentifier():
                state[k.strip()] = v.strip()
        elif cur and line.strip() and not line.startswith("Error") and not line[0].isdigit():
            state[cur] += " " + line.strip()
        elif not line.strip():
            cur = None
    return state


def error_trace(out):
    keep = []
    on = False
    for line in out.splitlines():
        if line.startswith("Error:"):
            on = True
        if on:
            if "states generated" in line:
                break
            keep.append(line)
    return "\n".join(keep)[:20000]


# ------------------------------------------------------------------ reporting

class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.details = {}
        self.proving = []
        self.assumptions = []
        self.violations = []
        self.rng = random.Random(SEED * 1000003 + sum(map(ord, prop)))
        self.known_lines = []

    def add(self, r, name=None):
        self.states += r.distinct
        self.transitions += r.generated
        d = self.details.setdefault("tlc_runs", [])
        d.append({"module": name or r.module, "distinct_states": r.distinct,
                  "generated": r.generated, "wall_s": round(r.wall, 1)})
        return r

    def design(self, module, cfg, expect_violation=False, **kw):
        """a model checking run on a specification alone"""
        r = tlc(module, cfg, expect=(0, 12, 13), **kw)
        self.add(r)
        if r.violated != expect_violation:
            raise ToolError(f"the specification {module} itself "
                            f"{'violates' if r.violated else 'does not violate'} "
                            f"{r.invariant}:\n" + error_trace(r.out))
        return r

    def proof(self, module):
        """a proof about a specification alone, checked by TLAPS

        It does not depend on the code under test; that the provers run into their time
        limits on a busy machine says nothing about either.
        """
        _counter[0] += 1
        where = scratch() / f"proof{_counter[0]}"
        where.mkdir()
        for f in SPEC.glob("*.tla"):
            shutil.copy(f, where / f.name)

        def run():
            for stretch in ("1", "4"):
                out, done, total = "", 0, 0
                try:
                    p = subprocess.run(["tlapm", "--threads", "4", "--stretch", stretch,
                                        f"{module}.tla"], cwd=where, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, text=True, timeout=200)
                    out = p.stdout
                except (subprocess.TimeoutExpired, OSError) as e:
                    out = str(e)
                if m := re.search(r"All (\d+) obligations? proved", out):
                    done = total = int(m.group(1))
                    break
                if m := re.search(r"(\d+)/(\d+) obligations? failed", out):
                    done, total = int(m.group(2)) - int(m.group(1)), int(m.group(2))
            if not total or done < total:
                log(f"NOTE: the proof {module} was not completed in this run: {out[-300:]!r}")
            d = self.details
            d["obligations"] = d.get("obligations", 0) + total
            d["discharged"] = d.get("discharged", 0) + done
            d["checker_cmd"] = (d["checker_cmd"] + "; " if "checker_cmd" in d else "") + \
                f"tlapm --threads 4 {module}.tla"
            d["trusted_base"] = ["TLAPS and its back ends (Z3, Zenon, Isabelle)",
                                 "that the specification describes the code (see traces)"]
        self.proving.append(threading.Thread(target=run))
        self.proving[-1].start()

    def sample(self, x):
        if len(self.samples) < 3:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 3000 else s[:3000] + "...")

    def violation(self, what, replay):
        """replay: a JSON-able description of the failing case"""
        _counter[0] += 1
        d = BUILD / "replays"
        d.mkdir(parents=True, exist_ok=True)
        f = d / f"{self.prop}-{int(time.time())}-{os.getpid()}-{_counter[0]}.json"
        f.write_text(json.dumps({"property": self.prop, "what": what, **replay}, indent=1))
        self.violations.append((what, f))
        log(f"violation: {what}")

    def trace_check(self, module, cfg, data, describe, count, expect=(0, 12), **kw):
        """validate observations of the real code; describe(state) -> (what, replay)"""
        r = tlc(module, cfg, data=data, expect=expect, **kw)
        self.add(r)
        self.traces += count
        if r.violated:
            st = last_state(r.out)
            what, replay = describe(st, r)
            self.violation(f"{what} [{r.invariant}]",
                           {"invariant": r.invariant, **replay, "trace": error_trace(r.out)})
        return r

    def finish(self):
        for t in self.proving:
            t.join()
        ev = {
            "property": self.prop, "tier": "thorough" if THOROUGH else "quick",
            "seed": SEED, "level": self.level,
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces,
                         "samples": self.samples, **self.details},
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - START, 1),
            "violations": len(self.violations),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1))
        for line in self.known_lines:
            print(line, flush=True)
        log(f"{self.prop}: {self.states} states, {self.traces} traces validated, "
            f"{len(self.violations)} violations")
        for what, f in self.violations[:1]:
            print(f"VIOLATION property={self.prop} replay={f}", flush=True)
        return 1 if self.violations else 0
