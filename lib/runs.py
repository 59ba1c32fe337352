"""Runs of the search and their validation with TracePaths.tla and TraceFrontier.tla."""
import json

from core import THOROUGH, bad, run_adapter
import inst as I

PATHS_INV = {
    "C01": ["Executable", "AllMeasured", "Ends"],
    "C02": ["TrueTime", "TrueSpace", "Ends"],
    "C03": ["OnePath", "EarlyAsPossible", "LongestChain", "Executable", "AllMeasured", "Ends"],
    "C06": ["Antichain", "Ends"],
}
ALL_INV = ["Executable", "AllMeasured", "TrueTime", "TrueSpace", "Antichain", "Ends"]

ALL_RULE = {"kind": "all", "a": 0, "b": 0, "c": 0, "m": 1, "r": 0}


def tla_rule(accept):
    """the accept rule of a run for TraceFrontier.tla; None if it has none"""
    if accept is None:
        return dict(ALL_RULE)
    r = dict(ALL_RULE)
    k = accept["kind"]
    if k == "const":
        if accept["v"] >= 1:
            return r
        if accept["v"] == 0:
            r["kind"] = "none"
            return r
        return None
    if k == "mod":
        r["kind"] = "mod"
        r["a"], r["b"], r["c"], r["m"], r["r"] = accept["p"]
        return r
    if k in ("cap", "grow", "last"):
        r["kind"] = k
        r["a"] = accept["v"]
        return r
    return None


def cmd_run(i, search=True, **kw):
    return {"op": "run", "adj": i["adj"], "order": i["order"], "search": search, **kw}


class Suite:
    """collects run commands, executes them and hands the results to TLC"""

    def __init__(self, check, build):
        self.check = check
        self.build = build
        self.insts = []
        self.index = {}
        self.cmds = []      # (profile, instance index, mode, cmd)
        self.results = []

    def inst(self, i):
        key = json.dumps([i["adj"], i["order"]])
        if key not in self.index:
            self.insts.append({"adj": i["adj"], "order": i["order"]})
            self.index[key] = len(self.insts)
        return self.index[key]

    def add(self, profile, i, search=True, **kw):
        self.cmds.append((profile, self.inst(i), "search" if search else "timeopt",
                          cmd_run(i, search, **kw)))

    def execute(self, case_timeout=60.0, jobs=None):
        self.results = [None] * len(self.cmds)
        groups = {}
        for k, (profile, _, _, cmd) in enumerate(self.cmds):
            # (clock: the time runs so many times as fast; see Build.clock)
            groups.setdefault((cmd.get("clock", 1), profile), []).append(k)
        for (clock, profile), ks in groups.items():
            env = None
            if clock != 1:
                env = self.build.clock(clock, 40, self.check.rng.getrandbits(30))
                if env is None:
                    for k in ks:
                        self.results[k] = {"skipped": True}
                    continue
            rs = run_adapter(self.build, profile, [self.cmds[k][3] for k in ks],
                             case_timeout, jobs, env=env)
            for k, r in zip(ks, rs):
                self.results[k] = r
        return self.results

    def usable(self):
        return [k for k, r in enumerate(self.results) if not r.get("skipped")]

    def describe_run(self, k):
        profile, ins, mode, cmd = self.cmds[k]
        r = dict(self.results[k])
        r.pop("log", None)
        return {"profile": profile, "command": cmd, "result": r}

    def check_paths(self, invariants, rules=False):
        """TracePaths.tla on all runs (identical observations only once)"""
        seen = {}
        runs = []
        back = []
        for k in self.usable():
            profile, ins, mode, cmd = self.cmds[k]
            r = self.results[k]
            if bad(r):
                run = {"ins": ins, "mode": mode, "out": "bad", "paths": []}
            else:
                run = {"ins": ins, "mode": mode, "out": "ok", "paths": r["paths"]}
            run["rule"] = (tla_rule(cmd.get("accept")) if rules else None) or ALL_RULE
            run["exempt"] = 1 if cmd.get("nthreads", 1) >= 2 else 0
            if run["rule"] == ALL_RULE:
                run["exempt"] = 0
            key = json.dumps(run)
            if key in seen:
                continue
            seen[key] = 1
            runs.append(run)
            back.append(k)
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join(
            f"INVARIANT {x}\n" for x in invariants)

        def describe(st, r):
            k = back[int(st["r"]) - 1]
            return (f"run {k}: {self.summary(k)}", {**self.describe_run(k), "state": st})
        self.check.details["runs_executed"] = (
            self.check.details.get("runs_executed", 0) + len(self.usable()))
        return self.check.trace_check("TracePaths", cfg,
                                      {"insts": self.insts, "runs": runs}, describe,
                                      len(self.usable()))

    def summary(self, k):
        profile, ins, mode, cmd = self.cmds[k]
        r = self.results[k]
        opts = {x: cmd[x] for x in ("nthreads", "bound", "accept", "seed", "timeout_ms")
                if x in cmd and cmd[x] is not None}
        if bad(r):
            what = {x: r[x] for x in ("panic", "crash", "hang") if x in r}
        else:
            what = [(p["time"], p["space"]) for p in r["paths"]]
        return f"{mode} {opts} ({profile}) -> {what}"

    def check_frontier(self, select=None):
        """TraceFrontier.tla on the runs for which the frontier is determined"""
        seen = {}
        claims = []
        back = []
        n = 0
        for k in self.usable():
            profile, ins, mode, cmd = self.cmds[k]
            r = self.results[k]
            if mode != "search" or (select and not select(k, cmd, r)):
                continue
            rule = tla_rule(cmd.get("accept"))
            if rule is None:
                continue
            n += 1
            exempt = 0
            if cmd.get("accept") is not None and cmd.get("nthreads", 1) >= 2 \
                    and cmd.get("bound") is None:
                exempt = 1
            claim = {"ins": ins, "out": "bad" if bad(r) else "ok", "rule": rule,
                     "exempt": exempt,
                     "costs": [] if bad(r) else [[p["time"], p["space"]] for p in r["paths"]]}
            key = json.dumps(claim)
            if key in seen:
                continue
            seen[key] = 1
            claims.append(claim)
            back.append(k)
        if not claims:
            return None
        cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
               "INVARIANT Ends\nINVARIANT NothingMissing\n")

        def describe(st, r):
            k = back[int(st["c"]) - 1]
            return (f"run {k}: {self.summary(k)}: missing or dominated by nothing: "
                    f"time {st.get('t')} space {st.get('mem')}",
                    {**self.describe_run(k), "state": st})
        self.check.details["frontiers"] = self.check.details.get("frontiers", 0) + len(claims)
        return self.check.trace_check("TraceFrontier", cfg,
                                      {"insts": self.insts, "claims": claims}, describe, n)


def instances(rng, scale):
    """the standard mix: exhaustive small ones, structured ones, random ones"""
    out = []
    out += [i for n in (1, 2) for i in I.small_exhaustive(n, rng)]
    three = list(I.small_exhaustive(3, rng))
    out += three if scale["three"] is None else rng.sample(three, scale["three"])
    four = []
    for _ in range(scale["four"]):
        adj = I.rand_graph(rng, 4, rng.choice([0.2, 0.5, 0.8]))
        four.append(I.inst(adj, I.order_from_deps(I.rand_deps(rng, range(4), rng.choice([0, 0.2, 0.5])), rng), "four"))
    out += four
    out += I.structured(rng, big=scale.get("big", False))
    for _ in range(scale["rand"]):
        out.append(I.sized(rng, 5, 12, scale["tree"]))
    return out


def random_accept(rng):
    x = rng.random()
    if x < 0.15:
        return {"kind": "builtin"}
    if x < 0.3:
        return {"kind": "param", "cutoff": rng.choice([-1.0, 0.0, 1.0, 2.0]),
                "lin": rng.choice([0, 1, 2]), "total": rng.choice([0, 1]),
                "remaining": rng.choice([1, 2]), "diff": rng.choice([1, 3]),
                "measured": rng.choice([0, 1])}
    if x < 0.5:
        return {"kind": "const", "v": rng.choice([0.1, 0.3, 0.5, 0.9]), "log": False}
    return rule_accept(rng)


def rule_accept(rng):
    hi = rng.choice([1.0, 1.0, 1.5, 25.0])
    x = rng.random()
    if x < 0.1:
        return {"kind": "const", "v": rng.choice([0.0, 1.0, 7.0]), "log": False}
    if x < 0.7:
        m = rng.choice([2, 3, 3, 5, 7])
        return {"kind": "mod", "p": [rng.randint(0, 4), rng.randint(0, 4),
                                     rng.randint(1, 4), m, rng.randrange(m)],
                "hi": hi, "log": False}
    if x < 0.8:
        return {"kind": "cap", "v": rng.randint(1, 4), "hi": hi, "log": False}
    if x < 0.9:
        return {"kind": "grow", "v": rng.randint(0, 2), "hi": hi, "log": False}
    return {"kind": "last", "v": rng.randint(1, 5), "hi": hi, "log": False}
