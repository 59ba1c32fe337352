"""C24: logging does not change a run"""
import os
import random
from concurrent.futures import ThreadPoolExecutor
from core import *
from runs import *
import c11
import c15
import designs
import files

INV = ["Ends", "SameEnd", "SamePaths"]
LEVELS = [1, 3, 4, 5, 5]


def design(c):
    def run(tasks, moves, mutant="none", bad=False):
        c.design("Logging", designs.cfg({"Tasks": "{" + ", ".join(map(str, tasks)) + "}",
                                         "Moves": moves, "Mutant": f'"{mutant}"'}, ["Same"],
                                        ["AllEnd"]), expect_violation=bad)
    run([1, 2], 1)
    run([1, 2], 2)
    if THOROUGH:
        run([1, 2, 3], 1)
    for m in ("held", "takes", "draws", "silent", "needed"):
        run([1, 2], 1, m, True)


def one(rng, insts):
    """(kind, command)"""
    i = rng.choice(insts)
    x = rng.random()
    kw = rng.choice([{}, {}, {"timeout_ms": 600000}])
    if x < .1:
        return "exact", cmd_run(i, False)
    if x < .3:
        return "exact", cmd_run(i, True, **kw)
    if x < .5:
        a = rng.choice([random_accept, rule_accept])(rng)
        return "exact", cmd_run(i, True, accept={**a, "log": False}, seed=rng.getrandbits(64),
                                **kw)
    if x < .8:
        return "costs", cmd_run(i, True, nthreads=rng.choice([2, 3, 5]),
                                bound=rng.choice([None, None, 0, 1, 3]), **kw)
    if x < .87:
        # (everything is accepted, hence a complete search)
        return "costs", cmd_run(i, True, accept={"kind": "const", "v": 1., "log": False},
                                seed=rng.choice([None, 1]), nthreads=rng.choice([2, 3]), **kw)
    if x < .94:
        big = c11.one_layer(rng, rng.choice([20, 30]))
        return "end", cmd_run(big, True, nthreads=rng.choice([1, 2, 3]), bound=5,
                              timeout_ms=rng.choice([0, 1, 5, 20]))
    return "exact", cmd_run(i, True, accept={"kind": "const", "v": 1., "log": False,
                                             "fails": [rng.choice([0, 1, 3])]}, seed=1, **kw)


def library(c, build, rng):
    T = THOROUGH
    insts = [I.sized(rng, 2, 8, 3000) for _ in range(60)] + [I.sized(rng, 6, 9, 20000, 3000)
                                                             for _ in range(10)]
    groups, cmds = [], []
    for _ in range(400 if not T else 4000):
        kind, cmd = one(rng, insts)
        profile = rng.choice(["dev", "release"])
        groups.append((kind, cmd, profile))
        for _ in range(2):
            cmds.append((len(groups) - 1, profile, {
                "op": "logging", "level": rng.choice(LEVELS), "run": cmd,
                "slow": rng.choice([0, 0, 0, 50, 500])}))
    silent, loud, heard = [None] * len(groups), [[] for _ in groups], 0
    for profile in build.profiles:
        some = [x for x in cmds if x[1] == profile]
        for (k, _, _), r in zip(some, run_adapter(build, profile, [x[2] for x in some], 60.)):
            if r.get("skipped"):
                continue
            if bad(r):
                loud[k].append({"out": "bad", "paths": []})
            else:
                heard += r["heard"]
                loud[k].append({"out": "bad" if r["out"] == "panicked" else r["out"],
                                "paths": r["paths"]})
        ks = [k for k, g in enumerate(groups) if g[2] == profile]
        for k, r in zip(ks, run_adapter(build, profile, [
                {"op": "together", "runs": [groups[k][1]], "order": [0], "clients": 1}
                for k in ks], 60.)):
            if not r.get("skipped"):
                r = {"out": "bad", "paths": []} if bad(r) else r["results"][0]
                silent[k] = {**r, "out": "bad" if r["out"] == "panicked" else r["out"]}
    c.details["events_heard"] = heard
    if not heard:
        print("NOTE: C24: nothing was logged by the library")
    out = []
    for k, (kind, cmd, profile) in enumerate(groups):
        if silent[k] is not None and loud[k]:
            out.append(({"kind": kind, "silent": silent[k], "loud": loud[k]},
                        {"profile": profile, "command": cmd}))
    return out


def tool(c, build, rng):
    """the tool with the level of its log set from outside"""
    insts = [I.sized(rng, 2, 8, 3000) for _ in range(12)]
    data = files.Bytes(build)
    data.prepare(insts)
    good = [s for s in files.scenarios() if s["graph"] == s["order"] == "ok" and "unknown" not in
            (s["gfmt"], s["ofmt"], s["pfmt"]) and s["out"] == "fresh"]
    every = list(files.scenarios())
    plan = []
    for _ in range(60 if not THOROUGH else 400):
        opts, kind = [], "exact"
        if rng.random() < .85:
            opts.append(("s", True))
            n = rng.choice([None, 0, 1, 2, 3, 5])
            if n is not None:
                opts.append(("n", n))
                if n > 1:
                    kind = "costs"
            if rng.random() < .3:
                opts.append(("t", rng.choice([600, 10**6])))
            if rng.random() < .3:
                opts.append(("b", rng.choice([0, 1, 3])))
            if rng.random() < .2:
                opts.append(("p", True))
                kind = "end"
        s = rng.choice(good if rng.random() < .9 else every)
        plan.append((s, rng.randrange(len(insts)), opts, kind, rng.choice(["dev", "release"])))
    envs = [None, "trace", rng.choice(["debug", "info", "off", "mbqc_scheduling=debug", "=,="])]
    runs = []
    for k, (s, ins, opts, kind, profile) in enumerate(plan):
        same = rng.getrandbits(64)
        for env in envs:
            x = files.Case(random.Random(same), s, ins, data)
            args = [str(x.names["graph"]), x.fmt["g"], str(x.names["order"]), x.fmt["o"],
                    str(x.out), x.fmt["p"]] + [t for o in c15.spell(rng, opts) for t in o]
            e = {a: b for a, b in os.environ.items() if a != "RUST_LOG"}
            if env is not None:
                e["RUST_LOG"] = env
            runs.append((k, env, x, args, e, build.bin(profile, "cli")))
    with ThreadPoolExecutor(6) as ex:
        res = list(ex.map(lambda r: c15.launch(r[5], r[3], r[2].dir, 60, r[4]), runs))
    for r in runs:
        r[2].finish()
    back = files.read_back(build, [r[2] for r in runs])
    silent, loud = {}, {}
    for (k, env, x, args, _, _), (rc, _, _), p in zip(runs, res, back):
        v = {"out": "bad" if rc is None or rc < 0 else "ok" if rc == 0 else "error",
             "paths": p or []}
        if env is None:
            silent[k] = v
        else:
            loud.setdefault(k, []).append(v)
        x.remove()
    return [({"kind": plan[k][3], "silent": silent[k], "loud": loud[k]},
             {"options": plan[k][2], "scenario": plan[k][0], "levels": envs[1:]})
            for k in range(len(plan))]


def main():
    c = Check("C24")
    build = Build()
    design(c)
    rng = c.rng
    groups = library(c, build, rng)
    log("runs executed")
    groups += tool(c, build, rng)

    def describe(st, r):
        d, what = groups[int(st["c"]) - 1]
        other = next((x for x in d["loud"] if x != d["silent"]), None)
        opts = what.get("options", {x: v for x, v in what.get("command", {}).items()
                                    if x not in ("adj", "order", "op")})
        return (f"run {opts}: without a listener {str(d['silent'])[:200]}, with one "
                f"{str(other)[:200]}", {**what, "result": d})
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join(f"INVARIANT {x}\n" for x in INV)
    c.trace_check("TraceLogging", cfg, {"groups": [g[0] for g in groups]}, describe,
                  sum(1 + len(g[0]["loud"]) for g in groups))
    c.sample(groups[0][1])
    return c.finish()
