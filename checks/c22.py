"""C22: an accept function that fails makes the run fail"""
from core import *
from runs import *
import c11
import designs

INV = ["Ends", "OnlyOnce", "FailsAsAWhole", "PassesOn", "NothingAfterwards", "Unaffected"]


def design(c):
    inv = ["FailsAsAWhole", "NeverAborts", "OnlyOnce", "NothingAfterwards", "Complete"]

    def run(first, calls, threads, mutant="none", bad=False):
        c.design("Failing", designs.cfg({"First": first, "Calls": calls, "Threads": threads,
                                         "Mutant": f'"{mutant}"'}, inv, ["Ends", "Silent"]),
                 expect_violation=bad)
    if THOROUGH:
        run(4, 2, "{1, 2, 3, 4}")
    else:
        run(3, 2, "{1, 2, 3}")
    for m in ("swallow", "dies", "early", "goeson", "stuck"):
        run(3, 1, "{2}", m, True)


def main():
    c = Check("C22")
    build = Build()
    design(c)
    rng = c.rng
    T = THOROUGH
    cmds = []       # (profile, command)
    small = [I.sized(rng, 2, 6, 200) for _ in range(40)]
    small = [{"adj": i["adj"], "order": i["order"]} for i in small]

    def add(i, fails, **kw):
        cmds.append((rng.choice(["dev", "release"]),
                     {"op": "failing", "adj": i["adj"], "order": i["order"],
                      "seed": rng.choice([None, rng.getrandbits(40)]),
                      "linger_ms": rng.choice([0, 0, 3]), 
                      "ordinary": {**rng.choice(small), "nthreads": rng.choice([1, 2, 4])},
                      "accept": {**rng.choice([{"kind": "const", "v": rng.choice([0., .1, .3, 1.])},
                                               rule_accept(rng)]), **fails, "log": True,
                                 **rng.choice([{}, {}, {"nap_us": 50}])},
                      **rng.choice([{}, {"timeout_ms": 600000}]), **kw}))

    def fails():
        x = rng.random()
        if x < .3:
            return {"fails_from": rng.choice([0, 0, 1, 2, 5, 20, 100])}
        if x < .6:
            return {"fails": [rng.choice([0, 0, 1, 2, 3, 5, 10, 40])]}
        if x < .9:
            return {"fails": sorted(rng.sample(range(40), rng.randint(2, 8)))}
        return {}

    def threads():
        return {"nthreads": rng.choice([0, 1, 2, 2, 3, 4, 8, 16]),
                "bound": rng.choice([None, None, None, 0, 1, 2, 3, 10])}
    for _ in range(400 if not T else 6000):
        add(I.sized(rng, 2, 8, 2000), fails(), **threads())
    for _ in range(60 if not T else 600):
        add(I.sized(rng, 3, 7, 1000), fails(), **threads(), search=rng.random() < .7)
    # many tasks: the threads see the failures while further tasks are created
    for _ in range(60 if not T else 600):
        n = rng.choice([9, 10, 11, 12])
        ins = c11.one_layer(rng, n)
        add(ins, rng.choice([{"fails_from": 0}, {"fails_from": 0}, {"fails": [0, 1]},
                             {"fails": list(range(12))}, {"fails_from": 30}, fails()]),
            nthreads=rng.choice([2, 2, 3, 3, 4, 8, 16]))
    results = [None] * len(cmds)
    for profile in build.profiles:
        ks = [k for k, (p, _) in enumerate(cmds) if p == profile]
        for k, r in zip(ks, run_adapter(build, profile, [cmds[k][1] for k in ks], 40.)):
            results[k] = r
    log("runs executed")
    runs, back = [], []
    for k, r in enumerate(results):
        if r.get("skipped"):
            continue
        run = {"n": cmds[k][1].get("nthreads", 1), "out": "bad", "events": [], "late": 0,
               "before": [], "after": []}
        if not bad(r):
            events = r["events"]
            if r["calls"] != len(events):       # too many to be logged
                events = [e for e in events if e["f"]] if r["fails"] else []
            # (of calls in a row on one thread, those between failures tell nothing)
            short = []
            for e in events:
                if not short or e["f"] or short[-1] != e:
                    short.append(e)
            run.update(out=r["out"], events=short, late=r["late"], before=r["before"],
                       after=r["after"])
        runs.append(run)
        back.append(k)

    def describe(st, r):
        j = int(st["c"]) - 1
        k = back[j]
        x = {y: z for y, z in results[k].items() if y != "events"}
        o = {y: cmds[k][1].get(y) for y in ("nthreads", "bound", "accept", "timeout_ms")}
        return (f"run {k}: {o} -> {x} {st.get('err')}",
                {"profile": cmds[k][0], "command": cmds[k][1], "run": runs[j], "state": st})
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join(f"INVARIANT {x}\n" for x in INV)
    c.trace_check("TraceFailing", cfg, {"runs": runs}, describe, len(runs))
    c.details["runs_executed"] = len(runs)
    c.details["runs_that_failed"] = sum(r["out"] == "failed" for r in runs)
    for k in (1, 200, 450):
        c.sample({"command": cmds[back[min(k, len(back) - 1)]][1],
                  "run": runs[min(k, len(runs) - 1)]})
    c.assumptions.append("a failure is a panic; with panic = \"abort\" a program cannot survive one")
    return c.finish()
