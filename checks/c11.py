"""C11: a timeout stops the search and keeps what was found"""
import json

from core import *
from runs import *
import designs
import modes

INV = ["Ends", "KeepsFound", "KeepsTold", "BoundedWork", "InTime", "NotEarly"]
LIMIT = 20000
LATE = 25_000_000


def check_cuts(c, s):
    """TraceCut.tla on all runs with a timeout"""
    runs, back, seen = [], [], set()
    leaves = 0
    for k in s.usable():
        profile, ins, mode, cmd = s.cmds[k]
        r = s.results[k]
        if cmd.get("timeout_ms") is None:
            continue
        run = {"ins": ins, "out": "bad" if bad(r) else "ok", "costs": [], "leaves": [],
               "told": [], "after": 0, "took": 0, "early": 0}
        if not bad(r):
            run["costs"] = [[p["time"], p["space"]] for p in r["paths"]]
            log_ = r["log"]["events"]
            last = {}
            for j, e in enumerate(log_):
                if e["k"] in ("step", "acc"):
                    last[e["t"]] = j
            found, told = {}, set()
            for j, e in enumerate(log_):
                if e["k"] == "step" and not e["f"] and e["leaf"] >= 0 and last[e["t"]] != j:
                    found[json.dumps(e["path"])] = e["path"]
                if e["k"] == "acc" and e["a"][1] >= 0:
                    told.add(e["a"][1])
            run["leaves"] = list(found.values())
            run["told"] = sorted(told)
            run["after"] = max(r["log"]["steps_after_cut"], r["log"]["calls_after_cut"])
            took = r["elapsed_us"] - int(cmd["timeout_ms"] * 1000)
            # (in real time)
            run["took"] = max(0, took // cmd.get("clock", 1) // 1000000 * 1000000)
            if cmd.get("endless"):
                run["early"] = min(10**9, max(0, -took))
            leaves += len(run["leaves"])
        key = json.dumps(run)
        if key not in seen:
            seen.add(key)
            runs.append(run)
            back.append(k)
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join(f"INVARIANT {x}\n" for x in INV)

    def describe(st, r):
        k = back[int(st["c"]) - 1]
        extra = {x: runs[int(st["c"]) - 1][x] for x in ("told", "after", "took")}
        return (f"run {k}: {s.summary(k)}: {extra}",
                {**s.describe_run(k), "state": st, "run": runs[int(st["c"]) - 1]})
    c.details["cut_runs"] = len(runs)
    c.details["leaves_before_the_cut"] = leaves
    c.trace_check("TraceCut", cfg, {"insts": s.insts, "limit": LIMIT, "late": LATE,
                                    "runs": runs}, describe, len(runs))


def one_layer(rng, n, density=.3):
    return I.inst(I.rand_graph(rng, n, density), [[[v, []] for v in range(n)]], f"layer{n}")


def main():
    c = Check("C11")
    build = Build()
    designs.search(c)
    if THOROUGH:
        designs.bounds(c)
    designs.threaded(c, cut=True, quick_only=not THOROUGH)
    rng = c.rng
    s = Suite(c, build)
    T = THOROUGH
    # cut at every move
    if build.hooks:
        pool = [I.sized(rng, 2, 6, 60, tree_lo=6) for _ in range(14 if not T else 150)]
        for i in pool:
            tree = I.count_tree(i["order"], 10**6)[0]
            for k in range(1, 2 * tree + 1):
                s.add(rng.choice(["dev", "release"]), i, timeout_ms=0.3,
                      observe={"cut_step": k, "steps": True})
        for i in pool[:7 if not T else 80]:
            tree = I.count_tree(i["order"], 10**6)[0]
            for k in range(1, 2 * tree + 1):
                s.add(rng.choice(["dev", "release"]), i, timeout_ms=0.3,
                      nthreads=rng.choice([2, 2, 3, 8]), bound=rng.choice([None, None, 0, 1, 3]),
                      observe={"cut_step": k, "steps": True, "seed": rng.getrandbits(30),
                               "sync_prob": rng.choice([1., 1., .5, .1])})
        # at random moves of larger ones
        for _ in range(120 if not T else 2000):
            i = I.sized(rng, 6, 11, 30000, tree_lo=200)
            tree = I.count_tree(i["order"], 10**6)[0]
            o = {"cut_step": rng.randint(1, tree if rng.random() < .5 else 400), "steps": True,
                 "seed": rng.getrandbits(30), "limit": 4000}
            kw = {}
            if rng.random() < .6:
                o["sync_prob"] = rng.choice([1., .3, .05])
                kw = {"nthreads": rng.choice([2, 3, 5]), "bound": rng.choice([None, None, 0, 2, 7])}
            if rng.random() < .4:
                kw["accept"] = rule_accept(rng)
                kw["seed"] = rng.getrandbits(30)
            s.add("release", i, timeout_ms=rng.choice([0.1, 1, 3]), observe=o, **kw)
    # cut in a call of the accept function (needs no hooks)
    for _ in range(150 if not T else 2000):
        i = I.sized(rng, 4, 10, 20000, tree_lo=60)
        kw = {}
        if rng.random() < .5:
            kw = {"nthreads": rng.choice([2, 3, 5]), "bound": rng.choice([None, None, 0, 2, 7])}
        a = rule_accept(rng) if rng.random() < .4 else {"kind": "const", "v": 1.0}
        s.add(rng.choice(["dev", "release"]), i, timeout_ms=rng.choice([0.1, 2]),
              accept={**a, "log": True}, seed=1,
              observe={"cut_call": rng.randint(1, 120), "limit": 5000}, **kw)
    # long timeouts, when the time runs faster
    def endless(i, t, clock=1, **kw):
        s.add("release", i, timeout_ms=t, **kw)
        if len(i["adj"]) >= 40:
            s.cmds[-1][3]["endless"] = True
        s.cmds[-1][3]["clock"] = clock

    for sec, clock in ((30, 100), (100, 100), (3600, 5000), (65537, 10**5), (4295, 10**4),
                       (86400, 10**5), (2147484, 2 * 10**6), (4294968, 2 * 10**6),
                       (2**32 + 5, 2 * 10**9)):
        for kw in rng.sample([{}, {"nthreads": 2}, {"nthreads": 3, "bound": 5},
                              {"accept": {"kind": "const", "v": 1.0, "log": False}}],
                             2 if not T else 4):
            endless(one_layer(rng, 40), sec * 1000, clock, **kw)
    # cut while much is left, and while tasks are queued
    for n, nt, b, t in [(17, 2, None, 20), (18, 2, None, 40), (18, 4, None, 40), (19, 3, None, 0),
                        (19, 2, 200000, 60), (17, 2, 1000, 30), (19, 2, 0, 40), (24, 2, None, 200),
                        (26, 8, None, 300), (40, 1, None, 100), (40, 3, 50, 120)]:
        i = one_layer(rng, n)
        endless(i, t, nthreads=nt, bound=b)
        for a in (None, {"kind": "const", "v": 1.0, "log": False},
                  {"kind": "const", "v": 0.5, "log": False}):
            if a is None:
                s.add("release", i, timeout_ms=t, nthreads=nt, bound=b)
            else:
                s.add("release", i, timeout_ms=t, nthreads=nt, bound=b, accept=a,
                      observe={"cut_call": rng.choice([1, 50, 2000, 20000]), "limit": 10})
    for _ in range(10 if not T else 100):
        i = modes.large(rng)
        for nt, b in ((1, None), (3, None), (2, 5)):
            s.add("release", i, timeout_ms=rng.choice([0, 5, 50, 150]), nthreads=nt, bound=b)
    # complete before the timeout, or just about
    for _ in range(40 if not T else 400):
        i = I.sized(rng, 3, 9, 3000)
        s.add(rng.choice(["dev", "release"]), i, timeout_ms=rng.choice([30000, 10**6, 3.6e6]),
              nthreads=rng.choice([0, 1, 2, 4]))
    for _ in range(16 if not T else 160):
        i = I.sized(rng, 8, 13, 2000000, tree_lo=50000)
        for t in (3, 15, 60, 250):
            s.add(rng.choice(["release", "release", "dev"]), i, timeout_ms=t,
                  nthreads=rng.choice([1, 1, 2, 4]))
    s.execute(case_timeout=90., jobs=5)
    log("runs executed")
    check_cuts(c, s)
    s.check_paths(ALL_INV)

    # it does not stop before the timeout, unless it is complete
    small = {}

    def early(k, cmd, r):
        ins = s.cmds[k][1]
        if ins not in small:
            # (TLC could not explore the others)
            small[ins] = I.count_tree(cmd["order"], 4 * 10**6)[0] <= 3 * 10**6
        if not small[ins]:
            return False
        return bad(r) or r["elapsed_us"] < cmd["timeout_ms"] * 1000 and \
            "cut_step" not in cmd.get("observe", {})
    s.check_frontier(early)
    for k in s.usable()[5::500][:3]:
        c.sample(s.describe_run(k))
    c.assumptions += [f"a bounded amount of work: at most {LIMIT} moves of a thread after the "
                      f"timeout, and {LATE // 1000000} s"]
    return c.finish()
