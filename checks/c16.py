"""C16: threads and tasks"""
from core import *
from runs import *
import c11
import designs

INV = ["Ends", "WellDistributed", "AtMostThreads", "AtMostBound", "BoundByCalls",
       "NothingAfterwards"]
CPU = 25_000


def two_layers(rng, m, k):
    """m nodes in the first layer, k in the second one: no first step is everything"""
    n = m + k
    adj = I.rand_graph(rng, n, rng.choice([0, .2, .5]))
    nodes = list(range(n))
    rng.shuffle(nodes)
    first = [[v, []] for v in nodes[:m]]
    second = [[v, rng.sample(nodes[:m], rng.randint(1, min(3, m)))] for v in nodes[m:]]
    return I.inst(adj, [first, second], f"two{m}-{k}")


def design(c):
    def run(first, threads, bounds, mutant="none", bad=False):
        c.design("Pool", designs.cfg(
            {"First": first, "Threads": threads, "Bounds": bounds, "Mutant": f'"{mutant}"'},
            ["AtMostBound", "AtMostThreads", "NothingAfterwards", "EachOnce"],
            [] if bad else ["Returns"]), expect_violation=bad)
    if THOROUGH:
        run(5, "{2, 3, 4}", "{0, 1, 2, 4, 5, 6}")
    else:
        run(3, "{2, 3}", "{0, 1, 2, 3, 4}")
    for m in ("onemore", "nowait", "norest", "again"):
        run(2, "{2}", "{0, 1, 5}", m, True)


def main():
    c = Check("C16")
    build = Build()
    design(c)
    rng = c.rng
    T = THOROUGH
    s = Suite(c, build)
    firsts = {}
    # nothing is accepted: the number of questions tells the number of tasks
    for _ in range(120 if not T else 1500):
        m = rng.randint(1, 8)
        i = two_layers(rng, m, rng.randint(1, 3))
        F = 2 ** m - 1
        for _ in range(3):
            nt = rng.choice([0, 1, 2, 2, 3, 4, 8, 30])
            b = rng.choice([None, 0, 1, 2, 3, F - 1, F, F + 1, rng.randint(0, F), 10**6, 2**32 - 1])
            firsts[len(s.cmds)] = F
            s.add(rng.choice(["dev", "release"]), i, nthreads=nt,
                  **({} if b is None else {"bound": max(0, b)}), seed=1,
                  accept={"kind": "const", "v": 0.0, "log": True},
                  observe={"gates": True, "steps": True, "limit": 3000}, linger_ms=2)
    # many threads and slow calls, so that all of them get something to do
    for _ in range(40 if not T else 400):
        i = two_layers(rng, rng.randint(4, 8), rng.randint(1, 3))
        s.add(rng.choice(["dev", "release"]), i, nthreads=rng.choice([0, 1, 2, 3, 5, 9, 16]),
              **rng.choice([{}, {}, {"bound": rng.randint(0, 40)}]), seed=rng.getrandbits(30),
              accept={"kind": "const", "v": rng.choice([.02, .05]), "nap_us": 150, "log": True},
              timeout_ms=rng.choice([80, 80, 10000]),
              observe={"gates": True, "steps": True, "limit": 2500}, linger_ms=30)
    # free running, exhaustive, with and without a timeout
    for _ in range(60 if not T else 600):
        i = I.sized(rng, 4, 11, 40000, tree_lo=30)
        s.add(rng.choice(["dev", "release"]), i, nthreads=rng.choice([0, 1, 2, 3, 6, 12]),
              **rng.choice([{}, {"bound": rng.choice([0, 1, 2, 5, 20])}]),
              **rng.choice([{}, {"timeout_ms": rng.choice([0, 1, 5])}]),
              observe={"gates": True, "steps": True, "limit": 2500}, linger_ms=5)
    # cut while a lot is going on
    for n, nt, b in [(16, 1, None), (16, 4, None), (18, 3, 7), (18, 8, 0), (20, 2, 3000),
                     (22, 6, None), (25, 5, 1), (40, 3, None)]:
        i = c11.one_layer(rng, n)
        for a in (None, {"kind": "const", "v": .5, "log": True}):
            kw = {} if b is None else {"bound": b}
            if a:
                kw["accept"] = a
            s.add("release", i, nthreads=nt, timeout_ms=rng.choice([5, 30, 60]),
                  observe={"gates": True, "limit": 2500}, linger_ms=60, **kw)
    s.execute(case_timeout=60., jobs=4)
    log("runs executed")
    runs, back = [], []
    for k in s.usable():
        profile, ins, mode, cmd = s.cmds[k]
        r = s.results[k]
        b = cmd.get("bound")
        # (the default is not part of the property)
        run = {"n": cmd.get("nthreads", 1), "bound": min(100000 if b is None else b, 10**9),
               "out": "bad" if bad(r) else "ok", "events": [], "first": 0, "root": 0, "late": 0,
               "cpu": 0}
        if b is None:
            run["bound"] = 10**9
        if not bad(r):
            name = {"acc": "call", "step": "step", "task": "task"}
            last = None
            for e in r["log"]["events"]:
                if e["k"] in name:
                    x = {"k": name[e["k"]], "t": e["t"], "i": e.get("task", 0)}
                    x["i"] = x["i"] if x["k"] == "task" else 0
                    # (repetitions tell nothing)
                    if x["k"] == "task" or x != last:
                        run["events"].append(x)
                    last = x
            calls = [e for e in r["log"]["events"] if e["k"] == "acc"]
            if k in firsts and len(calls) == r["log"]["calls"] and run["n"] >= 2:
                run["first"] = firsts[k]
                run["root"] = sum(1 for e in calls if e["a"][2] == 0)
            run["late"] = r["late"]
            run["cpu"] = r["late_cpu_us"]
        runs.append(run)
        back.append(k)

    def describe(st, r):
        j = int(st["c"]) - 1
        k = back[j]
        x = {y: runs[j][y] for y in ("first", "root", "late", "cpu")}
        return (f"run {k}: {s.summary(k)}: {st.get('err')} {x}, threads {st.get('threads')}, "
                f"tasks {st.get('tasks', '')[:100]}", {**s.describe_run(k), "run": runs[j],
                                                      "state": st})
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join(f"INVARIANT {x}\n" for x in INV)
    c.trace_check("TracePool", cfg, {"cpu": CPU, "runs": runs}, describe, len(runs))
    c.details["runs_executed"] = len(runs)
    c.details["bounds_decided_by_calls"] = sum(1 for x in runs if x["first"])
    for k in (1, 150, 400):
        c.sample({"command": s.cmds[back[min(k, len(back) - 1)]][3],
                  "run": {x: y for x, y in runs[min(k, len(runs) - 1)].items() if x != "events"}})
    c.assumptions.append(f"work after the end of the search shows in calls of the accept function "
                         f"or in more than {CPU} us of processor time")
    return c.finish()
