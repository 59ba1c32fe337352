"""C14: file-based runs"""
from core import *
from runs import *
import c11
import designs
import files


def options(rng):
    """options of the run, and how much of the result they determine"""
    x = rng.random()
    if x < .25:
        return {"search": False, **({"nthreads": 3} if rng.random() < .3 else {})}, "steps"
    o, exact = {"search": True}, "steps"
    if rng.random() < .35:
        o["nthreads"] = rng.choice([0, 1, 2, 3, 5])
        if rng.random() < .5:
            o["bound"] = rng.choice([0, 1, 3])
        if o["nthreads"] > 1:
            exact = "costs"
    if rng.random() < .35:
        o["accept"] = rng.choice([0.0, 1.0, 1.0, 2.5, "builtin"])
        if o["accept"] == "builtin":
            exact = "valid"
    if rng.random() < .2:
        o["timeout_ms"] = 3600000
    return o, exact


def in_memory(i, o):
    kw = {k: v for k, v in o.items() if k != "accept"}
    search = kw.pop("search")
    if "accept" in o:
        kw["accept"] = {"kind": "builtin"} if o["accept"] == "builtin" else \
            {"kind": "const", "v": o["accept"], "log": False}
    return cmd_run(i, search, **kw)


def execute(c, build, insts, plan, endless=None):
    """plan: (scenario, instance, options, exact)"""
    data = files.Bytes(build)
    data.prepare(insts)
    runs, info = [], []
    for at in range(0, len(plan), 600):
        part = plan[at:at + 600]
        cases = [files.Case(c.rng, s, k, data) for s, k, _, _ in part]
        cmds, mem = [], []
        for x, (s, k, o, exact) in zip(cases, part):
            cmds.append({"op": "file", "graph": str(x.names["graph"]),
                         "graph_format": x.fmt["g"], "order": str(x.names["order"]),
                         "order_format": x.fmt["o"], "out": str(x.out),
                         "out_format": x.fmt["p"], "accept": None, **o})
            mem.append(in_memory(insts[k], o))
        profile = "dev" if at // 600 % 2 else "release"
        res = run_adapter(build, profile, cmds)
        done = [x.finish() for x in cases]
        back = files.read_back(build, cases)
        want = [j for j, r in enumerate(res) if r.get("ok")]
        memory = dict(zip(want, run_adapter(build, profile, [mem[j] for j in want])))
        for j, (x, (s, k, o, exact)) in enumerate(zip(cases, part)):
            r, m = res[j], memory.get(j, {})
            if r.get("skipped") or m.get("skipped") or bad(m):
                continue
            asked = m["log"]["calls"] if m else 0
            if m and isinstance(o.get("accept"), float) and (exact == "steps" or not asked):
                calls, mcalls = ([r["calls"], int(r["threads"] > 0)],
                                 [m["log"]["calls"], int(m["log"]["threads"] > 0)])
            elif m and isinstance(o.get("accept"), float):
                # on other threads
                calls, mcalls = [int(r["threads"] > 0)], [1]
            else:
                calls, mcalls = [], []
            runs.append({"s": s, "ins": k + 1, "exact": exact,
                         "out": "bad" if bad(r) else "ok" if r["ok"] else "error",
                         "loc": done[j][0], "extra": done[j][1], "parsed": back[j] is not None,
                         "paths": back[j] or [], "memory": m.get("paths", []),
                         "calls": calls, "mcalls": mcalls,
                         "endless": k == endless, "least": o.get("timeout_ms", 0),
                         "took": r.get("elapsed_ms", 0) if k == endless else 0})
            info.append({"profile": profile, "command": cmds[j], "result": r,
                         "instance": {"adj": insts[k]["adj"], "order": insts[k]["order"]}})
            x.remove()
    return runs, info


def main():
    c = Check("C14")
    build = Build()
    c.design("Iface", designs.cfg({}, ["AsPredicted", "OnlyGoodResults", "Untouched"],
                                  ["Terminates"]))
    rng = c.rng
    T = THOROUGH
    insts = [i for i in I.structured(rng) if i["order"] and 1 < len(i["adj"]) <= 7
             and I.count_tree(i["order"], 10**6)[0] <= 3000][:8]
    for _ in range(30 if not T else 200):
        insts.append(I.sized(rng, 2, 9, 3000))
    plan = []
    for _ in range(1 if not T else 10):
        for s in files.scenarios():
            o, exact = options(rng)
            plan.append((s, rng.randrange(len(insts)), o, exact))
    good = [s for s in files.scenarios() if s["graph"] == s["order"] == "ok" and "unknown" not in
            (s["gfmt"], s["ofmt"], s["pfmt"]) and s["out"] in ("fresh", "nested", "exists", "same")]
    for _ in range(12 if not T else 120):
        for s in good:
            o, exact = options(rng)
            plan.append((s, rng.randrange(len(insts)), o, exact))
    # a task bound and threads are passed on: without dependencies and edges, the number of
    # questions depends on them
    n = len(insts)
    insts.append(I.inst([[] for _ in range(6)], [[[v, []] for v in range(6)]]))
    for s in good[:8]:
        for nt, b in ((1, None), (1, 5), (2, 0), (2, 3), (3, 20), (2, None)):
            plan.append((s, n, {"search": True, "nthreads": nt, "accept": 0.0,
                                **({} if b is None else {"bound": b})}, "steps"))
    # a timeout is passed on
    n = len(insts)
    insts.append(c11.one_layer(rng, 40))
    for s in rng.sample(good, 4):
        plan.append((s, n, {"search": True, "timeout_ms": 300,
                            "nthreads": rng.choice([1, 3])}, "valid"))
    runs, info = execute(c, build, insts, plan, n)
    log(f"{len(runs)} file based runs")

    def describe(k):
        r = info[k]["result"]
        return f"{info[k]['command']}: {r.get('error', r)}", info[k]
    files.check_iface(c, insts, runs, len(runs) == len(plan), describe)
    for k in range(3):
        c.sample(info[-1 - 7 * k])
    return c.finish()
