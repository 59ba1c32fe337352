"""C07: a sweep visits every valid schedule exactly once and skipping is exact"""
import json

from core import *
import inst as I
import designs
from runs import instances

EV = {"k": "", "s": [], "depth": 0, "base": 0, "leaf": 0, "ok": True, "again": False,
      "skip": False, "st": {"meas": [], "un": False, "cur": 0, "max": 0}}
INV = ["Ends", "AllMovesFit", "InitialState", "Everything"]


def prefixes(i):
    """all prefixes of schedules, as the code enumerates them (any order of the nodes)"""
    deps = I.deps_of(i["order"])
    out = []

    def rec(done, path):
        meas = [v for v in deps if v not in done and all(d in done for d in deps[v])]
        for m in range(1, 1 << len(meas)):
            s = [v for j, v in enumerate(meas) if m >> j & 1]
            out.append(path + [s])
            rec(done | set(s), path + [s])
    rec(frozenset(), [])
    return out


def main():
    c = Check("C07")
    build = Build()
    designs.operational(c)
    designs.sweep(c)
    rng = c.rng
    cmds = []

    def add(i, **kw):
        tree = I.count_tree(i["order"], 10**6)[0]
        cmds.append((rng.choice(["dev", "release"]), i,
                     {"op": "sweep", "adj": i["adj"], "order": i["order"],
                      "limit": 4 * tree + 200, **kw}))

    # every single node of the small trees is skipped once
    for n in (1, 2, 3):
        for i in I.small_exhaustive(n, rng):
            if n == 3 and int(i["name"].split("-")[1]) != rng.randrange(8) and not THOROUGH:
                continue
            add(i)
            add(i, time_only=True)
            for p in prefixes(i):
                add(i, skip_at=[p], time_only=rng.random() < 0.3)
    scale = dict(four=150, rand=60, tree=400, three=None) if not THOROUGH else \
        dict(four=1500, rand=400, tree=3000, three=None)
    cap = 700 if not THOROUGH else 5000
    insts = [i for i in instances(rng, scale) if I.count_tree(i["order"], 10**6)[0] <= cap]
    insts += [I.sized(rng, 8, 20, cap, tree_lo=cap // 4) for _ in range(12 if not THOROUGH else 100)]
    # an order with nothing in it
    insts += [I.inst([], []), I.inst([[1], [0]], [])]
    for i in insts:
        add(i)
        for _ in range(2):
            add(i, skip_prob=rng.choice([0.05, 0.2, 0.5, 0.9]), seed=rng.getrandbits(30),
                time_only=rng.random() < 0.3, split=rng.choice([0, 0, 1, 2, 5, 100]),
                clone=rng.random() < 0.3, clone_prob=rng.choice([0, 0, .05, .3]))
    # wide and large ones, most of which is skipped
    for n in (5, 30, 66, 100):
        adj = I.rand_graph(rng, n, 3 / n)
        if n <= 10:
            order = I.order_from_deps({v: [] for v in range(n)})
            sp = 0.93
        else:
            order = I.order_from_deps(I.rand_deps(rng, range(n), 0.05, 2), rng)
            sp = 0.75
        add(I.inst(adj, order), skip_prob=sp, seed=rng.getrandbits(30), limit=1500, big=True)
    # many nodes at once
    for n, sp in ((20, 1.), (34, 1.), (66, 1.), (70, .97), (130, 1.), (260, .98), (300, 1.)):
        adj = I.rand_graph(rng, n, 1 / n)
        deps = {v: [rng.randrange(n // 10)] if v >= n - n // 20 else [] for v in range(n)}
        i = I.relabel(I.inst(adj, I.order_from_deps(deps, rng)), rng.sample(range(n), n))
        add(i, skip_prob=sp, seed=rng.getrandbits(30), limit=2 * n + 60, big=True,
            time_only=rng.random() < .5)
    results = [None] * len(cmds)
    for profile in build.profiles:
        ks = [k for k, x in enumerate(cmds) if x[0] == profile]
        for k, r in zip(ks, run_adapter(build, profile, [cmds[k][2] for k in ks], 60.)):
            results[k] = r
    index, il, sweeps, back = {}, [], [], []
    moves = 0
    for k, r in enumerate(results):
        if r.get("skipped"):
            continue
        i = cmds[k][1]
        key = json.dumps([i["adj"], i["order"]])
        if key not in index:
            il.append({"adj": i["adj"], "order": i["order"]})
            index[key] = len(il)
        broken = bad(r) or (r["over"] and not cmds[k][2].get("big"))
        sw = {"partial": bool(r.get("over")), "ins": index[key], "space": not cmds[k][2].get("time_only", False),
              "out": "bad" if broken else "ok", "init": EV["st"], "events": []}
        if not broken:
            sw["init"] = r["init"]
            sw["events"] = [{**EV, **e} for e in r["events"]]
            moves += len(sw["events"])
        sweeps.append(sw)
        back.append(k)
    log(f"{len(sweeps)} sweeps with {moves} moves")
    c.details["moves"] = moves
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join(f"INVARIANT {x}\n" for x in INV)

    def describe(st, r):
        k = back[int(st["c"]) - 1]
        res = results[k]
        return (f"sweep {cmds[k][2]}: move {st.get('p')}: {st.get('err')} "
                f"{ {x: res[x] for x in ('panic', 'crash', 'hang') if x in res} }",
                {"profile": cmds[k][0], "command": cmds[k][2], "result": res, "state": st})
    c.trace_check("TraceSweep", cfg, {"insts": il, "sweeps": sweeps}, describe, len(sweeps))
    for k in back[5::400][:3]:
        c.sample({"command": cmds[k][2], "events": len(results[k].get("events", [])),
                  "first_events": results[k].get("events", [])[:4]})
    return c.finish()
