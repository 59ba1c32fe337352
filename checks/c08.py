"""C08: manual stepping"""
from core import *
from manual import *
import inst as I
import designs


def main():
    c = Check("C08")
    build = Build()
    designs.operational(c)
    designs.requests(c)
    rng = c.rng
    s = Scripts(c, build)

    def add(i, script, **kw):
        x = rng.random()
        # with or without a graph
        adj = None if x < 0.3 else i["adj"]
        s.add(rng.choice(["dev", "release"]), op="manual", adj=adj, order=i["order"],
              len=len(i["adj"]), script=script, **kw)

    # every request in every reachable state of the small instances
    small = [i for n in (1, 2, 3) for i in I.small_exhaustive(n, rng)]
    for _ in range(20 if not THOROUGH else 400):
        deps = I.rand_deps(rng, range(4), rng.choice([0, .2, .5]))
        small.append(I.inst(I.rand_graph(rng, 4, .5), I.order_from_deps(deps, rng), "four"))
    for i in small:
        deps = I.deps_of(i["order"])
        n = len(i["adj"])
        requests = all_requests(n, n if n < 4 else 2)
        for M, history in histories(deps).items():
            for part in ((False, True) if n < 3 or THOROUGH else (rng.random() < .5,)):
                w = Walker(deps)
                w.done = set(M)
                meas = w.meas()
                script = [{"m": rng.choice(["in", "step"]), "s": x} for x in history]
                rs = [list(r) for r in requests]
                rs += [mutated(rng, meas, list(deps), n) for _ in range(4)]
                rng.shuffle(rs)
                for r in rs:
                    ok = len(set(r)) == len(r) and all(v in meas for v in r) and r
                    script.append({"m": "copy" if ok else rng.choice(["in", "copy", "step"]),
                                   "s": r})
                add(i, script, partitioner=part)
    # long random histories
    for _ in range(300 if not THOROUGH else 5000):
        n = rng.choice([1, 3, 5, 7, 9, 12, 20])
        nodes = rng.sample(range(n), rng.randint(1, n))
        deps = I.rand_deps(rng, nodes, rng.choice([0, .1, .3, .6]),
                           rng.choice([None, None, 1, 2, 4]))
        i = I.inst(I.rand_graph(rng, n, rng.choice([0, .2, .6])), I.order_from_deps(deps, rng))
        part = rng.random() < .5
        add(i, random_script(rng, deps, n, rng.choice([5, 20, 50]), part), partitioner=part)
    for n in (63, 64, 65, 130):
        for _ in range(2 if not THOROUGH else 20):
            deps = I.rand_deps(rng, range(n), .05, rng.choice([None, 2, 5, 70]))
            i = I.inst(I.rand_graph(rng, n, 3 / n), I.order_from_deps(deps, rng))
            add(i, random_script(rng, deps, n, 40, False))
    # wide layers, in every kind of order, and requests in every kind of order
    for n in [10, 13, 17, 24, 33, 40] * (2 if not THOROUGH else 20) + [90, 260]:
        first = rng.choice([n, n, n - 1, n // 2])
        deps = {v: [] if v < first else rng.sample(range(first), rng.choice([1, 3]))
                for v in range(n)}
        for labels in (list(range(n)), rng.sample(range(n), n)):
            i = I.relabel(I.inst(I.rand_graph(rng, n, 3 / n), I.order_from_deps(deps, rng)), labels)
            for part in (False, True):
                add(i, random_script(rng, I.deps_of(i["order"]), n, 25, part), partitioner=part)
    # nothing in the order
    for adj in ([], [[1], [0]]):
        for part in (False, True):
            add(I.inst(adj, []), [{"m": m, "s": x} for m in ("in", "copy", "step")
                                  for x in ([], [0], [0, 0], [1], [5])] +
                [{"m": "iter", "s": []}], partitioner=part)
    s.execute()
    log("scripts executed")
    s.validate()
    for k in range(5, len(s.cmds), 300):
        c.sample({"profile": s.cmds[k][0], "command": s.cmds[k][1]})
    return c.finish()
