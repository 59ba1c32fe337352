"""C17: building graphs and orders under a relabelling"""
from core import *
from manual import *
import inst as I

INVS = ["Ends", "RightSize", "RightNeighbours", "NoRepetition", "GraphUsesBuffer"]


def relabelling(rng, used, target, partial):
    """pairs <<old, new>> for an injective relabelling of the used old labels onto the
    target; nodes for which old = new may be left out, with partial"""
    new = dict(zip(used, target))
    pairs = [[a, b] for a, b in new.items() if not (partial and a == b and rng.random() < .8)]
    # entries for labels that do not occur
    for _ in range(rng.choice([0, 0, 1, 3])):
        a = rng.randint(500, 600)
        if a not in new and all(p[0] != a for p in pairs):
            pairs.append([a, rng.randint(0, 20)])
    rng.shuffle(pairs)
    return pairs


def some_labels(rng, nodes):
    """old labels for the nodes: some are equal to the new ones, others permuted, others
    outside"""
    nodes = list(nodes)
    x = rng.random()
    if x < .2:
        return list(nodes)
    fixed = [v for v in nodes if rng.random() < rng.choice([0, .3, .7])]
    moved = [v for v in nodes if v not in fixed]
    if rng.random() < .5:
        olds = list(moved)
        rng.shuffle(olds)
    else:
        pool = [v for v in list(range(40)) + [100, 317] if v not in fixed]
        olds = rng.sample(pool, len(moved))
    old = dict(zip(moved, olds))
    return [old.get(v, v) for v in nodes]


def main():
    c = Check("C17")
    build = Build()
    rng = c.rng
    cmds = []

    def add(n, edges, mp, check):
        cmds.append((rng.choice(["dev", "release"]),
                     {"op": "build", "n": n, "edges": edges, "map": mp, "check": check}))

    # all sequences of up to three edges on three nodes (with loops), with the check, and
    # the simple ones without
    pairs = [[a, b] for a in range(3) for b in range(3)]
    seqs = [[]]
    last = [[]]
    for _ in range(3):
        last = [s + [p] for s in last for p in pairs]
        seqs += last
    for s in seqs:
        mp = None
        if rng.random() < .6:
            used = some_labels(rng, range(3))
            mp = relabelling(rng, used, range(3), True)
            s = [[used[a], used[b]] for a, b in s]
            back = dict(zip(used, range(3)))
        else:
            back = {v: v for v in range(3)}
        add(3, s, mp, True)
        sets = [frozenset((back[a], back[b])) for a, b in s]
        if all(len(x) == 2 for x in sets) and len(set(sets)) == len(sets):
            add(3, s, mp, False)
    for _ in range(600 if not THOROUGH else 12000):
        n = rng.choice([1, 2, 4, 5, 8, 12, 30, 70])
        check = rng.random() < .6
        edges = [list(e) for e in I.all_edges(n) if rng.random() < rng.choice([.1, .4, 3 / n])]
        for e in edges:
            if rng.random() < .5:
                e.reverse()
        if check:
            for _ in range(rng.randint(0, 6)):
                if edges and rng.random() < .7:
                    e = list(rng.choice(edges))
                    if rng.random() < .5:
                        e.reverse()
                    edges.append(e)
                else:
                    v = rng.randrange(n)
                    edges.append([v, v])
        rng.shuffle(edges)
        mp = None
        if rng.random() < .7:
            used = some_labels(rng, range(n)) if n <= 30 else list(range(n))
            mp = relabelling(rng, used, range(n), True)
            edges = [[used[a], used[b]] for a, b in edges]
        add(n, edges, mp, check)
    results = [None] * len(cmds)
    for profile in build.profiles:
        ks = [k for k, x in enumerate(cmds) if x[0] == profile]
        for k, r in zip(ks, run_adapter(build, profile, [cmds[k][1] for k in ks], 60.)):
            results[k] = r
    builds, back = [], []
    for k, r in enumerate(results):
        if r.get("skipped"):
            continue
        cmd = cmds[k][1]
        b = {"n": cmd["n"], "edges": cmd["edges"], "map": cmd["map"] or [], "out": "bad",
             "adj": [], "nodes": [], "states": [], "cur": 0, "max": 0}
        if not bad(r):
            b.update(out="ok", adj=r["adj"], nodes=r["nodes"], states=r["state"]["states"],
                     cur=r["state"]["cur"], max=r["state"]["max"])
        builds.append(b)
        back.append(k)

    def describe(st, r):
        k = back[int(st["c"]) - 1]
        return (f"buffer {cmds[k][1]}: {results[k]}",
                {"profile": cmds[k][0], "command": cmds[k][1], "result": results[k], "state": st})
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join(f"INVARIANT {x}\n" for x in INVS)
    c.trace_check("TraceBuild", cfg, {"builds": builds}, describe, len(builds))
    log(f"{len(builds)} graph buffers")

    # path generators, and schedulers, from relabelled orders, in used buffers
    s = Scripts(c, build)
    for j in range(700 if not THOROUGH else 10000):
        n = rng.choice([2, 3, 4, 5, 6, 9, 14])
        nodes = rng.sample(range(n), rng.randint(1, n))
        deps = I.rand_deps(rng, nodes, rng.choice([0, .2, .5]), rng.choice([None, None, 1, 2]))
        order = I.order_from_deps(deps, rng)
        mp = None
        old = {v: v for v in range(n)}
        if rng.random() < .8:
            used = some_labels(rng, nodes)
            mp = relabelling(rng, used, nodes, True)
            old = dict(zip(nodes, used))
        given = [[[old[v], [old[d] for d in ds]] for v, ds in l] for l in order]
        cmd = {"order": given, "map": mp, "len": n + rng.choice([0, 0, 1, 7])}
        if rng.random() < .6:
            d = I.rand_deps(rng, rng.sample(range(n), rng.randint(1, n)), rng.choice([.2, .6]))
            cmd["dirty"] = I.order_from_deps(d, rng)
        part = rng.random() < .5
        adj = I.rand_graph(rng, n, .4) if rng.random() < .6 else None
        if adj is None:
            pass
        s.add(rng.choice(["dev", "release"]), op="manual", adj=adj, partitioner=part,
              script=random_script(rng, deps, n, 12, part), **cmd)
    for part in (False, True):
        for mp in (None, [], [[0, 1], [1, 0]]):
            s.add("dev", op="manual", adj=None, order=[], len=3, map=mp, partitioner=part,
                  dirty=[[[0, []]], [[1, [0]]]],
                  script=[{"m": "in", "s": [0]}, {"m": "copy", "s": []}, {"m": "iter", "s": []}])
    s.execute()
    s.validate()
    for k in range(5, len(cmds), 600):
        c.sample({"command": cmds[k][1], "result": results[k]})
    c.sample(s.cmds[7][1])
    c.assumptions += ["relabellings are injective on the labels that occur",
                      "without the check the edges are simple, as the documentation demands"]
    return c.finish()
