"""C09: the memory tracking of a graph"""
import itertools

from core import *
from manual import *
import inst as I
import designs


def graph_script(rng, n, length):
    """random measurements, without an order"""
    left = list(range(n))
    rng.shuffle(left)
    script = []
    for _ in range(length):
        x = rng.random()
        m = rng.choice(["in", "step", "copy"])
        if x < 0.72:
            s = left[:rng.choice([0, 1, 1, 1, 2, 2, 3, 6])]
            if rng.random() < .1:
                s = list(left)
            if m != "copy":
                left = left[len(s):]
            script.append({"m": m, "s": s})
        else:
            done = [v for v in range(n) if v not in left]
            s = left[:rng.randint(0, min(3, len(left)))]
            for _ in range(rng.choice([1, 1, 2])):
                if done and rng.random() < .6:
                    s.insert(rng.randint(0, len(s)), rng.choice(done))
                elif s:
                    s.insert(rng.randint(0, len(s)), rng.choice(s))
            if len(set(s)) == len(s) and not set(s) & set(done):
                continue
            # an in-place step that fails is the last one
            script.append({"m": rng.choice(["copy", "step"]), "s": s})
            if rng.random() < .15:
                script[-1]["m"] = "in"
                break
    return script


def main():
    c = Check("C09")
    build = Build()
    designs.operational(c)
    rng = c.rng
    s = Scripts(c, build)
    # all graphs with up to 4 nodes, all sequences of measurements (up to the order within
    # a step)
    for n in (1, 2, 3, 4):
        pairs = I.all_edges(n)
        for g in range(1 << len(pairs)):
            adj = I.graph_from_edges(n, [p for j, p in enumerate(pairs) if g >> j & 1], rng)

            def paths(left):
                out = [[]]
                for k in range(1, len(left) + 1):
                    for t in itertools.combinations(left, k):
                        out += [[list(t)] + p for p in paths([v for v in left if v not in t])]
                return out
            ps = [p for p in paths(list(range(n))) if sum(map(len, p)) == n]
            if n == 4 and not THOROUGH:
                ps = rng.sample(ps, 15)
            for p in ps:
                script = []
                done = []
                for t in p:
                    rng.shuffle(t)
                    if done:
                        script.append({"m": rng.choice(["copy", "step"]),
                                       "s": t + [rng.choice(done)]})
                        script.append({"m": "step", "s": [rng.choice(done)] + t})
                    script.append({"m": "copy", "s": t + [t[0]]})
                    script.append({"m": "copy", "s": t})
                    script.append({"m": rng.choice(["in", "step"]), "s": t})
                    done += t
                if n < 4 or rng.random() < .3:
                    script.append({"m": "in", "s": [rng.choice(done)]})
                s.add(rng.choice(["dev", "release"]), op="graph", adj=adj, script=script)
    for _ in range(400 if not THOROUGH else 6000):
        n = rng.choice([5, 6, 8, 12, 20, 40])
        adj = I.rand_graph(rng, n, rng.choice([0, .1, .3, .6, 1]))
        s.add(rng.choice(["dev", "release"]), op="graph", adj=adj,
              script=graph_script(rng, n, rng.choice([4, 10, 30])))
    for n in (0, 65, 150):
        adj = I.rand_graph(rng, n, 3 / (n + 1))
        for profile in build.profiles:
            s.add(profile, op="graph", adj=adj, script=graph_script(rng, n, 25))
    # much memory
    for n in (257, 300, 520):
        hub = rng.randrange(n)
        for edges in ([(min(hub, v), max(hub, v)) for v in range(n) if v != hub],
                      [(v, v + 1) for v in range(n - 1)], []):
            adj = I.graph_from_edges(n, edges, rng)
            nodes = rng.sample(range(n), n)
            for profile, cut in (("dev", rng.randint(1, 5)), ("release", n - 1), ("dev", n)):
                script = [{"m": "step", "s": nodes[:cut]}, {"m": "in", "s": nodes[cut:]}]
                if rng.random() < .5:
                    script.insert(0, {"m": "in", "s": [hub] if hub not in nodes[:cut] else []})
                    script[2]["s"] = [v for v in script[2]["s"] if v not in script[0]["s"]]
                s.add(profile, op="graph", adj=adj, script=script)
    s.execute()
    s.validate(graph=True)
    # the same with a time order: schedulers
    t = Scripts(c, build)
    for _ in range(250 if not THOROUGH else 4000):
        n = rng.choice([2, 3, 4, 5, 7, 9, 12, 20])
        nodes = rng.sample(range(n), rng.randint(1, n))
        deps = I.rand_deps(rng, nodes, rng.choice([0, .1, .3]), rng.choice([None, None, 2, 4]))
        i = I.inst(I.rand_graph(rng, n, rng.choice([.2, .4, .8])), I.order_from_deps(deps, rng))
        part = rng.random() < .5
        t.add(rng.choice(["dev", "release"]), op="manual", adj=i["adj"], order=i["order"],
              len=n, partitioner=part, script=random_script(rng, deps, n, 25, part))
    t.execute()
    log("scripts executed")
    t.validate()
    for k in range(5, len(s.cmds), 500):
        c.sample({"profile": s.cmds[k][0], "command": s.cmds[k][1]})
    c.assumptions.append("after a failed in-place step of a graph on its own nothing is claimed "
                         "about that graph")
    return c.finish()
