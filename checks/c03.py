"""C03: without search, the one path returned is time-optimal"""
from core import *
from runs import *
import designs


def main():
    c = Check("C03")
    build = Build()
    designs.theory(c)
    designs.operational(c)
    designs.search(c)
    s = Suite(c, build)
    rng = c.rng

    def both(i):
        for profile in ("dev", "release"):
            s.add(profile, i, search=False)
    scale = dict(three=None, four=0, rand=0, tree=1, big=True)
    insts = instances(rng, scale)
    four = list(I.small_exhaustive(4, rng))
    insts += four if THOROUGH else rng.sample(four, 600)
    # nothing to measure
    insts += I.empty()
    for j in range(150 if not THOROUGH else 2000):
        n = rng.choice([5, 8, 12, 20, 40, 63, 64, 65, 100, 150])
        adj = I.rand_graph(rng, n, rng.choice([1, 3, 6]) / n)
        nodes = list(range(n))
        if rng.random() < 0.3:
            nodes = rng.sample(nodes, rng.randint(1, n))
        if rng.random() < 0.5:
            deps = I.rand_deps(rng, nodes, rng.choice([0.02, 0.1, 0.3, 0.7]))
        else:
            deps = I.rand_deps(rng, nodes, rng.choice([0, 0.05]), rng.randint(1, 12))
        insts.append(I.inst(adj, I.order_from_deps(deps, rng), f"rand{n}"))
    # as large as it may get
    for n, kinds in [(300, 3), (700, 1), (1100, 1)]:
        for wide in [True] * kinds + [False]:
            adj = I.rand_graph(rng, n, 1 / n)
            deps = {v: [v - 1] if v and not wide else [] for v in range(n)}
            if wide and rng.random() < .6:
                for v in range(n // 2 + 20, n):
                    deps[v] = [rng.randrange(n // 2)]
            perm = rng.sample(range(n), n)
            insts.append(I.relabel(I.inst(adj, I.order_from_deps(deps, rng), f"wide{n}"), perm))
    insts += [i for i, _ in I.huge(rng)] + [I.padded(rng) for _ in range(10)]
    for i in insts:
        both(i)
        if rng.random() < 0.1:
            # the other options are irrelevant
            s.add("release", i, search=False, nthreads=rng.choice([0, 2, 7]),
                  bound=rng.choice([None, 0, 3]), timeout_ms=rng.choice([0, 10]),
                  accept={"kind": "const", "v": 0.0, "log": False}, seed=1)
    s.execute()
    log("runs executed")
    s.check_paths(PATHS_INV["C03"])
    for k in s.usable()[7::700][:3]:
        c.sample(s.describe_run(k))
    return c.finish()
