"""C05: multi-threaded search = the same frontier under every interleaving"""
import json

from core import *
from runs import *
import designs
import modes


def controlled(rng, i, **kw):
    pol = rng.choice(["random", "random", "priority", "delay"])
    o = {"policy": pol, "seed": rng.getrandbits(30),
         "sync_prob": rng.choice([0.0, 0.1, 0.3, 0.6, 1.0])}
    if pol == "delay":
        o["kind"] = rng.choice(["merge", "merge", "sync", "snapshot", "task"])
    if rng.random() < .5:
        # every lock is a point, wherever it is
        o["locks"] = True
        o["policy"] = rng.choice(["random", "priority"])
    return {"nthreads": rng.choice([2, 2, 3, 4]), "observe": o,
            "bound": rng.choice([None, None, 0, 1, 2, 3, 5]), **kw}


def main():
    c = Check("C05")
    build = Build()
    designs.bounds(c)
    designs.theory(c)
    designs.threaded(c)
    s = Suite(c, build)
    # the other direction: behaviours of the specification, replayed in the code
    if build.hooks:
        n = 0

        def replay(b, workers):
            i = I.inst(b["raw"]["adj"], b["raw"]["order"])
            sync = {}
            for t, what, step in b["sched"]:
                if what == "sync":
                    sync.setdefault(str(t), []).append(step)
            s.add("release" if n % 2 else "dev", i, nthreads=workers, bound=b["bound"],
                  observe={"policy": "list", "list": [x[0] for x in b["sched"]],
                           "sync_at": sync})

        for b in json.loads((SPEC / "behaviours.json").read_text()):
            replay(b, b["workers"])
            n += 1
        for size, workers, num in [(3, 2, 150), (3, 3, 60), (4, 2, 15)] if not THOROUGH else \
                [(3, 2, 3000), (3, 3, 1500), (4, 2, 500), (4, 3, 300)]:
            for b in designs.behaviours(c, size, workers, num):
                replay(b, workers)
                n += 1
        c.details["specification_behaviours_replayed"] = n
        log("behaviours generated")
        # controlled, but not by a behaviour of the specification
        for _ in range(250 if not THOROUGH else 6000):
            i = I.sized(c.rng, 3, 9, 4000 if c.rng.random() < .8 else 30000, tree_lo=12)
            s.add(c.rng.choice(["dev", "release"]), i, **controlled(c.rng, i))
    for i in I.structured(c.rng, big=True):
        s.add("release", i, nthreads=c.rng.choice([2, 3, 8]),
              bound=c.rng.choice([None, None, 0, 1, 2, 7]))
    for i in I.hard(c.rng, 40000 if not THOROUGH else 10**9):
        # (with bound 0, a single task does everything)
        s.add("release", i, nthreads=c.rng.choice([2, 2, 3, 4]),
              bound=c.rng.choice([0, 0, None, None, 1, 3]))
    # free running threads; large enough for the regular exchange
    for j in range(40 if not THOROUGH else 800):
        i = I.sized(c.rng, 7, 14, 400000, tree_lo=10000)
        for nt, b in [(2, None), (8, None), (16, 3)] if j % 3 else [(4, None), (3, 1), (5, 0)]:
            s.add("release", i, nthreads=nt, bound=b)
    # many threads
    for nt in modes.MANY:
        for tree in (30000, 400000):
            s.add("release", I.sized(c.rng, 6, 12, tree, tree_lo=tree // 30), nthreads=nt,
                  bound=c.rng.choice([None, None, nt - 1, nt, 3 * nt]))
    for nt in (2, 4):
        for n in (9, 10) if not THOROUGH else (9, 10, 11, 12):
            adj = I.rand_graph(c.rng, n, 0.3)
            s.add("release", I.inst(adj, [[[v, []] for v in range(n)]]), nthreads=nt)
    s.execute(jobs=4)
    log("runs executed")
    s.check_paths(ALL_INV)
    s.check_frontier()
    for k in s.usable()[5::200][:3]:
        c.sample(s.describe_run(k))
    c.assumptions += ["at most 2 exchanges per task in the replayed behaviours"]
    return c.finish()
