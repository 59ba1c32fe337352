"""Runs in all modes of the search."""
import inst as I
from core import THOROUGH
from runs import random_accept


def controlled(rng, **kw):
    """a multi-threaded run whose interleaving is controlled by the harness"""
    pol = rng.choice(["random", "random", "priority", "delay"])
    o = {"policy": pol, "seed": rng.getrandbits(30),
         "sync_prob": rng.choice([0.0, 0.1, 0.3, 0.6, 1.0])}
    if pol == "delay":
        o["kind"] = rng.choice(["merge", "merge", "sync", "snapshot", "task"])
    return {"nthreads": rng.choice([2, 2, 3, 4]), "observe": o,
            "bound": rng.choice([None, None, 0, 1, 2, 3, 5]), **kw}


MANY = [33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 258, 300]


def threads(rng):
    return {"nthreads": rng.choice([2, 2, 3, 4, 8, 16]) if rng.random() < .98 else
            rng.choice(MANY),
            "bound": rng.choice([None, None, None, 0, 1, 2, 3, 10])}


def mode(rng, tree, hooks):
    """options of a run on an instance with so many tree nodes (None: too many)"""
    x = rng.random()
    o = {}
    if x < 0.35:
        o["accept"] = random_accept(rng)
        o["seed"] = rng.choice([None, rng.getrandbits(40)])
    y = rng.random()
    if y < 0.35:
        if hooks and tree is not None and tree <= 10000 and rng.random() < 0.5:
            o.update(controlled(rng))
        else:
            o.update(threads(rng))
            if hooks and rng.random() < 0.4:
                o["observe"] = {"sync_prob": rng.choice([0.05, 0.3, 1.0]),
                                "seed": rng.getrandbits(30)}
    elif y < 0.4:
        o["nthreads"] = 0
    z = rng.random()
    if tree is None:
        o["timeout_ms"] = rng.choice([0, 1, 3, 10, 20, 40])
    elif z < 0.2:
        o["timeout_ms"] = rng.choice([0, 0.05, 0.3, 1, 3])
        if hooks and rng.random() < 0.7 and "policy" not in o.get("observe", {}):
            o.setdefault("observe", {})["cut_step"] = rng.randint(1, max(2, min(2 * tree, 1500)))
    elif z < 0.25:
        o["timeout_ms"] = 100000
    return o


def large(rng, n=None):
    """an instance whose search tree cannot be exhausted"""
    n = n or rng.choice([14, 18, 25, 40, 64, 65, 90])
    adj = I.rand_graph(rng, n, rng.choice([1.5, 3, 5]) / n)
    x = rng.random()
    if x < 0.3:
        deps = I.rand_deps(rng, range(n), rng.choice([0.02, 0.1]))
    elif x < 0.5:
        deps = I.rand_deps(rng, rng.sample(range(n), n - n // 5), 0.05, 6)
    else:
        deps = I.rand_deps(rng, range(n), 0.05, rng.choice([2, 3, 5, 8]))
    return I.inst(adj, I.order_from_deps(deps, rng), f"large{n}")


def mixed(c, s, build, insts, per, n_large, profiles=None):
    """per runs for every instance, in random modes"""
    rng = c.rng
    for i in insts:
        tree = I.count_tree(i["order"], 10**6)[0]
        for _ in range(per):
            profile = "release" if tree > 3000 or rng.random() < 0.5 else "dev"
            s.add(profile, i, **mode(rng, tree, build.hooks))
    for i in [I.padded(rng) for _ in range(60 if not THOROUGH else 600)]:
        s.add(rng.choice(["dev", "release"]), i, **mode(rng, 600, build.hooks))
    for i, search in I.huge(rng):
        for profile in build.profiles:
            s.add(profile, i, search=False)
        if search:
            s.add("release", i, **rng.choice([{}, {}, {"nthreads": 3}]))
    for _ in range(n_large):
        i = large(rng)
        for _ in range(2):
            s.add(rng.choice(["release", "dev"]), i, **mode(rng, None, build.hooks))
