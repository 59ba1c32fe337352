"""C04: exhaustive single-threaded search = Pareto frontier"""
from core import *
from runs import *
import designs


def main():
    c = Check("C04")
    build = Build()
    designs.theory(c)
    s = Suite(c, build)
    scale = dict(three=None, four=200, rand=60, tree=60000, big=True)
    if THOROUGH:
        scale = dict(three=None, four=2500, rand=500, tree=600000, big=True)
    insts = instances(c.rng, scale)
    # wrong pruning shows itself only seldom
    insts += [I.sized(c.rng, 5, 8, 3000) for _ in range(4000 if not THOROUGH else 30000)]
    insts += I.hard(c.rng, 100000 if not THOROUGH else 10**9)
    for j, i in enumerate(insts):
        size = I.count_tree(i["order"], 10**6)[0]
        profile = "release" if size > 3000 or j % 2 else "dev"
        s.add(profile, i)
    insts = [I.padded(c.rng) for _ in range(30 if not THOROUGH else 300)]
    for i in insts:
        s.add(c.rng.choice(["dev", "release"]), i)
    for i, search in I.huge(c.rng):
        if search:
            s.add("release", i)
    for i in I.straddling(c.rng):
        if I.count_tree(i["order"], 10**6)[0] < 10**5:
            s.add("release", i)
    s.execute()
    s.check_paths(ALL_INV)
    s.check_frontier()
    for k in s.usable()[5::50][:3]:
        c.sample(s.describe_run(k))
    return c.finish()
