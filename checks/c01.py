"""C01: every returned schedule is executable and complete"""
from core import *
from runs import *
import designs
import modes


def main():
    c = Check("C01")
    build = Build()
    designs.theory(c)
    designs.operational(c)
    designs.search(c, reject=True)
    s = Suite(c, build)
    scale = dict(three=None, four=150, rand=80, tree=20000, big=True)
    if THOROUGH:
        scale = dict(three=None, four=2500, rand=600, tree=200000, big=True)
    insts = instances(c.rng, scale) + I.empty()
    for i in insts:
        s.add(c.rng.choice(["dev", "release"]), i, search=False)
    modes.mixed(c, s, build, insts, 3 if not THOROUGH else 5, 40 if not THOROUGH else 300)
    s.execute(jobs=5)
    log("runs executed")
    s.check_paths(PATHS_INV["C01"])
    for k in s.usable()[7::300][:3]:
        c.sample(s.describe_run(k))
    return c.finish()
