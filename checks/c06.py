"""C06: result lists are sorted and free of dominated paths"""
from core import *
from runs import *
import designs
import modes


def main():
    c = Check("C06")
    build = Build()
    designs.theory(c)
    designs.search(c, reject=True)
    designs.threaded(c, cut=True, quick_only=True)
    s = Suite(c, build)
    rng = c.rng
    scale = dict(three=None, four=150, rand=150, tree=20000, big=False)
    if THOROUGH:
        scale = dict(three=None, four=1500, rand=1500, tree=200000, big=True)
    insts = instances(rng, scale)
    modes.mixed(c, s, build, insts, 2, 60 if not THOROUGH else 400)
    # results of probabilistic and interrupted searches on instances with a long frontier
    for _ in range(60 if not THOROUGH else 800):
        i = I.sized(rng, 8, 12, 300000, tree_lo=3000)
        for _ in range(3):
            s.add("release", i, **modes.mode(rng, 300000, build.hooks))
    for i in I.straddling(rng):
        s.add("release", i, timeout_ms=2000)
        s.add("release", i, nthreads=rng.choice([2, 3]), timeout_ms=2000)
    s.execute(jobs=5)
    log("runs executed")
    s.check_paths(PATHS_INV["C06"])
    c.details["lists_with_several_paths"] = sum(
        1 for k in s.usable() if len(s.results[k].get("paths", [])) > 1)
    for k in s.usable()[7::300][:3]:
        c.sample(s.describe_run(k))
    return c.finish()
