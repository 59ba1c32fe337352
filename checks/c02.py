"""C02: reported time and space are the true costs of the reported steps"""
from core import *
from runs import *
import designs
import modes


def main():
    c = Check("C02")
    build = Build()
    designs.operational(c)
    s = Suite(c, build)
    scale = dict(three=None, four=200, rand=80, tree=20000, big=True)
    if THOROUGH:
        scale = dict(three=None, four=3000, rand=600, tree=200000, big=True)
    insts = instances(c.rng, scale) + I.empty()
    for i in insts:
        # the same in both profiles: checked and unchecked memory tracking
        for profile in ("dev", "release"):
            s.add(profile, i, search=False)
            if I.count_tree(i["order"], 10**5)[0] < 3000:
                s.add(profile, i)
    # more memory than fits into two bytes
    i = I.padded(c.rng, 65536 + c.rng.randint(-3, 400))
    s.add("release", i, search=False)
    s.add("release", i)
    modes.mixed(c, s, build, insts, 2 if not THOROUGH else 4, 40 if not THOROUGH else 300)
    s.execute(jobs=5)
    log("runs executed")
    s.check_paths(PATHS_INV["C02"])
    for k in s.usable()[7::300][:3]:
        c.sample(s.describe_run(k))
    return c.finish()
