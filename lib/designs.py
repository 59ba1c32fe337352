"""Model checking runs on the specifications alone."""
import json

from core import SEED, THOROUGH, tlc, ToolError


def cfg(consts, invs, props=(), view=None, spec="Spec"):
    s = f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
    for k, v in consts.items():
        s += f" {k} {'<-' if str(v).startswith(('MC', 'Gen')) else '='} {v}\n"
    s += "".join(f"INVARIANT {i}\n" for i in invs)
    s += "".join(f"PROPERTY {p}\n" for p in props)
    if view:
        s += f"VIEW {view}\n"
    return s


OP_INV = ["TimeRefines", "StateRefines", "MemoryRefines", "NeverNegative", "PathValid",
          "LeafIsComplete", "NeedsDepth", "InputsSane"]
SEARCH_INV = ["ExactFrontier", "KeepsFound", "IsAntichain", "TrueResults", "BestIsTrue",
              "FirstIsFastest"]
THREADED_INV = ["ExactFrontier", "KeepsFound", "BoundsAreReal", "ResultsTrue",
                "Ordered", "BackedBounds", "BoundRespected"]


def operational(c):
    c.design("MCOperational", cfg({"Size": 4 if THOROUGH else 3, "Raws": "MCRaws"}, OP_INV,
                                  ["Completes"]))


def search(c, reject=False, cut=True, size=None):
    size = size or (4 if THOROUGH and not reject else 3)
    c.design("MCSearch", cfg({"Size": size, "Raws": "MCRaws",
                              "MayReject": "TRUE" if reject else "FALSE",
                              "MayCut": "TRUE" if cut else "FALSE"},
                             SEARCH_INV, [] if reject or size > 3 else ["Terminates"]))


def threaded_cfg(size, workers, bounds, syncs, mutant="none", cut=False, exact=False, props=()):
    return cfg({"Size": size, "Raws": "MCRawsExact" if exact else "MCRaws",
                "Workers": "{" + ", ".join(map(str, range(1, workers + 1))) + "}",
                "Bounds": "{" + ", ".join(map(str, bounds)) + "}", "MaxSyncs": syncs,
                "Mutant": f'"{mutant}"',
                "MayCut": "TRUE" if cut else "FALSE"},
               THREADED_INV, props, view="View")


def threaded(c, cut=False, quick_only=False):
    c.design("MCThreaded", threaded_cfg(2, 2, [0, 1, 100], 1, cut=True, props=["Terminates"]))
    if quick_only:
        return
    if THOROUGH:
        c.design("MCThreaded", threaded_cfg(3, 2, [0, 1, 2, 100], 1, cut=cut), timeout=3000)
        c.design("MCThreaded", threaded_cfg(3, 3, [3], 1, exact=True), timeout=3000)
        c.design("MCThreaded", threaded_cfg(3, 2, [1, 2], 2, exact=True), timeout=3000)
    else:
        c.design("MCThreaded", threaded_cfg(3, 2, [1, 100] if not cut else [1], 1,
                                            cut=cut, exact=True))
    # the specification is able to tell: the merge as it was before the repair
    c.design("MCThreaded", threaded_cfg(3, 2, [100], 1, mutant="overwrite", exact=True),
             expect_violation=True)


def theory(c):
    """facts about schedules of any size on which the search relies: proved"""
    c.proof("Theory")


def bounds(c):
    """the exchange of bounds and results, for any number of tasks, times and values: proved,
    and its invariants model checked"""
    c.design("Bounds", cfg({"Tasks": "{1, 2}" if not THOROUGH else "{1, 2, 3}", "N": 1,
                            "Values": "{1, 2}", "INF": 9}, ["Inv", "Lossless", "Real"]))
    c.design("Bounds", cfg({"Tasks": "{1, 2}", "N": 2 if THOROUGH else 1,
                            "Values": "{1}" if not THOROUGH else "{1, 2}", "INF": 9},
                           ["Inv", "Lossless", "Real"]), timeout=3000)
    c.proof("BoundsProof")


def behaviours(c, size, workers, num, syncs=2, seed_offset=0,
               mutant="none"):
    """behaviours of Threaded.tla: list of {raw, bound, sched, out}"""
    text = cfg({"Size": size, "Raws": "GenRaws", "Bounds": "GenBounds",
                "Workers": "{" + ", ".join(map(str, range(1, workers + 1))) + "}",
                "MaxSyncs": syncs, "Mutant": f'"{mutant}"', "MayCut": "FALSE"}, ["Emit"])
    r = tlc("GenThreaded", text, workers=1, extra=["-simulate", f"num={num}", "-depth", "200",
                                                   "-seed", str(SEED + seed_offset)],
            expect=(0,), timeout=600)
    c.add(r)
    out = []
    for line in r.out.splitlines():
        if line.startswith('"@@'):
            out.append(json.loads(json.loads(line)[2:]))
    if not out and mutant == "none":
        raise ToolError("no behaviours were generated\n" + r.out[-2000:])
    return out


SWEEP_INV = ["EachOnce", "OnlySchedules", "AllButSkipped", "NestedPath"]


def sweep(c):
    c.design("MCSweep", cfg({"Size": 3, "Raws": "MCRaws", "MaxSkips": 2 if not THOROUGH else 3},
                            SWEEP_INV, ["Terminates"] if not THOROUGH else []))


def requests(c):
    c.design("Requests", cfg({"N": 3, "MaxLen": 3 if not THOROUGH else 4},
                             ["DecidesRightly", "NamesOffending", "KeepsTheRest"]))


def timer(c):
    inv = ["NeverEarly", "NotStarted", "OnlyTheTruth", "Exclusive"]
    live = ["Stays", "Fires", "DropReturns"]

    def run(durations, horizon, mutant="none", bad=False):
        c.design("Timer", cfg({"Durations": durations, "Horizon": horizon,
                               "Mutant": f'"{mutant}"'}, inv, live), expect_violation=bad)
    run("{0, 1, 2, 1000}", 4 if not THOROUGH else 7)
    for m in ("nopredicate", "anywake", "nonotify", "onewait"):
        run("{2, 1000}", 3, m, True)
