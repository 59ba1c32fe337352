"""C19: single-threaded runs are reproducible"""
from core import *
from runs import *
import designs

INV = ["Ends", "Identical", "Varied", "PairsVary"]


def chain(n):
    return I.inst([[w for w in (v - 1, v + 1) if 0 <= w < n] for v in range(n)],
                  [[[v, [v - 1] if v else []]] for v in range(n)], f"chain{n}")


def main():
    c = Check("C19")
    build = Build()
    for shared in (False, True):
        c.design("MCCopies", designs.cfg(
            {"Size": 2 if not THOROUGH else 3, "Raws": "MCRaws",
             "Coins": 3, "Shared": str(shared).upper()}, ["SamePaths", "SameHistory"]),
            expect_violation=shared)
    rng = c.rng
    T = THOROUGH
    insts = [i for n in (1, 2) for i in I.small_exhaustive(n, rng)]
    insts += rng.sample(list(I.small_exhaustive(3, rng)), 40)
    insts += I.structured(rng)
    for _ in range(120 if not T else 1500):
        insts.append(I.sized(rng, 4, 12, 60000 if rng.random() < .3 else 4000))
    groups = []     # (same, [commands])
    for i in insts:
        tree = I.count_tree(i["order"], 10**6)[0]
        groups.append((True, [cmd_run(i, rng.random() < .8)] * 3))
        for _ in range(2):
            a = random_accept(rng)
            # (time and other threads must not matter)
            kw = {"nthreads": rng.choice([0, 1, 1])}
            if rng.random() < .3:
                kw["bound"] = rng.choice([0, 1, 100])
            seed = rng.choice([0, 1, 7, 2**63, 2**64 - 1, rng.getrandbits(64)])
            groups.append((True, [cmd_run(i, True, accept=a, seed=seed, **kw)] * 4))
            # also after runs with other seeds
        if tree > 40 and rng.random() < .5:
            a = {"kind": "const", "v": rng.choice([.3, .5, .7]), "log": False}
            base = cmd_run(i, True, accept=a, seed=rng.getrandbits(40))
            other = [cmd_run(i, True, accept=a, seed=rng.getrandbits(40)) for _ in range(2)]
            groups.append((True, [base, *other, base, *other, base]))
    # large ones, and such with many nodes becoming measurable at once
    for i, searchable in I.huge(rng):
        groups.append((True, [cmd_run(i, False)] * 4))
        if searchable:
            groups.append((True, [cmd_run(i, True)] * 3))
    for _ in range(12 if not T else 100):
        i = I.crowded(rng)
        groups.append((True, [cmd_run(i, rng.random() < .7)] * 4))
        groups.append((True, [cmd_run(i, True, accept=random_accept(rng),
                                      seed=rng.getrandbits(64))] * 3))
        groups.append((True, [cmd_run(I.padded(rng), True)] * 3))
    for i in rng.sample(I.hard(rng, 5000), 40 if not T else 200):
        groups.append((True, [cmd_run(i, True)] * 3))
    # random choices differ
    for n, v in ((1, .5), (2, .5), (3, .7), (1, .4)):
        a = {"kind": "const", "v": v, "log": False}
        start = rng.getrandbits(30)
        groups.append((False, [cmd_run(chain(n), accept=a, seed=start + j) for j in range(80)]))
        groups.append((False, [cmd_run(chain(n), accept=a, seed=2 ** 40 + (start + j) * 2 ** 33)
                               for j in range(80)]))
        groups.append((False, [cmd_run(chain(n), accept=a) for _ in range(80)]))
    for _ in range(4 if not T else 20):
        i = I.sized(rng, 5, 8, 2000, tree_lo=100)
        a = {"kind": "const", "v": .5, "log": False}
        groups.append((False, [cmd_run(i, accept=a, seed=rng.getrandbits(40)) for _ in range(60)]))
        groups.append((False, [cmd_run(i, accept=a) for _ in range(60)]))
    # so do those of any two seeds that differ in a single bit
    a = {"kind": "const", "v": .5, "log": False}
    pairs = len(groups)
    for bit in range(64):
        cmds = []
        for _ in range(50 if not T else 200):
            seed = rng.getrandbits(64)
            cmds += [cmd_run(chain(1), accept=a, seed=x) for x in (seed, seed ^ 1 << bit)]
        groups.append((False, cmds))
    pairs = range(pairs, len(groups))
    # over several processes, in both profiles
    flat = [(g, k) for g, (_, cmds) in enumerate(groups) for k in range(len(cmds))]
    rng.shuffle(flat)
    results = [[None] * len(cmds) for _, cmds in groups]
    half = {"dev": [], "release": []}
    for g, k in flat:
        tree = len(groups[g][1][k]["adj"])
        half["release" if tree > 9 or rng.random() < .6 else "dev"].append((g, k))
    for profile, part in half.items():
        rs = run_adapter(build, profile, [groups[g][1][k] for g, k in part], jobs=5)
        for (g, k), r in zip(part, rs):
            results[g][k] = r
    # a process for each run: without a seed, the processes must not all start the same way
    a = {"kind": "const", "v": .5, "log": False}
    fresh = [cmd_run(chain(1), accept=a) for _ in range(64)]
    groups.append((False, fresh))
    results.append(run_adapter(build, "release", fresh, jobs=64))
    log("runs executed")
    data, back = [], []
    for g, (same, cmds) in enumerate(groups):
        rs = results[g]
        # within a group, the runs may belong to different commands
        keys = sorted({json_key(x) for x in cmds}) if same else [None]
        for key in keys:
            sel = [k for k, x in enumerate(cmds) if key is None or json_key(x) == key]
            rr = [rs[k] for k in sel]
            if g in pairs:
                rr = [x for j in range(0, len(rr), 2) for x in rr[j:j + 2]
                      if not any(y.get("skipped") for y in rr[j:j + 2])]
            elif any(r.get("skipped") for r in rr):
                continue
            data.append({"same": same, "pairs": g in pairs, "results": [
                {"out": "bad" if bad(r) else "ok",
                 "paths": [] if bad(r) else r["paths"]} for r in rr]})
            back.append((g, sel))

    def describe(st, r):
        j = int(st["c"]) - 1
        g, sel = back[j]
        rs = data[j]["results"]
        other = next((x for x in rs if x != rs[0]), rs[0])
        x = groups[g][1][sel[0]]
        return (f"{len(sel)} runs of {x.get('accept')} seed {x.get('seed')}: "
                f"{str(rs[0])[:200]} and {str(other)[:200]}",
                {"commands": [groups[g][1][k] for k in sel][:5], "results": rs[:5]})
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join(f"INVARIANT {x}\n" for x in INV)
    c.trace_check("TraceRepro", cfg, {"groups": data}, describe,
                  sum(len(x["results"]) for x in data))
    c.details["groups"] = len(data)
    c.sample({"command": groups[5][1][0], "result": results[5][0]})
    c.assumptions.append("'can make different choices' is tested with decisions all of which "
                         "coincide with probability below 2^-50")
    return c.finish()


def json_key(x):
    import json
    return json.dumps(x, sort_keys=True)
