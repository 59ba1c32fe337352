"""C23: runs do not influence each other"""
from core import *
from runs import *
import c11
import designs

INV = ["Ends", "SameEnd", "AsAlone"]


def design(c):
    def run(raws, coins, mutant="none", bad=False):
        c.design("MCTogether", designs.cfg({"Size": 2, "Raws": raws, "Coins": coins,
                                            "Mutant": f'"{mutant}"'}, ["AsAlone"],
                                           ["AllEnd"] if coins == 1 else []),
                 expect_violation=bad)
    run("MCRaws", 1)
    run("MCRaws" if THOROUGH else "MCSome", 2)
    for m, coins in (("bounds", 2), ("coins", 2), ("cut", 1), ("leftover", 1), ("lock", 1)):
        run("MCSome", coins, m, True)


def one(rng, insts, n):
    """(kind, command)"""
    i = rng.choice(insts)
    x = rng.random()
    forever = rng.choice([{}, {}, {"timeout_ms": 600000}])
    if x < .15:
        return "exact", cmd_run(i, False)
    if x < .35:
        return "exact", cmd_run(i, True, **forever)
    if x < .6:
        a = rng.choice([random_accept, rule_accept])(rng)
        return "exact", cmd_run(i, True, accept={**a, "log": False}, seed=rng.getrandbits(64),
                                **forever)
    if x < .75:
        return "costs", cmd_run(i, True, nthreads=rng.choice([2, 3, 5]),
                                bound=rng.choice([None, None, 0, 1, 3]), **forever)
    if x < .85:
        # (what it has found when it is cut is better than what the other ones can find)
        big = c11.one_layer(rng, rng.choice([20, 24, 30, n, n, n]), rng.choice([0, .1, .3]))
        return "cut", cmd_run(big, True, nthreads=rng.choice([1, 1, 1, 2, 3]), bound=5,
                              timeout_ms=rng.choice([0, 1, 5, 20, 50]))
    if x < .95:
        # (whether there is a call depends on what the threads tell each other)
        return "fails", cmd_run(i, True, accept={"kind": "const", "v": 1., "log": False,
                                                 "fails": [rng.randint(0, 5)]},
                                seed=1, nthreads=rng.choice([2, 3]), **forever)
    return "exact", cmd_run(i, True, accept={"kind": "const", "v": 1., "log": False,
                                             "fails": [rng.choice([0, 1, 2, 5, 20])]},
                            seed=1, **forever)


def main():
    c = Check("C23")
    build = Build()
    design(c)
    rng = c.rng
    T = THOROUGH
    groups = []     # (profile, kind, command)
    batches = []    # (profile, command, [group of each run])
    for _ in range(50 if not T else 600):
        profile = rng.choice(["dev", "release"])
        n = rng.choice([3, 4, 5, 6, 7, 9, 10, 11, 12])
        insts = [I.sized(rng, n, n, 1500) for _ in range(rng.choice([1, 3, 6]))]
        insts += [I.sized(rng, 2, 8, 1500) for _ in range(2)]
        some = [one(rng, insts, n) for _ in range(rng.randint(4, 14))]
        start = len(groups)
        groups += [(profile, kind, cmd) for kind, cmd in some]
        order = [j for j in range(len(some)) for _ in range(3)]
        rng.shuffle(order)
        batches.append((profile, {"op": "together", "runs": [x[1] for x in some], "order": order,
                                  "clients": rng.choice([1, 1, 2, 4, 8])},
                        [start + j for j in order]))
    together = [[] for _ in groups]
    alone = [None] * len(groups)
    where = [None] * len(groups)
    for profile in build.profiles:
        bs = [b for b in batches if b[0] == profile]
        for b, r in zip(bs, run_adapter(build, profile, [b[1] for b in bs], 100., jobs=4)):
            if r.get("skipped"):
                continue
            for j, g in enumerate(b[2]):
                together[g].append({"out": "bad", "paths": []} if bad(r) else r["results"][j])
                where[g] = b[1]
        # (the processes only do one run each)
        ks = [k for k, g in enumerate(groups) if g[0] == profile]
        for k0 in range(0, len(ks), 40):
            part = ks[k0:k0 + 40]
            for k, r in zip(part, run_adapter(build, profile, [
                    {"op": "together", "runs": [groups[k][2]], "order": [0], "clients": 1}
                    for k in part], 60., jobs=len(part))):
                if not r.get("skipped"):
                    alone[k] = {"out": "bad", "paths": []} if bad(r) else r["results"][0]
    log("runs executed")
    data, back = [], []
    for k, (profile, kind, cmd) in enumerate(groups):
        if alone[k] is not None and together[k]:
            data.append({"kind": kind, "alone": alone[k], "together": together[k]})
            back.append(k)

    def describe(st, r):
        j = int(st["c"]) - 1
        k = back[j]
        cmd = groups[k][2]
        opts = {x: cmd[x] for x in cmd if x not in ("adj", "order", "op")}
        other = next((x for x in data[j]["together"] if x != data[j]["alone"]), None)
        return (f"run {k} {opts}: alone {str(data[j]['alone'])[:200]}, among others "
                f"{str(other)[:200]}",
                {"profile": groups[k][0], "command": cmd, "result": data[j], "batch": where[k]})
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join(f"INVARIANT {x}\n" for x in INV)
    c.trace_check("TraceTogether", cfg, {"groups": data}, describe,
                  sum(1 + len(x["together"]) for x in data))
    c.details["runs_compared"] = len(data)
    c.details["batches"] = len(batches)
    c.sample({"command": groups[3][2], "result": data[min(3, len(data) - 1)]})
    return c.finish()
