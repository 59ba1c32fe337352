"""C12: accept functions decide exactly which steps may be taken"""
import json

from core import *
from runs import *
from asked import *
import designs
import modes


def chances(c, build, n):
    """how often values between 0 and 1 accept"""
    rng = c.rng
    cmds, meta = [], []
    # steps asked about, ways, the value a/b, threads, task bound, with seeds?
    kinds = [(1, 1, 1, 10, 1, None, True), (1, 1, 5, 10, 1, None, True),
             (1, 1, 9, 10, 1, None, True), (2, 1, 5, 10, 1, None, True),
             (3, 1, 5, 10, 1, None, True), (3, 1, 8, 10, 1, None, True),
             (2, 1, 3, 10, 1, None, True), (1, 1, 5, 10, 1, None, False),
             (2, 1, 6, 10, 1, None, False), (1, 1, 3, 10, 2, None, True),
             (1, 1, 7, 10, 2, None, True), (2, 1, 5, 10, 2, None, True),
             (2, 1, 6, 10, 2, None, False), (1, 1, 1, 3, 1, None, True),
             (1, 1, 1, 1000, 1, None, True), (1, 1, 999, 1000, 1, None, True),
             (1, 1, 1, 250, 1, None, False), (2, 1, 99, 100, 1, None, True),
             (1, 1, 501, 1000, 1, None, True), (1, 1, 1, 100, 2, None, True),
             (1, 1, 99, 100, 2, None, True),
             # all in the last task
             (1, 1, 4, 10, 2, 0, True), (1, 1, 6, 10, 2, 0, False), (2, 1, 5, 10, 2, 0, True),
             # independent of each other
             (1, 2, 4, 10, 2, None, True), (1, 2, 5, 10, 2, None, False),
             (1, 2, 5, 10, 2, 0, True), (1, 2, 3, 10, 2, 1, False), (1, 2, 5, 10, 2, 2, True),
             (1, 2, 4, 10, 1, None, True), (1, 2, 4, 10, 1, None, False)]
    for asked, ways, a, b, threads, bound, seeded in kinds:
        # (a multi-threaded search is not asked about the first step)
        first = threads > 1 or ways > 1
        if ways == 1:
            length = asked + (1 if first else 0)
            adj = [[w for w in (v - 1, v + 1) if 0 <= w < length] for v in range(length)]
            order = [[[v, [v - 1] if v else []]] for v in range(length)]
        else:
            # one after the other, in any order
            adj, order = [[], []], [[[0, []], [1, []]]]
        runs = n if threads == 1 else n // 30
        parts = 8
        for j in range(parts):
            cmds.append({"op": "chance", "adj": adj, "order": order, "nthreads": threads,
                         "seed": rng.getrandbits(50) if seeded else None, "bound": bound,
                         "free_first": first, "least": ways, "runs": runs // parts,
                         "value": a / b})
            meta.append((asked, ways, a, b, threads, bound, seeded))
    res = run_adapter(build, "release", cmds, 120., jobs=6)
    count = {}
    for m, r, cmd in zip(meta, res, cmds):
        if bad(r):
            c.violation(f"chain {m}: {r}", {"result": r})
            return
        if r.get("skipped"):
            return
        x = count.setdefault(m, [0, 0])
        x[0] += cmd["runs"]
        x[1] += r["hits"]
    samples = [{"asked": m[0], "ways": m[1], "a": m[2], "b": m[3], "runs": x[0], "hits": x[1], "sigmas": 7}
               for m, x in count.items()]
    back = list(count)

    def describe(st, r):
        k = int(st["c"]) - 1
        return f"acceptance frequency {back[k]}: {samples[k]}", {"sample": samples[k]}
    c.trace_check("TraceChance", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
                  "INVARIANT AsProbable\n", {"samples": samples}, describe,
                  sum(x[0] for x in count.values()))
    c.details["chances"] = samples


def check_asked(c, s):
    runs, back = [], []
    for k in s.usable():
        profile, ins, mode, cmd = s.cmds[k]
        r = s.results[k]
        if bad(r) or not cmd.get("observe", {}).get("steps") or cmd.get("accept") is None:
            continue
        rejected, accepted = decisions(r)
        runs.append({"ins": ins, "rejected": rejected, "accepted": accepted,
                     "paths": [p["steps"] for p in r["paths"]],
                     "costs": [[p["time"], p["space"]] for p in r["paths"]],
                     "exempt": 1 if cmd.get("nthreads", 1) >= 2 else 0})
        back.append(k)
    if not runs:
        return

    def describe(st, r):
        k = back[int(st["c"]) - 1]
        return (f"run {k}: {s.summary(k)}: {st.get('path')}",
                {**s.describe_run(k), "asked": runs[int(st["c"]) - 1], "state": st})
    c.details["decided_by_log"] = len(runs)
    c.trace_check("TraceAsked", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
                  "INVARIANT OnlyAccepted\nINVARIANT NothingMissing\n",
                  {"insts": s.insts, "runs": runs}, describe, len(runs))


def check_decisions(c, s, known=False):
    """TraceSearch.tla: the answers are followed (C12), the arguments are true (C13)"""
    segs, reals, back = [], [], []
    for k in s.usable():
        profile, ins, mode, cmd = s.cmds[k]
        r = s.results[k]
        if bad(r) or not cmd.get("observe", {}).get("steps") or cmd.get("accept") is None:
            continue
        a, b = segments(r, ins, len(reals) + 1, cmd.get("nthreads", 1) < 2)
        reals.append(b)
        segs += a
        back += [k] * len(a)
    if not segs:
        return None
    c.details["moves"] = c.details.get("moves", 0) + sum(len(x["events"]) for x in segs)

    def describe(st, r):
        j = int(st["c"]) - 1
        k = back[j]
        p = int(st["p"])
        ev = segs[j]["events"][p - 1] if p else {}
        return (f"run {k}: {s.summary(k)}: event {p} {ev}: {st.get('err')}",
                {**s.describe_run(k), "segment": segs[j], "state": st})
    data = {"insts": s.insts, "reals": reals, "segments": segs}
    r = c.trace_check("TraceSearch", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
                      "INVARIANT MovesFit\n", data, describe, len(segs))
    return data, back


def main():
    c = Check("C12")
    build = Build()
    designs.search(c, reject=True)
    rng = c.rng
    T = THOROUGH
    # the rule is a function of the state: judged by the result alone
    s = Suite(c, build)
    scale = dict(three=None, four=150, rand=80, tree=30000, big=False)
    if T:
        scale = dict(three=None, four=2000, rand=800, tree=300000, big=True)
    for i in instances(rng, scale):
        tree = I.count_tree(i["order"], 10**6)[0]
        for _ in range(2):
            kw = {}
            if rng.random() < .5:
                kw = modes.controlled(rng) if build.hooks and tree < 20000 and \
                    rng.random() < .3 else modes.threads(rng)
            s.add("release" if tree > 3000 or rng.random() < .5 else "dev", i,
                  accept=rule_accept(rng), seed=rng.choice([None, rng.getrandbits(30)]), **kw)
    for i in I.hard(rng, 30000):
        a = {"kind": "const", "v": rng.choice([1., 1.5]), "log": False}
        # (nothing is pruned if nothing is completed)
        if rng.random() < .5 and I.count_tree(i["order"], 10**5)[0] < 10**5:
            a = rule_accept(rng)
        kw = {} if rng.random() < .6 else {"nthreads": 2, "bound": rng.choice([0, 0, None, 2])}
        s.add("release", i, accept=a, **kw)
    for j in range(30 if not T else 300):
        i = I.sized(rng, 8, 13, 300000, tree_lo=10000)
        s.add("release", i, accept=rule_accept(rng), **(modes.threads(rng) if j % 2 else {}))
    s.execute(jobs=5)
    log("rules executed")
    s.check_paths(ALL_INV + ["OnlyAccepted"], rules=True)
    s.check_frontier()
    # any function: judged by what it was asked and how it answered
    if build.hooks:
        u = Suite(c, build)
        for _ in range(250 if not T else 3000):
            i = I.sized(rng, 3, 8, 600, tree_lo=10)
            x = rng.random()
            if x < .35:
                a = {"kind": "calls", "v": [rng.choice([0, 1, 1, 1.5]) for _ in
                                            range(rng.choice([3, 7, 20, 50]))]}
            elif x < .6:
                a = {"kind": "calls", "v": [rng.choice([0, 1, .5, .8]) for _ in
                                            range(rng.choice([3, 7, 20, 50]))]}
            else:
                a = {**random_accept(rng), "wrap": True, "log": True}
            kw = {}
            if rng.random() < .5:
                kw = {"nthreads": rng.choice([2, 3, 5]),
                      "bound": rng.choice([None, None, 0, 1, 3])}
            u.add(rng.choice(["dev", "release"]), i, accept=a, seed=rng.getrandbits(30),
                  observe={"steps": True, "gates": True, "seed": rng.getrandbits(30),
                           "sync_prob": rng.choice([0, .1, .5])}, **kw)
        u.execute(jobs=5)
        u.check_paths(ALL_INV)
        check_asked(c, u)
        check_decisions(c, u)
        log("logged decisions checked")
    chances(c, build, 100000 if not T else 200000)
    for k in s.usable()[5::300][:3]:
        c.sample(s.describe_run(k))
    c.assumptions.append("probabilities are tested by the frequency of acceptance, with a "
                         "tolerance of 7 standard deviations")
    return c.finish()
