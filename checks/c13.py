"""C13: accept functions receive the documented quantities"""
from core import *
from runs import *
from asked import *
import designs
import c12

KNOWN = ("K1 the number of remaining nodes which the accept function is told counts only the "
         "nodes that cannot be measured yet (scheduler/time.rs num_remaining_nodes)")


def calls_suite(c, build, n):
    """runs judged by the calls alone; these need no hooks"""
    rng = c.rng
    s = Suite(c, build)
    pool = [i for m in (1, 2) for i in I.small_exhaustive(m, rng)]
    pool += rng.sample(list(I.small_exhaustive(3, rng)), 30)
    pool += [i for i in I.structured(rng) if I.count_tree(i["order"], 10**6)[0] <= 3000]
    for _ in range(n):
        pool.append(I.sized(rng, 3, 8, 3000, tree_lo=4))
    for i in pool:
        tree = I.count_tree(i["order"], 10**6)[0]
        if I.states(i["order"], 400) >= 400 or not i["order"]:
            continue
        s.add("dev", i, accept={"kind": "const", "v": 0.0, "log": True}, seed=1)
        for _ in range(2):
            if tree > 1000:
                a = {"kind": "calls", "v": [rng.choice([0, 0, 1, .5]) for _ in range(20)]}
            else:
                a = rng.choice([{"kind": "const", "v": 1.0}, rule_accept(rng),
                                {"kind": "calls", "v": [rng.choice([0, 1]) for _ in range(9)]},
                                {**random_accept(rng), "wrap": True}])
            kw = {"nthreads": rng.choice([2, 3]), "bound": rng.choice([None, 0, 2])} \
                if rng.random() < .4 else {}
            s.add(rng.choice(["dev", "release"]), i, accept={**a, "log": True},
                  seed=rng.getrandbits(30), observe={"limit": 1500}, **kw)
    s.execute(jobs=5)
    return s


def check_calls(c, s):
    runs, back = [], []
    for k in s.usable():
        profile, ins, mode, cmd = s.cmds[k]
        r = s.results[k]
        if bad(r):
            continue
        calls = [e["a"] for e in r["log"]["events"] if e["k"] == "acc"]
        whole = len(calls) == r["log"]["calls"]
        runs.append({"ins": ins, "alone": cmd.get("nthreads", 1) < 2,
                     "none": whole and cmd["accept"]["kind"] == "const"
                     and cmd["accept"]["v"] == 0,
                     "least": min([p["space"] for p in r["paths"]], default=-1),
                     "calls": calls})
        back.append(k)
    c.details["calls"] = sum(len(x["calls"]) for x in runs)

    def describe(st, r):
        j = int(st["c"]) - 1
        p = int(st["p"])
        call = runs[j]["calls"][p - 1] if p else None
        return (f"run {back[j]}: {s.summary(back[j])}: call {p} {call}: {st.get('err')}",
                {**s.describe_run(back[j]), "calls": runs[j]["calls"][:p], "state": st})
    c.trace_check("TraceCalls", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
                  "INVARIANT TrueArguments\nINVARIANT AsksOnce\n",
                  {"insts": s.insts, "runs": runs}, describe, len(runs))


def exact(c, data):
    """the arguments without regard to the known finding, which is expected to be found"""
    r = tlc("TraceSearch", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
            "INVARIANT RemainingIsExact\n", data=data)
    c.add(r, "TraceSearch (known finding)")
    if r.violated:
        c.known_lines.append(f"KNOWN-FINDING: property=C13 {KNOWN}")


def main():
    c = Check("C13")
    build = Build()
    designs.search(c, reject=True)
    rng = c.rng
    T = THOROUGH
    s = calls_suite(c, build, 60 if not T else 600)
    check_calls(c, s)
    s.check_paths(["Ends"])
    log("calls checked")
    if build.hooks:
        u = Suite(c, build)
        insts = [i for i in I.structured(rng) if 2 < I.count_tree(i["order"], 10**6)[0] <= 1500]
        for _ in range(200 if not T else 3000):
            insts.append(I.sized(rng, 3, 9, 500, tree_lo=8))
        # whole searches, and beginnings of large ones
        for i in insts:
            x = rng.random()
            if x < .3:
                a = {"kind": "const", "v": 1.0}
            elif x < .7:
                a = {"kind": "calls", "v": [rng.choice([0, 1, 1, 1, .7]) for _ in
                                            range(rng.choice([3, 7, 20, 50]))]}
            else:
                a = {**random_accept(rng), "wrap": True}
            kw = {}
            if rng.random() < .4:
                kw = {"nthreads": rng.choice([2, 3, 5]),
                      "bound": rng.choice([None, None, 0, 1, 3])}
            u.add(rng.choice(["dev", "release"]), i, accept={**a, "log": True},
                  seed=rng.getrandbits(30),
                  observe={"steps": True, "gates": True, "seed": rng.getrandbits(30),
                           "sync_prob": rng.choice([0, .1, .5])}, **kw)
        u.execute(jobs=5)
        got = c12.check_decisions(c, u)
        if got:
            exact(c, got[0])
        log("logged decisions checked")
        for k in u.usable()[5::100][:3]:
            c.sample(u.describe_run(k))
    c.assumptions += ["K1 in known_findings.json: the number of remaining nodes may also be the "
                      "number of those that cannot be measured yet"]
    return c.finish()
