"""Scripts of manual steps, and their validation with TraceManual.tla and TraceGraph.tla."""
import itertools
import json

from core import bad, run_adapter
import inst as I

INV = ["Ends", "AllRequestsFit", "InitialState"]


class Walker:
    """what a script writer knows about an instance: only used to make the scripts
    interesting, never to judge"""

    def __init__(self, deps):
        self.deps = deps
        self.done = set()

    def meas(self):
        return [v for v in self.deps if v not in self.done
                and all(d in self.done for d in self.deps[v])]

    def step(self, s):
        self.done |= set(s)


def valid_steps(meas):
    return [list(s) for k in range(1, len(meas) + 1) for s in itertools.combinations(meas, k)]


def histories(deps):
    """one history for each reachable set"""
    seen = {frozenset(): []}
    todo = [frozenset()]
    while todo:
        M = todo.pop()
        w = Walker(deps)
        w.done = set(M)
        for s in valid_steps(w.meas()):
            N = M | set(s)
            if N not in seen:
                seen[N] = seen[M] + [s]
                todo.append(N)
    return seen


def all_requests(n, longest):
    """all sequences of the nodes and one unknown number"""
    return [list(r) for k in range(longest + 1) for r in itertools.product(range(n + 1), repeat=k)]


def mutated(rng, meas, nodes, n):
    """a request which is probably invalid"""
    s = rng.sample(meas, rng.randint(0, len(meas)))
    for _ in range(rng.choice([1, 1, 2, 3])):
        x = rng.random()
        if x < 0.3 and s:
            s.insert(rng.randint(0, len(s)), rng.choice(s))
        elif x < 0.7 and nodes:
            s.insert(rng.randint(0, len(s)), rng.choice(nodes))
        elif x < 0.8:
            s.insert(rng.randint(0, len(s)), rng.choice([n, n + 1, n + 63, 10**6]))
        elif x < 0.9:
            s = s + s
        else:
            s = list(nodes) + s
    return s


def random_script(rng, deps, n, length, iterating):
    w = Walker(deps)
    script = []
    for _ in range(length):
        meas = w.meas()
        x = rng.random()
        if x < 0.5 and meas:
            if rng.random() < 0.15:
                s = list(meas)
            else:
                s = rng.sample(meas, rng.randint(1, min(len(meas), rng.choice([1, 2, 4]))))
            rng.shuffle(s)
            m = rng.choice(["in", "step", "copy"])
            if m != "copy":
                w.step(s)
            script.append({"m": m, "s": s})
        elif x < 0.53:
            script.append({"m": rng.choice(["in", "step", "copy"]), "s": []})
        elif iterating and x < 0.7:
            script += [{"m": "iter", "s": []}] * rng.choice([1, 2, 5])
        else:
            s = mutated(rng, meas, list(deps), n)
            m = rng.choice(["in", "step", "copy"])
            # (it is valid sometimes)
            if m != "copy" and len(set(s)) == len(s) and all(v in meas for v in s):
                w.step(s)
            script.append({"m": m, "s": s})
    return script


class Scripts:
    def __init__(self, check, build):
        self.check = check
        self.build = build
        self.cmds = []

    def add(self, profile, **cmd):
        self.cmds.append((profile, cmd))

    def execute(self, case_timeout=60.0):
        self.results = [None] * len(self.cmds)
        for profile in self.build.profiles:
            ks = [k for k, x in enumerate(self.cmds) if x[0] == profile]
            for k, r in zip(ks, run_adapter(self.build, profile,
                                            [self.cmds[k][1] for k in ks], case_timeout)):
                self.results[k] = r

    def validate(self, graph=False):
        index, insts, scripts, back = {}, [], [], []
        n = 0
        for k, r in enumerate(self.results):
            if r.get("skipped"):
                continue
            cmd = self.cmds[k][1]
            if graph:
                given = cmd["adj"]
            else:
                # without a graph: one without edges
                given = {"adj": cmd.get("adj") or [[] for _ in range(cmd["len"])],
                         "order": cmd["order"], "map": cmd.get("map") or []}
            key = json.dumps(given)
            if key not in index:
                insts.append(given)
                index[key] = len(insts)
            if bad(r):
                sc = {"ins": index[key], "space": False, "out": "bad", "init": 0, "events": []}
            else:
                sc = {"ins": index[key], "space": graph or cmd.get("adj") is not None,
                      "out": "ok", "init": r["init"], "events": r["events"]}
                n += len(r["events"])
            scripts.append(sc)
            back.append(k)
        self.check.details["requests"] = self.check.details.get("requests", 0) + n
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join(
            f"INVARIANT {x}\n" for x in INV)

        def describe(st, r):
            k = back[int(st["c"]) - 1]
            res = self.results[k]
            p = int(st["p"])
            ev = res["events"][p - 1] if p and "events" in res else {}
            return (f"script {k}, request {p} ({ev.get('m')} {ev.get('s')}): {st.get('err')} "
                    f"{ {x: res[x] for x in ('panic', 'crash', 'hang') if x in res} }",
                    {"profile": self.cmds[k][0], "command": self.cmds[k][1],
                     "result": res, "state": st})
        data = {"graphs" if graph else "insts": insts, "scripts": scripts}
        return self.check.trace_check("TraceGraph" if graph else "TraceManual", cfg, data,
                                      describe, len(scripts))
