"""C20: the python bindings perform the call their arguments describe"""
import json
import re
import subprocess
import sys

from core import *
from runs import *
import designs

INV = ["AsSpecified"]
# the parameters, in their order
PARAMS = {"run": ["spacial_graph", "time_order", "do_search", "timeout", "nthreads",
                  "probabilistic", "task_bound"],
          "AcceptFunc": ["kind", "heavyside_parameters", "custom_func"],
          "SpacialGraph": ["graph"], "Paths": ["paths"], "Path": ["time", "space", "steps"],
          "PartialOrderGraph": ["graph"],
          "HeavysideParameters": [
              "cutoff", "lin_num_total_nodes_exp", "exp_num_total_nodes_exp",
              "exp_num_remaining_nodes_exp", "exp_diff_exp", "exp_num_measured_nodes_exp"]}
METHOD = {"graph": "into_py_graph", "order": "into_py_graph", "paths": "into_py_paths"}
SUB = "probabilistic."
EXPORTS = {"SpacialGraph", "PartialOrderGraph", "Paths", "Path", "run",
           SUB + "AcceptFunc", SUB + "HeavysideParameters"}


def text(x):
    return json.dumps(x, separators=(",", ":"))


def fl(x):
    """as Rust's {:?}"""
    s = repr(float(x))
    m = re.fullmatch(r"(-?[\d.]+)e([+-]?)0*(\d+)", s)
    if m:
        s = m[1].removesuffix(".0") + "e" + m[2].replace("+", "") + m[3]
    return s


def digits(n):
    return [] if n is None else [-1] if n < 0 else [int(x) for x in str(n)]


def big(n):
    return {"int": str(n)}


def number(rng, limit):
    if rng.random() < .35:
        return None
    x = rng.random()
    if x < .06:
        return rng.choice([-1, -2, -limit])
    if x < .16:
        return rng.choice([limit + 1, limit * 2, limit + 2 ** rng.randint(0, 20), 2 ** 64,
                           2 ** 70])
    if x < .5:
        return rng.choice([0, 1, 2, 3, 10, 255, 256, 999, 1000, 1001, 2**16 - 1,
                           min(limit, 2**16), min(limit, 2**31), min(limit, 2**32 - 1),
                           min(limit, 2**32), min(limit, 2**63), limit, limit - 1])
    return rng.randint(0, rng.choice([3, 100, 5000, limit]))


class Program:
    """builds the concrete commands and the abstract operations"""

    def __init__(self, rng):
        self.rng = rng
        self.kinds = []
        self.custom = set()     # accept objects with a python function
        self.cmds = []
        self.ops = []

    def of(self, kind):
        return [k + 1 for k, x in enumerate(self.kinds) if x == kind]

    def graph(self):
        n = self.rng.choice([0, 1, 1, 2, 3, 4])
        return [[self.rng.randrange(n + 3) for _ in range(self.rng.choice([0, 1, 1, 2, 3]))]
                for _ in range(n)]

    def order(self):
        n = self.rng.choice([0, 1, 1, 2, 3])
        return [[[self.rng.randrange(9), [self.rng.randrange(9) for _ in
                                          range(self.rng.choice([0, 0, 1, 2]))]]
                 for _ in range(self.rng.choice([0, 1, 1, 2]))] for _ in range(n)]

    def path(self):
        r = self.rng
        return [r.randrange(9), r.randrange(9), [[r.randrange(9) for _ in range(r.choice([0, 1, 2]))]
                                                 for _ in range(r.choice([0, 1, 2]))]]

    def emit(self, abstract, do, name, args, on=0, result=(), samples=()):
        """args: list of (parameter, value)"""
        rng = self.rng
        pos, named = [], {}
        if do == "call":
            order = PARAMS[name]
            given = dict(args)
            k = 0
            while k < len(order) and order[k] in given and rng.random() < .7:
                pos.append(given.pop(order[k]))
                k += 1
            items = list(given.items())
            rng.shuffle(items)
            named = dict(items)
        full = SUB + name if SUB + name in EXPORTS else name
        self.cmds.append({"do": do, "name": full, "on": on, "pos": pos, "named": named,
                          "result": [{"time": t, "space": s, "steps": st}
                                     for t, s, st in result],
                          "samples": [list(s) for s in samples]})
        base = {"op": "", "kind": "", "val": [], "refs": [], "search": "", "timeout": [],
                "nthreads": [], "bound": [], "seed": [], "accept": 0}
        self.ops.append({"op": {**base, **abstract},
                         "found": [text(p) for p in result],
                         "samples": [[fl(x) for x in s] for s in samples]})

    def new(self, kind):
        rng = self.rng
        if kind in ("graph", "order"):
            v = self.graph() if kind == "graph" else self.order()
            self.emit({"op": "new", "kind": kind, "val": [text(v)]}, "call",
                      "SpacialGraph" if kind == "graph" else "PartialOrderGraph",
                      [("graph", v)])
        elif kind == "path":
            t, s, st = v = self.path()
            self.emit({"op": "new", "kind": kind, "val": [text(v)]}, "call", "Path",
                      [("time", t), ("space", s), ("steps", st)])
        elif kind == "paths":
            refs = [rng.choice(self.of("path")) for _ in range(rng.choice([0, 1, 2, 3]))
                    if self.of("path")]
            self.emit({"op": "new", "kind": kind, "refs": refs}, "call", "Paths",
                      [("paths", [{"ref": r} for r in refs])])
        else:
            c = rng.choice([0, 1.5, -2, .25, 1e-9, 1e20, rng.random(), 3])
            exps = [rng.choice([0, 1, -1, 2, 3, 2**31 - 1, -2**31, rng.randrange(99)])
                    for _ in range(5)]
            self.emit({"op": "new", "kind": kind, "val": [fl(c), *map(str, exps)]}, "call",
                      "HeavysideParameters",
                      list(zip(PARAMS["HeavysideParameters"], [{"float": c}, *exps])))
        self.kinds.append(kind)

    def accept(self):
        rng = self.rng
        k = rng.choice(["BuiltinHeavyside"] * 3 + ["ParametrizedHeavyside"] * 4 + ["Custom"] * 4
                       + ["builtin", "", "custom", "BuiltinLinearSpace"])
        args, explicit = [], rng.random() < .7 or k != "BuiltinHeavyside"
        if explicit:
            args.append(("kind", k))
        refs = []
        if self.of("params") and rng.random() < (.85 if k == "ParametrizedHeavyside" else .3):
            refs = [rng.choice(self.of("params"))]
            args.append(("heavyside_parameters", {"ref": refs[0]}))
        elif rng.random() < .2:
            args.append(("heavyside_parameters", None))
        f = ""
        if rng.random() < (.85 if k == "Custom" else .3):
            v = rng.choice([0., 1., .5, rng.random(), 2.5, -1., 1e-12])
            f = fl(v)
            args.append(("custom_func", {"fn": [v]}))
        elif rng.random() < .2:
            args.append(("custom_func", None))
        self.emit({"op": "accept", "val": [k, f], "refs": refs}, "call", "AcceptFunc", args)
        fails = {"BuiltinHeavyside": False, "ParametrizedHeavyside": not refs,
                 "Custom": not f}.get(k, True)
        if not fails:
            self.kinds.append("accept")
            if k == "Custom":
                self.custom.add(len(self.kinds))

    def read(self):
        rng = self.rng
        refs = [k + 1 for k, x in enumerate(self.kinds) if x in METHOD]
        if not refs:
            return
        r = rng.choice(refs)
        op = rng.choice(["show", "show", "take"])
        self.emit({"op": op, "refs": [r]}, "method",
                  ("take_" if op == "take" else "") + METHOD[self.kinds[r - 1]], [], on=r)
        self.ops[-1]["kind"] = self.kinds[r - 1]

    def run(self):
        rng = self.rng
        if not self.of("graph"):
            return
        refs = [rng.choice(self.of("graph"))]
        args = [("spacial_graph", {"ref": refs[0]})]
        val = []
        if self.of("order") and rng.random() < .6:
            refs.append(rng.choice(self.of("order")))
            args.append(("time_order", {"ref": refs[1]}))
        elif rng.random() < .9:
            o = self.order()
            val = [text(o)]
            args.append(("time_order", {"foreign": o}))
        else:
            args.append(("time_order", {"stranger": 0}))
        op = {"op": "run", "refs": refs, "val": val}
        if rng.random() < .7:
            s = rng.random() < .6
            op["search"] = "yes" if s else "no"
            args.append(("do_search", s))
        for k, name, limit in (("timeout", "timeout", 2**32 - 1),
                               ("nthreads", "nthreads", 2**16 - 1),
                               ("bound", "task_bound", 2**32 - 1)):
            v = number(rng, limit)
            if k == "nthreads" and rng.random() < .4:
                v = rng.choice([0, 1, 1, 2])
            op[k] = digits(v)
            if v is not None:
                args.append((name, big(v)))
            elif k != "nthreads" and rng.random() < .3:
                args.append((name, None))
        samples = []
        if self.of("accept") and rng.random() < .7:
            op["accept"] = a = rng.choice(self.of("accept"))
            if a in self.custom and rng.random() < .6:
                # (more threads are refused)
                n = rng.choice([None, 0, 1])
                op["nthreads"] = digits(n)
                args = [x for x in args if x[0] != "nthreads"]
                if n is not None:
                    args.append(("nthreads", big(n)))
            seed = number(rng, 2**64 - 1)
            op["seed"] = digits(seed)
            args.append(("probabilistic", [{"ref": a}, None if seed is None else big(seed)]))
            samples = [[rng.choice([float(x), x + .5, x * 1e9]) for x in rng.sample(range(99), 7)]
                       for _ in range(rng.choice([1, 1, 3]))]
        elif rng.random() < .3:
            args.append(("probabilistic", None))
        found = [self.path() for _ in range(rng.choice([0, 1, 2, 4]))]
        self.emit(op, "call", "run", args, result=found, samples=samples)
        # whether it succeeds is decided by the specification; here it is only needed to
        # know the numbers of the objects
        ok = fits(op)
        ok = ok and (len(refs) == 2 or val)
        ok = ok and not (op.get("accept") in self.custom and (num(op["nthreads"]) or 0) > 1)
        if ok:
            self.kinds.append("paths")


def num(d):
    return None if not d else -1 if d == [-1] else int("".join(map(str, d)))


def fits(op):
    lim = [("timeout", 2**32 - 1), ("nthreads", 2**16 - 1), ("bound", 2**32 - 1)]
    if op.get("accept"):
        lim.append(("seed", 2**64 - 1))
    return all(num(op.get(k, [])) is None or 0 <= num(op[k]) <= m for k, m in lim)


def program(rng):
    p = Program(rng)
    for _ in range(rng.randint(3, 16)):
        x = rng.random()
        if x < .45:
            p.new(rng.choice(["graph", "graph", "order", "path", "paths", "params"]))
        elif x < .6:
            p.accept()
        elif x < .75:
            p.read()
        else:
            p.run()
    return p


def observed(e, r):
    """the result in the form of Python.tla"""
    op, v = e["op"], r["value"]
    val = []
    if r["out"] == "ok":
        if op["op"] in ("show", "take"):
            kind = e["kind"]
            val = [text(x) for x in v] if kind == "paths" and isinstance(v, list) else [text(v)]
        elif op["kind"] == "path":
            val = [text(v)]
    calls = []
    for c in r["calls"]:
        acc = c["accept"]
        returned = []
        if acc[0] == "custom":
            acc, returned = acc[:2], acc[1:]
        calls.append({"graph": text(c["graph"]), "order": text(c["order"]),
                      "search": c["search"],
                      "timeout": [[int(x) for x in t] for t in c["timeout"]],
                      "nthreads": [int(x) for x in c["nthreads"]],
                      "bound": [int(x) for b in c["bound"] for x in b],
                      "accept": acc, "returned": returned,
                      "seed": [int(x) for b in c["seed"] for x in b]})
    return {"out": r["out"], "val": val, "calls": calls, "warn": r["warnings"],
            "callbacks": r["callbacks"]}


def execute(exe, programs):
    base = scratch() / "python"
    base.with_suffix(".in").write_text("".join(json.dumps(p.cmds) + "\n" for p in programs))
    base.with_suffix(".out").write_text("")
    q = subprocess.run([str(exe), str(base.with_suffix(".in")), str(base.with_suffix(".out"))],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    lines = base.with_suffix(".out").read_text().splitlines()
    if q.returncode == 4:
        return q.stdout, None
    if q.returncode or len(lines) != len(programs) + 1:
        raise ToolError("the stand-in for python failed: " + q.stderr[-2000:])
    return set(json.loads(lines[0])), [json.loads(x) for x in lines[1:]]


STUB = """
import importlib, json, sys, types
package, names = sys.argv[1], json.loads(sys.argv[2])
sys.path.insert(0, package)
found = {}
for name in names:
    *where, last = name.split(".")
    module = None
    full = "mbqc_scheduling._lib"
    for part in ["", *where]:
        full += "." + part if part else ""
        if full not in sys.modules:
            sys.modules[full] = types.ModuleType(full)
            if module is not None:
                setattr(module, part, sys.modules[full])
        module = sys.modules[full]
    thing = type(last, (), {}) if last[0].isupper() else (lambda *a, **k: None)
    found[id(thing)] = name
    setattr(module, last, thing)
keep = [v for m in list(sys.modules.values()) for v in list(vars(m).values())
        if m.__name__.startswith("mbqc")]
public = {}
try:
    for prefix in ("", "probabilistic."):
        m = importlib.import_module(("mbqc_scheduling." + prefix).rstrip("."))
        for k in dir(m):
            if id(getattr(m, k)) in found:
                public[prefix + k] = found[id(getattr(m, k))]
except ImportError as e:
    # of something that is not there, or of something that is not available here?
    ours = ((e.name or "").startswith("mbqc_scheduling")
            and type(e).__name__ != "PackageNotFoundError")
    print(json.dumps([None, str(e) if ours else None]))
else:
    print(json.dumps([public, None]))
"""


def resolve(names):
    """what the names of the package are: names of the module"""
    p = subprocess.run([sys.executable, "-B", "-c", STUB, str(REPO / "python_lib/python"),
                        json.dumps(sorted(names))], cwd=scratch(), capture_output=True,
                       text=True, timeout=100)
    if p.returncode:
        return {x: x for x in names}, p.stderr.strip().splitlines()[-1] if p.stderr else "?"
    public, error = json.loads(p.stdout)
    return ({x: x for x in names} if public is None else public), error


def main():
    c = Check("C20")
    c.design("MCPython", designs.cfg({"MaxOps": 4 if not THOROUGH else 5, "MaxRuns": 1},
                                     ["AsAsked", "NoEffect", "OnlyRunsCall", "Shows"])
             + "PROPERTY Frame\n")
    exe = Build.py_shim()
    if exe is None:
        # the stand-in does not cover what the code uses; nothing can be said
        c.details["skipped"] = "the bindings do not compile with the stand-in for python"
        return c.finish()
    rng = c.rng
    programs = [program(rng) for _ in range(2500 if not THOROUGH else 40000)]
    names, results = execute(exe, [])
    if results is not None:
        # programs use the names of the package
        public, error = resolve(names)
        if error:
            c.violation("the package cannot be imported: " + error, {"error": error})
            return c.finish()
        for p in programs:
            for cmd in p.cmds:
                if cmd["do"] == "call":
                    cmd["name"] = public.get(cmd["name"], "(nothing)")
        names, results = execute(exe, programs)
    if results is None:
        c.violation("the module cannot be imported: " + names, {"error": names})
        return c.finish()
    missing = EXPORTS - names
    if missing:
        c.violation(f"not in the module: {sorted(missing)}",
                    {"missing": sorted(missing), "exported": sorted(names)})
    data = [[{**e, "got": observed(e, r)} for e, r in zip(p.ops, rs)]
            for p, rs in zip(programs, results)]

    def describe(st, r):
        j, k = int(st["c"]) - 1, int(st["p"])
        return (f"operation {k} of a program: {json.dumps(programs[j].cmds[k - 1])[:400]} "
                f"gave {json.dumps(results[j][k - 1])[:400]}",
                {"program": programs[j].cmds[:k], "observed": results[j][:k]})
    c.trace_check("TracePython", designs.cfg({}, INV), {"programs": data}, describe, len(data))
    stats = {}
    for d in data:
        for e in d:
            key = e["op"]["op"] + ":" + e["got"]["out"]
            stats[key] = stats.get(key, 0) + 1
    c.details["operations"] = stats
    c.sample({"program": programs[0].cmds, "observed": results[0]})
    c.assumptions.append("pyo3 and pauli_tracker_pyo3, which are not available offline, are "
                         "replaced by stand-ins; conversions between python and Rust values "
                         "are those of pyo3's documentation")
    return c.finish()
