"""Scenarios of Iface.tla, made real in scratch directories."""
import hashlib
import itertools
import os
import shutil

from core import ToolError, run_adapter, scratch

FORMATS = ["serde_json", "bincode", "unknown"]
INPUTS = ["ok", "missing", "damaged", "other", "dir"]
OUTPUTS = ["fresh", "nested", "exists", "dir", "blocked", "full", "same"]
UNKNOWN = ["unknown", "json", "bincode2", "", "Serde_json", "yaml"]


def scenarios():
    for g, gf, o, of, p, out in itertools.product(FORMATS, INPUTS, FORMATS, INPUTS, FORMATS,
                                                  OUTPUTS):
        yield {"gfmt": g, "graph": gf, "ofmt": o, "order": of, "pfmt": p, "out": out}


class Bytes:
    """the inputs of instances in both formats"""

    def __init__(self, build):
        self.build = build
        self.cache = {}

    def prepare(self, insts):
        d = scratch() / "bytes"
        d.mkdir(exist_ok=True)
        cmds, where = [], []
        for k, i in enumerate(insts):
            for fmt in FORMATS[:2]:
                for what in ("graph", "order"):
                    f = d / f"{k}-{fmt}-{what}"
                    cmds.append({"op": "convert", "what": f"write_{what}", "format": fmt,
                                 "path": str(f), "adj": i["adj"], "order": i["order"]})
                    where.append((k, fmt, what, f))
        for r in run_adapter(self.build, "release", cmds):
            if set(r) != {"id"}:
                raise ToolError(f"cannot write the inputs: {r}")
        for k, fmt, what, f in where:
            self.cache[k, fmt, what] = f.read_bytes()
        shutil.rmtree(d)

    def get(self, k, fmt, what):
        return self.cache[k, fmt, what]


def damage(rng, data, fmt, what):
    if fmt == "bincode":
        x = rng.choice(["cut", "empty", "huge", "cut"])
        if x == "cut":
            return data[:rng.randrange(len(data))]
        if x == "empty":
            return b""
        return (1 << 60).to_bytes(8, "little") + data[8:]
    x = rng.choice(["cut", "cut", "empty", "type", "trail", "text"])
    if x == "cut":
        return data[:rng.randrange(len(data))]
    if x == "empty":
        return b""
    if x == "trail":
        return data + rng.choice([b"x", b" []", b"]"])
    if x == "text":
        return b"no json"
    return rng.choice([b'{"a": 1}', b'[["x"]]', b"[[-1]]", b"[[1.5]]", b"3", b"null",
                       b"[1]" if what == "graph" else b"[[[0]]]"])


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(root, n)
            rel = os.path.relpath(p, d)
            if os.path.islink(p):
                out[rel] = "link " + os.readlink(p)
            elif os.path.isdir(p):
                out[rel] = "dir"
            else:
                with open(p, "rb") as f:
                    out[rel] = hashlib.sha256(f.read()).hexdigest()
    return out


class Case:
    """one scenario in a directory of its own"""

    count = 0

    def __init__(self, rng, s, k, data):
        Case.count += 1
        self.s = s
        self.k = k
        self.dir = scratch() / f"case{Case.count}"
        self.dir.mkdir()
        d = self.dir
        self.names = {}
        self.fmt = {"g": s["gfmt"], "o": s["ofmt"], "p": s["pfmt"]}
        for x in self.fmt:
            if self.fmt[x] == "unknown":
                self.fmt[x] = rng.choice(UNKNOWN)
        for what, key, fmt, name in (("graph", "graph", s["gfmt"], "graph.in"),
                                     ("order", "order", s["ofmt"], "order.in")):
            f = d / name
            self.names[what] = f
            state = s[key]
            real = fmt if fmt != "unknown" else rng.choice(FORMATS[:2])
            if state == "ok":
                f.write_bytes(data.get(k, real, what))
            elif state == "other":
                other = "bincode" if real == "serde_json" else "serde_json"
                f.write_bytes(data.get(k, other, what))
            elif state == "damaged":
                f.write_bytes(damage(rng, data.get(k, real, what), real, what))
            elif state == "dir":
                f.mkdir()
        out = s["out"]
        if out == "fresh":
            self.out = d / "paths.out"
        elif out == "nested":
            self.out = d / "a" / "b" / "paths.out" if rng.random() < .5 else d / "new" / "p"
        elif out == "exists":
            self.out = d / "paths.out"
            # longer and shorter than what is going to be there
            self.out.write_bytes(b"old content " * rng.choice([0, 1, 1000]))
        elif out == "dir":
            self.out = d / "paths.out"
            self.out.mkdir()
        elif out == "blocked":
            (d / "plain").write_bytes(b"a file")
            self.out = d / "plain" / "paths.out"
        elif out == "full":
            # (a link, so that nothing can happen to the device itself)
            self.out = d / "paths.out"
            self.out.symlink_to("/dev/full")
        else:
            self.out = self.names["graph"]
        self.before = snapshot(d)

    def finish(self):
        """(loc, extra)"""
        after = snapshot(self.dir)
        rel = os.path.relpath(self.out, self.dir)
        parents = set()
        p = os.path.dirname(rel)
        while p:
            parents.add(p)
            p = os.path.dirname(p)
        loc = "same" if self.before.get(rel) == after.get(rel) else "changed"
        extra = 0
        for x in set(self.before) | set(after):
            if x == rel or self.before.get(x) == after.get(x):
                continue
            if x in parents and x not in self.before and after[x] == "dir":
                continue
            extra += 1
        return loc, extra

    def remove(self):
        shutil.rmtree(self.dir)


def read_back(build, cases):
    """the paths in the output files of the cases (None if there are none)"""
    out = [None] * len(cases)
    cmds, back = [], []
    for j, x in enumerate(cases):
        if x.out.is_file() and not x.out.is_symlink() and x.s["pfmt"] != "unknown":
            cmds.append({"op": "convert", "what": "read_paths", "format": x.s["pfmt"],
                         "path": str(x.out)})
            back.append(j)
    for j, r in zip(back, run_adapter(build, "release", cmds)):
        if r.get("ok"):
            out[j] = r["paths"]
    return out


INV = ["RightStatus", "Untouched", "NothingElse", "SamePaths", "SameCalls", "NotEarly"]


def check_iface(c, insts, runs, complete, describe):
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join(f"INVARIANT {x}\n" for x in INV)

    def d(st, r):
        k = int(st["c"]) - 1
        what, replay = describe(k)
        return (f"scenario {runs[k]['s']}: {what}: {runs[k]['out']}, output {runs[k]['loc']}, "
                f"{runs[k]['extra']} other files changed, parsed {runs[k]['parsed']}",
                {**replay, "run": runs[k]})
    c.trace_check("TraceIface", cfg, {"complete": complete,
                                      "insts": [{"adj": i["adj"], "order": i["order"]}
                                                for i in insts], "runs": runs}, d, len(runs))
