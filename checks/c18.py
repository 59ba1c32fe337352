"""C18: the provided accept functions"""
import math

from core import *
import designs

INV = ["Cuts", "Within", "Formula", "NoHeadroom", "Monotone", "Twins"]


def table(rng, n_entries, sizes=range(1, 8), heads=(-3, -1, 0, 1, 2, 3, 5, None), mem=4):
    """arguments: least space, current, maximum before, remaining, total"""
    out = []
    for n in rng.sample(sizes, 3):
        for r in range(n) if n < 8 else sorted({0, 1, 2, n // 2, n - 2, n - 1,
                                                 rng.randrange(n), rng.randrange(n)}):
            for h in heads:
                last, cur = rng.randint(0, mem), rng.randint(0, mem)
                m = max(last, cur)
                if h is None:
                    out.append({"min": -1, "cur": cur, "last": last, "r": r, "n": n})
                elif m + h >= 0:
                    out.append({"min": m + h, "cur": cur, "last": last, "r": r, "n": n})
    rng.shuffle(out)
    out = out[:n_entries]
    # some that differ in one argument only
    for e in rng.sample(out, min(20, len(out))):
        out.append({**e, "r": rng.randrange(e["n"])})
        if e["min"] >= 0:
            out.append({**e, "min": e["min"] + rng.randint(1, 3)})
    return out


def classify(vals, entries, lin):
    """(v, rank, full, log) of all the values of several functions on the entries"""
    flat = [x for vs in vals for x in vs if isinstance(x, (int, float)) and x > 0]
    full = {e["n"]: float(e["n"]) ** lin for e in entries}
    marks = sorted(set(flat) | set(full.values()))
    rank, k, before = {}, 0, None
    for x in marks:
        if before is None or x > before * (1 + 1e-11):
            k += 1
        rank[x] = k
        before = x
    out = []
    for vs in vals:
        col = []
        for e, x in zip(entries, vs):
            d = {"v": "odd", "rank": 0, "full": rank[full[e["n"]]], "log": -1}
            if isinstance(x, (int, float)) and x == 0:
                d["v"] = "zero"
            elif isinstance(x, (int, float)) and x > 0:
                d["v"] = "pos"
                d["rank"] = rank[x]
                lg = -(math.log(x) - lin * math.log(e["n"])) * 1000
                # (at the end of the range, the values lose their precision)
                if lg < 650000:
                    d["log"] = max(0, round(lg)) if lg > -1 else 0
            col.append({**e, **d})
        out.append(col)
    return out


def main():
    c = Check("C18")
    build = Build()
    c.design("Accept", designs.cfg({"MaxN": 4 if not THOROUGH else 6, "MaxExp": 2 if not
                                    THOROUGH else 3},
                                   ["LessRemaining", "MoreHeadroom", "FullWhenDone",
                                    "NoHeadroom"]))
    rng = c.rng
    groups = []
    par = {"cut2": 0, "lin": 2, "tot": 1, "rem": 1, "diff": 3, "meas": 1}
    # the built-in one, the default, and the parametrised one that equals it
    for _ in range(6 if not THOROUGH else 60):
        groups.append((par, ["builtin", "default", "param"]))
    for _ in range(60 if not THOROUGH else 1500):
        f = {"cut2": rng.choice([-4, -1, 0, 0, 1, 2, 3, 6]), "lin": rng.choice([-1, 0, 1, 2, 3]),
             "tot": rng.randint(0, 2), "rem": rng.randint(1, 3), "diff": rng.randint(1, 3),
             "meas": rng.randint(1, 3)}
        groups.append((f, ["param"]))
    # exponents that are not positive
    for _ in range(60 if not THOROUGH else 1500):
        f = {"cut2": rng.choice([-4, 0, 1]), "lin": rng.choice([-2, 0, 2]),
             **{x: rng.randint(-1, 2) for x in ("tot", "rem", "diff", "meas")}}
        groups.append((f, ["param"]))
    # many nodes, much memory
    large = len(groups)
    for _ in range(10 if not THOROUGH else 100):
        groups.append((par, ["builtin", "default", "param"]))
        # (so that all the numbers fit into TLC's integers)
        diff, meas = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (3, 1)])
        groups.append(({**par, "cut2": rng.choice([0, 7, 80]), "lin": rng.choice([0, 1, 2, 3]),
                        "diff": diff, "meas": meas}, ["param"]))
    cmds, tables = [], []
    for g, (f, kinds) in enumerate(groups):
        t = table(rng, 90) if g < large else table(
            rng, 90, (20, 100, 255, 256, 257, 300), (-30, 0, 1, 2, 5, 11, 40, None), 300)
        tables.append(t)
        for k in kinds:
            func = {"kind": k}
            if k == "param":
                func.update(cutoff=f["cut2"] / 2, lin=f["lin"], total=f["tot"],
                            remaining=f["rem"], diff=f["diff"], measured=f["meas"])
            # the first and the fourth argument are not used
            args = [[rng.choice([-1, e["min"], e["min"] + 2]), e["min"], e["last"],
                     rng.randint(0, 5), e["cur"], e["r"], e["n"]] for e in t]
            cmds.append({"op": "accept", "func": func, "args": args})
    res = {}
    data = []
    for profile in ("dev", "release"):
        res[profile] = run_adapter(build, profile, cmds)
        j = 0
        for (f, kinds), t in zip(groups, tables):
            rs = res[profile][j:j + len(kinds)]
            j += len(kinds)
            if any(bad(r) for r in rs):
                c.violation(f"accept function: {rs}", {"parameters": f, "kinds": kinds})
                continue
            cols = classify([r["values"] for r in rs], t, f["lin"])
            data.append({"f": f, "entries": cols[0],
                         "twins": [[{"v": x["v"], "rank": x["rank"]} for x in col]
                                   for col in cols[1:]],
                         "kinds": kinds, "profile": profile})

    def describe(st, r):
        g = data[int(st["c"]) - 1]
        e = g["entries"][int(st["p"]) - 1]
        return (f"{g['kinds']} ({g['profile']}) with {g['f']}: {e}",
                {"group": {x: g[x] for x in ("f", "kinds", "profile")}, "entry": e,
                 "twins": [t[int(st["p"]) - 1] for t in g["twins"]]})
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join(f"INVARIANT {x}\n" for x in INV)
    n = sum(len(g["entries"]) for g in data)
    c.trace_check("TraceAccept", cfg, {"groups": data}, describe, n)
    c.details["values"] = n
    c.sample({"f": data[0]["f"], "entries": data[0]["entries"][:3]})
    c.assumptions.append("exponents from -1 to 3 and up to 7 nodes (300 for exponents near the "
                         "built-in ones); the exponent of the value is "
                         "compared up to 0.1 %")
    return c.finish()
