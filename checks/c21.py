"""C21: the benchmark programs do what their arguments say and report what they found"""
import json
import subprocess
from fractions import Fraction

from core import *
from runs import *
import designs

INV = ["AsAsked", "NewSeeds", "Reported", "AsDense", "Independent", "InTime", "Timeouts",
       "ProblemsSane", "Refuses"]
KINDS = ["constant", "reziprocal_linear", "reziprocal_square_root"]


def execute(exe, args, seed, k):
    d = scratch() / f"bench{k}"
    d.mkdir()
    log_file = d / "calls"
    env = dict(os.environ, CALLS=str(log_file), CALLS_SEED=str(seed))
    p = subprocess.Popen([str(exe), *args], cwd=d, env=env, stdout=subprocess.DEVNULL,
                         stderr=subprocess.PIPE, text=True)
    return d, p


def rows(d):
    f = d / "calls"
    return [json.loads(x) for x in f.read_text().splitlines()] if f.exists() else []


def density(kind, fr):
    return {"kind": kind, "num": fr.numerator, "den": fr.denominator}


def main():
    c = Check("C21")
    for size, full in ((4, "FALSE"), (4 if THOROUGH else 3, "TRUE")):
        c.design("Bench", designs.cfg({"Size": size, "Middle": 1, "Full": full},
                                      ["Columns", "Asked", "Statistics"]))
    exe = Build.results_shim()
    if exe is None:
        c.details["skipped"] = "the programs do not compile with the stand-in for the library"
        return c.finish()
    rng = c.rng
    jobs = []
    for n in [2, rng.choice([3, 4, 5]), rng.choice([8, 20, 30])] * (1 if not THOROUGH else 4):
        jobs.append(("density", n, rng.choice([3, 6, 11, 15, 18]) if n < 16 else 11))
    for k in range(3 if not THOROUGH else 9):
        # each kind of density, for the edges and for the corrections
        kinds = [KINDS[k % 3], KINDS[(k + SEED + k // 3) % 3]]
        fr = [rng.choice([Fraction(1, 2), Fraction(1, 4), Fraction(4, 5), Fraction(1, 5)])
              for _ in kinds]
        jobs.append(("node", *zip(kinds, fr)))
    rng.shuffle(jobs)
    whole = next(k for k, j in enumerate(jobs) if j[0] == "node")
    wrong = []
    for bad_value in (Fraction(3, 2), Fraction(-1, 2), Fraction(1001, 1000)):
        a = [str(float(bad_value)), "0.5"]
        if rng.random() < .5:
            a.reverse()
        wrong.append((bad_value, ["node", "--", *a, rng.choice(KINDS), rng.choice(KINDS)]))
        wrong.append((bad_value, ["density", "--", "3", str(float(bad_value * 22))]))
    started = []
    for k, j in enumerate(jobs):
        if j[0] == "density":
            args = ["density", str(j[1]), str(j[2])]
        else:
            args = ["node", str(float(j[1][1])), str(float(j[2][1])), j[1][0], j[2][0]]
        started.append((args, *execute(exe, args, rng.getrandbits(40), k)))
    for k, (_, args) in enumerate(wrong):
        started.append((args, *execute(exe, args, 1, f"wrong{k}")))
    runs, back, refused = [], [], []
    for k, (args, d, p) in enumerate(started):
        try:
            err = p.communicate(timeout=240)[1]
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            err = "timed out"
        outputs = list(d.glob("output/*.json"))
        lines = rows(d)
        if k >= len(jobs):
            v = wrong[k - len(jobs)][0]
            refused.append({"num": v.numerator, "den": v.denominator,
                            "exit": 1 if p.returncode else 0, "calls": len(lines),
                            "outputs": len(outputs)})
            continue
        if p.returncode or len(outputs) != 1:
            c.violation(f"results {' '.join(args)}: exit {p.returncode}, "
                        f"{len(outputs)} output files", {"args": args, "stderr": err[-2000:]})
            continue
        out = json.loads(outputs[0].read_text())
        res = out["results"]
        job = jobs[k]
        if job[0] == "density":
            blocks = [{"n": job[1], "full": False, "edge": density("constant", Fraction(job[2], 22)),
                       "correction": density("constant", Fraction(m, 22))}
                      for m in range(1, len(res[0]) + 1)]
        else:
            blocks = [{"n": n, "full": n - 2 < len(res[8]), "edge": density(*job[1]),
                       "correction": density(*job[2])}
                      for n in range(2, len(res[0]) + 2)]
        avg, at = out["num_average"], 0
        for i, b in enumerate(blocks):
            size = avg * (3 if b["full"] else 2)
            part = [x[0] for x in lines[at:at + size]]
            at += size
            if i == len(blocks) - 1:
                # (what is too much must not be overlooked)
                part += [x[0] for x in lines[at:]]
            cols = 8 if b["full"] else 4
            b.update(rows=part, threads=out["ncpus"],
                     timeout=next((r[2] for r in part if r[2] >= 0), -1),
                     means=[thousand(res[2 * m], i) for m in range(cols)],
                     devs=[thousand(res[2 * m + 1], i) for m in range(cols)])
        partial = job[0] == "node" and k != whole and not THOROUGH
        if partial:
            blocks = blocks[:8]
        problems = [{"adj": x[1], "order": x[2]} for x in lines if len(x) == 3]
        # each is sampled with its calls
        problems = [x for m, x in enumerate(problems) if m == 0 or problems[m - 1] != x]
        rng.shuffle(problems)
        runs.append({"walltime": out["walltime"] * 3600, "buffer": 0, "average": avg,
                     "partial": partial, "blocks": blocks,
                     "problems": problems[:150 if not THOROUGH else 600]})
        back.append(args)
    log("programs executed")

    def describe(st, r):
        j, k = int(st["c"]) - 1, int(st["p"])
        b = runs[j]["blocks"][k - 1] if k else {}
        return (f"results {' '.join(back[j])}, block {k}",
                {"args": back[j], "block": {**b, "rows": b.get("rows", [])[:20]},
                 "state": {x: str(y)[:500] for x, y in st.items()}})
    calls = sum(len(b["rows"]) for r in runs for b in r["blocks"])
    if runs:
        c.trace_check("TraceBench", designs.cfg({}, INV), {"runs": runs, "refused": refused},
                      describe, calls, heap="10g")
        c.sample({"args": back[0], "first_calls": runs[0]["blocks"][0]["rows"][:4]})
    c.details.update(calls=calls, problems=sum(len(r["problems"]) for r in runs),
                     blocks=sum(len(r["blocks"]) for r in runs), refused=refused)
    c.assumptions.append("the density of edges and orders and the independence of problems are "
                         "tested with 6.6 standard deviations")
    return c.finish()


def thousand(col, i):
    x = col[i] if i < len(col) else None
    return -10**6 if x is None else max(-10**6, min(10**6, round(x * 1000)))
