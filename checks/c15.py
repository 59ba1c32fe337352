"""C15: the command line tool"""
import json
import os
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

from core import *
from runs import *
import c11
import c14
import designs
import files

LONG = {"s": "--search", "p": "--probablistic", "t": "--timeout", "n": "--nthreads",
        "b": "--task-bound"}
U32, U16 = 2**32 - 1, 2**16 - 1


def arg(k, v="", d=()):
    return {"k": k, "v": v, "d": list(d)}


def digits(n):
    return [int(x) for x in str(n)]


def option(rng, k):
    """(abstract argument, concrete arguments)"""
    if k in "sp":
        return arg(k), [rng.choice(["-" + k, LONG[k]])]
    limit = U16 if k == "n" else U32
    x = rng.random()
    if x < .75:
        v = rng.choice([0, 1, 2, 3, 9, 10, 17, 100, 255, 256, 1000, 4096, 32768, 65535, limit,
                        limit - 1, rng.randint(0, limit), rng.randint(0, 1000)])
        d, text = digits(v), str(v)
    elif x < .85:
        v = rng.choice([limit + 1, limit * 10, 2**64, 10**30, limit + rng.randint(1, 10**6)])
        d, text = digits(v), str(v)
    else:
        d, text = [], rng.choice(["x", "1.5", "", "1e3", "-3", "0x10", "1 ", "none", "1_000"])
    if text.startswith("-"):
        # as a separate argument, this would be an option
        forms = [[f"-{k}={text}"], [f"{LONG[k]}={text}"]]
    else:
        forms = [["-" + k, text], [LONG[k], text], [f"-{k}={text}"], [f"{LONG[k]}={text}"]]
        if text and d:
            forms.append([f"-{k}{text}"])
    return arg(k, d=d), rng.choice(forms)


def command_line(rng):
    npos = 6 if rng.random() < .88 else rng.choice([0, 1, 3, 5, 7, 8])
    names = ["a/graph.x", "serde_json", "o rder", "bincode", "out/../p", "weird", "more", "last"]
    if rng.random() < .5:
        names = [rng.choice(["g", "/tmp/g", "ä.json", "serde_json", "bincode", "x=y", "0", "s",
                             "12", "a b"]) for _ in names]
    pos = [(arg("pos", v), [v]) for v in names[:npos]]
    opts = [option(rng, k) for k in "sptnb" if rng.random() < .5]
    # flags may be combined
    if rng.random() < .06:
        opts.append((arg("x"), [rng.choice(["--frobnicate", "-z", "--sear", "--timeout-ms=3",
                                            "-q7", "--Search"])]))
    rng.shuffle(opts)
    if rng.random() < .03 and npos == 6:
        # an option without its value
        k = rng.choice([k for k in "tnb" if all(o[0]["k"] != k for o in opts)] or ["t"])
        if all(o[0]["k"] != k for o in opts):
            items = pos + opts + [(arg(k, d=[-1]), [rng.choice(["-" + k, LONG[k]])])]
            return [a for a, _ in items], [x for _, t in items for x in t]
    items = list(pos)
    for o in opts:
        items.insert(rng.randint(0, len(items)), o)
    line, text = [], []
    for a, t in items:
        # -s -p as -sp
        if a["k"] in "sp" and text and line[-1]["k"] in "sp" and text[-1] in ("-s", "-p") \
                and t[0] in ("-s", "-p") and rng.random() < .5:
            text[-1] += t[0][1]
        else:
            text += t
        line.append(a)
    return line, text


def shim_suite(c, exe, num):
    """command lines, and what the library gets from them"""
    rng = c.rng
    plan = [command_line(rng) + (rng.random() < .15,) for _ in range(num)]
    # each option alone
    pos = ["g", "serde_json", "o", "bincode", "p", "serde_json"]
    for k in "sptnb":
        for _ in range(12):
            a, t = option(rng, k)
            plan.append(([arg("pos", v) for v in pos] + [a], pos + t, False))
            plan.append(([a] + [arg("pos", v) for v in pos], t + pos, False))
    plan.append(([arg("pos", v) for v in pos], pos, False))
    plan.append(([], [], False))
    d = scratch() / "shim"
    d.mkdir()

    def one(j):
        line, text, fails = plan[j]
        out = d / f"{j}.json"
        env = dict(os.environ, MBQC_SHIM_OUT=str(out), RUST_BACKTRACE="0")
        if fails:
            env["MBQC_SHIM_FAIL"] = "1"
        try:
            rc = subprocess.run([str(exe)] + text, env=env, cwd=d, stdin=subprocess.DEVNULL,
                                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                timeout=30).returncode
        except subprocess.TimeoutExpired:
            rc = -1
        got = [json.loads(x) for x in out.read_text().splitlines()] if out.exists() else []
        return rc, got
    with ThreadPoolExecutor(6) as ex:
        res = list(ex.map(one, range(len(plan))))
    runs = []
    for (line, text, fails), (rc, got) in zip(plan, res):
        empty = {"pos": [], "s": False, "p": False, "t": [], "n": [], "b": []}
        g = dict(got[0]) if got else empty
        if got:
            if not g.pop("builtin"):
                g["p"] = "another function"
            micros = g["t"]
            if micros is None:
                g["t"] = []
            elif int(micros) % 1000:
                g["t"] = [-1]
            else:
                g["t"] = digits(int(micros) // 1000)
            g["n"] = digits(int(g["n"]))
            g["b"] = [] if g["b"] is None else digits(int(g["b"]))
        runs.append({"line": line, "fails": fails, "exit": rc if rc in (0, -1) else 1,
                     "called": len(got), "got": g})

    def describe(st, r):
        k = int(st["c"]) - 1
        return (f"arguments {plan[k][1]}: exit status {res[k][0]}, library called with "
                f"{res[k][1]}", {"arguments": plan[k][1], "run": runs[k], "state": st})
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join(
        f"INVARIANT {x}\n" for x in ("Refuses", "Runs", "RunsAsAsked"))
    c.trace_check("TraceCli", cfg, {"runs": runs}, describe, len(runs))
    c.sample({"arguments": plan[3][1], "called": res[3][1]})
    c.details["command_lines"] = len(runs)


def spell(rng, opts):
    out = []
    for k, v in opts:
        if v is True:
            out.append([rng.choice(["-" + k, LONG[k]])])
        else:
            out.append(rng.choice([["-" + k, str(v)], [LONG[k], str(v)], [f"{LONG[k]}={v}"]]))
    return out


def launch(exe, args, cwd, timeout, env=None):
    """(exit status or None, seconds, the largest number of threads seen)"""
    t = time.time()
    p = subprocess.Popen([str(exe)] + args, cwd=cwd, stdin=subprocess.DEVNULL,
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                         env=dict(env or os.environ, RUST_BACKTRACE="0"))
    threads = 0
    nap = .0005
    while True:
        rc = p.poll()
        if rc is not None:
            return rc, time.time() - t, threads
        try:
            threads = max(threads, len(os.listdir(f"/proc/{p.pid}/task")))
        except OSError:
            pass
        if time.time() - t > timeout:
            p.kill()
            p.wait()
            return None, time.time() - t, threads
        time.sleep(nap)
        nap = min(.02, nap * 1.5)


def whole(c, build, insts, plan):
    """plan: (scenario, instance, options, exact, invalid): the real binary"""
    rng = c.rng
    data = files.Bytes(build)
    data.prepare(insts)
    cases, args, mem, exes = [], [], [], []
    for s, k, opts, exact, invalid in plan:
        x = files.Case(rng, s, k, data)
        pos = [str(x.names["graph"]), x.fmt["g"], str(x.names["order"]), x.fmt["o"], str(x.out),
               x.fmt["p"]]
        items = [[v] for v in pos]
        for o in spell(rng, opts) + ([invalid] if invalid else []):
            items.insert(rng.randint(0, len(items)), o)
        cases.append(x)
        args.append([t for it in items for t in it])
        d = dict(opts)
        kw = {}
        if "p" in d:
            kw["accept"] = {"kind": "builtin"}
        if "n" in d:
            kw["nthreads"] = d["n"]
        if "b" in d:
            kw["bound"] = d["b"]
        if "t" in d:
            kw["timeout_ms"] = d["t"] * 1000
        mem.append(cmd_run(insts[k], "s" in d, **kw))
        exes.append(build.bin(rng.choice(["dev", "release"]), "cli"))
    with ThreadPoolExecutor(5) as ex:
        res = list(ex.map(lambda j: launch(exes[j], args[j], cases[j].dir, 60), range(len(plan))))
    done = [x.finish() for x in cases]
    back = files.read_back(build, cases)
    good = [j for j, r in enumerate(res) if r[0] == 0 and plan[j][3] != "valid"]
    memory = dict(zip(good, run_adapter(build, "release", [mem[j] for j in good])))
    runs = []
    for j, (s, k, opts, exact, invalid) in enumerate(plan):
        rc = res[j][0]
        if invalid:
            # (as if something could not be read)
            s = {**s, "graph": "missing"}
        m = memory.get(j, {})
        if bad(m) or m.get("skipped"):
            continue
        runs.append({"s": s, "ins": k + 1, "exact": exact,
                     "out": "ok" if rc == 0 else "bad" if rc is None or rc < 0 else "error",
                     "loc": done[j][0], "extra": done[j][1], "parsed": back[j] is not None,
                     "paths": back[j] or [], "memory": m.get("paths", []), "calls": [],
                     "mcalls": [], "endless": False, "least": 0, "took": 0})
    for x in cases:
        x.remove()

    def describe(k):
        return (f"arguments {args[k]}: exit status {res[k][0]}",
                {"arguments": args[k], "status": res[k][0]})
    files.check_iface(c, insts, runs, False, describe)
    c.details["whole_runs"] = len(runs)


def endless(c, build):
    """timeout and threads of searches that could go on forever"""
    rng = c.rng
    i = c11.one_layer(rng, 40)
    data = files.Bytes(build)
    data.prepare([i])
    good = [s for s in files.scenarios() if s["graph"] == s["order"] == "ok" and "unknown" not in
            (s["gfmt"], s["ofmt"], s["pfmt"]) and s["out"] == "fresh"]
    plan = [dict(s=True, t=1), dict(s=True, t=2, n=1), dict(s=True, t=1, n=0),
            dict(s=True, t=1, n=4), dict(s=True, t=1, n=3, b=2), dict(s=True, t=1, n=7, b=0),
            dict(s=True, t=1, p=True), dict(s=True, t=2, n=2, p=True), dict(s=True, t=0),
            dict(s=True, t=0, n=2), dict(t=5), dict(s=True, t=3, n=257)] * (1 if not THOROUGH else 4)
    plan = [(o, 1, None) for o in plan]
    # in a process whose time runs faster
    for t, scale in ((31, 50), (100, 100), (300, 500), (3600, 5000), (4295, 10000),
                     (32769, 10**5), (65537, 10**5), (86400, 10**5), (4294968, 10**7),
                     (2147484, 10**6), (2**31 + 5, 2 * 10**9), (U32, 4 * 10**9)):
        env = build.clock(scale, rng.choice([0, 50]), rng.getrandbits(30))
        if env:
            n = rng.choice([0, 1, 1, 2, 3])
            plan.append((dict(s=True, t=t, n=n), scale, env))
    runs, cases = [], []
    for o, _, _ in plan:
        x = files.Case(rng, rng.choice(good), 0, data)
        text = [str(x.names["graph"]), x.fmt["g"], str(x.names["order"]), x.fmt["o"], str(x.out),
                x.fmt["p"]]
        for t in spell(rng, list(o.items())):
            text = t + text if rng.random() < .5 else text + t
        cases.append((x, text))
    exes = [build.bin(rng.choice(["dev", "release"]), "cli") for _ in plan]
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda j: launch(exes[j], cases[j][1], cases[j][0].dir, 45, plan[j][2]),
                          range(len(plan))))
    out = files.read_back(build, [x for x, _ in cases])
    for j, (o, scale, _) in enumerate(plan):
        rc, took, threads = res[j]
        n, t = o.get("n", 1), o["t"]
        runs.append({"search": bool(o.get("s")), "n": n, "timed": t >= 1,
                     # (milliseconds, or more when the time runs faster)
                     "due": 1000 * t // scale, "took": int(took * 1000),
                     # a thread without a task may as well not exist
                     "tasks": min(n, o.get("b", 10**6) + 1),
                     "hung": rc is None, "exit": 0 if rc == 0 else 1,
                     "threads": threads, "parsed": out[j] is not None,
                     "paths": len(out[j] or [])})
        cases[j][0].remove()

    def describe(st, r):
        k = int(st["c"]) - 1
        return (f"arguments {cases[k][1]}: {runs[k]}", {"arguments": cases[k][1],
                                                        "run": runs[k]})
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join(
        f"INVARIANT {x}\n" for x in ("Ends", "NotEarly", "Threads", "HasResult"))
    c.trace_check("TraceEndless", cfg, {"runs": runs}, describe, len(runs))
    c.details["endless"] = runs


def main():
    c = Check("C15")
    build = Build()
    shim = build.cli_shim()
    c.design("Cli", designs.cfg({"MaxLen": 1 if not THOROUGH else 3},
                                ["Faithful", "Refused"]))
    rng = c.rng
    T = THOROUGH
    if shim:
        shim_suite(c, shim, 1500 if not T else 20000)
        log("command lines parsed")
    insts = [i for i in I.structured(rng) if i["order"] and 1 < len(i["adj"]) <= 7
             and I.count_tree(i["order"], 10**6)[0] <= 3000][:8]
    for _ in range(20 if not T else 100):
        insts.append(I.sized(rng, 2, 9, 3000))
    plan = []
    every = list(files.scenarios())
    good = [s for s in every if files_ok(s)]
    for s in rng.sample(every, 350 if not T else len(every)) + good * (8 if not T else 60):
        opts, exact = [], "steps"
        if rng.random() < .75:
            opts.append(("s", True))
            if rng.random() < .4:
                n = rng.choice([0, 1, 2, 3, 5])
                opts.append(("n", n))
                exact = "costs" if n > 1 else exact
            if rng.random() < .3:
                opts.append(("b", rng.choice([0, 1, 3, 1000])))
            if rng.random() < .2:
                opts.append(("p", True))
                exact = "valid"
            if rng.random() < .2:
                opts.append(("t", rng.choice([60, 3600, U32])))
        elif rng.random() < .5:
            opts.append(rng.choice([("n", 3), ("p", True), ("b", 2), ("t", 100)]))
        rng.shuffle(opts)
        invalid = None
        if rng.random() < .1:
            invalid = rng.choice([["-z"], ["--nonsense"], ["seven"]] +
                                 ([["-n", "65536"], ["-n", "x"], ["--nthreads=-1"]]
                                  if all(o[0] != "n" for o in opts) else []) +
                                 ([["-t", "1.5"], ["--timeout=4294967296"]]
                                  if all(o[0] != "t" for o in opts) else []) +
                                 ([["-b", "-1"], ["--task-bound", "many"]]
                                  if all(o[0] != "b" for o in opts) else []))
        plan.append((s, rng.randrange(len(insts)), opts, exact, invalid))
    whole(c, build, insts, plan)
    log("whole runs")
    endless(c, build)
    if not shim:
        c.assumptions.append("the tool could not be linked to the stand-in for the library; the "
                             "task bound is therefore not checked")
    return c.finish()


def files_ok(s):
    return s["graph"] == s["order"] == "ok" and s["out"] in ("fresh", "nested", "exists", "same") \
        and "unknown" not in (s["gfmt"], s["ofmt"], s["pfmt"])
