"""C10: the timer"""
from concurrent.futures import ThreadPoolExecutor

from core import *
import designs

INV = ["Ends", "TimerIsRight", "EverythingUsed"]


def judge(c, cmds, results):
    """cmds: profile, command, scale of the time"""
    scripts, back = [], []
    for k, r in enumerate(results):
        if r.get("skipped"):
            continue
        base = {"k": "", "a": 0, "b": 0, "d": 0, "r": False}
        unit, scale = cmds[k][1].get("unit", 1), cmds[k][2]
        scripts.append({"out": "bad" if bad(r) else "ok", "slack": 10_000_000 * scale // unit,
                        "prompt": 4_000_000 * scale // unit,
                        "events": [{**base, **e} for e in r.get("events", [])]})
        back.append(k)

    def describe(st, r):
        k = back[int(st["c"]) - 1]
        return (f"script {cmds[k][1]['script']} (time x {cmds[k][2]}): {st.get('err')} "
                f"{ {x: results[k][x] for x in ('panic', 'crash', 'hang') if x in results[k]} }",
                {"profile": cmds[k][0], "command": cmds[k][1], "result": results[k], "state": st})
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join(f"INVARIANT {x}\n" for x in INV)
    c.trace_check("TraceTimer", cfg, {"scripts": scripts}, describe, len(scripts))


def main():
    c = Check("C10")
    build = Build()
    designs.timer(c)
    rng = c.rng
    cmds = []

    def add(script, **kw):
        cmds.append((rng.choice(["dev", "release"]), {"op": "timer", "script": script, **kw}, 1))

    q = {"do": "query"}
    drop = {"do": "drop"}

    def start(ms):
        return {"do": "start", "ms": ms}

    def wait(ms):
        return {"do": "wait", "ms": ms}

    def until(ms, threads=1):
        return {"do": "await", "ms": ms, "threads": threads}
    reps = 1 if not THOROUGH else 12
    for _ in range(reps):
        # never started
        for default in (False, True):
            add([q, wait(rng.choice([0, 5, 30])), q, until(30, 3), q, drop], default=default)
            add([drop], default=default)
        # fires, for everybody, and stays
        for ms in [0, 0.001, 0.1, 1, 2.5, 7, 20, 50, 120, 300] + \
                [rng.uniform(0, 100) for _ in range(10)]:
            add([start(ms), q, until(ms + 12000, rng.choice([1, 2, 4, 8])), q,
                 wait(rng.choice([0, 1, 20, 60])), q, q, drop])
            add([wait(rng.choice([0, 3])), start(ms), until(ms + 12000), drop])
        # second granularity
        add([start(1300), wait(900), q, until(14000, 4), wait(300), q, drop])
        add([start(2050), wait(1030), q, wait(500), q, until(14000, 2), q, drop])
        # dropped at any time
        for ms in (0, 0.05, 0.3, 1, 3, 10):
            for _ in range(12):
                t = max(0, rng.choice([0, 0.02, 0.1, ms, ms, ms - 0.05, ms + 0.05, ms / 2,
                                       2 * ms]) + rng.uniform(-.05, .05))
                add([start(ms)] + rng.choice([[], [q]]) + ([wait(t)] if t else []) +
                    rng.choice([[], [q], [q, q]]) + [drop])
        # more than fits into a few bits
        for ms in (2**32, 2**32 / 1000 + 3, 2**31 / 1000 + 2, 2**16, 2**32 * 1000., 2**32 + 5,
                   2**48, 2**64 / 1e6 + 4, 2**63 / 1e6 + 4, 2**64 / 1e3 + 4):
            add([start(ms), until(rng.choice([60, 150, 400]), 2), q, drop])
        # much too long ones, dropped soon
        for ms in (5000, 15000, 60000, 3600000, 86400000 * 365, 1e13, None):
            for t in (0, 0.01, 0.3, 2, 30):
                add([start(ms)] + ([wait(t)] if t else []) + [q, drop])
            add([start(ms), until(60, 4), drop])
    # with spurious wake-ups, and when time runs faster
    fast = []
    for ms in (3, 20, 70, 150, 400):
        for _ in range(4 * reps):
            fast.append((1, 1, [start(ms)] + rng.choice([[], [q]]) +
                         rng.choice([[until(ms + 12000, rng.choice([1, 2])), q],
                                     [wait(ms / 2), q]]) + [drop]))
    s = 1000.
    for scale, unit, secs in ((1000, 10**3, (31, 100, 601)),
                              (20000, 10**5, (1801, 3600.5, 4294.9, 4295, 7201)),
                              (200000, 10**5, (32769, 65537, 86400)),
                              (2 * 10**6, 10**6, (4294968, 2147484, 2592000, 604800)),
                              (2 * 10**7, 10**7, (31536000, 40000000)),
                              (2 * 10**9, 10**8, (2**31 + 5, 2**32 - 1, 4 * 10**9))):
        for d in secs:
            for _ in range(reps):
                slack = 10 * scale
                x = [start(d * s), q]
                for part in (.3, .5, .1):
                    x += [wait(d * s * part), q]
                fast.append((scale, unit, x + [until((d + slack) * s), q, drop]))
                fast.append((scale, unit, [start(d * s), q, wait(d * s * rng.random() * .6), q,
                                           drop]))
    rng.shuffle(cmds)
    results = [None] * len(cmds)
    for profile in build.profiles:
        ks = [k for k, x in enumerate(cmds) if x[0] == profile]
        for k, r in zip(ks, run_adapter(build, profile, [cmds[k][1] for k in ks], 45., jobs=4)):
            results[k] = r
    log("timers used")
    for k in (1, 40, 80):
        c.sample({"command": cmds[k][1], "result": results[k]})

    def group(scale, spurious, env, profile, part):
        return part, run_adapter(build, profile, [x[1] for x in part], 45., jobs=2, env=env)
    groups = []
    for scale, unit in dict.fromkeys((a, b) for a, b, _ in fast):
        some = [(rng.choice(build.profiles), {"op": "timer", "unit": unit, "script": x}, scale)
                for a, b, x in fast if (a, b) == (scale, unit)]
        for spurious in (0, 60):
            part = some[spurious > 0::2] if scale > 1 else some if spurious else []
            env = build.clock(scale, spurious, rng.getrandbits(30))
            for profile in build.profiles if env else []:
                of = [x for x in part if x[0] == profile]
                if of:
                    groups.append((scale, spurious, env, profile, of))
    with ThreadPoolExecutor(6) as ex:
        for part, rs in ex.map(lambda g: group(*g), groups):
            cmds += part
            results += rs
            c.details["accelerated"] = c.details.get("accelerated", 0) + len(part)
    log("accelerated timers used")
    judge(c, cmds, results)
    c.assumptions += ["'soon' means within 10 s and 'promptly' within 4 s, because the checks may "
                      "run on a busy machine", "a timer is started at most once"]
    return c.finish()
