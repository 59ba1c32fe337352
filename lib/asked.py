"""Logs of probabilistic searches, for TraceSearch.tla and TraceAsked.tla."""
import json


def segments(res, ins, run, alone):
    """(segments, costs of the completed schedules in the order of the log)"""
    reals = []
    segs = {}
    for e in res["log"]["events"]:
        k = e["k"]
        if k == "done":
            # (the schedules of tasks that make no step at all)
            reals += [[t, m] for t, m, _ in e["res"]]
            continue
        if k == "task":
            # a thread goes on with another task
            segs[("now", e["t"])] = e["task"]
            continue
        if k not in ("step", "acc"):
            continue
        key = ("task", segs.get(("now", e["t"]), -2))
        s = segs.get(key)
        if s is None:
            s = segs[key] = {"ins": ins, "run": run, "alone": alone,
                             "start": e["path"] if k == "step" else [], "events": []}
        ev = {"k": "A", "path": [], "s": [], "leaf": -1, "a": [], "v": 0, "real": 0}
        if k == "acc":
            ev.update(a=e["a"], v=e["v"], real=len(reals))
        elif e["f"]:
            ev.update(k="F", path=e["path"], s=e["s"])
        else:
            ev.update(k="B", path=e["path"], leaf=e["leaf"])
            if e["leaf"] >= 0:
                reals.append([len(e["path"]), e["leaf"]])
        s["events"].append(ev)
    return [s for k, s in segs.items() if k[0] == "task"], reals


def decisions(res):
    """(rejected prefixes, accepted prefixes): what the accept function was asked about,
    and whether the search went on with it"""
    rejected, accepted = {}, {}
    pending = {}
    for e in res["log"]["events"]:
        if e["k"] == "task":
            # the last one of the task before: had it been accepted, the search would have
            # left it, too
            p = pending.pop(e["t"], None)
            if p and p[1] is not None:
                rejected[json.dumps(p[0])] = p[0]
        elif e["k"] == "acc":
            if e["t"] in pending:
                pending[e["t"]][1] = e["v"]
        elif e["k"] == "step":
            p = pending.pop(e["t"], None)
            if p and p[1] is not None:
                taken = e["path"] == p[0]
                (accepted if taken else rejected)[json.dumps(p[0])] = p[0]
            if e["f"]:
                pending[e["t"]] = [e["path"] + [e["s"]], None]
    for p in pending.values():
        if p[1] is not None:
            rejected[json.dumps(p[0])] = p[0]
    return list(rejected.values()), list(accepted.values())
