#!/usr/bin/env python3
"""Regenerates spec/behaviours.json: schedules of wrong variants of Threaded.tla on which
the result is wrong.  They are replayed in the real code by the check of C05 (which has to
give the right result on them), because they are the orders of the critical sections on
which such mistakes show.  Takes a few minutes."""
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(ROOT / "lib"), str(ROOT / "checks")]
import core      # noqa: E402
import designs   # noqa: E402

c = core.Check("corpus")
out = []
for mutant in ("overwrite", "blind", "sync", "stale", "noinit"):
    for size, workers, num, keep in ((3, 2, 8000, 30), (3, 3, 8000, 20), (4, 2, 1500, 30),
                                     (4, 3, 1500, 20)):
        got = {}
        for off in range(3):
            for b in designs.behaviours(c, size, workers, num, seed_offset=off, mutant=mutant):
                got.setdefault(json.dumps([b["raw"], b["bound"], b["sched"]]), b)
            if len(got) >= keep:
                break
        # prefer different instances, and short schedules
        bs = sorted(got.values(), key=lambda b: (len(b["sched"]), json.dumps(b["raw"])))
        seen, first, rest = set(), [], []
        for b in bs:
            k = json.dumps(b["raw"])
            (rest if k in seen else first).append(b)
            seen.add(k)
        bs = (first + rest)[:keep]
        print(mutant, size, workers, len(got), "kept", len(bs), flush=True)
        out += [{"mutant": mutant, "workers": workers, "raw": b["raw"], "bound": b["bound"],
                 "sched": b["sched"]} for b in bs]
(core.SPEC / "behaviours.json").write_text(
    "[\n" + ",\n".join(json.dumps(b, separators=(",", ":")) for b in out) + "\n]\n")
