#!/usr/bin/env python3
"""Makes spec/hard.json, a list of instances on each of which some narrow mistakes of the
search show, out of what hunt.cpp found:

  g++ -O2 -o /tmp/hunt tools/hunt.cpp
  for k in 1 2 3 4; do /tmp/hunt $k 600 150000 6 13 > /tmp/hunted/$k.jsonl & done; wait
  for k in 11 12 13; do /tmp/hunt $k 1500 250000 7 14 > /tmp/hunted/$k.jsonl & done; wait
  tools/gen_hard.py /tmp/hunted/*.jsonl
"""
import json
import sys
from collections import defaultdict
from pathlib import Path

TWICE = 2
found = []
for f in sys.argv[1:]:
    for line in open(f):
        if line.endswith("}\n"):
            found.append(json.loads(line))
left = defaultdict(lambda: TWICE)
by = defaultdict(list)
for k, x in enumerate(found):
    x["m"] = {tuple(m) for m in x["mistakes"]}
    for m in x["m"]:
        by[m].append(k)
for m, ks in by.items():
    left[m] = min(TWICE, len(ks))
chosen = []
pool = set(range(len(found)))
while any(left.values()):
    best, score = None, 0
    for k in pool:
        gain = sum(1 for m in found[k]["m"] if left[m])
        s = gain / (300 + found[k]["steps"])
        if s > score:
            best, score = k, s
    if best is None:
        break
    pool.remove(best)
    chosen.append(best)
    for m in found[best]["m"]:
        left[m] = max(0, left[m] - 1)
out = sorted((found[k]["steps"], json.dumps(found[k]["inst"], separators=(",", ":")))
             for k in chosen)
path = Path(__file__).resolve().parent.parent / "spec" / "hard.json"
path.write_text("[\n" + ",\n".join(f'{{"steps":{s},"inst":{i}}}' for s, i in out) + "\n]\n")
print(len(by), "mistakes,", len(out), "instances,", sum(s for s, _ in out), "steps")
