#!/usr/bin/env python3
"""Builds the harness (the checks rebuild it from /repo's working tree anyway) and parses
the specifications."""
import subprocess
import sys
from pathlib import Path

sys.dont_write_bytecode = True
ROOT = Path(__file__).resolve().parent
sys.path.insert(0, str(ROOT / "lib"))
import core  # noqa: E402

core.Build()
core.Build.cli_shim()
core.Build.py_shim()
core.Build.results_shim()
core.Build().clock(1)
for f in sorted(core.SPEC.glob("*.tla")):
    p = subprocess.run(["java", "-DTLA-Library=/opt/veriftools/tlapm/lib/tlapm/stdlib",
                        "-cp", core.classpath(), "tla2sany.SANY", f.name],
                       cwd=core.SPEC, capture_output=True, text=True)
    if p.returncode or "*** Errors" in p.stdout:
        print(p.stdout[-3000:])
        sys.exit(f"{f.name} does not parse")
print("ok")
