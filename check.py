#!/usr/local/bin/python3
"""check.py <property>: decides one property for the current working tree of /repo."""
import importlib
import sys
import traceback
from pathlib import Path

sys.dont_write_bytecode = True
ROOT = Path(__file__).resolve().parent
sys.path[:0] = [str(ROOT / "lib"), str(ROOT / "checks")]


def main():
    prop = sys.argv[1]
    try:
        return importlib.import_module(prop.lower()).main()
    except Exception:
        traceback.print_exc()
        print("tool error", flush=True)
        return 2


if __name__ == "__main__":
    sys.exit(main())
