#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough] [--replay FILE] ...: decide one property."""
import argparse, importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dst
from dst import core

MODULES = {}
def load(prop):
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "dst", "checks")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            with open(os.path.join(d, f)) as fh:
                src = fh.read()
            if prop is None or f'"{prop}"' in src:
                importlib.import_module("dst.checks." + f[:-3])

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=None)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only")
    a = ap.parse_args()
    if a.replay:
        import json
        load(json.load(open(a.replay))["property"])
        return core.replay(a.replay)
    load(a.property)
    if a.property not in core.SCENARIOS:
        print("unknown property", a.property, file=sys.stderr)
        return 2
    return core.run_property(a.property, a.tier, a.seed, a.workers, a.scale, a.only)

if __name__ == "__main__":
    sys.exit(main())
