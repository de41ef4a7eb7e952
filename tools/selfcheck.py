#!/opt/venv/bin/python
"""setup_cmd: everything imports, the manifest agrees with the properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
from dst import core
run.load(None)
ids = {json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))}
man = json.load(open(os.path.join(V, "MANIFEST.json")))
claimed = {c["property"] for c in man["checks"]}
assert claimed == set(core.SCENARIOS) and claimed | {n["property"] for n in man["not_applicable"]} == ids
print(len(claimed), "checks ready")
