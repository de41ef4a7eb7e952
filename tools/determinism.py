#!/opt/venv/bin/python
"""determinism.py [ID ...] [--scale X]: the same seed must explore exactly the same executions whatever the
hash seed and the number of worker processes are.  Compares the evidence of several runs of the quick search."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
scale = "0.2"
if "--scale" in args:
    i = args.index("--scale"); scale = args[i + 1]; del args[i:i + 2]
ids = args or [c["property"] if "property" in c else c["property_id"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
bad = 0
for p in ids:
    seen = []
    for hs, w in (("0", "8"), ("4711", "3"), ("random", "8")):
        env = dict(os.environ, PYTHONHASHSEED=hs, DST_WORKERS=w, DST_SCALE=scale)
        d = tempfile.mkdtemp()
        env["DST_EVIDENCE"] = d
        r = subprocess.run([sys.executable, VERIF + "/run.py", p, "--tier", "quick", "--seed", "5"], env=env, capture_output=True, text=True)
        c = json.load(open(f"{d}/{p}.json"))["coverage"]
        shutil.rmtree(d)
        seen.append((r.returncode, c["history_digest"], c["simulated_runs"], c["simulated_clock_cycles"], c["items_checked"], json.dumps(c["faults_injected"]), c["distinct_states_reached"]))
    ok = len(set(seen)) == 1
    bad += not ok
    print(p, "identical" if ok else "DIFFERENT", seen[0][1:3] if ok else seen, flush=True)
sys.exit(1 if bad else 0)
