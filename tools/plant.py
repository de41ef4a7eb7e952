#!/opt/venv/bin/python
"""plant.py [id ...]: judge planted bugs of /verif/seeded in scratch copies of /repo and /verif.

For every id: demo on the unchanged tree (0), patch, build, stable tests, demo (not 0), quick check of
its property (exit 1 with VIOLATION).  Works in a private mount namespace: the copies are mounted over
/repo and /verif, so nothing real is touched.  --all-checks also runs every other check (information)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", []) or [])

def one(i, opts):
    d = tempfile.mkdtemp(prefix="plant-")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        os.mkdir(d + "/verif")
        for e in os.listdir("/verif"):
            if e not in ("seeded", ".git", "replays"):
                subprocess.run(["cp", "-a", "/verif/" + e, d + "/verif/"], check=True)
        shutil.copytree("/verif/seeded/" + i, d + "/bug")
        prop = json.load(open(d + "/bug/meta.json"))["property"]
        checks = {c["property_id"] if "property_id" in c else c["property"]: c for c in json.load(open("/verif/MANIFEST.json"))["checks"]}
        script = f"""
mount --bind {d}/repo /repo; mount --bind {d}/verif /verif
mkdir {d}/demo; cp -a {d}/bug/. {d}/demo/; rm -f {d}/demo/*.diff {d}/demo/meta.json
cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD0-FAIL
timeout 300 bash {d}/demo/demo.sh >{d}/demo0.log 2>&1; echo demo0=$?
git apply {d}/bug/patch.diff || echo APPLY-FAIL
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD-FAIL
timeout 300 bash {d}/demo/demo.sh >{d}/demo1.log 2>&1; echo demo1=$?
{'bash /opt/vp/test.sh ' + d + '/t.json >/dev/null 2>&1' if 'notest' not in opts else ''}
cd /verif
DST_WORKERS=2 timeout 900 ./run.py {prop} --tier quick --seed 1 > {d}/check.log 2>&1; echo check=$?
"""
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", script], capture_output=True, text=True)
        out = r.stdout
        tests = ""
        if os.path.exists(d + "/t.json"):
            t = json.load(open(d + "/t.json"))
            tests = str({k: len(v) if isinstance(v, (list, dict)) else v for k, v in t.items()})
        chk = open(d + "/check.log").read().strip().splitlines() if os.path.exists(d + "/check.log") else []
        demo1 = open(d + "/demo1.log").read().strip().splitlines()[-1:] if os.path.exists(d + "/demo1.log") else []
        demo0 = open(d + "/demo0.log").read().strip().splitlines()[-1:] if os.path.exists(d + "/demo0.log") else []
        return f"{i} [{prop}] {' '.join(out.split())} tests={tests}\n    demo0: {demo0}\n    demo1: {demo1}\n    check: {' | '.join(chk[-3:])[:400]} {r.stderr[-300:]}"
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    opts = [a[2:] for a in sys.argv[1:] if a.startswith("--")]
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir("/verif/seeded"))
    path = "/verif/tools/plant_results.json"
    res = json.load(open(path)) if os.path.exists(path) else {}
    with ThreadPoolExecutor(4) as ex:
        for i, s in zip(ids, ex.map(lambda i: one(i, opts), ids)):
            print(s, flush=True)
            res[i] = "caught" if "check=1" in s and "VIOLATION" in s else "missed"
            if not ("demo0=0" in s and "demo1=0" not in s and "demo1=" in s):
                res[i] += " (demonstration not valid)"
    res = {k: v for k, v in sorted(res.items()) if os.path.exists("/verif/seeded/" + k)}
    json.dump(res, open(path, "w"), indent=1)

main()
