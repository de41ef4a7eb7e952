"""Runner: seeded search over plans, minimisation, replay, evidence."""
import copy, hashlib, json, multiprocessing, os, random, sys, time, traceback
from . import REPO, VERIF
from .bench import Bench, Violation, HarnessError

SCENARIOS = {}          # property -> [Scenario]
META = {}               # property -> dict(rule=..., real=[...], stub=[...], assumptions=[...])


class Scenario:
    """A family of runs.  Subclasses give configs/build/gen/run; a plan is plain JSON data, and
    `run` is a pure function of (configuration, plan)."""
    name = "scenario"
    quick, thorough = 40, 800            # runs per configuration
    lists = ("ops",)                     # plan keys the minimiser may cut

    def configs(self, rng, tier):
        return [{}]

    def build(self, cfg):
        raise NotImplementedError

    def gen(self, rng, cfg):
        raise NotImplementedError

    def run(self, ctx, cfg, plan, R):
        raise NotImplementedError

    def n_runs(self, cfg, tier):
        return self.quick if tier == "quick" else self.thorough


class Rec:
    """What one run did: events (digest), faults that fired, states reached."""
    def __init__(self, keep=False):
        self.h = hashlib.blake2b(digest_size=12)
        self.faults = {}
        self.cov = set()
        self.cycles = 0
        self.items = 0
        self.trace = [] if keep else None

    def log(self, *ev):
        s = repr(ev)
        self.h.update(s.encode())
        if self.trace is not None:
            self.trace.append(s)

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def reach(self, *state):
        self.cov.add(hashlib.blake2b(repr(state).encode(), digest_size=6).digest())

    def check(self, cond, kind, msg=""):
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)


def register(prop, *scenarios, **meta):
    SCENARIOS.setdefault(prop, []).extend(scenarios)
    m = META.setdefault(prop, {"rule": "", "real": [], "stub": [], "assumptions": []})
    for k, v in meta.items():
        if isinstance(v, list):
            m[k] = m[k] + v
        else:
            m[k] = v


def from_repo(tb):
    """Was the exception raised by (or below) a line of the repository?"""
    return any(f.filename.startswith(REPO + "/amlib") for f in traceback.extract_tb(tb))


_ctx = {}


def get_ctx(sc, cfg):
    key = (id(sc), json.dumps(cfg, sort_keys=True))
    if key not in _ctx:
        if len(_ctx) > 12:
            _ctx.clear()
        _ctx[key] = sc.build(copy.deepcopy(cfg))
    return _ctx[key]


def execute(sc, cfg, plan, keep=False):
    """-> (violation or None, Rec)"""
    R = Rec(keep)
    try:
        ctx = get_ctx(sc, cfg)
        try:
            sc.run(ctx, cfg, copy.deepcopy(plan), R)
        except AssertionError as e:
            if from_repo(e.__traceback__):
                raise
            raise HarnessError("assertion in harness: " + traceback.format_exc())
        return None, R
    except Violation as v:
        R.log("VIOLATION", v.kind, v.msg)
        return (v.kind, v.msg), R
    except HarnessError:
        raise
    except Exception as e:
        if from_repo(e.__traceback__):
            last = traceback.extract_tb(e.__traceback__)[-1]
            msg = f"{type(e).__name__}: {e} (at {os.path.basename(last.filename)})"
            R.log("VIOLATION", "exception", msg)
            return ("exception", msg), R
        raise HarnessError(traceback.format_exc())


def rng_for(*parts):
    return random.Random("/".join(str(p) for p in parts))


def _chunk(args):
    prop, si, ci, cfg, lo, hi, seed, recheck, deadline = args
    sc = SCENARIOS[prop][si]
    out = {"runs": 0, "cycles": 0, "items": 0, "faults": {}, "cov": set(), "digests": set(),
           "nontrivial": set(), "hist": hashlib.blake2b(digest_size=12), "viol": [], "faulty_runs": 0, "sample": None, "skipped": 0, "sc": sc.name}
    try:
        for i in range(lo, hi):
            if time.time() > deadline:
                out["skipped"] += hi - i
                break
            plan = sc.gen(rng_for(seed, prop, sc.name, json.dumps(cfg, sort_keys=True), i), cfg)
            v, R = execute(sc, cfg, plan)
            dg = R.h.hexdigest()
            if i % recheck == 0:
                v2, R2 = execute(sc, cfg, json.loads(json.dumps(plan)))
                if R2.h.hexdigest() != dg or v2 != v:
                    raise HarnessError(f"not deterministic: {prop} {sc.name} {cfg} run {i}")
            out["hist"].update(dg.encode())
            out["runs"] += 1
            out["cycles"] += R.cycles
            out["items"] += R.items
            for k, n in R.faults.items():
                out["faults"][k] = out["faults"].get(k, 0) + n
            if R.faults:
                out["faulty_runs"] += 1
            out["cov"] |= R.cov
            if R.items:
                out["nontrivial"].add(dg)
            if out["sample"] is None:
                s = json.dumps(plan)
                out["sample"] = {"scenario": sc.name, "config": cfg, "plan": plan if len(s) < 1500 else s[:1500] + "..."}
            if v is not None:
                out["viol"].append((si, ci, cfg, i, plan, v))
                break
    except HarnessError as e:
        out["error"] = f"{prop}/{sc.name} {cfg}: {e}"
    except Exception:
        out["error"] = f"{prop}/{sc.name} {cfg}: {traceback.format_exc()}"
    out["hist"] = out["hist"].hexdigest()
    return out


# -- minimisation ----------------------------------------------------------------------------
def minimise(sc, cfg, plan, kind, budget=None):
    t_end = time.time() + (float(os.environ.get("DST_MINIMISE", "40")) if budget is None else budget)
    best = plan

    def fails(p):
        if time.time() > t_end:
            return False
        try:
            v, _ = execute(sc, cfg, p)
        except HarnessError:
            return False
        return v is not None and v[0] == kind

    def ddmin(key):
        nonlocal best
        n = 2
        while time.time() < t_end:
            cur = best[key]
            if len(cur) < 1:
                return
            step = max(1, -(-len(cur) // n))
            for a in range(0, len(cur), step):
                p = dict(best)
                p[key] = cur[:a] + cur[a + step:]
                if fails(p):
                    best = p
                    n = max(2, n - 1)
                    break
            else:
                if step == 1:
                    return
                n = min(len(cur), n * 2)

    keys = [k for k in sc.lists if isinstance(best.get(k), list)]
    before = None
    while before != json.dumps(best) and time.time() < t_end:
        before = json.dumps(best)
        for k in keys:
            p = dict(best)
            p[k] = []
            if best[k] and fails(p):
                best = p
            ddmin(k)
        # then make the numbers inside simpler
        for k in keys:
            for i, e in enumerate(list(best[k])):
                if isinstance(e, list):
                    for j, x in enumerate(e):
                        for small in (0, 1):
                            if isinstance(x, int) and not isinstance(x, bool) and x > small:
                                p = dict(best)
                                p[k] = copy.deepcopy(best[k])
                                p[k][i][j] = small
                                if fails(p):
                                    best = p
                                    break
                elif isinstance(e, int) and e > 0:
                    p = dict(best)
                    p[k] = list(best[k])
                    p[k][i] = 0
                    if fails(p):
                        best = p
                if time.time() > t_end:
                    break
    return best


# -- known findings --------------------------------------------------------------------------
def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == prop and e.get("status") == "open"]


def scen_by_name(prop, name):
    for sc in SCENARIOS[prop]:
        if sc.name == name:
            return sc
    raise HarnessError(f"no scenario {name} for {prop}")


def write_replay(prop, sc, cfg, plan, v, seed, origin):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    v2, R = execute(sc, cfg, plan, keep=True)
    path = os.path.join(d, f"{prop}-{sc.name}-{seed}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "scenario": sc.name, "config": cfg, "plan": plan,
                   "violation": {"kind": (v2 or v)[0], "what": (v2 or v)[1]}, "seed": seed, "found_at": origin,
                   "digest": R.h.hexdigest(), "trace_tail": R.trace[-60:]}, f, indent=1)
    return path


def replay(path):
    with open(path) as f:
        r = json.load(f)
    sc = scen_by_name(r["property"], r["scenario"])
    v, R = execute(sc, r["config"], r["plan"], keep=True)
    for t in R.trace[-80:]:
        print("  ", t)
    print("digest", R.h.hexdigest(), "recorded", r["digest"], "identical" if R.h.hexdigest() == r["digest"] else "DIFFERENT")
    if v is None:
        print("no violation on this tree")
        return 0
    print("what:", v[0], v[1])
    print(f"VIOLATION property={r['property']} replay={path}")
    return 1


# how often the configurations of a quick run are drawn: the cheap checks can afford more of them
ROUNDS = {"C01": 6, "C02": 3, "C03": 12, "C04": 10, "C05": 5, "C07": 8, "C08": 6, "C09": 5, "C10": 12, "C11": 3, "C12": 10, "C13": 5, "C18": 2, "C21": 2,
          "C22": 3, "C23": 5, "C24": 2, "C26": 3, "C27": 3, "C29": 4, "C30": 6, "C31": 4, "C35": 8, "C37": 3}


# -- main ------------------------------------------------------------------------------------
def run_property(prop, tier, seed, workers=None, scale=1.0, only=None):
    t0 = time.time()
    limit = float(os.environ.get("DST_DEADLINE", "480" if tier == "quick" else "3300"))
    deadline = t0 + limit
    workers = workers or int(os.environ.get("DST_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    scale *= float(os.environ.get("DST_SCALE", "1"))
    scens = SCENARIOS[prop]
    tasks, n_cfg = [], 0
    for si, sc in enumerate(scens):
        if only and sc.name != only:
            continue
        cfgs, times = [], {}
        for k in range(ROUNDS.get(prop, 1) if tier == "quick" else 1):
            # configurations are drawn several times over; one that comes up again gets more runs
            for c in sc.configs(rng_for(seed, prop, sc.name, "cfg", tier, *([k] if k else [])), tier):
                j = json.dumps(c, sort_keys=True)
                if j not in times:
                    cfgs.append(c)
                times.setdefault(j, set()).add(k)
        n_cfg += len(cfgs)
        for ci, cfg in enumerate(cfgs):
            n = max(1, int(sc.n_runs(cfg, tier) * scale * (1 + min(len(times[json.dumps(cfg, sort_keys=True)]), 3)) / 2))
            size = max(1, min(n, getattr(sc, "chunk", 100)))
            for lo in range(0, n, size):
                tasks.append((prop, si, ci, cfg, lo, min(n, lo + size), seed, 50, deadline))
    # interleave so that every scenario and configuration is reached early
    tasks.sort(key=lambda t: (t[4], t[1], t[2]))
    tot = {"runs": 0, "cycles": 0, "items": 0, "faulty_runs": 0, "skipped": 0}
    faults, cov, nontrivial, samples, viols, per = {}, set(), set(), [], [], {}
    error = None
    history = hashlib.blake2b(digest_size=12)

    def absorb(o):
        nonlocal error
        if o.get("error") and error is None:
            error = o["error"]
        for k in tot:
            tot[k] += o[k]
        history.update(o["hist"].encode())
        for k, n in o["faults"].items():
            faults[k] = faults.get(k, 0) + n
        cov.update(o["cov"])
        nontrivial.update(o["nontrivial"])
        per[o["sc"]] = per.get(o["sc"], 0) + o["runs"]
        if o["sample"] and sum(s["scenario"] == o["sample"]["scenario"] for s in samples) < 1:
            samples.append(o["sample"])
        viols.extend(o["viol"])

    stop = False
    if workers == 1:
        for t in tasks:
            absorb(_chunk(t))
            if viols or error:
                break
    else:
        with multiprocessing.get_context("fork").Pool(workers, maxtasksperchild=1) as pool:
            for o in pool.imap(_chunk, tasks):        # each task in a fresh process, in task order: the result does not depend on worker timing
                absorb(o)
                if viols or error:
                    pool.terminate()
                    break
    known = []
    for kf in known_findings(prop):
        sc = scen_by_name(prop, kf["scenario"])
        v, _ = execute(sc, kf["config"], kf["plan"])
        if v is not None:
            print(f"KNOWN-FINDING: property={prop} {kf['what']}")
            known.append(kf["id"])
    rc, replay_path = 0, None
    wall_search = time.time() - t0
    if error is not None and not viols:
        print("HARNESS-ERROR:", error, file=sys.stderr)
        rc = 2
    elif viols:
        si, ci, cfg, i, plan, v = viols[0]
        sc = scens[si]
        small = minimise(sc, cfg, plan, v[0])
        v2, _ = execute(sc, cfg, small)
        replay_path = write_replay(prop, sc, cfg, small, v, seed, {"config_index": ci, "run": i})
        print(f"property {prop} violated in scenario {sc.name}, configuration {json.dumps(cfg)}, run {i} of seed {seed}")
        print(f"  {(v2 or v)[0]}: {(v2 or v)[1]}")
        print(f"VIOLATION property={prop} replay={replay_path}")
        rc = 1
    wall = time.time() - t0
    m = META[prop]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": tot["runs"],
              "distinct_nontrivial": len(nontrivial),
              "rule": m["rule"] + " A run counts as non-trivial if it moved at least one item through the design "
                      "under test; runs are distinct if the digest of their recorded history differs.",
              "samples": samples[:6],
              "simulated_runs": tot["runs"], "configurations": n_cfg, "runs_per_scenario": per,
              "runs_per_hour": round(tot["runs"] / max(wall_search, 1e-6) * 3600),
              "simulated_clock_cycles": tot["cycles"],
              "simulated_seconds_at_60MHz": round(tot["cycles"] / 60e6, 6),
              "items_checked": tot["items"],
              "faults_injected": dict(sorted(faults.items())),
              "runs_with_faults": tot["faulty_runs"], "fault_free_runs": tot["runs"] - tot["faulty_runs"],
              "distinct_states_reached": len(cov),
              "history_digest": history.hexdigest(),
              "state_measure": m.get("state_measure", "distinct abstract observations (model state combined with the simultaneous interface signals) seen at a clock edge"),
              "real_components": m["real"], "stub_components": m["stub"],
              "runs_skipped_by_deadline": tot["skipped"], "workers": workers,
              "known_findings_seen": known},
          "assumptions": ["Amaranth 0.4's RTL interpreter executes the elaborated design faithfully",
                          "signals between clock edges are ideal (no metastability)"] + m["assumptions"],
          "wall_s": round(wall, 3), "violations": len(viols)}
    evdir = os.environ.get("DST_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        print(f"{prop}: {tot['runs']} runs, {len(nontrivial)} distinct non-trivial, {tot['cycles']} cycles, "
              f"{len(cov)} states, {wall:.1f} s" + (f", {tot['skipped']} runs not started before the deadline" if tot["skipped"] else ""))
    return rc
