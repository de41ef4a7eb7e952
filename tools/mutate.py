#!/opt/venv/bin/python
"""mutate.py [--files a.py,b.py] [--per N] [--seed S] [--jobs J] OUT.jsonl

Systematic small mutations of the library in scratch copies: which are noticed by the checks of the
properties anchored in the mutated file?  Survivors are either equivalent or show where to look.
Never touches /repo; not used by any check."""
import argparse, ast, json, os, queue, random, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
 "stream/arbiter.py": "C01", "stream/__init__.py": "C02 C01", "stream/generator.py": "C03 C04", "utils/fifo.py": "C05", "stream/uart.py": "C06",
 "io/serial.py": "C07 C08", "io/spi.py": "C09 C10 C11 C12", "io/i2c.py": "C13 C14", "stream/i2c.py": "C15", "io/i2s.py": "C16", "io/max7219.py": "C17",
 "io/ws2812.py": "C18", "io/debouncer.py": "C19", "utils/timer.py": "C20", "utils/clockdivider.py": "C21", "utils/dividingcounter.py": "C21",
 "utils/cdc.py": "C22", "utils/edgetopulse.py": "C22", "utils/shiftregister.py": "C23", "utils/nrziencoder.py": "C23", "utils/lfsr.py": "C23",
 "utils/bus.py": "C23", "debug/ila.py": "C24 C25", "soc/event.py": "C26", "soc/peripheral.py": "C26", "soc/memory.py": "C27", "soc/uart.py": "C28",
 "dsp/fixedpointfirfilter.py": "C29 C37", "dsp/fixedpointiirfilter.py": "C29 C37", "dsp/fixedpointhbfilter.py": "C29 C37", "dsp/fixedpointcicfilter.py": "C29",
 "io/led.py": "C35", "dsp/filterbank.py": "C29 C30 C37", "dsp/resampler.py": "C30", "dsp/convolution/mac.py": "C31", "dsp/fixedpointfft.py": "C32"}
SKIPFN = {"connect_to_resource", "add_constraints", "emit_analysis_vcd", "interactive_display", "__repr__", "conversion_error"}


def mutations(src, resets, guards=False, rng=random):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    pos = lambda ln, col: off[ln - 1] + col
    raw = src.encode()
    seg = lambda n: raw[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()
    out = []

    def add(n, new, kind):
        out.append((pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset), new, kind, n.lineno))

    def between(a, b, ops, new, kind):
        s, e = pos(a.end_lineno, a.end_col_offset), pos(b.lineno, b.col_offset)
        t = raw[s:e].decode()
        for o in ops:
            if o in t:
                i = t.index(o)
                out.append((s + i, s + i + len(o), new, kind, a.end_lineno))
                return

    conds = {}

    def cond(n):
        """some other condition of the same function"""
        c = [x for x in conds.get(id(n), ()) if x != seg(n)]
        return rng.choice(c) if c else "0"

    def collect(fn):
        nodes = [x.args[0] for x in ast.walk(fn) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("If", "Elif") and x.args]
        atoms = sorted({seg(x) for k in nodes for x in ast.walk(k) if isinstance(x, (ast.Attribute, ast.Name, ast.Compare)) and not isinstance(x, ast.keyword)} | {seg(k) for k in nodes})
        for x in ast.walk(fn):
            conds[id(x)] = atoms

    def visit(n, skip):
        if guards and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            collect(n)
        if guards and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr in ("If", "Elif") and n.args:
                for _ in range(2):
                    x = cond(n.args[0])
                    add(n.args[0], f"({seg(n.args[0])}) & ~(({x}) != 0)", "and-not")
                    add(n.args[0], f"({seg(n.args[0])}) & (({x}) != 0)", "and")
                    add(n.args[0], f"({seg(n.args[0])}) | (({x}) != 0)", "or")
            if n.func.attr == "eq" and len(n.args) == 1 and isinstance(n.func.value, (ast.Name, ast.Attribute)):
                t = seg(n.func.value)
                add(n, f"{t}.eq(Mux(({cond(n)}) != 0, {t}, {seg(n.args[0])}))", "hold")
        if isinstance(n, ast.ClassDef) and ("Test" in n.name or any("Test" in ast.unparse(b) for b in n.bases)):
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in SKIPFN:
            return
        if isinstance(n, (ast.Assert, ast.Raise, ast.JoinedStr, ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "Signal" and resets:
            s = seg(n)
            add(n, s[:-1] + (", " if n.args or n.keywords else "") + "reset_less=True)", "reset_less")
        if not resets and not guards:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                t = {ast.Eq: ("==", ["!="]), ast.NotEq: ("!=", ["=="]), ast.Lt: ("<", ["<=", ">="]), ast.LtE: ("<=", ["<"]), ast.Gt: (">", [">="]), ast.GtE: (">=", [">"])}.get(type(n.ops[0]))
                if t:
                    for x in t[1]:
                        between(n.left, n.comparators[0], [t[0]], x, "cmp")
            if isinstance(n, ast.BinOp):
                t = {ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "&"), ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.RShift: (">>", "<<"), ast.BitXor: ("^", "|")}.get(type(n.op))
                if t:
                    between(n.left, n.right, [t[0]], t[1], "binop")
                if isinstance(n.op, (ast.BitAnd, ast.BitOr)):
                    add(n, "(" + seg(n.left) + ")", "left")
                    add(n, "(" + seg(n.right) + ")", "right")
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Invert):
                add(n, seg(n.operand), "not")
            if isinstance(n, ast.Constant) and type(n.value) is int and not skip:
                add(n, str(n.value + 1), "const+")
                if n.value > 0:
                    add(n, str(n.value - 1), "const-")
            if isinstance(n, ast.Constant) and type(n.value) is bool:
                add(n, str(not n.value), "bool")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr == "eq" and isinstance(n.func.value, (ast.Name, ast.Attribute, ast.Subscript)):
                    add(n, "Signal().eq(0)", "drop")
                if n.func.attr in ("If", "Elif") and n.args:
                    add(n.args[0], "(" + seg(n.args[0]) + ") & 0", "never")
                    add(n.args[0], "(" + seg(n.args[0]) + ") | 1", "always")
                if n.func.attr == "Mux" and len(n.args) == 3:
                    add(n, seg(n.args[1]), "mux")
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and ast.unparse(n.targets[0]) == "m.next":
                add(n, "pass", "stay")
            if isinstance(n, ast.Attribute) and n.attr == "sync" and ast.unparse(n.value) == "m.d":
                pass
        for c in ast.iter_child_nodes(n):
            visit(c, skip)

    visit(tree, False)
    res = []
    for s, e, new, kind, ln in out:
        t = (raw[:s] + new.encode() + raw[e:]).decode()
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        res.append((t, kind, ln, raw[s:e].decode(), new))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files")
    ap.add_argument("--per", type=int, default=40)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--resets", action="store_true")
    ap.add_argument("--guards", action="store_true", help="couple conditions and assignments to other conditions of the same function")
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    files = a.files.split(",") if a.files else list(PROPS)
    top = tempfile.mkdtemp(prefix="mutate-")
    q = queue.Queue()
    jobs = []
    for f in files:
        src = open(os.path.join(a.repo, "amlib", f)).read()
        ms = mutations(src, a.resets, a.guards, random.Random(f"{a.seed}:{f}"))
        random.Random(f"{a.seed}/{f}").shuffle(ms)
        jobs += [(f, m) for m in ms[:a.per]]
    random.Random(a.seed).shuffle(jobs)
    for j in jobs:
        q.put(j)
    lock = threading.Lock()
    stat = {"killed": 0, "survived": 0, "error": 0}
    fo = open(a.out, "w")

    def work(k):
        d = os.path.join(top, str(k))
        os.mkdir(d)
        shutil.copytree(os.path.join(a.repo, "amlib"), d + "/repo/amlib", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree(V, d + "/verif", ignore=shutil.ignore_patterns(".git", "evidence", "replays", "seeded", "__pycache__"))
        while True:
            try:
                f, (t, kind, ln, old, new) = q.get_nowait()
            except queue.Empty:
                return
            p = os.path.join(d, "repo/amlib", f)
            keep = open(p).read()
            open(p, "w").write(t)
            env = dict(os.environ, AMLIB_REPO=d + "/repo", DST_WORKERS="1", PYTHONPATH="", DST_MINIMISE="0")
            verdict, by, msg = "survived", None, ""
            t0 = time.time()
            for prop in (["C33"] if a.resets else []) + PROPS[f].split():
                try:
                    r = subprocess.run([sys.executable, d + "/verif/run.py", prop], env=env, capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    verdict, by, msg = "timeout", prop, ""
                    break
                if r.returncode == 1:
                    verdict, by, msg = "killed", prop, (["?"] + r.stdout.strip().split("\n"))[-2][:160]
                    break
                if r.returncode != 0:
                    verdict, by, msg = "error", prop, (r.stderr or "").strip()[-300:]
                    break
            open(p, "w").write(keep)
            with lock:
                stat[verdict] = stat.get(verdict, 0) + 1
                fo.write(json.dumps({"file": f, "line": ln, "kind": kind, "old": old, "new": new, "verdict": verdict, "by": by, "msg": msg, "s": round(time.time() - t0, 1)}) + "\n")
                fo.flush()

    ts = [threading.Thread(target=work, args=(k,)) for k in range(a.jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(top)
    print(stat)


if __name__ == "__main__":
    main()
