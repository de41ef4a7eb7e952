"""C38: cores in one design work independently.

Every scenario of the other properties doubles as a workload: two cores of the same kind, of equal or
of different parameters, are put into one design, each in clock domains of its own, and two drawn runs
are performed on them at once, interleaved cycle by cycle as the scheduler decides.  Each run's own
checks are the oracle, and the history of the first must be the one it has when it is alone; a failure
counts only if the same run passes on a core that is alone (in a process of its own)."""
import json, os, signal, threading
from amaranth import *
from amaranth.hdl.ir import Fragment
from amaranth.sim import Simulator
from . import display, dsp, fifo, generators, i2c, i2s, ila, serial, soc, spi, streams, uartstream, utilsck
from ..bench import Bench, Violation
from ..core import SCENARIOS, META, Scenario, Rec, register
from .spi import Lcg, Ctx

SUBS = {f"{p}/{s.name}": s for p in sorted(SCENARIOS) for s in SCENARIOS[p] if p not in ("C33", "C36", "C38") and s.name != "one-hot-mux"}
LONG = {"C06/uart-stream", "C14/initiator-and-targets", "C14/target", "C15/stream", "C16/i2s-link", "C17/max7219", "C18/ws2812", "C19/debouncer",
        "C25/async-serial", "C25/sync-serial", "C28/uart-peripheral"}               # runs that take seconds
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class Prefix:
    """a map from every domain name to the name with a prefix"""
    def __init__(self, p): self.p = p
    def __contains__(self, n): return n not in (None, "comb")
    def __getitem__(self, n): return n if n.startswith(self.p) else self.p + n


def prefixed(p, dut):
    r = DomainRenamer("x")
    r.domain_map = Prefix(p)
    return r(Fragment.get(dut, None))


class Cut(BaseException):
    pass


class Strand:
    """one of the two runs; it proceeds, up to its next clock edge, only when told to"""
    def __init__(self, ctx, fn):
        self.b, self.fn = ctx.b, fn
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.done, self.exc, self.started, self.stop = False, None, False, False
        self.tick = self.b.tick
        self.b.tick, self.b.power_on = self.my_tick, self.my_power_on
        self.t = threading.Thread(target=self.main, daemon=True)
        self.t.start()

    def main(self):
        self.go.acquire()
        try:
            if not self.stop:
                self.fn()
        except BaseException as e:
            self.exc = e
        self.done = True
        self.back.release()

    def step(self):
        self.go.release()
        self.back.acquire()

    def my_tick(self, *names):
        if self.stop:
            raise Cut()
        self.back.release()
        self.go.acquire()
        if self.stop:
            raise Cut()
        self.tick(*names)

    def my_power_on(self):
        if self.started:                 # a run that begins anew: there is no such thing for one of two cores
            raise Cut()
        self.started = True
        self.b.cycles = 0
        for n in self.b.ticks:
            self.b.ticks[n] = 0
        self.b.settle()

    def finish(self):
        self.stop = True
        while not self.done:
            self.step()
        self.t.join()
        for n in ("tick", "power_on"):
            self.b.__dict__.pop(n, None)


class Nursery:
    """a copy of this process from before it built any core, from which runs of a lone core are forked"""
    pid = None

    @classmethod
    def found(cls):
        if cls.pid == os.getpid():
            return
        cls.pid = os.getpid()
        ask, cls.ask = os.pipe()
        cls.answer, answer = os.pipe()
        if os.fork():
            os.close(ask)
            os.close(answer)
            return
        try:
            os.close(cls.ask)
            os.close(cls.answer)
            with open(ask) as f:
                for line in f:
                    pid = os.fork()
                    if pid == 0:
                        signal.alarm(120)
                        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
                        try:
                            alone(*json.loads(line))
                            os._exit(0)
                        except Exception:
                            os._exit(1)
                    _, status = os.waitpid(pid, 0)
                    os.write(answer, b"y" if status == 0 else b"n")
        finally:
            os._exit(0)


def passes_alone(sub, cfg, plan):
    """does this run pass in a process that has built nothing else?  plan None: can the core be built at all?"""
    os.write(Nursery.ask, (json.dumps([sub, cfg, plan]) + "\n").encode())
    return os.read(Nursery.answer, 1) == b"y"


def alone(sub, cfg, plan):
    s = SUBS[sub]
    ctx = s.build(cfg)
    if plan is not None:
        s.run(ctx, cfg, plan, Rec())


def leaves(d, path=()):
    for k in d:
        if isinstance(d[k], dict):
            yield from leaves(d[k], path + (k,))
        elif k not in ("kind", "mac"):
            yield path + (k,)


def at(d, path):
    for k in path:
        d = d[k] if isinstance(d, dict) and k in d else None
    return d


def put(d, path, v):
    return {**d, path[0]: put(d[path[0]], path[1:], v) if len(path) > 1 else v}


def crossed(rng, c):
    """for every parameter a pair of configurations that differ in nothing else (the second may be one
    that cannot be built)"""
    for kind in sorted({str(x.get("kind")) for x in c}):
        same = [x for x in c if str(x.get("kind")) == kind]
        for path in sorted({p for x in same for p in leaves(x)}):
            have = [x for x in same if path in set(leaves(x))]
            a = rng.choice(have)
            other = [v for v in (at(x, path) for x in have) if v != at(a, path)]
            if other:
                yield a, put(a, path, rng.choice(other))


class Pairs(Scenario):
    name = "pairs"
    lists = tuple(sorted({f"{x}.{k}" for s in SUBS.values() for k in s.lists for x in "ab"}))

    def configs(self, rng, tier):
        out = []
        for name, s in SUBS.items():
            c = s.configs(rng, "quick")
            for i in range(2 if tier == "quick" else 10):
                a, b = rng.choice(c), rng.choice(c)
                out.append({"sub": name, "a": a, "b": [a, b][i % 2]})
            for i in range((1 if name in LONG else 4) * (1 if tier == "quick" else 3)):
                out.extend({"sub": name, "a": a, "b": b} for a, b in crossed(rng, c))
        return out

    def n_runs(self, cfg, tier):
        return (2 if cfg["a"] == cfg["b"] else 1) * (1 if tier == "quick" else 8)

    def build(self, cfg):
        Nursery.found()
        s, c, held = SUBS[cfg["sub"]], Ctx(), []

        def second(bench, dut):
            Bench.JOIN = None
            first, fdut = held
            m = Module()
            m.submodules.a = prefixed("a_", fdut)
            m.submodules.b = prefixed("b_", dut)
            sim = Simulator(m)
            first._bind(sim, "a_")
            bench._bind(sim, "b_")

        def first(bench, dut):
            held.extend((bench, dut))
            Bench.JOIN = second
            c.two = s.build(cfg["b"])

        Bench.JOIN = first
        try:
            c.one = s.build(cfg["a"])
        except Exception as e:
            Bench.JOIN = None
            if passes_alone(cfg["sub"], cfg["a"], None) and passes_alone(cfg["sub"], cfg["b"], None):
                raise Violation("independence", f"{cfg['sub']}: each of two cores can be built alone, but both together cannot: {type(e).__name__}: {e}")
            c.one = None                 # a core that cannot be built at all is for the other properties to report
            return c
        finally:
            Bench.JOIN = None
        c.solo = s.build(cfg["a"])
        return c

    def gen(self, rng, cfg):
        s = SUBS[cfg["sub"]]
        plan = {"speed": rng.choice([[1, 1], [1, 1], [1, 4], [4, 1], [1, 30], [30, 1]]), "seed": rng.getrandbits(20)}
        for x in "ab":
            try:
                plan.update({f"{x}.{k}": v for k, v in s.gen(rng, cfg[x]).items()})
            except Exception:
                if x == "a":
                    raise
                return {"invalid": 1}            # a combination of parameters that makes no sense
        return plan

    def run(self, c, cfg, plan, R):
        if c.one is None or "invalid" in plan:
            return R.log("cannot be built")
        s = SUBS[cfg["sub"]]
        plans = {x: {k[2:]: v for k, v in plan.items() if k.startswith(x + ".")} for x in "ab"}
        copies = json.loads(json.dumps(plans))
        recs = {x: Rec() for x in "ab"}
        bench = c.one.b
        bench.engine.reset()
        bench._settled = c.two.b._settled = False
        bench.settle()
        rnd = Lcg(plan["seed"])
        st = {}
        for x, ctx in (("a", c.one), ("b", c.two)):
            st[x] = Strand(ctx, lambda x=x, ctx=ctx: s.run(ctx, cfg[x], plans[x], recs[x]))
        wa, wb = plan["speed"]
        switches = 0
        try:
            while not (st["a"].done and st["b"].done) and switches < 600000:
                x = "a" if rnd.next(wa + wb) < wa else "b"
                if st[x].done:
                    x = "b" if x == "a" else "a"
                st[x].step()
                switches += 1
                if any(t.exc is not None and not isinstance(t.exc, Cut) for t in st.values()):
                    break
        finally:
            for t in st.values():
                t.finish()
        R.fault("other_core_active", switches)
        R.cycles = sum(r.cycles for r in recs.values())
        R.items = min(r.items for r in recs.values())
        R.log(cfg["sub"], [r.h.hexdigest() for r in recs.values()], [repr(t.exc) for t in st.values()])
        R.reach(cfg["sub"], cfg["a"] == cfg["b"], plan["speed"], len(recs["a"].cov) > 1)
        for r in recs.values():
            for k, n in r.faults.items():
                R.fault(k, n)
        for x in "ab":
            e = st[x].exc
            if e is None or isinstance(e, Cut):
                continue
            if not isinstance(e, (Violation, Exception)):
                raise e
            if passes_alone(cfg["sub"], cfg[x], copies[x]):
                R.check(False, "independence", f"{cfg['sub']}: {e} (passes when the core is alone)")
            R.log("fails alone as well")
            return
        if not any(t.exc for t in st.values()):
            r = Rec()
            s.run(c.solo, cfg["a"], copies["a"], r)
            R.check(r.h.hexdigest() == recs["a"].h.hexdigest(), "history", f"{cfg['sub']}: not the history a core has when it is alone")


register("C38", Pairs(),
         rule="Each run performs two drawn runs of another scenario at once, on two cores in one design, interleaved cycle by cycle.",
         real=sorted({x for p in SCENARIOS for x in META[p]["real"]}), stub=["the stubs of the other scenarios"],
         assumptions=["the two cores are in clock domains of their own, so that the interleaving of their cycles is free"])

