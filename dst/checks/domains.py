"""C36: a core works in any clock domain, driven by that domain's clock alone.

Every scenario of the other properties doubles as a workload: the design is placed in a clock domain
of another name by Amaranth's DomainRenamer, while an unrelated clock called `sync` runs (or stands
still).  The scenario's own checks are the oracle; a failure counts only if the same run passes when
the design (or, by its own domain parameters, the core) stays in `sync`."""
from . import display, dsp, fifo, generators, i2c, i2s, ila, serial, soc, spi, streams, uartstream, utilsck
from ..bench import Bench, Violation
from ..core import SCENARIOS, META, Scenario, Rec, register
from .spi import Lcg, Ctx

SUBS = {f"{p}/{s.name}": s for p in sorted(SCENARIOS) for s in SCENARIOS[p] if p not in ("C33", "C36", "C38") and s.name != "one-hot-mux"}


def in_sync(cfg):
    """the configuration with the core's own domain parameters at their defaults"""
    over = {"domain": "sync", "o": None}
    return {k: over.get(k, v) if not (k == "o" and "domain" not in cfg) else v for k, v in cfg.items()}


class Domains(Scenario):
    name = "domains"
    quick, thorough = 3, 40
    lists = tuple(sorted({k for s in SUBS.values() for k in s.lists}))

    def configs(self, rng, tier):
        out = []
        for name, s in SUBS.items():
            c = s.configs(rng, "quick")
            k = 4 if tier == "quick" else 14
            if len(c) > k:
                own = [i for i in range(len(c)) if in_sync(c[i]) != c[i]]
                pick = set(rng.sample(own, min(len(own), k // 2)))
                pick |= set(rng.sample([i for i in range(len(c)) if i not in pick], k - len(pick)))
                c = [c[i] for i in sorted(pick)]
            out += [{"sub": name, "cfg": x} for x in c]
        return out

    def build(self, cfg):
        c = Ctx()
        s = SUBS[cfg["sub"]]
        c.plain = lambda: s.build(cfg["cfg"])
        Bench.RENAME = "elsewhere"
        try:
            c.renamed = s.build(cfg["cfg"])
        finally:
            Bench.RENAME = None
        return c

    def gen(self, rng, cfg):
        plan = SUBS[cfg["sub"]].gen(rng, cfg["cfg"])
        plan["decoy"] = [rng.choice([0, 1, 1, 2, 5]), rng.getrandbits(16)]
        return plan

    def run(self, c, cfg, plan, R):
        s, b = SUBS[cfg["sub"]], c.renamed.b
        often, seed = plan.pop("decoy")
        rnd, tick = Lcg(seed), b.tick
        extra = [0]

        def my_tick(*names):
            if b.decoy is not None and often:
                for _ in range(rnd.next(often + 1)):
                    b.decoy.set(1)
                    b.settle()
                    b.decoy.set(0)
                    b.settle()
                    extra[0] += 1
            tick(*names)

        R2 = Rec()
        failed = None
        b.tick = my_tick
        try:
            s.run(c.renamed, cfg["cfg"], plan, R2)
        except Violation as v:
            failed = v
        finally:
            del b.__dict__["tick"]
        R.fault("foreign_clock_running" if often else "foreign_clock_stopped")
        R.cycles, R.items = R2.cycles, R2.items
        R.log(cfg["sub"], R2.h.hexdigest())
        R.cov |= R2.cov
        for k, n in R2.faults.items():
            R.fault(k, n)
        if failed is not None:
            try:
                x = c.plain()
                s.run(x, cfg["cfg"], plan, Rec())
            except Violation:
                x = None
            if x is None and in_sync(cfg["cfg"]) != cfg["cfg"]:
                # the core's own domain parameters may be what breaks it
                try:
                    x = s.build(in_sync(cfg["cfg"]))
                    s.run(x, in_sync(cfg["cfg"]), plan, Rec())
                except Violation:
                    x = None
            if x is None:
                R.log("fails in sync as well")
                return
            R.check(False, "domain", f"{cfg['sub']}: {failed} (passes when the core stays in the domain sync)")


register("C36", Domains(),
         rule="Each run performs a drawn run of another scenario with the design placed in another clock domain while an unrelated clock named sync runs or stands still.",
         real=sorted({x for p in SCENARIOS for x in META[p]["real"]}), stub=["the stubs of the other scenarios"],
         assumptions=["cores are moved between domains as Amaranth designs are, with DomainRenamer or their own domain parameter"])
