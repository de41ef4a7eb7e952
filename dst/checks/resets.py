"""C33: a core that was reset behaves like a freshly powered-up one.

Every scenario of the other properties doubles as a workload here: one drawn run is cut at a drawn
cycle, the resets of all clock domains are asserted for a few cycles, and a second drawn run
then follows in the place of its power-on.  The second run's own checks are the oracle; a failure
counts only if the same run passes on a core that really was powered up afresh."""
from . import display, dsp, fifo, generators, i2c, i2s, ila, serial, soc, spi, streams, uartstream, utilsck
from ..bench import Violation
from ..core import SCENARIOS, META, Scenario, Rec, register

# runs of these start from the initial contents of an addressable memory, which may survive a reset;
# they contain resets of their own, with that taken into account.  Synchronisers alone have no reset.
OMITTED = {"memory", "ws2812", "convolver", "fft", "synchronise", "one-hot-mux"}
CYCLES = 6
SUBS = {}
for p in sorted(x for x in SCENARIOS if x not in ("C33", "C36", "C38")):
    for s in SCENARIOS[p]:
        if s.name not in OMITTED:
            SUBS[f"{p}/{s.name}"] = s


class Cut(BaseException):
    pass


class Control:
    """Stands between a scenario and its bench: cuts the first run, turns power-on into a reset."""
    def __init__(self, b):
        self.b = b
        self.tick, self.power_on, self.set = b.tick, b.power_on, b.set
        self.inputs = {}

    def install(self):
        self.b.tick, self.b.power_on, self.b.set = self.my_tick, self.my_power_on, self.my_set

    def remove(self):
        for n in ("tick", "power_on", "set"):
            self.b.__dict__.pop(n, None)

    def my_set(self, sig, v):
        if hasattr(sig, "reset") and id(sig) not in self.inputs:
            self.inputs[id(sig)] = sig
        self.set(sig, v)

    def hold(self):
        b = self.b
        ticks, cycles = dict(b.ticks), b.cycles
        was = {n: r.next for n, r in b._rst.items()}      # may be a reset of the run itself
        for n in b._rst:
            b._rst[n].set(1)
        for _ in range(CYCLES):
            self.tick(*b._clk)
        for n in b._rst:
            b._rst[n].set(was[n])
        b.settle()
        b.ticks.update(ticks)
        b.cycles = cycles

    def my_tick(self, *names):
        if self.phase == 1:
            if self.left <= 0:
                raise Cut()
            self.left -= 1
        elif self.pending:
            # still the same reset, now with the inputs as the second run presents them
            self.pending = False
            self.hold()
        self.tick(*names)

    def my_power_on(self):
        if self.phase == 1:
            self.power_on()
            return
        b = self.b
        for r in b._rst.values():                        # the first run may have been cut inside a reset
            r.set(0)
        for sig in self.inputs.values():
            self.set(sig, sig.reset)
        self.hold()
        b.cycles = 0
        for n in b.ticks:
            b.ticks[n] = 0
        self.pending = True


class Resets(Scenario):
    name = "resets"
    quick, thorough = 6, 60
    lists = tuple(sorted({f"{x}.{k}" for s in SUBS.values() for k in s.lists for x in "ab"}))

    def configs(self, rng, tier):
        out = []
        for name, s in SUBS.items():
            c = s.configs(rng, "quick")
            k = 4 if tier == "quick" else 14
            if len(c) > k:
                c = [c[i] for i in sorted(rng.sample(range(len(c)), k))]
            out += [{"sub": name, "cfg": x} for x in c]
        return out

    def build(self, cfg):
        return SUBS[cfg["sub"]].build(cfg["cfg"])

    def gen(self, rng, cfg):
        s = SUBS[cfg["sub"]]
        plan = {"cut": int(rng.choice([20, 200, 2000, 2000]) ** rng.uniform(0.2, 1.1))}
        for x in "ab":
            plan.update({f"{x}.{k}": v for k, v in s.gen(rng, cfg["cfg"]).items()})
        return plan

    def run(self, ctx, cfg, plan, R):
        s, b = SUBS[cfg["sub"]], ctx.b
        a, p2 = ({k[2:]: v for k, v in plan.items() if k.startswith(x + ".")} for x in "ab")
        con = Control(b)
        con.phase, con.left, con.pending = 1, plan["cut"], False
        con.install()
        cut = False
        try:
            try:
                s.run(ctx, cfg["cfg"], a, Rec())
            except Cut:
                cut = True
            except Violation:
                R.log("first run fails by itself")
                return
            R.fault("reset_in_activity" if cut else "reset_after_activity")
            n1 = plan["cut"] - con.left
            con.phase = 2
            R2 = Rec()
            try:
                s.run(ctx, cfg["cfg"], p2, R2)
            except Violation as v:
                failed = v
            else:
                failed = None
        finally:
            con.remove()
        R.cycles = n1 + b.cycles + 2 * CYCLES
        R.items = R2.items
        R.log(cfg["sub"], n1, R2.h.hexdigest())
        R.reach(cfg["sub"], min(n1, 4000), len(R2.cov))
        if failed is not None:
            try:
                s.run(ctx, cfg["cfg"], {k: v for k, v in p2.items()}, Rec())
            except Violation:
                R.log("second run fails by itself")
                return
            R.check(False, "not-like-new", f"{cfg['sub']}: {failed} (passes after power-on)")


register("C33", Resets(),
         rule="Each run cuts a drawn run of another scenario at a drawn cycle, resets all clock domains for a few cycles, and performs a second drawn run of that scenario.",
         real=sorted({x for p in SCENARIOS for x in META[p]["real"]}), stub=["the stubs of the other scenarios"],
         assumptions=["reset is held for 6 edges of every clock domain, long enough for synchronisers and asynchronous FIFOs",
                      "cores whose behaviour starts from the contents of a memory (on-chip memories, WS2812 colours, convolver samples, FFT window) are reset in their own checks instead"])
