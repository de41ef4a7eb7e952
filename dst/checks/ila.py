"""C24 logic analyser capture, C25 analyser read-out."""
import contextlib, io, os, re, shutil, sys, tempfile, types
from collections import deque
from amaranth import *
from amlib.debug.ila import (IntegratedLogicAnalyzer, SyncSerialILA, StreamILA, AsyncSerialILA,
                             AsyncSerialILAFrontend, ILACoreParameters)
from ..bench import Bench
from ..core import Scenario, register
from ..serialline import FrameDecoder
from .spi import Lcg, Ctx, Master, value_of


class Observed:
    """What the analyser may and must store: the inputs of every cycle since the last reset."""
    def __init__(self, depth, P, enable):
        self.depth, self.P, self.enable = depth, P, enable
        self.vals, self.ens = [], []
        self.restart()

    def restart(self):
        self.t0 = len(self.vals)               # first cycle after reset
        self.n_en = 0
        self.fill = self.t0 if self.P < 3 else None
        self.trig = None

    def cycle(self, val, en):
        t = len(self.vals)
        self.vals.append(val)
        self.ens.append(en if self.enable else 1)
        if self.ens[-1]:
            self.n_en += 1
            if self.fill is None and self.n_en >= self.P - 1:
                self.fill = t
        return t

    def steady(self, t):
        """History before cycle t is complete, so the window is exactly determined."""
        return self.fill is not None and t >= self.fill + self.P + 3 and t - self.P >= self.t0 + 1

    def candidates(self, t):
        """Possible contents for a capture triggered in cycle t; None entries are open."""
        D, P, t0 = self.depth, self.P, self.t0
        if not self.enable:
            return [[self.vals[x] if x >= t0 else None for x in range(t - P, t - P + D)]]
        if self.steady(t):
            w = [self.vals[x] for x in range(t - P, len(self.vals)) if self.ens[x]]
            return [w[:D] + [None] * (D - len(w))] if len(w) >= D else [w + [("missing",)] * (D - len(w))]
        # history still incomplete: some consecutive run of enabled samples, reaching back to the
        # window's start and at most P samples before the trigger
        times = [-3, -2, -1] + [x for x in range(t0, len(self.vals)) if self.ens[x]]
        first = next((i for i, x in enumerate(times) if x >= max(t - P, t0)), len(times))
        before = sum(1 for x in times if x < t)
        out = []
        for j in range(max(0, before - P - 2), first + 1):
            w = times[j:j + D]
            if len(w) == D:
                out.append([self.vals[x] if x >= 0 else None for x in w])
        return out

    def overdue(self, t, now):
        """A capture triggered in cycle t must have completed before cycle `now`."""
        lo = max(t - (self.P if self.steady(t) else 0), self.t0)
        n = 0
        for x in range(lo, len(self.vals)):
            n += self.ens[x]
            if n >= self.depth + (0 if self.steady(t) else self.P + 2):
                return now > max(x, t) + self.P + 4
        return False


def matches(got, want):
    return all(w is None or g == w for g, w in zip(got, want))


SIGSETS = [[1], [8], [1, 30, 1], [16, -12, 3], [40], [-1, 5, 64], [7, 1, 1, 1, 6], [33], [2, 2]]


def sigset(rng):
    r = rng.random()
    if r < 0.55:
        return rng.choice(SIGSETS)
    if r < 0.75:
        return [rng.choice([9, 15, 16, 17, 24, 31, 32, 65, 127, 128, 129])]
    return [rng.choice([1, 1, 2, -3, 4, 7, 8, 9, -16, 17]) for _ in range(rng.randint(1, 12))]


def make_signals(spec):
    return [Signal(w, name=f"sig{i}") if w > 0 else Signal(signed(-w), name=f"sig{i}") for i, w in enumerate(spec)]


class Capture(Scenario):
    name = "capture"
    quick, thorough = 120, 2500
    chunk = 12
    lists = ("ops", "en")

    def configs(self, rng, tier):
        out = []
        Ps = list(range(0, 9)) + [11, 16] if tier == "quick" else list(range(0, 20)) + [31, 40]
        for P in Ps:
            for en in (0, 1):
                for _ in range(1 if tier == "quick" else 3):
                    out.append({"P": P, "en": en, "depth": rng.choice([1, 2, 3, 4, 5, 8, 11, 16, 21, 32]), "sigs": sigset(rng),
                                "domain": rng.choice(["sync", "sync", "fast"])})
        for P, D in ((rng.randint(17, 40), 32), (1, 64), (rng.randint(0, 6), rng.choice([100, 127, 128, 129])), (rng.randint(30, 70), rng.randint(20, 80)), (2, 256), (1, rng.choice([255, 257, 300]))):
            out.append({"P": P, "en": rng.randint(0, 1), "depth": D, "sigs": sigset(rng), "domain": rng.choice(["sync", "fast"])})
        out.append({"P": 1, "en": 0, "depth": 9, "sigs": [5], "domain": "sync", "default": True})
        return out

    def n_runs(self, cfg, tier):
        k = Scenario.n_runs(self, cfg, tier)
        return k if cfg["depth"] + cfg["P"] < 60 else k // 4

    def build(self, cfg):
        c = Ctx()
        c.sigs = make_signals(cfg["sigs"])
        if cfg.get("default"):
            c.dut = IntegratedLogicAnalyzer(signals=c.sigs, sample_depth=cfg["depth"])
        else:
            c.dut = IntegratedLogicAnalyzer(signals=c.sigs, sample_depth=cfg["depth"], samples_pretrigger=cfg["P"],
                                            with_enable=bool(cfg["en"]), domain=cfg["domain"])
        c.width = sum(abs(w) for w in cfg["sigs"])
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        D, P = cfg["depth"], cfg["P"]
        ops = []
        for _ in range(rng.randint(2, 9)):
            r = rng.random()
            if r < 0.1:
                ops.append(["r", 0])
            if rng.random() < 0.75:
                ops.append(["w", rng.choice([0, 1, 2, rng.randint(0, P + 4), rng.randint(0, D + P + 6), P + 8])])
            ops.append(["t", rng.choice([1, 1, 1, 2, rng.randint(1, D + 3), 2 * D + 5])])
            if rng.random() < 0.3:
                ops.append(["w", rng.randint(0, D + 2)])
            if rng.random() < 0.7:
                ops.append(["s", rng.getrandbits(16)])
        p = rng.choice([0.05, 0.3, 0.5, 0.8, 1])
        en = []
        for _ in range(rng.randint(0, 40)):
            en.append([1 if rng.random() < p else 0, rng.choice([1, 1, 2, rng.randint(1, 12)])])
        return {"ops": ops, "en": en, "seed": rng.getrandbits(24), "hold": rng.choice([0, 0, 2, 5])}

    def run(self, c, cfg, plan, R):
        b, d, D, P = c.b, c.dut, cfg["depth"], cfg["P"]
        dom = cfg["domain"]
        b.power_on()
        g, rnd = b.get, Lcg(plan["seed"])
        obs = Observed(D, P, cfg["en"])
        S = {"cap": False, "complete": 0, "n": 0, "trig": None, "mem": None, "addr": None, "val": rnd.bits(c.width), "caps": 0}
        en_plan = [l for l, k in plan["en"] for _ in range(k)]
        en_plan.reverse()

        def step(trigger=0, addr=None):
            if not plan["hold"] or rnd.next(plan["hold"]) == 0:
                S["val"] = rnd.bits(c.width)
            v, off = S["val"], 0
            for s in c.sigs:
                b.set(s, v >> off)
                off += len(s)
            en = en_plan.pop() if en_plan else 1
            if cfg["en"]:
                b.set(d.enable, en)
            b.set(d.trigger, trigger)
            a = rnd.next(D) if addr is None else addr
            if D > 1:
                b.set(d.captured_sample_number, a)
            if rnd.next(40) == 0 and dom != "sync" and "sync" in b.domains:
                b.tick("sync")
            b.settle()
            t = obs.cycle(v, en)
            if S["addr"] is not None and S["mem"] is not None:
                want = S["mem"][S["addr"]]
                if want is not None:
                    got = g(d.captured_sample)
                    R.check(got == want, "sample", lambda: f"position {S['addr']} reads {got:#x} and later {want:#x}" if S["known"] else
                            f"position {S['addr']} reads {got:#x}, stored {want:#x}")
            read = g(d.captured_sample)
            cap, comp, smp = g(d.capturing), g(d.complete), g(d.sampling)
            R.check(cap == S["cap"], "capturing", lambda: f"capturing={cap}, expected {int(S['cap'])} ({S['n']} of {D} samples stored)")
            R.check(comp == S["complete"], "complete", lambda: f"complete={comp}, expected {S['complete']} ({S['n']} of {D} samples stored)")
            R.check(not smp or S["cap"], "sampling", "sampling outside a capture")
            if not cfg["en"]:
                R.check(smp == cap, "sampling", "not sampling during a capture without enable")
            # which address is being read by the edge that follows, and is the memory at rest?
            S["addr"] = a if comp and not cap else None
            if S["cap"]:
                S["n"] += smp
                R.check(not obs.overdue(S["trig"], t) or S["n"] == D, "hang", lambda: f"capture triggered in cycle {S['trig']} not complete in cycle {t}")
                if S["n"] == D:
                    S["cap"], S["complete"] = False, 1
                    S["mem"], S["known"] = [None] * D, False
                    S["want"] = obs.candidates(S["trig"])
                    S["caps"] += 1
                    R.reach(P, cfg["en"], D, obs.steady(S["trig"]), S["caps"] > 1)
                    R.log("complete", t, S["trig"])
            elif trigger:
                R.fault("early_trigger", 0 if obs.steady(t) else 1)
                S.update(cap=True, complete=0, n=0, trig=t, mem=None)
                R.log("trigger", t)
            b.tick(dom)
            return read

        def sweep(seed):
            if not S["caps"] and not S["cap"]:
                return
            while S["cap"]:
                step()
            if not S["complete"]:
                return
            order = list(range(D))
            r = Lcg(seed)
            if seed % 3:
                for i in range(D - 1, 0, -1):
                    k = r.next(i + 1)
                    order[i], order[k] = order[k], order[i]
            got = [None] * D
            prev = None
            for a in order + [None]:
                v = step(addr=a if a is not None else 0)
                if prev is not None:
                    got[prev] = v
                prev = a
            R.log("read", got)
            want = S["want"]
            if not S["known"]:
                ok = [w for w in want if matches(got, w)]
                t = S["trig"]
                R.check(ok or not want, "history", lambda: f"capture triggered in cycle {t} (window from {t - P}) holds {[hex(x) for x in got]}, "
                        f"signals were {[hex(x) if isinstance(x, int) else x for x in want[0]]}")
                S["mem"], S["known"] = got, True
                R.items += D
            else:
                R.check(got == S["mem"], "unstable", "stored samples changed without a trigger")

        for kind, n in plan["ops"]:
            if kind == "w":
                for _ in range(n):
                    step()
            elif kind == "t":
                if S["cap"]:
                    R.fault("trigger_during_capture")
                for _ in range(n):
                    step(trigger=1)
            elif kind == "s":
                sweep(n)
            elif kind == "r":
                b.set(d.trigger, 0)
                b.reset(dom)
                obs.vals.append(0); obs.ens.append(0)
                obs.restart()
                R.fault("reset_in_capture" if S["cap"] else "reset")
                S.update(cap=False, complete=0, n=0, mem=None, addr=None, caps=0)
                R.log("reset")
        sweep(1)
        sweep(5)
        R.cycles = b.cycles


register("C24", Capture(),
         rule="Each run changes the observed signals every cycle (or holds them for drawn times), drives the enable with a drawn pattern, and triggers, "
              "waits, reads and resets in a drawn order; the stored samples are compared with the recorded history around each trigger.",
         real=["IntegratedLogicAnalyzer"], stub=["amaranth_soc / lambdasoc import stand-ins (unused here)"],
         assumptions=["samples that would lie before power-on or reset are open", "memory contents after reset are open",
                      "with gated sampling and a trigger before the pre-trigger history is complete the window may reach back up to the configured number of samples (not cycles)"])


# --------------------------------------------------------------------------------------------
def run_capture(b, dut, sigs, width, D, P, en, R, rnd, dom, step=None, settle_cycles=None):
    """Let the history fill, trigger and wait for completion; returns the samples that must be stored."""
    obs = Observed(D, P, en)

    def cyc(trigger):
        v, off = rnd.bits(width), 0
        for s in sigs:
            b.set(s, v >> off)
            off += len(s)
        e = 1 if not en else int(rnd.next(4) > 0)
        if en:
            b.set(dut.enable, e)
        b.set(dut.trigger, trigger)
        b.settle()
        obs.cycle(v, e)
        if step is None:
            b.tick(dom)
        else:
            step()

    n = P + 6
    while n > 0 or not obs.steady(len(obs.vals)):
        cyc(0)
        n -= 1
    b.set(dut.trigger, 1)
    t = len(obs.vals)
    cyc(1)
    k = 0
    while True:
        cyc(0)
        k += 1
        if b.get(dut.complete) and not b.get(dut.capturing):
            break
        R.check(not obs.overdue(t, t + k), "hang", "capture does not complete")
    for _ in range(P + 4):
        if en:
            # the samples stored are those enabled up to the completion
            break
    return obs.candidates(t)[0]


class SyncLink(Scenario):
    name = "sync-serial"
    quick, thorough = 16, 300
    chunk = 4
    lists = ("ops",)

    def configs(self, rng, tier):
        out = []
        for pol in (0, 1):
            for pha in (0, 1):
                for _ in range(3 if tier == "quick" else 12):
                    out.append({"pol": pol, "pha": pha, "sigs": sigset(rng), "depth": rng.choice([2, 3, 4, 5, 7, 8, 12, 16, 16, 33]),
                                "P": rng.choice([0, 1, 2, 3, 6]), "en": rng.randint(0, 1), "domain": rng.choice(["sync", "sync", "fast"]), "csn": int(rng.random() < 0.3)})
        # everything left out that can be
        out.append({"pol": 0, "pha": 1, "sigs": sigset(rng), "depth": rng.choice([5, 16]), "P": 1, "en": 0, "domain": "sync", "csn": 0, "dflt": 1})
        return out

    def n_runs(self, cfg, tier):
        bits = cfg["depth"] * sum(map(abs, cfg["sigs"]))
        return max(4, super().n_runs(cfg, tier) * 300 // max(300, bits))

    def build(self, cfg):
        c = Ctx()
        c.sigs = make_signals(cfg["sigs"])
        kw = {} if not cfg["en"] else {"with_enable": True}
        if cfg["csn"]:
            kw["cs_idles_high"] = True
        c.dut = SyncSerialILA(signals=c.sigs, sample_depth=cfg["depth"]) if cfg.get("dflt") else SyncSerialILA(signals=c.sigs, sample_depth=cfg["depth"], clock_polarity=cfg["pol"], clock_phase=cfg["pha"],
                              samples_pretrigger=cfg["P"], domain=cfg["domain"], **kw)
        c.width = sum(abs(w) for w in cfg["sigs"])
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        ops = []
        for _ in range(rng.randint(1, 2)):
            ops.append(["capture", 0, 0])
            for _ in range(rng.randint(1, 3)):
                ops.append(["read", rng.choice([1.0, 1.0, rng.random(), 0.0]), rng.getrandbits(16)])
            if rng.random() < 0.15:
                ops.append(["reset", 0, 0])
        return {"ops": ops, "seed": rng.getrandbits(24), "half": rng.choice([4, 4, 5, 7, 11])}

    def run(self, c, cfg, plan, R):
        b, d, D, dom = c.b, c.dut, cfg["depth"], cfg["domain"]
        b.power_on()
        g, rnd, spi = b.get, Lcg(plan["seed"]), d.spi
        idle, act = cfg["pol"], 1 - cfg["pol"]
        b.set(spi.sck, idle)
        off, on = cfg["csn"], 1 - cfg["csn"]
        b.set(spi.cs, off)
        W = 32
        while W < c.width:
            W *= 2
        half = plan["half"]
        stored = None

        def cyc(k=1):
            for _ in range(k):
                b.set(spi.sdi, rnd.next(2))
                b.tick(dom)

        def hp():
            return half if rnd.next(3) else half + rnd.next(4)

        for kind, frac, seed in plan["ops"]:
            if kind == "capture":
                stored = run_capture(b, d, c.sigs, c.width, D, cfg["P"], cfg["en"], R, rnd, dom)
                R.log("captured", stored)
            elif kind == "reset":
                b.reset(dom)
                stored = None
                R.fault("reset")
            elif kind == "read" and stored is not None:
                nbits = int(D * W * frac)
                if frac < 1:
                    R.fault("readout_cut_short")
                cyc(8 + rnd.next(10))
                b.set(spi.cs, on)
                cyc(6 + rnd.next(10))
                got = []
                for i in range(nbits):
                    if cfg["pha"] == 0:
                        b.settle(); got.append(g(spi.sdo))
                        b.set(spi.sck, act); cyc(hp())
                        b.set(spi.sck, idle); cyc(hp())
                    else:
                        b.set(spi.sck, act); cyc(hp())
                        b.settle(); got.append(g(spi.sdo))
                        b.set(spi.sck, idle); cyc(hp())
                    if rnd.next(W) == 0:
                        cyc(rnd.next(40))
                b.set(spi.cs, off)
                cyc(8)
                words = [value_of(got[i * W:(i + 1) * W]) for i in range(nbits // W)]
                R.log("read", words)
                for i, w in enumerate(words):
                    R.check(w == stored[i], "readout", lambda: f"word {i} of the read-out is {w:#x}, sample {i} is {stored[i]:#x}")
                if nbits % W:
                    k = nbits // W
                    part, n = value_of(got[k * W:]), nbits % W
                    R.check(part == stored[k] >> (W - n), "readout", lambda: f"first {n} bits of word {k} are {part:#x}, sample is {stored[k]:#x}")
                R.items += len(words)
                R.reach(cfg["pol"], cfg["pha"], W, D, min(nbits // W, 3), half)
        R.cycles = b.cycles


class StreamLink(Scenario):
    name = "stream"
    quick, thorough = 40, 600
    chunk = 7
    lists = ("ops",)

    def configs(self, rng, tier):
        out = []
        for dom, odom in [("sync", None), ("sync", "sync"), ("fast", None), ("sync", "usb"), ("usb", "sync"), ("fast", "usb"), ("sync", "fast"), ("usb", "fast")]:
            for _ in range(2 if tier == "quick" else 8):
                out.append({"sigs": sigset(rng), "depth": rng.choice([1, 2, 3, 5, 8, 16, 17, 33, 33, 64, 130]), "P": rng.choice([0, 1, 2, 3, 5]),
                            "en": rng.randint(0, 1), "domain": dom, "o": odom})
        out.append({"sigs": [9], "depth": rng.choice([255, 256, 257, 300]), "P": 2, "en": 0, "domain": "sync", "o": rng.choice([None, "usb"])})
        return out

    def build(self, cfg):
        c = Ctx()
        c.sigs = make_signals(cfg["sigs"])
        kw = {} if not cfg["en"] else {"with_enable": True}
        c.dut = StreamILA(signals=c.sigs, sample_depth=cfg["depth"], samples_pretrigger=cfg["P"], domain=cfg["domain"], o_domain=cfg["o"], **kw)
        c.width = sum(abs(w) for w in cfg["sigs"])
        m = Module()
        m.submodules.dut = c.dut
        for x in {cfg["domain"], cfg["o"] or cfg["domain"]}:
            m.d[x] += Signal(name="alive_" + x).eq(1)
        c.b = Bench(m)
        return c

    def gen(self, rng, cfg):
        ops = []
        for _ in range(rng.randint(1, 3)):
            mode = rng.choice(["always", "random", "after_valid", "slow", "late"])
            ops.append([mode, rng.randint(0, 60), rng.getrandbits(16), 1 if rng.random() < 0.15 else 0])
        return {"ops": ops, "seed": rng.getrandbits(24), "ratio": rng.choice([[1, 1], [1, 2], [1, 5], [3, 1], [7, 1], [4, 3]]), "p": rng.choice([2, 3, 8])}

    def run(self, c, cfg, plan, R):
        b, d, D, P = c.b, c.dut, cfg["depth"], cfg["P"]
        w, o = cfg["domain"], cfg["o"] or cfg["domain"]
        b.power_on()
        g, rnd, s = b.get, Lcg(plan["seed"]), d.stream
        S = {"mode": "always", "t": 0, "got": [], "held": None, "seen": 0, "wt": 0}
        rw, ro = plan["ratio"]

        def edge(names):
            """one instant: drive the consumer if its domain ticks"""
            if o in names:
                t = S["t"] = S["t"] + 1
                mode = S["mode"]
                b.settle()
                v = g(s.valid)
                r = {"always": 1, "random": int(rnd.next(plan["p"]) == 0), "slow": int(rnd.next(12) == 0), "late": int(t > S["late"]),
                     "after_valid": int(v and S["seen"])}[mode]
                S["seen"] = v
                b.set(s.ready, r)
                b.settle()
                cur = (g(s.payload), g(s.first), g(s.last)) if g(s.valid) else None
                if S["held"] is not None:
                    R.check(cur == S["held"], "unstable", lambda: f"item on offer changed from {S['held']} to {cur} without being accepted")
                S["held"] = None
                if cur is not None:
                    if r:
                        S["got"].append(cur)
                        S["seen"] = 0
                    else:
                        S["held"] = cur
                        R.fault("consumer_stall")
            b.tick(*names)

        def advance():
            """until the capture domain has had one edge"""
            if w == o:
                edge([w])
                return
            while True:
                x = rnd.next(rw + ro + 1)
                if x < rw:
                    edge([w]); return
                elif x < rw + ro:
                    edge([o])
                else:
                    edge([w, o]); return

        for mode, gap, seed, rst in plan["ops"]:
            S.update(mode=mode, late=S["t"] + gap * 3, got=[])
            for k in range(gap):
                if k % 7 == 0:
                    pass
                advance()
            stored = run_capture(b, d, c.sigs, c.width, D, P, cfg["en"], R, rnd, w, step=advance)
            if rst:
                for _ in range(seed % (3 * D + 5)):
                    advance()
                b.set(d.trigger, 0)
                b.reset(*({w, o}), cycles=1 if w == o else 5)   # the crossing FIFO of Amaranth needs the longer one
                S["held"] = None
                R.fault("reset_in_readout")
                R.log("reset", len(S["got"]))
                for i, (v, f, l) in enumerate(S["got"]):
                    R.check(i < D and v == stored[i], "readout", lambda: f"item {i} is {v:#x}")
                continue
            limit = S["t"] + (40 * D + 400) * (3 if mode in ("slow", "random") else 1) + gap * 4
            trig = Lcg(seed)
            while len(S["got"]) < D:
                # triggers while sending do not disturb it
                x = int(trig.next(8) == 0)
                b.set(d.trigger, x if len(S["got"]) < D - 20 else 0)
                R.fault("trigger_while_sending", x if len(S["got"]) < D - 20 else 0)
                for sg in c.sigs:
                    b.set(sg, trig.next(1 << 16))
                advance()
                R.check(S["t"] < limit, "hang", lambda: f"only {len(S['got'])} of {D} samples delivered")
            b.set(d.trigger, 0)
            for _ in range(20 + seed % 40):
                advance()
            got = S["got"]
            R.log("items", got)
            R.check(len(got) == D, "surplus", lambda: f"{len(got)} items delivered for {D} samples")
            for i, (v, f, l) in enumerate(got):
                R.check(v == stored[i], "readout", lambda: f"item {i} is {v:#x}, sample is {stored[i]:#x}")
                R.check(f == (i == 0), "first", lambda: f"first={f} on item {i}")
                R.check(l == (i == D - 1), "last", lambda: f"last={l} on item {i} of {D}")
            R.items += D
            R.reach(w == o, mode, D, tuple(plan["ratio"]))
        R.cycles = b.cycles


class FakePort:
    """Host side of the serial line (pyserial's interface as far as the front end uses it)."""
    data = b""

    def __init__(self, *a, **k):
        self.buf = bytes(FakePort.data)

    def reset_input_buffer(self):
        pass

    def read(self, n):
        out, self.buf = self.buf[:n], self.buf[n:]
        return out


class AsyncLink(Scenario):
    name = "async-serial"
    quick, thorough = 14, 200
    chunk = 3
    lists = ("ops",)

    def configs(self, rng, tier):
        out = []
        for sig in SIGSETS:
            for _ in range(1 if tier == "quick" else 4):
                out.append({"sigs": sig if rng.random() < 0.7 else sigset(rng), "depth": rng.choice([1, 2, 3, 5, 8, 8, 16, 17, 40]), "P": rng.choice([0, 1, 2, 3, 5]), "en": rng.randint(0, 1),
                            "domain": rng.choice(["sync", "sync", "fast"]), "div": rng.choice([2, 3, 4, 7, 16, 23]), "rate": rng.choice([60e6, 1e6, 48e6, 12.5e6])})
        out.append({"sigs": [3], "depth": rng.choice([255, 256, 257, 300]), "P": 1, "en": 0, "domain": "sync", "div": 2, "rate": 60e6})
        return out

    def n_runs(self, cfg, tier):
        k = Scenario.n_runs(self, cfg, tier)
        return k if cfg["depth"] * cfg["div"] * sum(map(abs, cfg["sigs"])) < 3000 else max(2, k // 5)

    def build(self, cfg):
        c = Ctx()
        c.sigs = make_signals(cfg["sigs"])
        kw = {} if not cfg["en"] else {"with_enable": True}
        c.dut = AsyncSerialILA(signals=c.sigs, sample_depth=cfg["depth"], samples_pretrigger=cfg["P"], divisor=cfg["div"],
                               domain=cfg["domain"], sample_rate=cfg["rate"], **kw)
        c.width = sum(abs(w) for w in cfg["sigs"])
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        return {"ops": [[rng.randint(0, 50), rng.getrandbits(16), 1 if rng.random() < 0.15 else 0] for _ in range(rng.randint(1, 3))],
                "seed": rng.getrandbits(24), "pickle": rng.random() < 0.3, "clock": rng.random() < 0.7, "stdout": rng.random() < 0.2}

    def run(self, c, cfg, plan, R):
        b, d, D, P, dom = c.b, c.dut, cfg["depth"], cfg["P"], cfg["domain"]
        b.power_on()
        g, rnd = b.get, Lcg(plan["seed"])
        bytes_per = 1
        while bytes_per * 8 < c.width:
            bytes_per *= 2
        dec = FrameDecoder(cfg["div"])
        S = {"data": bytearray(), "warm": 0}

        def tick():
            b.settle()
            v = dec.feed(g(d.tx))
            if v is not None:
                S["data"].append(v)
            b.tick(dom)

        for gap, seed, rst in plan["ops"]:
            for _ in range(gap):
                tick()
            R.check(not S["data"] and not dec.busy, "surplus", "line busy although nothing was captured")
            stored = run_capture(b, d, c.sigs, c.width, D, P, cfg["en"], R, rnd, dom, step=tick)
            need = D * bytes_per
            if rst:
                for _ in range(seed % (need * 10 * cfg["div"])):
                    tick()
                b.reset(dom)
                dec.abort()
                S["data"] = bytearray()
                R.fault("reset_in_readout")
                R.log("reset")
                continue
            k = 0
            while len(S["data"]) < need:
                for sg in c.sigs:
                    b.set(sg, rnd.next(1 << 16))
                tick()
                k += 1
                R.check(k < (need + 2) * (10 * cfg["div"] + 6) + 40, "hang", lambda: f"only {len(S['data'])} of {need} bytes sent")
            for _ in range(30 * cfg["div"] + seed % 40):
                tick()
            data = bytes(S["data"])
            R.check(len(data) == need and not dec.busy, "surplus", lambda: f"{len(data)} bytes sent for {need}")
            S["data"] = bytearray()
            R.log("line", data)
            self.host(c, cfg, plan, data, stored, R)
            R.items += D
            R.reach(cfg["div"], D, bytes_per, tuple(cfg["sigs"]))
        R.cycles = b.cycles

    def host(self, c, cfg, plan, data, stored, R):
        FakePort.data = data
        old = sys.modules.get("serial")
        sys.modules["serial"] = types.SimpleNamespace(Serial=FakePort)
        tmp = tempfile.mkdtemp(prefix="dst-ila-")
        try:
            ila = c.dut
            if plan["pickle"]:
                p = os.path.join(tmp, "ila.P")
                ILACoreParameters(ila).pickle(p)
                ila = ILACoreParameters.unpickle(p)
            fe = AsyncSerialILAFrontend("port", ila=ila)
            got = list(fe.enumerate_samples())
            R.check(len(got) == len(stored), "decode", lambda: f"front end decodes {len(got)} samples from {len(stored)}")
            period = 1 / cfg["rate"]
            want = []
            for v in stored:
                e, off = {}, 0
                for s in c.sigs:
                    e[s.name] = (v >> off) & ((1 << len(s)) - 1)
                    off += len(s)
                want.append(e)
            for i, ((t, e), w) in enumerate(zip(got, want)):
                R.check(abs(t - i * period) < period / 1000, "decode", lambda: f"sample {i} at {t} s")
                e = {k: int(v) for k, v in e.items()}
                R.check(e == w, "decode", lambda: f"sample {i} decodes to {e}, captured {w}")
            vcd = os.path.join(tmp, "x.vcd")
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                fe.emit_vcd(vcd, gtkw_filename=vcd + ".gtkw", add_clock=plan["clock"])
            self.vcd(open(vcd).read(), c, cfg, want, R, plan["clock"])
            if plan["stdout"]:
                for what in ("vcd", "print"):
                    with contextlib.redirect_stdout(io.StringIO()) as o, contextlib.redirect_stderr(io.StringIO()):
                        fe.print_samples() if what == "print" else fe.emit_vcd("-", add_clock=plan["clock"])
                    if what == "vcd":
                        R.check(o.getvalue().lstrip().startswith("$"), "vcd", lambda: f"the dump on standard output begins with {o.getvalue()[:40]!r}")
                        self.vcd(o.getvalue(), c, cfg, want, R, plan["clock"])
                lines = o.getvalue().splitlines()
                R.check(len(lines) == len(want), "print", lambda: f"{len(lines)} lines for {len(want)} samples")
                for i, (l, w) in enumerate(zip(lines, want)):
                    t, _, rest = l.partition("us:")
                    R.check(abs(float(t) - i * period * 1e6) < 1e-5 + period * 1e3, "print", lambda: f"sample {i} printed as {l!r}, sample period {period * 1e6} us")
                    for s in c.sigs:
                        b = format(w[s.name], f"0{len(s)}b")
                        R.check(re.search(rf"'{re.escape(s.name)}': bits\('{b}'\)", rest), "print", lambda: f"sample {i} printed as {l!r}, {s.name} was {b}")
            g = open(vcd + ".gtkw").read().splitlines()
            names = [l.rsplit(".", 1)[1].split("[")[0] for l in g if l.startswith("ila.")]
            R.check(names == (["ila_clock"] if plan["clock"] else []) + [s.name for s in c.sigs] and any(vcd in l for l in g), "gtkw", lambda: f"the save file shows {names}")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
            if old is None:
                sys.modules.pop("serial", None)
            else:
                sys.modules["serial"] = old

    def vcd(self, text, c, cfg, want, R, clock):
        ids = {m.group(3): m.group(2) for m in re.finditer(r"\$var (\w+) \d+ (\S+) (\S+) \$end", text)}
        body = text.split("$enddefinitions $end")[1]
        t, changes = 0, []
        for line in body.splitlines():
            if line.startswith("#"):
                t = int(line[1:])
            elif line[:1] == "b":
                v, k = line[1:].split()
                changes.append((t, k, v))
            elif line[:1] in "01xz" and line:
                changes.append((t, line[1:], line[0]))
        R.check(("ila_clock" in ids) == clock, "vcd", "clock in the dump: not as asked for")
        if clock:
            T = 1e9 / cfg["rate"]
            rise = [t for t, k, v in changes if k == ids["ila_clock"] and v == "1"]
            R.check(len(want) - 1 <= len(rise) <= len(want) and all(abs(t - i * T) <= 1.01 for i, t in enumerate(rise)), "vcd",
                    lambda: f"sample clock rises at {rise[:5]}, sample period {T}")
        for s in c.sigs:
            k = ids.get(s.name)
            R.check(k is not None, "vcd", lambda: f"{s.name} is not in the dump")
            mine = [(t, v) for t, kk, v in changes if kk == k and "x" not in v]
            exp, last = [], None
            for i, w in enumerate(want):
                if w[s.name] != last:
                    last = w[s.name]
                    exp.append((i / cfg["rate"] * 1e9, last))
            R.check(len(mine) == len(exp) and all(abs(a[0] - e[0]) <= 1.01 and int(a[1], 2) == e[1] for a, e in zip(mine, exp)), "vcd",
                    lambda: f"{s.name}: dump has {mine[:8]}, captured {exp[:8]}")


register("C25", SyncLink(), StreamLink(), AsyncLink(),
         rule="Each run captures random signal histories and reads them out over a simulated link: SPI controllers of drawn speed that may deselect after any bit, "
              "stream consumers with drawn stalls (including ones that wait for valid) in drawn clock ratios, and a UART line decoded bit by bit and fed to the host front end.",
         real=["SyncSerialILA", "StreamILA", "AsyncSerialILA", "IntegratedLogicAnalyzer", "SPIDeviceInterface", "UARTMultibyteTransmitter",
               "AsyncSerialILAFrontend", "ILAFrontend", "ILACoreParameters"],
         stub=["SPI controller", "stream consumer", "UART line receiver", "pyserial port"],
         assumptions=["read-out happens after the capture completed", "SPI half clock period of at least four cycles, chip select at least six cycles before the first edge and eight between read-outs",
                      "one capture's worth of bytes is available to the serial front end when it reads"])
