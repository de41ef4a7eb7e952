"""C29 digital filters, C30 resampler, C31 stereo convolution, C32 FFT."""
import contextlib, io, math
from collections import deque
import numpy as np
from scipy import signal
from amaranth import *
from amlib.dsp.fixedpointfirfilter import FixedPointFIRFilter
from amlib.dsp.fixedpointiirfilter import FixedPointIIRFilter
from amlib.dsp.fixedpointhbfilter import FixedPointHBFilter
from amlib.dsp.fixedpointcicfilter import FixedPointCICFilter
from amlib.dsp.filterbank import Filterbank
from amlib.dsp.resampler import FractionalResampler
from amlib.dsp.fixedpointfft import FixedPointFFT
from amlib.dsp.convolution.mac import StereoConvolutionMAC
from amlib.dsp.convolution.convolutionmode import ConvolutionMode
from ..bench import Bench
from ..core import Scenario, register
from ..util import rle_schedule, Sched
from .spi import Lcg, Ctx


def wrap(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


def quiet(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **kw)


def talk(cfg):
    """what a core prints while it is built must not matter"""
    return bool(len(str(cfg)) & 1)


# -- coefficients ----------------------------------------------------------------------------
# The filters publish the coefficients they use as `taps`, `b` and `a`; whether they make the right frequency response is
# decided separately, by measuring it (C37).  A filter that keeps them to itself is compared with the documented design.
def fir_taps(dut, samplerate, bitwidth=18, fraction_width=18, cutoff_freq=20000, filter_order=24, filter_type="lowpass", weight=None, **_):
    t = getattr(dut, "taps", None)
    if t is None:
        if isinstance(cutoff_freq, int):
            t = signal.firwin(filter_order, cutoff_freq, fs=samplerate, pass_zero=filter_type, window="hamming")
        else:
            t = signal.remez(filter_order, np.array([0., cutoff_freq[0] / samplerate, cutoff_freq[1] / samplerate, .5]),
                             [1, 0] if filter_type in (True, "lowpass") else [0, 1], weight=weight)
        t = [int(x * 2**fraction_width) for x in t]
    return list(t)


def hb_taps(dut, fraction_width=18, filter_order=19, **_):
    t = getattr(dut, "taps", None)
    if t is None:
        t = [int(x * 2**fraction_width) for x in signal.remez(filter_order, np.array([0.0, 0.22, 0.28, 0.5]), [1, 0], weight=[1, 1])]
    return list(t)


def iir_taps(dut, samplerate, fraction_width=18, cutoff_freq=20000, filter_order=2, filter_type="lowpass", **_):
    b, a = getattr(dut, "b", None), getattr(dut, "a", None)
    if b is None or a is None:
        b, a = ([int(x * 2**fraction_width) for x in v]
                for v in signal.cheby1(filter_order, 1.0, cutoff_freq / (samplerate * 0.5), btype=filter_type, output="ba"))
    return list(b), list(a)


# -- references ------------------------------------------------------------------------------
class FirRef:
    def __init__(self, taps, bw, fw):
        self.taps, self.bw, self.fw = taps, bw, fw
        self.x = [0] * len(taps)

    @property
    def out(self):
        return wrap(sum((x * t) >> self.fw for x, t in zip(self.x, self.taps)), self.bw)

    def push(self, v):
        self.x = [v] + self.x[:-1]


class IirRef:
    def __init__(self, b, a, bw, fw):
        self.b, self.a, self.bw, self.fw = b, a[1:], bw, fw
        self.x, self.y = [0] * len(b), [0] * (len(a) - 1)

    @property
    def out(self):
        return wrap(sum((x * c) >> self.fw for x, c in zip(self.x, self.b)) - sum((y * c) >> self.fw for y, c in zip(self.y, self.a)), self.bw)

    def push(self, v):
        o = self.out
        self.x, self.y = [v] + self.x[:-1], [o] + self.y[:-1]


class HbRef:
    """Half-band: every second coefficient is zero, the middle one is exactly one half."""
    def __init__(self, taps, bw, fw):
        self.taps, self.bw, self.fw = taps, bw, fw
        self.x = [0] * len(taps)

    @property
    def out(self):
        n = len(self.taps)
        s = self.x[n // 2] >> 1
        for i in range(0, n // 2, 2):
            s += ((self.x[i] + self.x[n - 1 - i]) * self.taps[i]) >> self.fw
        return wrap(s, self.bw)

    def push(self, v):
        self.x = [v] + self.x[:-1]


class Chain:
    """Filters after one another: each takes what its predecessor showed before the same strobe."""
    def __init__(self, refs):
        self.refs = refs

    @property
    def out(self):
        return self.refs[-1].out

    def push(self, v):
        vals = [v] + [r.out for r in self.refs[:-1]]
        for r, x in zip(self.refs, vals):
            r.push(x)


def samples(rng, n, bw):
    """Sample sequences that stress a filter: [kind, ...] are expanded when the plan is made."""
    hi, lo = (1 << (bw - 1)) - 1, -(1 << (bw - 1))
    k = rng.choice(["noise", "extreme", "impulse", "step", "small", "alternate", "mixed"])
    out = []
    for i in range(n):
        q = rng.choice(["noise", "extreme", "impulse", "step", "small"]) if k == "mixed" else k
        out.append({"noise": lambda: rng.randint(lo, hi), "extreme": lambda: rng.choice([hi, lo]), "impulse": lambda: hi if i % 17 == 3 else 0,
                    "step": lambda: hi if (i // 13) & 1 else lo, "small": lambda: rng.randint(-3, 3),
                    "alternate": lambda: hi if i & 1 else lo}[q]())
    return out


def fir_args(rng, tier):
    order = rng.choice([1, 2, 3, 5, 8, 13, 24, 33, rng.randint(2, 70), rng.randint(64, 140)])
    bw = rng.choice([8, 12, 16, 18, 24, rng.randint(6, 27)])
    a = {"samplerate": 48000 * rng.choice([1, 2, 7]), "bitwidth": bw, "fraction_width": bw + rng.choice([0, 0, 1, 4, 8, rng.randint(0, 12)]), "filter_order": order}
    if 13 <= order <= 70 and rng.random() < 0.5:        # (the optimal design need not converge for longer filters)
        sr = a["samplerate"]
        f = sr * rng.uniform(0.1, 0.25)
        a["cutoff_freq"] = [int(f), int(f + sr * 0.12)]
        a["weight"] = [1, rng.choice([1, 5])]
        a["filter_type"] = "lowpass" if rng.random() < 0.6 or not order & 1 else "highpass"
    else:
        a["cutoff_freq"] = rng.choice([5000, 20000])
        if order & 1 and order > 1 and rng.random() < 0.4:
            a["filter_type"] = "highpass"
    return a


class Filters(Scenario):
    name = "filters"
    quick, thorough = 48, 300
    chunk = 24

    def configs(self, rng, tier):
        out = []
        k = 1 if tier == "quick" else 6
        for _ in range(9 * k):
            a = fir_args(rng, tier)
            if a["fraction_width"] + a["bitwidth"] > 60:
                a["fraction_width"] = a["bitwidth"]
            for mac in (False, True):
                out.append({"kind": "fir", "mac": mac, "args": a})
        for _ in range(6 * k):
            bw = rng.choice([12, 16, 18, 24])
            out.append({"kind": "iir", "mac": False, "args": {"samplerate": rng.choice([48000, 96000, 336000]), "bitwidth": bw, "fraction_width": bw + rng.choice([0, 2, 6]),
                        "cutoff_freq": rng.choice([3000, 8000, 20000]), "filter_order": rng.choice([1, 2, 2, 3, 4]), "filter_type": rng.choice(["lowpass", "highpass"])}})
        for _ in range(k):
            out.append({"kind": "iir", "mac": False, "args": {"samplerate": 96000, "bitwidth": 16, "fraction_width": rng.choice([20, 24]), "cutoff_freq": rng.choice([8000, 20000]),
                        "filter_order": rng.randint(5, 8), "filter_type": rng.choice(["lowpass", "highpass"])}})
        for _ in range(4 * k):
            bw = rng.choice([8, 12, 16, 18, 24])
            a = {"bitwidth": bw, "fraction_width": bw + rng.choice([0, 0, 1, 4]), "filter_order": rng.choice([7, 11, 15, 19, 23, 31, 43, 59])}
            for mac in (False, True):
                out.append({"kind": "hb", "mac": mac, "args": a})
        for _ in range(8 * k):
            out.append({"kind": "cic", "mac": False, "args": {"bitwidth": rng.choice([4, 8, 12, 18, 24, 32]), "filter_stage": rng.choice([1, 2, 3, 4, 5, 6]), "decimation": rng.choice([2, 3, 4, 7, 8, 12, 16, 25, rng.randint(2, 70)])}})
        for _ in range(4 * k):      # the gain exceeds the output width
            n, r = rng.choice([(1, 64), (2, 4), (2, 16), (3, 4), (3, 8), (3, 7), (4, 4), (5, 3), (6, 2)])
            out.append({"kind": "cic", "mac": False, "args": {"bitwidth": rng.choice([3, 5, min(8, 1 + math.ceil(n * math.log2(r)))]), "filter_stage": n, "decimation": r}})
        for _ in range(4 * k):
            out.append({"kind": "bank", "mac": False, "args": {"num_instances": rng.choice([1, 2, 3]), "samplerate": 96000, "bitwidth": rng.choice([12, 16, 18]), "fraction_width": 18,
                        "cutoff_freq": rng.choice([5000, 20000]), "filter_order": rng.choice([2, 3]), "filter_structure": rng.choice(["fir", "iir"])}})
            out.append({"kind": "bank", "mac": False, "args": {"num_instances": rng.choice([2, 4]), "samplerate": 96000, "bitwidth": rng.choice([12, 16]), "fraction_width": rng.choice([16, 20]),
                        "cutoff_freq": rng.randint(4000, 30000), "filter_order": rng.choice([3, 5, 11]), "filter_structure": "fir", "filter_type": rng.choice(["highpass", "lowpass"])}})
        # as most users build them
        D = {"bitwidth": 18, "fraction_width": 18}
        out.append({"kind": "fir", "mac": False, "args": dict(D, samplerate=96000), "dflt": 1})
        out.append({"kind": "iir", "mac": False, "args": dict(D, samplerate=96000), "dflt": 1})
        out.append({"kind": "hb", "mac": False, "args": D, "dflt": 1})
        out.append({"kind": "cic", "mac": False, "args": {"bitwidth": 18, "filter_stage": 4, "decimation": 12}, "dflt": 1})
        out.append({"kind": "bank", "mac": False, "args": dict(D, num_instances=2, samplerate=96000, filter_structure="fir", filter_order=2, cutoff_freq=20000), "dflt": 1})
        return out

    def build(self, cfg):
        c = Ctx()
        a, kind = cfg["args"], cfg["kind"]
        if cfg.get("dflt"):
            a = {k: v for k, v in a.items() if k in ("samplerate", "num_instances")}
        if kind in ("fir", "hb"):
            c.dut = quiet(FixedPointFIRFilter if kind == "fir" else FixedPointHBFilter, mac_loop=cfg["mac"], verbose=talk(cfg), **a)
        elif kind == "iir":
            c.dut = quiet(FixedPointIIRFilter, verbose=talk(cfg), **a)
        elif kind == "cic":
            c.dut = quiet(FixedPointCICFilter, verbose=talk(cfg), **a)
        else:
            c.dut = quiet(Filterbank, a["num_instances"], verbose=talk(cfg), **{k: v for k, v in a.items() if k != "num_instances"})
        c.ref = self.reference(c.dut, cfg)
        c.b = Bench(c.dut)
        return c

    def reference(self, dut, cfg):
        """-> a function making a fresh reference, from the coefficients of the filter."""
        a, kind = cfg["args"], cfg["kind"]
        if kind == "fir":
            t = fir_taps(dut, **a)
            return lambda: FirRef(t, a["bitwidth"], a["fraction_width"])
        if kind == "iir":
            t = iir_taps(dut, **a)
            return lambda: IirRef(*t, a["bitwidth"], a["fraction_width"])
        if kind == "hb":
            t = hb_taps(dut, **a)
            return lambda: HbRef(t, a["bitwidth"], a["fraction_width"])
        if kind == "bank":
            aa = {k: v for k, v in a.items() if k not in ("num_instances", "filter_structure")}
            if a["filter_structure"] == "fir":
                f = quiet(FixedPointFIRFilter, verbose=False, **aa)
                t = fir_taps(f, **aa)
                return lambda: Chain([FirRef(t, a["bitwidth"], a["fraction_width"]) for _ in range(a["num_instances"])])
            f = quiet(FixedPointIIRFilter, verbose=False, **aa)
            t = iir_taps(f, **aa)
            return lambda: Chain([IirRef(*t, a["bitwidth"], a["fraction_width"]) for _ in range(a["num_instances"])])
        return None

    def gen(self, rng, cfg):
        a = cfg["args"]
        n = rng.randint(20, 90) if cfg["kind"] != "cic" else rng.randint(3, 9) * min(a["decimation"], 20) * 2 + rng.randint(0, 9)
        bw = a["bitwidth"]
        s = samples(rng, n, bw)
        if cfg["kind"] == "cic":
            if rng.random() < 0.5:      # long runs, up to full scale
                s, v = [], 1
                while len(s) < n:
                    s += [v] * rng.randint(1, 2 * a["decimation"] * a["filter_stage"])
                    v = -v
                s = s[:n]
            else:
                s = [1 if x >= 0 else -1 for x in s]
        m = rng.choice([1, 1, 2, 5])
        p_rst = rng.choice([0, 0, 0.02])
        return {"ops": [[x, rng.randint(0, m * 3) if m > 1 else 0, 1 if rng.random() < p_rst else 0] for x in s], "seed": rng.getrandbits(16)}

    def run(self, c, cfg, plan, R):
        b, d = c.b, c.dut
        b.power_on()
        {"fir": self.run_fir, "iir": self.run_fir, "bank": self.run_fir, "hb": self.run_hb, "cic": self.run_cic}[cfg["kind"]](c, cfg, plan, R)
        R.cycles = b.cycles

    def run_fir(self, c, cfg, plan, R):
        b, d, g = c.b, c.dut, c.b.get
        ref = c.ref()
        rnd = Lcg(plan["seed"])
        busy = len(fir_taps(d, **cfg["args"])) + 2 if cfg["mac"] else 0       # cycles one pass of the sequential form takes
        bw = cfg["args"]["bitwidth"]

        def idle(k, old=None, since=0):
            for i in range(k):
                b.set(d.enable_in, 0)
                b.set(d.signal_in, rnd.bits(bw))
                b.settle()
                v = g(d.signal_out)
                if old is not None and since + i < busy:
                    R.check(v in (old, ref.out), "response", lambda: f"output {v} while computing, expected {old} or {ref.out}")
                else:
                    R.check(v == ref.out, "response", lambda: f"output {v}, expected {ref.out} ({R.items} samples)")
                b.tick()

        for x, gap, rst in plan["ops"]:
            old = ref.out
            b.set(d.enable_in, 1)
            b.set(d.signal_in, x)
            b.settle()
            v = g(d.signal_out)
            R.check(v == old, "response", lambda: f"output {v}, expected {old} ({R.items} samples)")
            b.tick()
            ref.push(x)
            R.items += 1
            R.log(v)
            R.reach(cfg["kind"], cfg["mac"], gap, v >> (bw - 4))
            if cfg["mac"]:
                idle(busy - 1 + gap, old)
            elif gap:
                idle(gap)
            if gap:
                R.fault("strobe_gap")
            if rst:
                b.set(d.enable_in, 0)
                b.reset()
                ref = c.ref()
                R.fault("reset")
        idle(2)
        b.set(d.enable_in, 0)

    def run_hb(self, c, cfg, plan, R):
        b, d, g = c.b, c.dut, c.b.get
        n = len(hb_taps(d, **cfg["args"]))
        busy = (n // 4 + 1) + 2 if cfg["mac"] else 1
        rnd = Lcg(plan["seed"])
        bw = cfg["args"]["bitwidth"]
        S = {"ref": c.ref(), "hist": [0], "outs": 0, "lag": {0, 1} if cfg["mac"] else {0}}

        def cycle(strobe, x):
            b.set(d.strobe_in, strobe)
            b.set(d.signal_in, x)
            b.settle()
            if g(d.strobe_out):
                k = len(S["hist"]) - 1               # samples taken so far
                S["outs"] += 1
                R.check(S["outs"] == k // 2, "decimation", lambda: f"{S['outs']} outputs for {k} inputs")
                v = g(d.signal_out)
                # the sequential form shows the response to the sample before
                S["lag"] = {l for l in S["lag"] if v == S["hist"][-1 - l]}
                R.check(S["lag"], "response", lambda: f"output {v} after {k} samples, expected {S['hist'][-2:]}")
                R.log(v)
                R.items += 1
                R.reach(cfg["kind"], cfg["mac"], v >> (bw - 4))
            b.tick()
            if strobe:
                S["ref"].push(x)
                S["hist"].append(S["ref"].out)

        for x, gap, rst in plan["ops"]:
            cycle(1, x)
            for _ in range(busy - 1 + gap):
                cycle(0, rnd.bits(bw))
            if gap:
                R.fault("strobe_gap")
            if rst:
                b.set(d.strobe_in, 0)
                b.reset()
                S.update(ref=c.ref(), hist=[0], outs=0)
                R.fault("reset")
        for _ in range(4):
            cycle(0, 0)
        k = len(S["hist"]) - 1
        R.check(S["outs"] == k // 2, "decimation", lambda: f"{S['outs']} outputs for {k} inputs")

    def run_cic(self, c, cfg, plan, R):
        b, d, g = c.b, c.dut, c.b.get
        a = cfg["args"]
        n, r, bw = a["filter_stage"], a["decimation"], a["bitwidth"]
        width = max(1 + math.ceil(n * math.log2(r)), bw)
        h = [1]
        for _ in range(n):
            h = [sum(h[k - j] for j in range(r) if 0 <= k - j < len(h)) for k in range(len(h) + r - 1)]
        S = {"u": [], "outs": 0, "wait": 0}
        rnd = Lcg(plan["seed"])

        def expected(m):
            """m-th output: n comb stages and n-1 integrator registers of delay"""
            t = (m - n + 1) * r - 1 - (n - 1)
            s = sum(hh * S["u"][t - j] for j, hh in enumerate(h) if 0 <= t - j < len(S["u"]))
            return min(s >> (width - bw), (1 << bw - 1) - 1)      # positive full scale is clipped

        def cycle(strobe, x):
            b.set(d.strobe_in, strobe)
            b.set(d.signal_in, x)
            b.settle()
            if g(d.strobe_out):
                m = S["outs"]
                S["outs"] += 1
                R.check(S["outs"] <= len(S["u"]) // r, "decimation", lambda: f"{S['outs']} outputs for {len(S['u'])} inputs")
                v = g(d.signal_out)
                R.check(v == expected(m), "response", lambda: f"output {m} is {v}, expected {expected(m)}")
                R.log(v)
                R.items += 1
                R.reach(n, r, v >> max(0, bw - 4))
            S["wait"] = S["wait"] + 1 if S["outs"] < len(S["u"]) // r else 0
            R.check(S["wait"] < 6, "decimation", lambda: f"only {S['outs']} outputs for {len(S['u'])} inputs")
            b.tick()
            if strobe:
                S["u"].append(wrap(x, bw))

        for x, gap, rst in plan["ops"]:
            cycle(1, x)
            for _ in range(gap):
                cycle(0, rnd.bits(bw))
            if gap:
                R.fault("strobe_gap")
            if rst:
                b.set(d.strobe_in, 0)
                b.reset()
                S.update(u=[], outs=0, wait=0)
                R.fault("reset")
        for _ in range(6):
            cycle(0, 0)
        R.check(S["outs"] == len(S["u"]) // r, "decimation", lambda: f"{S['outs']} outputs for {len(S['u'])} inputs")


register("C29", Filters(),
         rule="Each run feeds a drawn sample sequence (noise, full-scale extremes, impulses, steps) with drawn gaps between the strobes and resets to one filter.",
         real=["FixedPointFIRFilter", "FixedPointIIRFilter", "FixedPointHBFilter", "FixedPointCICFilter", "Filterbank"], stub=["sample source"],
         assumptions=["strobes of the sequential forms keep the number of cycles one pass takes (taps + 2, pairs + 2)",
                      "coefficients are those the filter object reports; results wrap around at the output width",
                      "the sequential half-band filter may show the response of the sample before at its strobe"])


# --------------------------------------------------------------------------------------------
class Response(Scenario):
    """Tones through a filter: what comes out has the amplitude the design parameters promise."""
    name = "frequency-response"
    quick, thorough = 30, 300
    chunk = 15

    def configs(self, rng, tier):
        out = []
        k = 1 if tier == "quick" else 5
        for i in range(8 * k):
            sr = rng.choice([44100, 48000, 96000, 336000, 1000])
            bw = rng.choice([16, 18, 24])
            typ = "highpass" if i % 3 == 0 else "lowpass"
            order = rng.choice([13, 21, 33, 45, 63]) if typ == "highpass" else rng.choice([12, 13, 20, 24, 33, 48, 63])
            a = {"samplerate": sr, "bitwidth": bw, "fraction_width": bw + rng.choice([0, 2, 5]), "filter_order": order, "filter_type": typ}
            if i % 4 == 3:
                f = sr * rng.uniform(0.1, 0.3)
                a["cutoff_freq"] = [int(f), int(f + sr * 0.12)]
                a["weight"] = rng.choice([None, [1, 1], [1, 8], [6, 1], [1, 40], [25, 2], [1, 8], [30, 1]])
                if a["weight"] and a["weight"] != [1, 1]:
                    # the ripples must stand out of the rounding
                    a["bitwidth"], a["fraction_width"] = 24, rng.choice([24, 26])
                    a["filter_order"] = rng.choice([11, 13, 15, 21])
            else:
                a["cutoff_freq"] = int(sr * rng.uniform(0.06, 0.42))
            out.append({"kind": "fir", "mac": i % 5 == 4, "args": a})
        for i in range(8 * k):
            sr = rng.choice([44100, 48000, 96000, 336000])
            bw = rng.choice([16, 18, 20])
            out.append({"kind": "iir", "mac": False, "args": {"samplerate": sr, "bitwidth": bw, "fraction_width": bw + rng.choice([0, 4, 6]), "cutoff_freq": int(sr * rng.uniform(0.06, 0.4)),
                        "filter_order": rng.choice([1, 2, 2, 3]), "filter_type": "highpass" if i & 1 else "lowpass"}})
        for i in range(4 * k):
            bw = rng.choice([16, 18, 24])
            out.append({"kind": "hb", "mac": bool(i & 1), "args": {"bitwidth": bw, "fraction_width": bw + rng.choice([0, 1, 4]), "filter_order": rng.choice([7, 11, 19, 27, 35])}})
        for i in range(4 * k):
            st = "iir" if i & 1 else "fir"
            out.append({"kind": "bank", "mac": False, "args": {"num_instances": rng.choice([1, 2, 3]), "samplerate": 96000, "bitwidth": rng.choice([16, 18]), "fraction_width": 20,
                        "cutoff_freq": rng.randint(8000, 30000), "filter_order": rng.choice([1, 2]) if st == "iir" else rng.choice([13, 21]),
                        "filter_structure": st, "filter_type": "highpass" if i & 2 else "lowpass"}})
        # as most users build them
        out.append({"kind": "fir", "mac": False, "args": {"samplerate": 96000}})
        out.append({"kind": "iir", "mac": False, "args": {"samplerate": 96000}})
        out.append({"kind": "hb", "mac": False, "args": {}})
        out.append({"kind": "bank", "mac": False, "args": {"num_instances": 1, "samplerate": 192000, "filter_order": 19}})
        return out

    def build(self, cfg):
        c = Ctx()
        a, kind = cfg["args"], cfg["kind"]
        kw = {"mac_loop": True} if cfg["mac"] else {}
        cls = {"fir": FixedPointFIRFilter, "iir": FixedPointIIRFilter, "hb": FixedPointHBFilter, "bank": Filterbank}[kind]
        c.dut = quiet(cls, verbose=talk(cfg), **a, **kw)
        c.gain, c.taps = self.design(cfg)
        c.b = Bench(c.dut)
        return c

    def design(self, cfg):
        """-> gain at a frequency given as a fraction of the sample rate, and how long the response lasts"""
        from scipy import signal
        a, kind = cfg["args"], cfg["kind"]
        typ, f, sr = a.get("filter_type", "lowpass"), a.get("cutoff_freq", 20000), a.get("samplerate", 0)
        st = a.get("filter_structure", "fir") if kind == "bank" else kind
        if kind == "hb":
            b, den = signal.remez(a.get("filter_order", 19), [0, 0.22, 0.28, 0.5], [1, 0], weight=[1, 1]), [1.0]
        elif st == "iir":
            b, den = signal.cheby1(a.get("filter_order", 2), 1.0, f, btype=typ, fs=sr)
        elif isinstance(f, list):
            b, den = signal.remez(a["filter_order"], [0, f[0], f[1], sr / 2], [1, 0] if typ == "lowpass" else [0, 1], weight=a.get("weight"), fs=sr), [1.0]
        else:
            b, den = signal.firwin(a.get("filter_order", 24), f, fs=sr, pass_zero=typ), [1.0]
        n = a.get("num_instances", 1)

        def gain(w):
            z = np.exp(-2j * np.pi * w)
            return abs(np.polyval(b[::-1], z) / np.polyval(den[::-1], z)) ** n
        if st == "iir":
            r = max([abs(p) for p in np.roots(den)] + [0.1])
            last = int(math.log(1e-4) / math.log(r)) * n + 10
        else:
            last = len(b) * n
        return gain, last

    def gen(self, rng, cfg):
        tones = []
        for _ in range(rng.choice([1, 2, 3])):
            M = rng.choice([40, 64, 100])
            tones.append([rng.choice([0, M // 2, rng.randint(1, M // 2 - 1), rng.randint(1, M // 2 - 1), rng.randint(1, M // 2 - 1)]), M, rng.uniform(0.15, 0.4), rng.random() * 6.28])
        return {"ops": tones, "gap": rng.choice([0, 0, 3]), "reset": rng.choice([0, 0, 0, rng.randint(1, 60)]), "seed": rng.getrandbits(16)}

    def run(self, c, cfg, plan, R):
        b, d, g = c.b, c.dut, c.b.get
        b.power_on()
        bw = cfg["args"].get("bitwidth", 18)
        hb = cfg["kind"] == "hb"
        en = d.strobe_in if hb else d.enable_in
        rnd = Lcg(plan["seed"])
        busy = c.taps + 3 if cfg["mac"] else 1
        full = 1 << (bw - 1)
        S = {"n": 0}

        def sample(x):
            """one sample in, the settled output after it back"""
            b.set(en, 1)
            b.set(d.signal_in, x)
            b.tick()
            for _ in range(busy - 1 + (rnd.next(plan["gap"] + 1) if plan["gap"] else 0)):
                b.set(en, 0)
                b.set(d.signal_in, rnd.bits(bw))
                b.tick()
            b.set(en, 0)
            b.settle()
            S["n"] += 1
            return g(d.signal_out)

        if plan["gap"]:
            R.fault("strobe_gap")
        if plan["reset"]:
            for _ in range(plan["reset"]):
                sample(rnd.bits(bw - 1) - full // 2)
            b.reset()
            R.fault("reset")
        for k, M, amp, ph in plan["ops"]:
            w = k / M
            if k in (0, M // 2):
                ph = 0
            tone = [int(round(full * amp * math.cos(2 * math.pi * k * i / M + ph))) for i in range(M)]
            settle = -(-(c.taps + 4) // M) * M
            for i in range(settle):
                sample(tone[i % M])
            y = [sample(x) for x in tone]
            z = np.exp(-2j * np.pi * k * np.arange(M) / M)
            got = abs(np.dot(y, z)) / abs(np.dot(tone, z))
            want = c.gain(w)
            if cfg["kind"] == "iir" or cfg["args"].get("filter_structure") == "iir":
                tol = 0.01 + 0.02 * want + 40 * c.taps / full
            else:
                # every product is rounded down once, every coefficient once
                tol = 0.0005 + 3 * c.taps / (amp * full) + 2 * c.taps / (1 << cfg["args"].get("fraction_width", bw))
            R.check(abs(got - want) <= tol, "gain", lambda: f"a tone at {w:.4f} of the sample rate comes out with gain {got:.4f}, the specified filter has {want:.4f}")
            R.items += 1
            R.log(k, M, y[:8])
            R.reach(cfg["kind"], cfg["mac"], cfg["args"].get("filter_type"), int(w * 40))
        R.cycles = b.cycles


register("C37", Response(),
         rule="Each run sends a drawn sequence of tones (drawn frequencies, amplitudes, phases; drawn strobe gaps, noise between the strobes, a reset before) through one filter and "
              "compares the amplitude of what comes out with the response of the floating-point design its parameters name.",
         real=["FixedPointFIRFilter", "FixedPointIIRFilter", "FixedPointHBFilter", "Filterbank"], stub=["tone source"],
         assumptions=["the design method of each filter is the documented one (Hamming window or Remez, Chebyshev type I with 1 dB ripple, Remez half-band)",
                      "amplitudes stay below 0.4 of full scale; gains are compared to 1 % plus 2 % of the value plus rounding"])


# --------------------------------------------------------------------------------------------
class Resampler(Scenario):
    name = "resampler"
    quick, thorough = 60, 400
    chunk = 20

    def configs(self, rng, tier):
        out = []
        for m, n in [(6, 7), (1, 1), (2, 1), (1, 3), (3, 2), (7, 6), (4, 5), (8, 3)] + ([] if tier == "quick" else [(rng.randint(1, 12), rng.randint(1, 12)) for _ in range(24)]):
            out.append({"m": m, "n": n, "bw": rng.choice([8, 16, 16, 12, 17, 20, 5]), "inst": rng.choice([1, 1, 2, 3]), "order": rng.choice([4, 9, 24, rng.randint(30, 70)]),
                        "struct": "fir" if rng.random() < 0.8 else "iir", "prescale": rng.choice([None, 1, 4, 3]), "sr": rng.choice([56000, 44100, 48000, 96000]), "fc": rng.choice([20000, 8000])})
        # as most users build it
        out.append({"m": 6, "n": 7, "bw": 16, "inst": 1, "order": 24, "struct": "fir", "prescale": None, "sr": 56000, "fc": 20000, "dflt": 1})
        m, n = rng.randint(9, 25), rng.randint(9, 25)
        out.append({"m": m, "n": n, "bw": 16, "inst": 1, "order": 12, "struct": "fir", "prescale": 1, "sr": 48000, "fc": 20000})
        return out

    def build(self, cfg):
        c = Ctx()
        if cfg["struct"] == "iir":
            cfg["order"] = 2
        sr, fc = cfg["sr"], cfg["fc"]
        if cfg.get("dflt"):
            c.dut = quiet(FractionalResampler, input_samplerate=sr, upsample_factor=cfg["m"], downsample_factor=cfg["n"])
        else:
            c.dut = quiet(FractionalResampler, input_samplerate=sr, upsample_factor=cfg["m"], downsample_factor=cfg["n"], filter_structure=cfg["struct"],
                          filter_instances=cfg["inst"], filter_order=cfg["order"], filter_cutoff=fc, bitwidth=cfg["bw"], prescale=cfg["prescale"], verbose=talk(cfg))
        hb = math.ceil(cfg["bw"] / 8) * 9
        c.hb = hb
        if cfg["struct"] == "fir":
            f = quiet(FixedPointFIRFilter, sr * cfg["m"], bitwidth=hb, fraction_width=max(18, hb), cutoff_freq=fc, filter_order=cfg["order"], verbose=False)
            t = fir_taps(f, sr * cfg["m"], bitwidth=hb, fraction_width=max(18, hb), cutoff_freq=fc, filter_order=cfg["order"])
            c.ref = lambda: Chain([FirRef(t, hb, max(18, hb)) for _ in range(cfg["inst"])])
        else:
            f = quiet(FixedPointIIRFilter, sr * cfg["m"], bitwidth=hb, fraction_width=max(18, hb), cutoff_freq=fc, filter_order=cfg["order"], verbose=False)
            t = iir_taps(f, sr * cfg["m"], fraction_width=max(18, hb), cutoff_freq=fc, filter_order=cfg["order"])
            c.ref = lambda: Chain([IirRef(*t, hb, max(18, hb)) for _ in range(cfg["inst"])])
        c.pre = cfg["prescale"] if cfg["prescale"] is not None else (4 if cfg["struct"] == "fir" else cfg["m"] - 1)
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        n = rng.randint(6, 50)
        p_rst = rng.choice([0, 0, 0.02])
        return {"ops": [[x, rng.choice([0, 0, 0, rng.randint(0, 3 * cfg["m"])]), 1 if rng.random() < p_rst else 0] for x in samples(rng, n, cfg["bw"])],
                "ready": rle_schedule(rng, rng.randint(0, 30)), "polite": rng.random() < 0.5}

    lists = ("ops", "ready")

    def run(self, c, cfg, plan, R):
        b, d, g = c.b, c.dut, c.b.get
        b.power_on()
        si, so = d.signal_in, d.signal_out
        m, n, bw = cfg["m"], cfg["n"], cfg["bw"]
        sched = Sched(plan["ready"])
        S = {}

        def fresh():
            # (the filter shows its result one sample later: the first one is 0)
            S.update(ref=c.ref(), k=0, exp=deque(), was=None, acc=0, idle=0)
        fresh()

        def accept(x):
            for j in range(m):
                if S["k"] % n == 0:
                    S["exp"].append(S["ref"].out & ((1 << bw) - 1))
                S["k"] += 1
                S["ref"].push(wrap(x * c.pre, c.hb) if j == 0 else 0)
            S["acc"] += 1

        def cycle(valid, x):
            r = sched.next()
            b.set(si.valid, valid)
            b.set(si.payload, x)
            b.set(so.ready, 0)
            b.settle()
            if plan["polite"]:             # a consumer that only gets ready once something is offered
                r = r & g(so.valid)
            b.set(so.ready, r)
            b.settle()
            v, p = g(so.valid), g(so.payload)
            taken = bool(valid and g(si.ready))
            if taken:
                accept(x)
            if S["was"] is not None:
                R.check(v and p == S["was"], "unstable", lambda: f"offered {S['was']:#x}, then {'took the offer back' if not v else hex(p)} before it was accepted")
            S["was"] = p if v and not r else None
            if S["was"] is not None:
                R.fault("consumer_stall")
            if v and r:
                R.check(S["exp"], "invented", lambda: f"output {p:#x} although every sample was delivered already")
                e = S["exp"].popleft()
                R.check(p == e, "response", lambda: f"output {p:#x}, expected {e:#x}")
                R.items += 1
                R.log(p)
            S["idle"] = S["idle"] + 1 if (S["exp"] and r and not v) or (valid and not taken and not S["was"] and not v) else 0
            R.check(S["idle"] < 3 * m + 3 * n + 20, "stuck", lambda: f"{len(S['exp'])} samples not delivered")
            R.reach(m, n, len(S["exp"]), v, r, valid, taken)
            b.tick()
            return taken

        for x, gap, rst in plan["ops"]:
            for _ in range(gap):
                cycle(0, 0)
            for k in range(40 * (m + n) + 4000):
                if cycle(1, x):
                    break
            else:
                R.check(False, "stuck", "input not accepted")
            if rst:
                b.set(si.valid, 0)
                b.reset()
                fresh()
                R.fault("reset")
        k = 0
        while S["exp"]:
            cycle(0, 0)
            k += 1
            R.check(k < 4000, "stuck", lambda: f"{len(S['exp'])} samples not delivered")
        for _ in range(2 * m + 4):
            cycle(0, 0)
        R.cycles = b.cycles


register("C30", Resampler(),
         rule="Each run feeds a drawn sample sequence with drawn gaps to a consumer with a drawn stall pattern (ready on its own, or only once something is offered).",
         real=["FractionalResampler", "Filterbank", "FixedPointFIRFilter", "FixedPointIIRFilter"], stub=["producer", "consumer"],
         assumptions=["the output is the filter's state before each inserted sample (a delay of one up-sampled sample), starting with the very first",
                      "results wrap around at the output width"])


# --------------------------------------------------------------------------------------------
class Convolver(Scenario):
    name = "convolver"
    quick, thorough = 30, 240
    chunk = 15
    lists = ("ops", "ready")

    def configs(self, rng, tier):
        out = []
        k = 1 if tier == "quick" else 5
        for mode in (1, 2, 3):
            for taps, sl in [(1, 1), (2, 1), (3, 1), (4, 2), (8, 1), (8, 4), (12, 3), (16, 2), rng.choice([(33, 1), (40, 4), (48, 3), (60, 2), (64, 4)]), rng.choice([(5, 5), (6, 6), (9, 3), (10, 2), (27, 9)])] * k:
                bw = rng.choice([8, 12, 16, 24, rng.randint(5, 32)])
                out.append({"clock": rng.choice([1, 1, rng.uniform(1, sl / (sl - 1) if sl > 1 else 40) * 0.999 + 0.001]), "debug": rng.random() < 0.1, "mode": mode, "taps": taps, "slices": sl, "bw": bw, "kind": rng.choice(["noise", "extreme", "small", "mixed", "alternate"]), "seed": rng.getrandbits(20)})
        if tier != "quick":
            out += [{"clock": 1, "debug": False, "mode": m, "taps": t, "slices": s, "bw": rng.choice([8, 16, 24]), "kind": "noise", "seed": rng.getrandbits(20)}
                    for m in (1, 2, 3) for t, s in ((15, 1), (21, 3), (32, 8), (64, 4), (30, 5))]
        return out

    def build(self, cfg):
        import random
        c = Ctx()
        bw, n = cfg["bw"], cfg["taps"]
        rng = random.Random(cfg["seed"])
        hi, lo = (1 << (bw - 1)) - 1, -(1 << (bw - 1))
        def one():
            k = cfg["kind"] if cfg["kind"] != "mixed" else rng.choice(["noise", "extreme", "small"])
            return {"noise": lambda: rng.randint(lo, hi), "extreme": lambda: rng.choice([lo, hi]), "small": lambda: rng.randint(-2, 2), "alternate": lambda: rng.choice([lo, -1, 0, 1, hi])}[k]()
        c.taps = [[one(), one()] for _ in range(n)]
        # samplerate / clockfrequency decide how many multipliers work in parallel
        c.dut = quiet(StereoConvolutionMAC, taps=np.array(c.taps, dtype=np.int64), samplerate=48000, clockfrequency=48000 * n / cfg["slices"] * cfg["clock"], bitwidth=bw,
                      convolutionMode=ConvolutionMode(cfg["mode"]), debug=cfg["debug"])
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        n = rng.randint(2, 8) + rng.choice([0, cfg["taps"] + 2, 2 * cfg["taps"]])
        n = min(n, 40)
        l, r = samples(rng, n, cfg["bw"]), samples(rng, n, cfg["bw"])
        g = rng.choice([0, 0, 1, 5, 40])
        p_rst = rng.choice([0, 0, 0.03])
        return {"ops": [[x, y, rng.randint(0, g) if rng.random() < 0.5 else 0, rng.randint(0, g) if rng.random() < 0.5 else 0,
                         rng.randint(1, cfg["taps"] // cfg["slices"] + 12) if rng.random() < p_rst else 0] for x, y in zip(l, r)],
                "ready": rle_schedule(rng, rng.randint(0, 40)), "polite": rng.random() < 0.5, "seed": rng.getrandbits(16)}

    def run(self, c, cfg, plan, R):
        b, d, g = c.b, c.dut, c.b.get
        b.power_on()
        si, so = d.signal_in, d.signal_out
        bw, n = cfg["bw"], cfg["taps"]
        t1, t2 = [t[0] for t in c.taps], [t[1] for t in c.taps]
        sched, rnd = Sched(plan["ready"]), Lcg(plan["seed"])
        mode = ConvolutionMode(cfg["mode"])
        S = {"l": [0] * n, "r": [0] * n, "exp": deque(), "was": None, "wait": 0, "open": 0, "left": None}

        def frame(x, y):
            l = S["l"] = [x] + S["l"][:-1]
            r = S["r"] = [y] + S["r"][:-1]
            if None in l or None in r:      # samples from before a reset
                S["exp"] += [(None, 1, 0), (None, 0, 1)]
                return
            dot = lambda a, t: sum(p * q for p, q in zip(a, t))
            if mode == ConvolutionMode.CROSSFEED:
                o = dot(l, t1) + dot(r, t2), dot(r, t1) + dot(l, t2)
            elif mode == ConvolutionMode.STEREO:
                o = dot(l, t1), dot(r, t2)
            else:
                o = dot(l, t1), dot(r, t1)
            for i, v in enumerate(o):
                S["exp"].append(((v >> bw) & ((1 << bw) - 1), 1 - i, i))

        def cycle(valid, x=0, first=0, last=0):
            r = sched.next()
            b.set(si.valid, valid)
            b.set(si.payload, x if valid else rnd.bits(bw))
            b.set(si.first, first if valid else rnd.bits(1))
            b.set(si.last, last if valid else rnd.bits(1))
            b.set(so.ready, 0)
            b.settle()
            if plan["polite"]:
                r = r & g(so.valid)
            b.set(so.ready, r)
            b.settle()
            v, o = g(so.valid), (g(so.payload), g(so.first), g(so.last))
            taken = bool(valid and g(si.ready))
            if S["was"] is not None:
                R.check(v and o == S["was"], "unstable", lambda: f"offered {S['was']}, then {o if v else 'nothing'} before it was accepted")
            S["was"] = o if v and not r else None
            if S["was"] is not None:
                R.fault("consumer_stall")
            if v and r:
                R.check(S["exp"], "invented", lambda: f"output {o} without a frame")
                e = S["exp"].popleft()
                R.check(o[1:] == e[1:], "marks", lambda: f"first/last {o[1:]}, expected {e[1:]}")
                if e[0] is not None:
                    R.check(o[0] == e[0], "response", lambda: f"{'right' if e[2] else 'left'} output {o[0]:#x}, expected {e[0]:#x}")
                R.items += 1
                R.log(o)
            blocked = v and not r
            S["wait"] = S["wait"] + 1 if not blocked and not (v and r) and (S["exp"] or (valid and not taken)) else 0
            # as many multipliers work in parallel as the ratio of clock and sample rate asks for
            R.check(S["wait"] <= n // cfg["slices"] + 20, "stuck", lambda: f"no progress for {S['wait']} cycles with {len(S['exp'])} outputs due")
            R.reach(mode, n, cfg["slices"], len(S["exp"]), v, r, valid, taken)
            if taken:
                if first:
                    S["left"] = x
                else:
                    frame(S["left"], x)
            b.tick()
            return taken

        for x, y, g1, g2, rst in plan["ops"]:
            for k, (v, gap, f, la) in enumerate([(x, g1, 1, 0), (y, g2, 0, 1)]):
                for _ in range(gap):
                    cycle(0)
                    R.fault("producer_gap")
                while not cycle(1, v, f, la):
                    pass
            if rst:
                for _ in range(rst - 1):
                    cycle(0)
                b.set(si.valid, 0)
                b.reset()
                S.update(l=[None] * n, r=[None] * n, was=None, wait=0)
                S["exp"].clear()
                R.fault("reset")
        while S["exp"]:
            cycle(0)
        for _ in range(2 * n + 12):
            cycle(0)
        R.cycles = b.cycles


register("C31", Convolver(),
         rule="Each run feeds stereo frames with drawn contents and gaps between the channels to a consumer with a drawn stall pattern.",
         real=["StereoConvolutionMAC"], stub=["producer", "consumer"],
         assumptions=["frames are left (marked first) then right (marked last)", "products are summed modulo 2^(2*bitwidth), the upper half is the result",
                      "sample memories may keep samples from before a reset: values are judged again once all of them have been replaced"])


# --------------------------------------------------------------------------------------------
class Fft(Scenario):
    name = "fft"
    quick, thorough = 20, 240
    chunk = 5
    lists = ("ops",)

    def configs(self, rng, tier):
        out = [{"bw": bw, "pts": p} for p, bw in [(4, 10), (8, 10), (8, 16), (16, 12), (16, 18), (32, 16), (64, 18), (rng.choice([4, 8, 16, 32]), rng.randint(10, 25)), (rng.choice([4, 8, 16, 32]), rng.randint(10, 25)), (128, rng.choice([16, 18, 20]))]]
        if tier != "quick":
            out += [{"bw": bw, "pts": p} for p, bw in [(4, 18), (8, 24), (16, 24), (32, 12), (64, 14), (128, 18), (256, 18), (512, 24), (1024, 18)]]
        return out

    def n_runs(self, cfg, tier):
        return max(3, super().n_runs(cfg, tier) * 16 // max(16, cfg["pts"]))

    def build(self, cfg):
        c = Ctx()
        c.dut = quiet(FixedPointFFT, bitwidth=cfg["bw"], pts=cfg["pts"], verbose=talk(cfg))
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        n, bw = cfg["pts"], cfg["bw"]
        full = (1 << (bw - 1)) - 1
        ops = []
        def gap():
            m = rng.choice([0, 0, 0, 2, 9])
            return [m, rng.getrandbits(12)]
        def block():
            k = rng.choice(["noise", "impulse", "tone", "dc", "ramp"])
            f, p, a = rng.randint(0, n - 1), rng.random() * 6.28, rng.uniform(0.6, 0.97)
            at = rng.randint(0, n - 1)
            out = []
            for i in range(n):
                if k == "noise":
                    r, t = rng.uniform(0, 0.97), rng.random() * 6.2832
                    z = (r * math.cos(t), r * math.sin(t))
                elif k == "impulse":
                    z = (a if i == at else 0, 0)
                elif k == "tone":
                    z = (a * math.cos(2 * math.pi * f * i / n + p), a * math.sin(2 * math.pi * f * i / n + p))
                elif k == "dc":
                    z = (a * 0.7, -a * 0.6)
                else:
                    z = (a * (i - n / 2) / n, a * (n - i) / n)
                out.append([int(z[0] * full), int(z[1] * full)])
            return out
        def window():
            k = rng.choice(["rect", "noise", "one", "hann", "turn"])
            at = rng.randint(0, n - 1)
            out = []
            for i in range(n):
                if k == "rect":
                    w = (1, 0)          # exactly 1.0: the window has one bit more than the samples
                elif k == "turn":
                    w = ((1, 0), (0, 1), (-1, 0), (0, -1))[(i + at) & 3]
                elif k == "noise":
                    r, t = rng.uniform(0.2, 1), rng.random() * 6.2832
                    w = (r * math.cos(t), r * math.sin(t))
                elif k == "one":
                    w = (1 if i == at else 0.1, 0)
                else:
                    w = (0.5 - 0.5 * math.cos(6.283185307 * i / n), 0)
                out.append([int(w[0] * (full + 1)), int(w[1] * (full + 1))])
            return out
        pool = []
        for i in range(rng.randint(1, 4)):
            if rng.random() < 0.4:
                ops.append({"op": "window", "data": window(), "gap": gap(), "reset": rng.randint(1, 4 * n) if rng.random() < 0.06 else 0})
            if rng.random() < 0.5 or i == 0:
                pool.append(block())
            blk = rng.choice(pool)
            ops.append({"op": "fft", "data": blk, "gap": gap(), "reset": rng.randint(1, 13 * n) if rng.random() < 0.12 else 0})
            if rng.random() < 0.3:
                ops.append({"op": "idle", "n": rng.randint(1, 20)})
        return {"ops": ops, "seed": rng.getrandbits(16)}

    def run(self, c, cfg, plan, R):
        b, d, g = c.b, c.dut, c.b.get
        b.power_on()
        n, bw = cfg["pts"], cfg["bw"]
        N = n.bit_length() - 1
        rnd = Lcg(plan["seed"])
        scale = 1 << (bw - 1)
        # the documented default: a 4-term Blackman-Harris window
        win = [0.35875 - 0.48829 * math.cos(k * 2 * math.pi / n) + 0.14128 * math.cos(k * 4 * math.pi / n) - 0.01168 * math.cos(k * 6 * math.pi / n) for k in range(n)]
        default = np.array(win, dtype=complex) * scale
        wins = [default]                  # after a reset: the loaded one or the default one
        S = {"got": None, "reset": 0, "age": 0}
        seen = {}                          # samples and window -> result, for the exact comparison
        wid = 0

        class Crash(Exception):
            pass

        def cycle(start=0, strobe=0, z=None, wf_start=0, wf_strobe=0, w=None):
            b.set(d.start, start)
            b.set(d.strobe_in, strobe)
            b.set(d.wf_start, wf_start)
            b.set(d.wf_strobe, wf_strobe)
            # inputs are only meaningful with their strobe
            for sig, v in zip((d.in_i, d.in_q), z if z is not None else (rnd.bits(bw), rnd.bits(bw))):
                b.set(sig, v)
            for sig, v in zip((d.wf_real, d.wf_imag), w if w is not None else (rnd.bits(bw), rnd.bits(bw))):
                b.set(sig, v)
            b.settle()
            if g(d.strobe_out):
                R.check(S["got"] is not None, "invented", "output strobe outside a transform")
                S["got"].append((g(d.out_real), g(d.out_imag)))
                R.check(len(S["got"]) <= n, "count", "more outputs than bins")
            b.tick()
            if S["reset"]:
                S["age"] += 1
                if S["age"] >= S["reset"]:
                    raise Crash()

        def spacing(gap):
            r = Lcg(gap[1])
            while True:
                yield 2 + (r.next(gap[0] + 1) if gap[0] else 0)

        def wait_done(limit, what):
            for k in range(limit):
                if g(d.done):
                    return
                cycle()
            R.check(False, "stuck", f"{what} not finished after {limit} cycles")

        for op in plan["ops"]:
            if op["op"] == "idle":
                for _ in range(op["n"]):
                    cycle()
                continue
            sp = spacing(op["gap"])
            if op["gap"][0]:
                R.fault("strobe_gap")
            if op["op"] == "window":
                try:
                    S.update(reset=op.get("reset", 0), age=0)
                    cycle(wf_start=1)
                    for _ in range(next(sp)):
                        cycle()
                    for w in op["data"]:
                        R.check(not g(d.done), "done-early", "window load finished before its last entry")
                        cycle(wf_strobe=1, w=w)
                        for _ in range(next(sp)):
                            cycle()
                    wait_done(8, "window load")
                    S["reset"] = 0
                except Crash:
                    b.set(d.wf_start, 0)
                    b.set(d.wf_strobe, 0)
                    b.reset()
                    S["reset"] = 0
                    wins = None             # partly loaded
                    R.fault("reset")
                    continue
                wins = [np.array([complex(*w) for w in op["data"]])]
                wid += 1
                R.log("window", wid)
                continue
            try:
                S.update(reset=op.get("reset", 0), age=0)
                S["got"] = None
                cycle(start=1)
                for _ in range(next(sp)):
                    cycle()
                for i, z in enumerate(op["data"]):
                    R.check(not g(d.done), "done-early", "done before all samples were supplied")
                    cycle(strobe=1, z=z)
                    if i == n - 1:
                        S["got"] = []
                    for _ in range(next(sp)):
                        cycle()
                wait_done(20 * n * N + 10 * n + 60, "transform")
            except Crash:
                b.set(d.start, 0)
                b.set(d.strobe_in, 0)
                b.reset()
                S.update(reset=0, got=None)
                wins = wins and [wins[0], default]
                seen.clear()
                R.fault("reset")
                continue
            got, S["got"], S["reset"] = S["got"], None, 0
            R.check(len(got) == n, "count", lambda: f"{len(got)} outputs for {n} bins")
            z = np.array([complex(*x) for x in op["data"]])
            bound = 9 + N
            worst = []
            for win in wins or []:
                ref = np.fft.fft(z * win / scale) / n
                e, k = max((abs(complex(*got[k]) - ref[k]), k) for k in range(n))
                worst.append((e, k, ref[k], win))
            if wins is None:
                continue
            e, k, v, win = min(worst, key=lambda t: t[0])
            R.check(e <= bound, "bin", lambda: f"bin {k} is {got[k]}, expected {v:.1f}")
            if len(wins) > 1 and max(w[0] for w in worst) > bound:
                wins = [win]
            key = json_key(op["data"], wid)
            R.check(seen.setdefault(key, got) == got, "history", "the same samples and window gave another result before")
            R.items += n
            R.log(got)
            R.reach(n, bw, wid, len(seen), op["gap"][0])
        R.cycles = b.cycles


def json_key(data, wid):
    return (wid, tuple(map(tuple, data)))


register("C32", Fft(),
         rule="Each run performs a drawn sequence of window loads and transforms with drawn contents and strobe spacing, some interrupted by a reset.",
         real=["FixedPointFFT"], stub=["sample source"],
         assumptions=["strobes are single cycles, three or more cycles apart", "|sample * window| stays below full scale",
                      "fixed-point error bound 9 + stages output steps"])
