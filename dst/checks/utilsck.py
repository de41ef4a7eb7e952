"""C20 Timer, C21 dividers, C22 edges and crossings, C23 shift registers and friends."""
from collections import deque
from amaranth import *
from amaranth.lib.cdc import FFSynchronizer
from amaranth.hdl.rec import DIR_FANIN, DIR_FANOUT
from amlib.utils import (Timer, SimpleClockDivider, DividingCounter, EdgeToPulse, NRZIEncoder, InputShiftRegister,
                         OutputShiftRegister, LinearFeedbackShiftRegister, OneHotMultiplexer, rising_edge_detected,
                         falling_edge_detected, any_edge_detected, past_value_of, synchronize, stretch_strobe_signal)
from ..bench import Bench
from ..core import Scenario, register
from ..util import markov_bits
from .spi import Ctx


def edge_value(rng, w):
    top = (1 << w) - 1
    return rng.choice([0, 1, 1, 2, 3, rng.randint(0, min(top, 12)), rng.randint(0, min(top, 40)), top]) & top


# -- C20 -------------------------------------------------------------------------------------
class TimerRun(Scenario):
    name = "timer"
    quick, thorough = 400, 8000

    def configs(self, rng, tier):
        out = []
        for w in ([1, 2, 3, 4, 8, 9, 16, 24, 32, 33, 64] if tier == "quick" else [1, 2, 3, 4, 5, 6, 8, 12, 16, 24, 32, 33, 48, 64]):
            top = (1 << w) - 1
            for restart in (True, False):
                out.append({"w": w, "load": None, "reload": None, "restart": restart})
            for _ in range(2):
                out.append({"w": w, "load": rng.choice([None, 0, 1, min(top, 2), rng.randint(0, min(top, 20))]),
                            "reload": rng.choice([None, 0, 1, min(top, 2), rng.randint(0, min(top, 20))]), "restart": rng.random() < 0.6})
            if w >= 8:
                out.append({"w": w, "load": rng.choice([None, min(top, 256), rng.randint(100, min(top, 700))]), "reload": rng.choice([None, 255, rng.randint(100, min(top, 700))]), "restart": rng.random() < 0.6})
        return out

    def build(self, cfg):
        c = Ctx()
        kw = dict(load=cfg["load"], reload=cfg["reload"])
        if cfg["w"] != 32: kw["width"] = cfg["w"]                     # 32 bits unless specified
        if not cfg["restart"]: kw["allow_restart"] = False
        c.dut = Timer(**kw)
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        ops = []
        n = rng.randint(30, 260)
        if rng.random() < 0.12 or max(cfg["load"] or 0, cfg["reload"] or 0) > 50 and rng.random() < 0.5:
            # long times: around powers of two, and longer than any of them that fits
            top = (1 << cfg["w"]) - 1
            n, vals = rng.choice([1500, 1500, 1500, 12000]), [v for v in (255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 1025, 2049, 4096, 5000) if v <= top] or [top]
            while n > 0:
                v = rng.choice([x for x in vals if x <= max(n, vals[0])])
                k = rng.choice([1, 2, v, v + 1, v + 2, max(1, v - 1), rng.randint(1, v)])
                n -= k
                ops.append([k, int(rng.random() < 0.6), v if rng.random() < 0.7 else 0, rng.choice(vals) if rng.random() < 0.3 else 0])
            return {"ops": ops}
        if cfg["w"] > 9 and rng.random() < 0.15:
            # times too long to be waited for: the count says how much is left
            for _ in range(rng.randint(1, 4)):
                v = rng.choice([rng.getrandbits(cfg["w"]), (1 << rng.randint(9, cfg["w"])) - 1, 1 << rng.randint(9, cfg["w"] - 1), (1 << cfg["w"]) - 1])
                ops += [[rng.randint(1, 3), 0, v, rng.choice([0, v ^ 1])], [rng.randint(1, 60), 1, rng.choice([0, v]), 0], [0, 0, 0, 0]]
                if rng.random() < 0.4: ops += [[2, 0, 2, v], [rng.randint(8, 30), 1, 2, v], [0, 0, 0, 0]]
            return {"ops": ops}
        while n > 0:
            k = rng.choice([1, 1, 2, rng.randint(1, 10), rng.randint(1, 45)])
            n -= k
            # cycles, start, load, reload
            small = rng.random() < 0.8
            ops.append([k, int(rng.random() < rng.choice([0.1, 0.5])), edge_value(rng, min(cfg["w"], 4 if small else 8)) if rng.random() < 0.6 else 0,
                        edge_value(rng, min(cfg["w"], 3 if small else 8)) if rng.random() < 0.4 else 0])
        for i in range(len(ops)):
            if rng.random() < 0.02:
                ops[i] = [0, 0, 0, 0]           # reset
        return {"ops": ops}

    def run(self, c, cfg, plan, R):
        b, d, w = c.b, c.dut, cfg["w"]
        b.power_on()
        g = b.get
        idle, armed, due, t, fin, finished = True, 0, None, 0, None, False
        for k, start, load, reload in plan["ops"]:
            if k == 0:
                b.set(d.start, 0)
                b.reset(); t += 1
                idle, armed, due, finished = True, 0, None, False
                R.fault("reset"); R.log("reset")
                R.check(g(d.counter_out) == 0 and g(d.done) == 0, "reset", "timer not idle after reset")
                continue
            if cfg["load"] is None:
                b.set(d.load_in, load)
            else:
                load = cfg["load"]
            if cfg["reload"] is None:
                b.set(d.reload_in, reload)
            else:
                reload = cfg["reload"]
            for i in range(k):
                st = start if i == 0 else 0          # a start is a strobe
                b.set(d.start, st)
                b.settle()
                done, cnt = g(d.done), g(d.counter_out)
                want = (due is not None and t >= due and (t == due or finished))
                R.check(done == int(want), "done", lambda: f"done={done} at cycle {t}, due {due}, finished {finished}")
                if due is None:
                    R.check(cnt == armed, "count", lambda: f"idle count {cnt}, value to be started {armed}")
                else:
                    rem = max(0, due - t)
                    R.check(cnt == rem, "count", lambda: f"count {cnt} with {rem} cycles to go")
                R.reach(w, cfg["restart"], st, done, min(cnt, 5), load > 0, reload > 0, due is None)
                # what happens at this edge
                if due is None:
                    if st and armed > 0:
                        due = t + armed
                        R.log("start", armed)
                    elif st:
                        R.fault("start_with_zero")
                    armed = load if load > 0 else reload
                elif t < due:
                    if st:
                        R.fault("start_while_running")
                else:
                    if t == due and not finished:
                        R.items += 1
                        R.log("done", t)
                    if reload > 0:
                        due, finished = t + reload, False
                    elif cfg["restart"]:
                        due, armed = None, 0
                    else:
                        finished = True              # stays done
                b.tick(); t += 1
        R.cycles = b.cycles


register("C20", TimerRun(),
         rule="Each run drives drawn load and reload values and start strobes (idle, running, in the completion cycle, with value zero) and resets, and "
              "compares completion and count with the programmed times in every cycle.",
         real=["Timer"], stub=["user"])


# -- C21 -------------------------------------------------------------------------------------
class Divider(Scenario):
    name = "clock-divider"
    quick, thorough = 300, 6000

    def configs(self, rng, tier):
        ds = [2, 4, 6, 8, 10, 34, 32, 64, 2 * rng.randint(6, 40), 2 * rng.randint(6, 40), 256, 2 * rng.randint(100, 300), 2 * rng.randint(257, 1300)] if tier == "quick" else [2, 4, 6, 8, 10, 12, 14, 16, 18, 30, 32, 34, 100, 256, 2 * rng.randint(257, 1300), 2 * rng.randint(1300, 3000)]
        return [{"d": d, "pol": p} for d in ds for p in (0, 1)]

    def build(self, cfg):
        c = Ctx()
        c.dut = SimpleClockDivider(cfg["d"], clock_polarity=cfg["pol"])
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        h = cfg["d"] // 2
        if h > 256:
            if rng.random() < 0.8:        # few and short runs of the slow ones
                return {"ops": [[k & 1, rng.randint(1, 60)] for k in range(rng.randint(1, 3))]}
            return {"ops": [[rng.randint(0, 1), rng.choice([1, h, h + 1, rng.randint(1, 3 * h)])] for _ in range(rng.randint(2, 4))]}
        ops = [[rng.randint(0, 1), rng.choice([1, 2, h, h + 1, max(1, h - 1), rng.randint(1, 4 * h), rng.randint(1, 12 * h)])] for _ in range(rng.randint(2, 30))]
        for i in range(len(ops)):
            if rng.random() < 0.03:
                ops[i] = [2, 1]
        return {"ops": ops}

    def run(self, c, cfg, plan, R):
        b, d, h, pol = c.b, c.dut, cfg["d"] // 2, cfg["pol"]
        b.power_on()
        g = b.get
        t, last, lvl = 0, None, pol
        en_since = None
        dis_since = 0
        for en, n in plan["ops"]:
            if en == 2:
                b.reset(); t += 1
                lvl, last, en_since, dis_since = pol, None, None, t
                if g(d.clock_enable_in):
                    en_since, dis_since = t, None
                R.fault("reset")
                R.check(g(d.clock_out) == pol, "reset", "clock not at rest after reset")
                continue
            b.set(d.clock_enable_in, en)
            if en and en_since is None:
                en_since, dis_since = t, None
                R.fault("enable")
            if not en and dis_since is None:
                en_since, dis_since = None, t
                R.fault("disable")
            for _ in range(n):
                b.tick(); t += 1
                v = g(d.clock_out)
                if v != lvl:
                    # the level changed at edge t
                    R.check(last is None or t - last >= h, "short", lambda: f"pulse of {t - last} cycles, half period {h}")
                    R.check(last is None or (t - last) % h == 0, "ratio", lambda: f"edges {t - last} cycles apart, half period {h}")
                    if dis_since is not None:
                        R.check(v == pol, "disabled", "clock leaves its idle level while disabled")
                    if last is not None and en_since is not None and last > en_since:
                        R.check(t - last == h, "ratio", lambda: f"half period of {t - last} cycles, configured {h}")
                    last, lvl = t, v
                    R.items += 1
                    R.log("edge", t, v)
                if en_since is not None:
                    ref = max(en_since, last or 0)
                    R.check(t - ref <= h, "stopped", lambda: f"no clock edge for {t - ref} cycles while enabled")
                if dis_since is not None and t - dis_since > h:
                    R.check(v == pol, "disabled", lambda: f"clock not at its idle level {t - dis_since} cycles after it was disabled")
                R.reach(cfg["d"], pol, en, v, min(t - (last or 0), 40))
        R.cycles = b.cycles


class DivCounter(Scenario):
    name = "dividing-counter"
    quick, thorough = 200, 4000

    def configs(self, rng, tier):
        out = [{"d": 5, "w": 5}, {"d": 1, "w": 3}, {"d": 2, "w": 2}, {"d": 4, "w": 4}, {"d": 7, "w": 3}, {"d": 3, "w": 6}, {"d": 8, "w": 3}, {"d": 6, "w": 4}]
        out += [{"d": rng.randint(1, 40), "w": rng.randint(1, 9)} for _ in range(5 if tier == "quick" else 40)] + [{"d": 16, "w": 8}, {"d": 17, "w": 5}]
        out += [{"d": rng.randint(129, 500), "w": 9}, {"d": rng.randint(257, 2000), "w": rng.choice([11, 12])}]
        return [x for x in out if x["d"] <= 1 << x["w"]]

    def build(self, cfg):
        c = Ctx()
        c.dut = DividingCounter(cfg["d"], cfg["w"])
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        n = rng.choice([30, 120, 400])
        if rng.random() < 0.08:
            n = min(12000, 3 * max(cfg["d"], 2) << cfg["w"])
        elif cfg["w"] > 9:
            n = rng.choice([30, 120])
        act = markov_bits(rng, n)
        p = rng.choice([0.01, 0.01, 0]) if n < 1000 else rng.choice([0, 0, 0.0003])        # long runs have to get far
        return {"ops": [[a, 1 if rng.random() < p else 0, 1 if rng.random() < p / 2 else 0] for a in act]}

    def run(self, c, cfg, plan, R):
        b, d = c.b, c.dut
        top = 1 << cfg["w"]
        b.power_on()
        g = b.get
        cnt = sub = div = 0
        point = None
        for act, rst, hw in plan["ops"]:
            b.set(d.active_in, act); b.set(d.reset_in, rst)
            if hw:
                b.reset()
                R.fault("reset")
            else:
                b.tick()
            if rst or hw:
                cnt = sub = div = 0
                point = 0 if hw else None
                if rst:
                    R.fault("reset_in")
            elif act:
                cnt = (cnt + 1) % top
                sub += 1
                point = 0
                if sub == cfg["d"]:
                    sub, point, div = 0, 1, (div + 1) % top
                    R.items += 1
                if cnt == 0:
                    sub = 0                  # the groups are counted anew from the wrapped counter
            else:
                R.fault("gap")
            got = (g(d.counter_out), g(d.divided_counter_out))
            R.check(got == (cnt, div), "count", lambda: f"count, divided count {got}, expected {(cnt, div)}")
            dv = g(d.dividable_out)
            R.check(not dv or cnt % cfg["d"] == 0, "dividable", lambda: f"division point signalled at count {cnt}, divisor {cfg['d']}")
            if point is not None:
                R.check(dv == point, "dividable", lambda: f"dividable={dv} at count {cnt}, expected {point}")
            R.log(cnt, div)
            R.reach(cfg["d"], cfg["w"], cnt, sub, act)
        R.cycles = b.cycles


register("C21", Divider(), DivCounter(),
         rule="Each run gates the divider or counter with a drawn enable pattern (lengths around the half period), resets included.",
         real=["SimpleClockDivider", "DividingCounter"], stub=["user"])


# -- C22 -------------------------------------------------------------------------------------
class Edges(Scenario):
    name = "edges-and-strobes"
    quick, thorough = 150, 3000

    def configs(self, rng, tier):
        out = []
        for n in ([1, 2, 3, 4, 5, 8, 16, rng.randint(6, 30), 33, 64, 100, 257] if tier == "quick" else [1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 17, 32, 64, 65, 128, 255, 256, 300]):
            for delay in (False, True):
                out.append({"to": n, "delay": delay, "w": rng.choice([1, 2, 5, 8, 33]), "dom": rng.choice(["sync", "other"])})
        return out

    def build(self, cfg):
        c = Ctx()
        m = Module()
        if cfg["dom"] == "other":
            m.domains.other = ClockDomain()
        m.domains.sync = ClockDomain()
        keep = Signal()
        m.d.sync += keep.eq(~keep)
        dom = cfg["dom"]
        c.x, c.v, c.s = Signal(), Signal(cfg["w"]), Signal()
        c.rise = rising_edge_detected(m, c.x, domain=dom)
        c.fall = falling_edge_detected(m, c.x, domain=dom)
        c.any = any_edge_detected(m, c.x, domain=dom)
        c.anyv = any_edge_detected(m, c.v, domain=dom)
        c.past = past_value_of(m, c.v, domain=dom)
        c.out = Signal()
        kw = {"output": c.out} if cfg["to"] % 2 else {}
        if dom != "sync" or cfg["w"] == 8:
            kw["domain"] = m.d[dom]
        if cfg["delay"] or cfg["w"] == 5:
            kw["allow_delay"] = cfg["delay"]
        c.str = stretch_strobe_signal(m, c.s, to_cycles=cfg["to"], **kw)
        c.e2p = None
        if dom == "sync":
            m.submodules.e2p = c.e2p = EdgeToPulse()
            m.d.comb += c.e2p.edge_in.eq(c.x)
        # outputs have to be observable as signals
        c.b = Bench(m)
        return c

    def gen(self, rng, cfg):
        n = rng.choice([20, 80, 200]) if cfg["to"] < 40 else rng.choice([cfg["to"] * 2, cfg["to"] * 4])
        xs, ss = markov_bits(rng, n), markov_bits(rng, n, p_on=rng.choice([0.03, 0.1, 0.5, 0.7 / cfg["to"]]), p_off=rng.choice([0.3, 1.0, 1.0]))
        ops, v = [], 0
        for x, s in zip(xs, ss):
            if rng.random() < 0.4:
                v = rng.choice([rng.getrandbits(cfg["w"]), v ^ (1 << rng.randrange(cfg["w"])), 0])
            ops.append([x, v, s, 1 if rng.random() < 0.01 else 0])
        return {"ops": ops}

    def run(self, c, cfg, plan, R):
        b, g, dom = c.b, c.b.get, cfg["dom"]
        b.power_on()
        px = pv = 0
        hist = []                              # strobe values of the past cycles, latest last
        ext = 0
        for x, v, s, rst in plan["ops"]:
            b.set(c.x, x); b.set(c.v, v); b.set(c.s, s)
            b.settle()
            got = (g(c.rise), g(c.fall), g(c.any))
            want = (int(x and not px), int(px and not x), int(x != px))
            R.check(got == want, "edges", lambda: f"rising, falling, any = {got}, expected {want} (input {px} -> {x})")
            R.check(g(c.past) == pv, "past", lambda: f"past value {g(c.past):#x}, was {pv:#x}")
            R.check(g(c.anyv) == int(v != pv), "change", lambda: f"change of a {cfg['w']} bit value {pv:#x} -> {v:#x}: {g(c.anyv)}")
            if c.e2p is not None:
                R.check(g(c.e2p.pulse_out) == want[0], "pulse", lambda: f"pulse={g(c.e2p.pulse_out)} for input {px} -> {x}")
            n = cfg["to"]
            if n == 1:
                ws = s
            elif cfg["delay"]:
                ws = int(any(hist[-n:]))
            else:
                ws = int(s or any(hist[-(n - 1):]))
            R.check(g(c.str) == ws, "stretch", lambda: f"stretched strobe is {g(c.str)}, expected {ws}, strobes before {hist[-n:]}")
            R.items += want[2] + s
            R.log(x, v, s)
            R.reach(cfg["to"], cfg["delay"], x, px, s, ws)
            if dom != "sync":
                b.tick("sync")                 # edges of a foreign domain do not count
                R.fault("foreign_clock")
            if rst:
                b.reset(dom); px = pv = 0; hist = []
                R.fault("reset")
            else:
                b.tick(dom)
                px, pv = x, v
                hist.append(s)
        R.cycles = b.cycles


class Own(Record):
    def _synchronize_(self, m, output, o_domain="sync", stages=2):
        m.submodules += FFSynchronizer(self.a, output.a, o_domain=o_domain, stages=stages)


class Crossing(Scenario):
    name = "synchronise"
    quick, thorough = 200, 4000

    def configs(self, rng, tier):
        return [{"stages": s, "w": w, "kind": k} for s in (2, 3, 5, 4, rng.randint(6, 12), None) for w, k in ((1, "signal"), (4, "signal"), (3, "record"), (2, "nested"), (3, "own"))]

    def build(self, cfg):
        c = Ctx()
        m = Module()
        m.domains.src = ClockDomain()
        m.domains.dst = ClockDomain()
        w = cfg["w"]
        c.inp = Signal(w)
        c.src = Signal(w)
        m.d.src += c.src.eq(c.inp)
        c.back = Signal(w)
        kw = {"stages": cfg["stages"]} if cfg["stages"] else {}
        if cfg["kind"] == "signal":
            o = Signal(w) if w == 1 else None
            c.pairs = [(c.src, synchronize(m, c.src, output=o, o_domain="dst", **kw))]
            c.rev = None
        elif cfg["kind"] == "own":                # an object that knows how to synchronise itself
            rec = Own([("a", w)])
            out = synchronize(m, rec, o_domain="dst", **kw)
            m.d.comb += rec.a.eq(c.src)
            c.pairs = [(rec.a, out.a)]
            c.rev = None
        else:
            lay = [("a", w, DIR_FANIN), ("b", w, DIR_FANOUT)]
            if cfg["kind"] == "nested":
                lay.append(("n", [("c", w, DIR_FANIN)]))
            rec = Record(lay)
            out = synchronize(m, rec, o_domain="dst", **kw)
            m.d.comb += rec.a.eq(c.src)
            c.pairs = [(rec.a, out.a)]
            if cfg["kind"] == "nested":
                m.d.comb += rec.n.c.eq(~c.src)
                c.pairs.append((rec.n.c, out.n.c))
            m.d.comb += out.b.eq(c.back)
            c.rev = (rec.b, c.back)
        m.d.comb += Signal(name="probe").eq(Cat(*[p[1] for p in c.pairs]).any())
        c.b = Bench(m)
        return c

    def gen(self, rng, cfg):
        p = rng.choice([0.1, 0.3, 0.5, 0.7, 0.9])
        return {"ops": [[rng.choice([0, 0, 1, 2]) if rng.random() < 0.2 else (1 if rng.random() < p else 0), rng.getrandbits(cfg["w"]), rng.getrandbits(cfg["w"])] for _ in range(rng.choice([30, 150]))]}

    def run(self, c, cfg, plan, R):
        b, g = c.b, c.b.get
        b.power_on()
        hist = [[g(p[0])] for p in c.pairs]
        n = cfg["stages"] or 2
        chains = [[0] * n for _ in c.pairs]
        for which, v, back in plan["ops"]:
            b.set(c.inp, v); b.set(c.back, back)
            b.settle()
            if c.rev is not None:
                R.check(g(c.rev[0]) == back, "output-field", "a field driven by the destination is not passed back")
            pre = [g(p[0]) for p in c.pairs]
            doms = {0: ("dst",), 1: ("src",), 2: ("src", "dst")}[which]
            if which == 2:
                R.fault("simultaneous_edges")
            b.tick(*doms)
            if "dst" in doms:
                for ch, x in zip(chains, pre):
                    ch.insert(0, x); ch.pop()
            for (i, o), ch in zip(c.pairs, chains):
                R.check(g(o) == ch[-1], "delay", lambda: f"synchronised value {g(o)}, source {n} destination edges ago {ch[-1]}")
            R.log(which, v)
            R.items += 1
            R.reach(cfg["stages"], cfg["kind"], tuple(chains[0]), which)
        R.cycles = b.cycles


register("C22", Edges(), Crossing(),
         rule="Each run drives drawn level, value and strobe patterns into all helpers of one domain while another clock runs, or a value across two clocks "
              "whose edges interleave in a drawn order (including simultaneous edges).",
         real=["rising/falling/any_edge_detected", "past_value_of", "stretch_strobe_signal", "EdgeToPulse", "synchronize"], stub=["user"])


# -- C23 -------------------------------------------------------------------------------------
class Shift(Scenario):
    name = "shift-registers"
    quick, thorough = 200, 4000

    def configs(self, rng, tier):
        ws = [1, 2, 3, 4, 8, 9, 17, 32, 33, rng.randint(5, 70)] if tier == "quick" else [1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 32, 33]
        return [{"w": w, "rot": r} for w in ws for r in (False, True)]

    def build(self, cfg):
        c = Ctx()
        m = Module()
        m.submodules.i = c.i = InputShiftRegister(cfg["w"])
        m.submodules.o = c.o = OutputShiftRegister(cfg["w"], rotate=cfg["rot"])
        m.submodules.n = c.n = NRZIEncoder()
        c.b = Bench(m)
        return c

    def gen(self, rng, cfg):
        n = rng.choice([20, 80, 200])
        en, we = markov_bits(rng, n), markov_bits(rng, n, p_on=rng.choice([0.03, 0.2]), p_off=0.9)
        oe = markov_bits(rng, n)
        return {"ops": [[en[i], int(rng.random() < 0.5), int(rng.random() < 0.03), oe[i], we[i], rng.getrandbits(cfg["w"]), int(rng.random() < 0.5),
                         1 if rng.random() < 0.01 else 0] for i in range(n)]}

    def run(self, c, cfg, plan, R):
        b, g, w = c.b, c.b.get, cfg["w"]
        b.power_on()
        mask = (1 << w) - 1
        iv = ov = nv = 0
        for en, bit, clr, oe, we, val, nd, rst in plan["ops"]:
            b.set(c.i.enable_in, en); b.set(c.i.bit_in, bit); b.set(c.i.clear_in, clr)
            b.set(c.o.enable_in, oe); b.set(c.o.we_in, we); b.set(c.o.value_in, val)
            b.set(c.n.data_in, nd)
            b.settle()
            got = (g(c.i.value_out), g(c.o.bit_out), g(c.n.nrzi_out))
            want = (iv, ov & 1, nv)
            R.check(got == want, "value", lambda: f"input register, output bit, line = {got}, expected {want}")
            R.log(en, clr, oe, we, got)
            R.reach(w, en, bit, clr, oe, we, ov & 1)
            if rst:
                b.reset(); iv = ov = nv = 0
                R.fault("reset")
                continue
            b.tick()
            if clr:
                iv = 0
                R.fault("clear")
            elif en:
                iv = (iv << 1 | bit) & mask
                R.items += 1
            if we:
                if oe:
                    R.fault("load_while_shifting")
                ov = val
            elif oe:
                ov = (ov >> 1) | ((ov & 1) << (w - 1) if cfg["rot"] else 0)
            nv ^= nd
        R.cycles = b.cycles


class Lfsr(Scenario):
    name = "lfsr"
    quick, thorough = 40, 600

    def configs(self, rng, tier):
        out = [{"deg": 3, "taps": [3, 2], "reset": 1}, {"deg": 16, "taps": [16, 14, 13, 11], "reset": 1}, {"deg": 8, "taps": [8, 6, 5, 4], "reset": 0x5a},
               {"deg": 1, "taps": [1], "reset": 1}, {"deg": 23, "taps": [23, 18], "reset": 77},
               {"deg": 7, "taps": [7, 6], "reset": None}, {"deg": 31, "taps": [31, 28], "reset": (1 << 31) - 1}, {"deg": 10, "taps": [10, 7], "reset": 1 << 9}, {"deg": 64, "taps": [64, 63, 61, 60], "reset": 1}]
        for _ in range(6 if tier == "quick" else 40):
            n = rng.randint(2, 33)
            out.append({"deg": n, "taps": [n] + rng.sample(range(1, n), min(n - 1, rng.randint(1, 4))), "reset": rng.randint(1, (1 << n) - 1)})
        return out

    def build(self, cfg):
        c = Ctx()
        c.dut = LinearFeedbackShiftRegister(cfg["deg"], cfg["taps"], *([] if cfg["reset"] is None else [cfg["reset"]]))
        c.en, c.clr = Signal(), Signal()
        c.b = Bench(ResetInserter(c.clr)(EnableInserter(c.en)(c.dut)))
        return c

    def gen(self, rng, cfg):
        n = rng.choice([50, 300, 300, 2500])
        return {"ops": [[e, 1 if rng.random() < 1 / n else 0] for e in markov_bits(rng, n)]}

    def run(self, c, cfg, plan, R):
        b, g, d = c.b, c.b.get, c.dut
        b.power_on()
        n, mask = cfg["deg"], (1 << cfg["deg"]) - 1
        v = first = 1 if cfg["reset"] is None else cfg["reset"]
        soft = d.generate()
        sv = next(soft)
        for en, clr in plan["ops"]:
            b.set(c.en, en); b.set(c.clr, clr)
            b.settle()
            R.check(g(d.value) == v, "sequence", lambda: f"value {g(d.value):#x}, expected {v:#x}")
            R.check(v != 0, "dead", "register is stuck at zero")
            R.check(sv is None or sv == v, "generate", lambda: f"generate() yields {sv:#x}, the register holds {v:#x}")
            b.tick()
            if clr:
                v = first
                soft = d.generate(); sv = next(soft)
                R.fault("reset")
            elif en:
                fb = 0
                for t in cfg["taps"]:
                    fb ^= v >> (t - 1) & 1
                v = (v << 1 | fb) & mask
                sv = next(soft, None) if sv is not None else None
                R.check(sv is not None or v == first, "generate", "generate() ends before the sequence repeats")
                if sv is None:
                    soft = d.generate(); sv = next(soft)
                R.items += 1
                R.log(v)
            else:
                R.fault("gap")
            R.reach(n, v & 0xff)
        R.cycles = b.cycles


class OneHot(Scenario):
    name = "one-hot-mux"
    quick, thorough = 150, 3000

    def configs(self, rng, tier):
        return [{"n": n, "w": w} for n in ((1, 2, 3, 5, 8, 17) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17)) for w in (1, 8)]

    def build(self, cfg):
        c = Ctx()
        lay = [("valid", 1), ("data", cfg["w"]), ("addr", 3), ("strobe", 1), ("ready", 1)]
        mux = OneHotMultiplexer(interface_type=lambda: Record(lay), mux_signals=("data", lambda i: i.addr), or_signals=("valid", "strobe"), pass_signals=("ready",))
        c.ins = [Record(lay, name=f"i{k}") for k in range(cfg["n"])]
        mux.add_interfaces(c.ins[:1])
        for i in c.ins[1:]:
            (mux.add_input if cfg["n"] % 2 else mux.add_interface)(i)
        c.mux = mux
        c.b = Bench(mux)
        return c

    def gen(self, rng, cfg):
        return {"ops": [[rng.randint(-1, cfg["n"] - 1), rng.getrandbits(30), rng.randint(0, 1), int(rng.random() < 0.5)] for _ in range(rng.choice([20, 60]))]}

    def run(self, c, cfg, plan, R):
        b, g = c.b, c.b.get
        b.power_on()
        x = 1
        for sel, seed, rdy, stb in plan["ops"]:
            vals = []
            x = seed | 1
            for k, i in enumerate(c.ins):
                x = (x * 1103515245 + 12345) & 0x7fffffff
                da, ad = (x >> 8) & ((1 << cfg["w"]) - 1), (x >> 20) & 7
                vals.append((da, ad))
                b.set(i.valid, int(k == sel)); b.set(i.data, da); b.set(i.addr, ad); b.set(i.strobe, int(stb and k == sel))
            o = c.mux.output
            b.set(o.ready, rdy)
            b.settle()
            R.check(g(o.valid) == int(sel >= 0) and g(o.strobe) == int(stb and sel >= 0), "valid", lambda: f"valid={g(o.valid)} strobe={g(o.strobe)} with input {sel} selected")
            if sel >= 0:
                got = (g(o.data), g(o.addr))
                R.check(got == vals[sel], "data", lambda: f"output {got}, selected input {sel} has {vals[sel]}")
                R.items += 1
            for k, i in enumerate(c.ins):
                R.check(g(i.ready) == rdy, "pass-back", lambda: f"ready of input {k} is {g(i.ready)}")
            R.log(sel, seed)
            R.reach(cfg["n"], sel, rdy)
            b.cycles += 1
        R.cycles = b.cycles


register("C23", Shift(), Lfsr(), OneHot(),
         rule="Each run drives drawn patterns of load, shift, clear, enable and reset (or of selected inputs) and compares every output in every cycle.",
         real=["InputShiftRegister", "OutputShiftRegister", "NRZIEncoder", "LinearFeedbackShiftRegister", "OneHotMultiplexer"], stub=["user"])
