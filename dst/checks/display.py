"""C17 MAX7219 display driver, C18 WS2812 strip driver, C19 debouncer."""
import contextlib, io
from collections import deque
from amaranth import *
from amlib.io.max7219 import SerialLEDArray
from amlib.io.ws2812 import WS2812
from amlib.io.debouncer import Debouncer
from amlib.io.led import NibbleToSevenSegmentHex, NumberToSevenSegmentHex, NumberToBitBar
from ..bench import Bench
from ..core import Scenario, register
from .spi import Lcg, Ctx


# what the driver documents as its default: test mode off, no decoding, full intensity, all digits, normal operation
DEFAULT_INIT = [[0x0f, 0], [0x09, 0], [0x0a, 0x0f], [0x0b, 7], [0x0c, 1]]


class Max7219(Scenario):
    name = "max7219"
    quick, thorough = 4, 60
    chunk = 2

    def n_runs(self, cfg, tier):
        k = super().n_runs(cfg, tier)
        return k if cfg["delay"] < 20000 and cfg["n"] <= 8 else max(2 if cfg["n"] <= 8 else 1, k // 8)

    def configs(self, rng, tier):
        out = []
        divs = [10, 12, 14, 20, 34] if tier == "quick" else [10, 12, 14, 16, 18, 20, 24, 30, 50]
        for d in divs:
            for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 8)):
                k = rng.choice([1, 2, 5, 7, 8, 9, 12, 15, 16, 17, 33])
                init = None if rng.random() < 0.5 else [[rng.randint(0, 15), rng.randint(0, 255)] for _ in range(k)]
                out.append({"div": d, "n": n, "init": init, "delay": rng.choice([1, 2, 3, 20, 77, 255, 256, 300, 5000])})
        out += [{"div": 10, "n": 8, "init": None, "delay": 5}, {"div": 10, "n": 5, "init": [[1, 0]], "delay": 1}, {"div": 100, "n": 1, "init": None, "delay": 64},
                {"div": rng.choice([126, 128, 130, 256, 258]), "n": 1, "init": [[12, 1], [15, 0]], "delay": 9}, {"div": 2 * rng.randint(5, 30), "n": rng.randint(1, 6), "init": None, "delay": 70000},
                {"div": 10, "n": rng.choice([33, 34, 40]), "init": [[12, 1]], "delay": 3},
                # too long to simulate to the end: nothing may happen at their beginning
                {"div": 10, "n": 1, "init": None, "delay": 16000000}, {"div": 12, "n": 1, "init": None, "delay": (1 << 24) + rng.randint(1, 3000)}]
        return out

    def build(self, cfg):
        c = Ctx()
        kw = {} if cfg["init"] is None else {"init_sequence": cfg["init"]}
        if cfg["delay"] != 16000000: kw["init_delay"] = cfg["delay"]        # which is the default
        if cfg["n"] != 1: kw["no_modules"] = cfg["n"]
        c.dut = SerialLEDArray(divisor=cfg["div"], **kw)
        m = Module()
        m.submodules.dut = c.dut
        c.pins = Record([("copi", 1), ("clk", 1), ("cs", 1)])          # a board's SPI connector; selection is active high there
        m.d.comb += c.dut.connect_to_resource(c.pins)
        c.b = Bench(m)
        c.init = [[int(a), int(d)] for a, d in (cfg["init"] or DEFAULT_INIT)]
        return c

    def gen(self, rng, cfg):
        word = 16 * cfg["n"] * cfg["div"]
        ops = []
        total = 0
        if cfg["delay"] > 1000000:
            return {"ops": [[rng.choice(["v", "v", "n", "reset"]), rng.randint(0, 4000), rng.getrandbits(20)] for _ in range(3)], "noise": rng.getrandbits(16)}
        limit = rng.choice([4, 14, 30] if cfg["n"] <= 8 else [4, 9]) * word + cfg["delay"]
        while total < limit:
            r = rng.random()
            kind = "v" if r < 0.45 else "e" if r < 0.75 else "n" if r < 0.93 else "reset"
            gap = rng.choice([0, 1, rng.randint(0, word)]) if kind == "e" else rng.choice([1, 2, rng.randint(0, word // 4), rng.randint(0, 2 * word), rng.randint(0, 9 * word)])
            total += gap + (word if kind == "e" else 0) + (cfg["delay"] if kind == "reset" else 0)
            ops.append([kind, gap, rng.getrandbits(20)])
        return {"ops": ops, "noise": rng.getrandbits(16)}

    def run(self, c, cfg, plan, R):
        b, d, N, div = c.b, c.dut, cfg["n"], cfg["div"]
        bus = d.spi_bus_out
        b.power_on()
        g = b.get
        digits = [0] * (8 * N)                  # what the driver was told to show
        S = {"t": 0, "sck": 0, "cs": 1, "sdo": 0, "n": 0, "sh": 0, "rise": None, "words": 0, "t0": 0, "idle": 0,
             "hist": [], "shown": [None] * (8 * N)}
        noise = Lcg(plan["noise"]).next
        dig_in = list(d.digits_in)
        word_max = (16 * N + 3) * div + 24
        cur = None

        def snapshot():
            S["hist"].append((S["t"], tuple(digits)))
            if len(S["hist"]) > 40:
                del S["hist"][:20]

        snapshot()

        def step():
            t = S["t"]
            b.set(bus.sdi, noise(2))
            b.settle()
            sck, cs, sdo = g(bus.sck), g(bus.cs), g(bus.sdo)
            R.check((g(c.pins.clk), g(c.pins.cs), g(c.pins.copi)) == (sck, 1 - cs, sdo), "pins", "the connector does not show the bus")
            if not cs and S["cs"]:
                R.check(S["words"] or t - S["t0"] >= cfg["delay"], "too-early", lambda: f"first transfer {t - S['t0']} cycles after reset, initial delay {cfg['delay']}")
                R.check(S["words"] == 0 or S["idle"] >= 1, "latch", "chip select released for less than a cycle")
                S["n"], S["rise"], S["csfall"] = 0, None, t
            if not S["sck"] and sck and not cs:
                R.check(not S["cs"] or S["n"] > 0 or True, "x")
                R.check(sdo == S["sdo"], "setup", lambda: f"data changes together with the rising clock edge of bit {S['n']}")
                if S["rise"] is not None:
                    R.check(t - S["rise"] == div, "rate", lambda: f"rising clock edges {t - S['rise']} cycles apart, divisor {div}")
                S["rise"] = t
                S["n"] += 1
                S["sh"] = (S["sh"] << 1 | sdo) & ((1 << 16 * N) - 1)
            elif not S["sck"] and sck and cs:
                R.check(False, "clock", "clock edge while no word is being transferred")
            if S["rise"] == t - 1 and not cs:
                R.check(sdo == S["sdo"], "hold", "data changes right after the rising clock edge")
            if cs and not S["cs"]:
                R.check(S["n"] == 16 * N, "latch", lambda: f"latched after {S['n']} bits instead of {16 * N}")
                latch(t)
                S["idle"] = 0
            S["idle"] = S["idle"] + 1 if cs else 0
            last = max(S.get("tl", S["t0"] + cfg["delay"]), S["t0"])
            R.check(t - last <= word_max + (cfg["delay"] if S["words"] == 0 else 0), "hang", lambda: f"no word latched for {t - last} cycles")
            S["sck"], S["cs"], S["sdo"] = sck, cs, sdo
            b.tick()
            S["t"] = t + 1

        def latch(t):
            words = [(S["sh"] >> 16 * m) & 0xffff for m in range(N)]     # module 0 is the one next to us
            k = S["words"]
            S["words"] += 1
            prev_latch = S.get("tl", S["t0"])
            S["tl"] = t
            S["period"] = t - prev_latch if k > 1 else None
            R.items += 1
            R.log("latch", k, words)
            if k < len(c.init):
                a, v = c.init[k]
                for m, w in enumerate(words):
                    R.check(w == (a << 8 | v), "init", lambda: f"initialisation command {k}: module {m} latches {w:#06x} instead of {a << 8 | v:#06x}")
                return
            dg = (k - len(c.init)) % 8
            for m, w in enumerate(words):
                R.check(w >> 8 == dg + 1, "digit-order", lambda: f"word {k}: module {m} addresses register {w >> 8} instead of {dg + 1}")
            vals = [w & 0xff for w in words]
            cands = [h for i, h in enumerate(S["hist"]) if h[0] <= S["csfall"] and (i + 1 >= len(S["hist"]) or S["hist"][i + 1][0] >= prev_latch - 2)]
            R.check(any([h[1][8 * m + dg] for m in range(N)] == vals for h in cands), "digit",
                    lambda: f"digit {dg} shows {vals}, requested {[h[1][dg::8] for h in cands]}")
            for m in range(N):
                S["shown"][8 * m + dg] = vals[m]
            R.reach(N, div, dg, len(cands))

        def apply(kind, seed):
            nonlocal cur
            rnd = Lcg(seed)
            vals = [rnd.next(256) for _ in range(8 * N)]
            if rnd.next(4) == 0:
                vals = [(0, 0xff, 0x80, 1)[rnd.next(4)] for _ in range(8 * N)]
            if rnd.next(3) == 0:                      # a single digit changes
                k = rnd.next(8 * N)
                base = list(cur or digits)
                base[k] = vals[k]
                vals = base
            for s, v in zip(dig_in, vals):
                b.set(s, v)
            cur = vals
            if kind == "v":
                b.set(d.valid_in, 1)
                step()
                b.set(d.valid_in, 0)
                digits[:] = vals
                snapshot()
                R.log("digits")
            else:
                R.fault("digits_without_valid")

        for kind, gap, seed in plan["ops"]:
            for _ in range(gap):
                step()
            if kind == "e":                           # within a few cycles of a latch pulse, when the next word is made up
                was, left = S["words"], 2 * word_max + cfg["delay"]
                while S["words"] == was and left:
                    step()
                    left -= 1
                period = S.get("period")
                if seed & 1024 and period:            # or just before the next one, when its word is complete
                    for _ in range(period - 2 - seed % 6):
                        step()
                else:
                    for _ in range(seed % 9):
                        step()
                kind = "v"
                R.fault("digits_at_latch")
            if kind == "reset":
                b.reset()
                S["t"] += 1
                digits[:] = [0] * (8 * N)
                S.update(t0=S["t"], words=0, sck=0, cs=1, n=0, rise=None, tl=S["t"], shown=[None] * (8 * N), hist=[])
                snapshot()
                R.fault("reset")
                R.log("reset")
            else:
                apply(kind, seed)
        R.cycles = b.cycles
        if cfg["delay"] > 1000000:
            return
        # everything is shown within one round of refreshes
        need = S["words"] + (len(c.init) if S["words"] < len(c.init) else 0) + 10
        while S["words"] < need:
            step()
        R.check(S["shown"] == digits, "not-shown", lambda: f"displays show {S['shown']}, requested {digits}")
        R.cycles = b.cycles


register("C17", Max7219(),
         rule="Each run lets the driver initialise and refresh a modelled chain of displays (shift registers latched by chip select) while digits "
              "change at drawn cycles (with and without the valid strobe), with noise on the unused data input and resets.",
         real=["SerialLEDArray", "Timer", "SPIControllerInterface", "SPIDeviceInterface", "SimpleClockDivider"],
         stub=["chain of MAX7219 chips"],
         assumptions=["initial delay of at least one cycle, even divisors from 10 (below, the driver's own input synchroniser delays its data past the clock edge)"])


class Strip(Scenario):
    name = "ws2812"
    quick, thorough = 25, 300
    chunk = 5

    def configs(self, rng, tier):
        out = []
        freqs = [6e6, 8e6, 10e6, 12e6, 16e6, 20e6] if tier == "quick" else [6e6, 7.2e6, 8e6, 9e6, 10e6, 11e6, 12e6, 13.5e6, 16e6, 20e6, 24e6, 25e6, 33.3e6, 48e6, 50e6, 60e6, 100e6]
        for f in freqs:
            for n in ([1, 2, 3] if tier == "quick" else [1, 2, 3, 4, 5, 8, 16]):
                out.append({"f": f, "n": n + (1 if rng.random() < 0.2 else 0)})
        out += [{"f": 6e6, "n": rng.choice([256, 257, 300])}, {"f": 6e6, "n": 8}, {"f": 6e6, "n": 16}, {"f": 7e6, "n": 17}, {"f": 6e6, "n": rng.randint(30, 70)}, {"f": 48e6, "n": 1}, {"f": 60e6, "n": 2}, {"f": 100e6, "n": 1},
                {"f": rng.randint(600, 4000) * 1e4, "n": rng.randint(1, 4)}, {"f": rng.randint(600, 1000) * 1e4, "n": rng.randint(1, 3)}, {"f": 7.9e6, "n": 2}, {"f": 33.333e6, "n": 2}]
        if tier == "thorough":
            out += [{"f": rng.randint(600, 12000) * 1e4, "n": rng.randint(1, 12)} for _ in range(30)]
        return out

    def build(self, cfg):
        c = Ctx()
        with contextlib.redirect_stdout(io.StringIO()):
            c.dut = WS2812(sys_clock_freq=cfg["f"], no_leds=cfg["n"])
            c.b = Bench(c.dut)
        return c

    def n_runs(self, cfg, tier):
        k = Scenario.n_runs(self, cfg, tier)
        return k if cfg["f"] * cfg["n"] < 6e7 else max(1, k // 3 if cfg["n"] < 100 else k // 12)

    def gen(self, rng, cfg):
        bit = cfg["f"] * 1.375e-6
        frame = int(24 * bit * cfg["n"] + 120e-6 * cfg["f"])
        ops = []
        for _ in range(rng.randint(2, 10)):
            gap = rng.choice([0, 0, 1, rng.randint(0, int(24 * bit)), rng.randint(0, frame)])
            r = rng.random()
            if r < 0.55:
                ops.append(["w", gap, rng.randrange(cfg["n"]), rng.choice([rng.getrandbits(24), 0, 0xffffff, 0x800001])])
            elif r < 0.65:
                ops.append(["wburst", rng.randint(0, frame), rng.randint(1, 30), rng.getrandbits(24)])
            elif r < 0.95:
                ops.append(["start", gap, 0, 0])
            else:
                ops.append(["reset", gap, 0, 0])
        ops.insert(rng.randint(0, len(ops)), ["start", 0, 0, 0])
        return {"ops": ops, "noise": rng.choice([0, rng.getrandbits(30)])}

    def run(self, c, cfg, plan, R):
        b, d, n, f = c.b, c.dut, cfg["n"], cfg["f"]
        b.power_on()
        g = b.get
        us = f * 1e-6
        noise = Lcg(plan["noise"]).next if plan["noise"] else None
        mem = [[(-10, 0)] for _ in range(n)]            # per LED: (cycle from which on, colour)
        S = {"t": 0, "busy": None, "line": 0, "t_rise": None, "t_fall": None, "bits": 0, "word": 0, "led_t": 0, "done": 0, "low": 0}

        def step(start=0, wr=None):
            t = S["t"]
            b.set(d.start_in, start)
            if wr is not None:
                b.set(d.led_address_in, wr[0]); b.set(d.write_enable_in, 1)
                b.set(d.green_in, wr[1] >> 16); b.set(d.red_in, (wr[1] >> 8) & 0xff); b.set(d.blue_in, wr[1] & 0xff)
            else:
                b.set(d.write_enable_in, 0)
                if noise is not None:
                    b.set(d.led_address_in, noise(n)); b.set(d.green_in, noise(256)); b.set(d.red_in, noise(256)); b.set(d.blue_in, noise(256))
            b.settle()
            line, done = g(d.data_out), g(d.done_out)
            if line and not S["line"]:
                R.check(S["busy"] is not None, "line", "pulse on the line although nothing was started")
                R.check(S["bits"] < 24 * n, "extra", "more bits than LEDs")
                R.check(S["bits"] or t - S["low"] >= 50 * us, "latch", lambda: f"first pulse after the line was low for {(t - S['low']) / us:.2f} us only")
                if S["bits"]:
                    lo, per = t - S["t_fall"], t - S["t_rise"]
                    R.check(0.3 * us <= lo <= 5 * us and 0.65 * us <= per <= 1.85 * us, "bit-time",
                            lambda: f"low for {lo / us:.3f} us, bit period {per / us:.3f} us")
                if S["bits"] % 24 == 0:
                    S["led_t"] = t
                S["t_rise"] = t
            elif S["line"] and not line:
                hi = (t - S["t_rise"]) / us
                one = 0.65 <= hi <= 0.95
                R.check(one or 0.25 <= hi <= 0.55, "bit-time", lambda: f"high for {hi:.3f} us is neither a zero nor a one")
                S["t_fall"] = S["low"] = t
                S["word"] = S["word"] << 1 | int(one)
                S["bits"] += 1
                if S["bits"] % 24 == 0:
                    k = S["bits"] // 24 - 1
                    h = mem[k]
                    cands = {v for i, (c0, v) in enumerate(h) if c0 <= S["led_t"] and (i + 1 == len(h) or h[i + 1][0] >= S["led_t"] - 3)}
                    R.check(S["word"] in cands, "colour", lambda: f"LED {k} gets {S['word']:#08x}, stored {[hex(x) for x in cands]}")
                    R.items += 1
                    R.log("led", k, S["word"])
                    S["word"] = 0
            if done:
                R.check(S["busy"] is not None, "done", "completion signalled although nothing was started")
                R.check(S["bits"] == 24 * n and not line, "done", lambda: f"completion after {S['bits']} of {24 * n} bits")
                R.check(t - S["t_fall"] >= 50 * us, "latch", lambda: f"completion {(t - S['t_fall']) / us:.2f} us after the last pulse")
                S["done"] += 1
                R.log("done")
            if S["busy"] is not None:
                since = t - (S["t_rise"] if S["bits"] else S["busy"])
                R.check(since <= 120 * us + 20, "hang", lambda: f"nothing on the line for {since / us:.1f} us, {S['bits']} bits sent")
            R.reach(n, f, S["busy"] is not None, min(S["bits"], 25), line, start)
            S["line"] = line
            b.tick()
            if wr is not None:
                mem[wr[0]].append((t + 1, wr[1]))
                if len(mem[wr[0]]) > 12000:             # only what was stored around the start of its LED matters
                    del mem[wr[0]][:6000]
            if done:
                S["busy"] = None
            elif start:
                if S["busy"] is None:
                    S.update(busy=t, bits=0, word=0, t_fall=None)
                    R.log("start")
                else:
                    R.fault("start_while_busy")
            S["t"] = t + 1

        for kind, gap, a, v in plan["ops"]:
            if kind == "wburst":                      # writes in every cycle
                rnd = Lcg(v)
                if S["busy"] is not None:
                    R.fault("write_while_busy")
                for _ in range(gap + a):
                    step(wr=(rnd.next(n), rnd.bits(24)))
                continue
            for _ in range(gap):
                step()
            if kind == "w":
                if S["busy"] is not None:
                    R.fault("write_while_busy")
                step(wr=(a, v))
            elif kind == "start":
                step(start=1)
            else:
                b.set(d.write_enable_in, 0); b.set(d.start_in, 0)
                b.reset()
                S.update(busy=None, line=0, bits=0, word=0, low=S["t"])
                # whether a reset clears the memory is left open: write it anew
                for k in range(n):
                    S["t"] += 1
                    step(wr=(k, (k * 0x35a7 + 0x123456) & 0xffffff))
                S["t"] += 1
                b.settle()
                R.check(g(d.data_out) == 0 and not g(d.done_out), "reset", "line not at rest after reset")
                R.fault("reset")
                R.log("reset")
        w = 0
        while S["busy"] is not None:
            step()
        for _ in range(int(60 * us)):
            step()
        R.cycles = b.cycles


register("C18", Strip(),
         rule="Each run writes drawn colours and starts transmissions at drawn cycles (idle, busy, within a LED's word), with resets; the line is decoded "
              "into bits by their durations in real time and compared with the stored colours.",
         real=["WS2812"], stub=["LED strip and host"],
         assumptions=["system clocks from 6 MHz; limits: zero high 0.25-0.55 us, one high 0.65-0.95 us, low 0.3-5 us, period 1.25 us +- 0.6 us, latch 50 us"])


class Debounce(Scenario):
    name = "debouncer"
    quick, thorough = 140, 1500
    lists = ("segs",)
    chunk = 5
    N = 1 << 15

    def build(self, cfg):
        c = Ctx()
        c.dut = Debouncer()
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        N = self.N
        segs, budget = [], rng.choice([2, 3, 5]) * N
        lvl = rng.randint(0, 1)
        while budget > 0:
            style = rng.random()
            if style < 0.45:
                n = N + rng.choice([-40, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 40, 3000])
            elif style < 0.55:
                n = rng.randint(1, N)
            else:
                for _ in range(rng.randint(1, 30)):      # bouncing
                    k = rng.choice([1, 1, 2, 3, rng.randint(1, 60)])
                    segs.append([lvl, k])
                    budget -= k
                    lvl ^= 1
                continue
            segs.append([lvl, n])
            budget -= n
            lvl ^= 1
        return {"segs": segs, "reset": rng.randint(0, len(segs)) if rng.random() < 0.25 else -1}

    def run(self, c, cfg, plan, R):
        b, d, N = c.b, c.dut, self.N
        b.power_on()
        si = b.slot(d.btn_in); ss, sd, su = b.slot(d.btn_state_out), b.slot(d.btn_down_out), b.slot(d.btn_up_out)
        state, since, level = 0, 0, None       # since: cycles the contact has been at `level`
        pend = 0                               # event seen, state change due
        tick = b.tick
        t, full, pressed = 0, [-99, -99], 0    # full: when the contact last completed an interval released, pressed
        MIN, MAX = N, N + 6
        for i, (lvl, n) in enumerate(plan["segs"]):
            R.log(lvl, n)
            if i == plan["reset"]:
                b.reset()
                state, level, pend, full = 0, None, 0, [-99, -99]
                R.fault("reset")
            if lvl != level:
                if level is not None and since < N and pressed != state:
                    R.fault("bounce")
                since, level = 0, lvl
            si.set(lvl)
            pressed = 1 - lvl                  # the button pulls the line low
            for _ in range(n):
                tick()
                t += 1
                since += 1
                if since >= MIN:
                    full[pressed] = t
                ns, dn, up = ss.curr, sd.curr, su.curr
                if ns != state:
                    # the change is allowed only after a full interval (a few cycles later, the input synchroniser being what it is)
                    R.check(t - full[ns] <= 6, "glitch", lambda: f"state becomes {ns}, last full interval ended {t - full[ns]} cycles ago")
                    R.check(pend == (1 if ns else -1), "event", lambda: f"state becomes {ns} with event {pend}")
                    state, pend = ns, 0
                    R.items += 1
                    R.log("state", ns, since)
                    R.reach("state", ns, min(since, N + 10) - N)
                elif pend:
                    R.check(False, "event", "event without a change of the state")
                if dn or up:
                    R.check(dn + up == 1 and (dn == 1) == (state == 0), "event", lambda: f"press={dn} release={up} in state {state}")
                    pend = 1 if dn else -1
                if since > MAX and pressed != state:
                    R.check(False, "stuck", lambda: f"state still {state} after {since} stable cycles")
        R.cycles = b.cycles


register("C19", Debounce(),
         rule="Each run plays drawn bounce bursts and stable phases, many of them a few cycles shorter or longer than the debounce interval, with resets.",
         real=["Debouncer"], stub=["contact"],
         assumptions=["the debounce interval is 2^15 cycles; the state may follow up to 6 cycles later (input synchroniser)"])


# --------------------------------------------------------------------------------------------
# segments a (top) clockwise to f (upper left), g the middle one; a in bit 6, g in bit 0, the dot in bit 7
SEGMENTS = ["abcdef", "bc", "abdeg", "abcdg", "bcfg", "acdfg", "acdefg", "abc", "abcdefg", "abcdfg", "abcefg", "cdefg", "adef", "bcdeg", "adefg", "aefg"]


def segments(d):
    return sum(1 << (6 - "abcdefg".index(x)) for x in SEGMENTS[d])


class SevenSegment(Scenario):
    name = "seven-segment"
    quick, thorough = 60, 1000

    def configs(self, rng, tier):
        out = [{"width": 4, "reg": 0, "one": 1}, {"width": 32, "reg": 0, "dflt": 1}]
        for w in (4, 8, 12, 16, 32, 64):
            out += [{"width": w, "reg": 0}, {"width": w, "reg": 1}]
        return out

    def build(self, cfg):
        c = Ctx()
        if cfg.get("one"):
            c.dut = NibbleToSevenSegmentHex()
        elif cfg.get("dflt"):
            c.dut = NumberToSevenSegmentHex()
        else:
            c.dut = NumberToSevenSegmentHex(width=cfg["width"], register=bool(cfg["reg"]))
        m = Module()
        m.submodules.dut = c.dut
        m.d.sync += Signal(name="unrelated").eq(1)       # some clock, also around what needs none
        c.b = Bench(m)
        return c

    def gen(self, rng, cfg):
        w = cfg["width"]
        ops = []
        for _ in range(rng.randint(5, 60)):
            v = rng.choice([rng.getrandbits(w), rng.getrandbits(w), rng.getrandbits(4) * (((1 << w) - 1) // 15), 1 << rng.randrange(w)])
            ops.append(["reset" if rng.random() < 0.04 else "set", v, rng.getrandbits(w // 4), rng.choice([0, 0, 0, 1, 3])])
        return {"ops": ops}

    def run(self, c, cfg, plan, R):
        b, d, w = c.b, c.dut, cfg["width"]
        b.power_on()
        one = cfg.get("one")
        nin = d.nibble_in if one else d.number_in
        lat, past = {0, 1}, [None, None]
        for op, v, dots, wait in plan["ops"]:
            if op == "reset" and cfg["reg"]:
                b.reset()
                past = [None, None]
                R.fault("reset")
            b.set(nin, v)
            if not one:
                b.set(d.dots_in, dots)
            else:
                dots = 0
            b.settle()
            want = sum((segments(v >> 4 * i & 15) | (dots >> i & 1) << 7) << 8 * i for i in range(w // 4))
            if not cfg["reg"]:
                got = b.get(d.seven_segment_out)
                R.check(got == want, "segments", lambda: f"number {v:#x} with dots {dots:#b} lights {got:#x}, expected {want:#x}")
            else:
                # digits and dots come out together, one or two clocks later
                for _ in range(wait + 1):
                    b.tick()
                    past = [want, past[0]]
                    got = b.get(d.seven_segment_out)
                    lat = {k for k in lat if past[k] is None or past[k] == got}
                    R.check(lat, "segments", lambda: f"number {v:#x} with dots {dots:#b} lights {got:#x}, expected {want:#x} (or what belongs to the number before it)")
                if wait:
                    b.set(nin, ~v)
                    b.settle()
                    R.check(b.get(d.seven_segment_out) == got, "registered", "the registered output follows its input without a clock edge")
                    R.fault("input_glitch")
            R.items += 1
            R.log(v, dots, got)
            R.reach(w, cfg["reg"], v & 15, dots & 1)
        R.cycles = b.cycles


class BitBar(Scenario):
    name = "bit-bar"
    quick, thorough = 40, 600

    def configs(self, rng, tier):
        out = []
        for k in range(12 if tier == "quick" else 60):
            n = rng.choice([3, 4, 5, 8, 8, 12, 16, 24])
            lo = rng.choice([0, 0, 1, 16, rng.randint(0, 300)])
            span = rng.choice([n, 4 * n, 64, 100, 255, 256, 1000, 4096, rng.randint(n, 5000)])
            span = max(span, n)
            hi = rng.choice([lo + span, 1 << (lo + span - 1).bit_length()])
            out.append({"lo": lo, "hi": hi, "n": n})
        out += [{"lo": 0, "hi": 255, "n": 8}, {"lo": 0, "hi": 256, "n": 8}]
        return out

    def build(self, cfg):
        c = Ctx()
        c.dut = NumberToBitBar(cfg["lo"], cfg["hi"], cfg["n"])
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        lo, hi = cfg["lo"], cfg["hi"]
        ops = []
        for _ in range(rng.randint(10, 80)):
            v = rng.choice([rng.randint(0, hi), rng.randint(lo, hi), lo + rng.randint(-2, 2), hi + rng.randint(-3, 0), rng.randint(lo, hi)])
            ops.append(["reset" if rng.random() < 0.03 else "set", min(max(v, 0), hi), rng.choice([0, 0, 0, 2])])
        return {"ops": ops}

    def run(self, c, cfg, plan, R):
        b, d, lo, hi, n = c.b, c.dut, cfg["lo"], cfg["hi"], cfg["n"]
        b.power_on()
        seen = {}
        for op, v, wait in plan["ops"]:
            if op == "reset":
                b.reset()
                R.fault("reset")
            b.set(d.value_in, v)
            for _ in range(wait + 1):
                b.tick()
            got = b.get(d.bitbar_out)
            k = got.bit_length()
            R.check(got == (1 << k) - 1, "bar", lambda: f"value {v} of {lo}..{hi} lights {got:#b}, which is no bar")
            if v <= lo:
                R.check(k == 0, "empty", lambda: f"value {v}, at or below the minimum {lo}, lights {k} of {n} bits")
            elif v >= hi:
                R.check(k == n, "full", lambda: f"value {v}, the maximum, lights {k} of {n} bits")
            else:
                R.check(1 <= k <= n - 1, "range", lambda: f"value {v} between {lo} and {hi} lights {k} of {n} bits")
                if hi - lo >= 4 * (n - 2) ** 2:
                    ideal = 1 + (n - 2) * (v - lo) / (hi - lo)
                    R.check(abs(k - ideal) <= 1.3, "linear", lambda: f"value {v} of {lo}..{hi} lights {k} of {n} bits, in proportion it is {ideal:.2f}")
            for u, q in seen.items():
                if (u - v) * (q - k) < 0:
                    R.check(False, "monotone", f"value {u} lights {q} bits, but {v} lights {k}")
            seen[v] = k
            b.set(d.value_in, hi - v)
            b.settle()
            R.check(b.get(d.bitbar_out) == got, "registered", "the registered output follows its input without a clock edge")
            R.fault("input_glitch")
            R.items += 1
            R.log(v, got)
            R.reach(n, k)
        R.cycles = b.cycles


register("C35", SevenSegment(), BitBar(),
         rule="Each run feeds a drawn sequence of numbers (extremes, single bits, both sides of every limit), changing them between clock edges and resetting at drawn moments; every value shown is "
              "compared with an independently written segment table, or with what the bar of that range must be.",
         real=["NibbleToSevenSegmentHex", "NumberToSevenSegmentHex", "NumberToBitBar"], stub=["source of the numbers"],
         assumptions=["a bar has at least 3 bits and a range of at least as many values as bits", "strict proportion is required only where the range is large against the number of bits"])
