"""C06 UART stream transmitters."""
from collections import deque
from amaranth import *
from amlib.stream.uart import UARTTransmitter, UARTMultibyteTransmitter, UARTTransmitterPeripheral
from ..bench import Bench
from ..core import Scenario, register
from ..serialline import FrameDecoder
from ..util import rle_schedule, Sched


class Ctx:
    pass


class Tx(Scenario):
    name = "uart-stream"
    quick, thorough = 40, 900
    nb = 1

    def configs(self, rng, tier):
        divs = [1, 2, 3, 4, 7, 10, 16, 33] if tier == "quick" else [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 31, 32, 33, 64, 100]
        divs = divs + [rng.randint(100, 250), rng.choice([256, 257, 260]), 521]
        out = [{"kind": "single", "nb": 1, "div": d} for d in divs]
        out += [{"kind": "multi", "nb": n, "div": d} for n, d in ((1, 3), (2, 1), (3, 2), (4, 5), (4, 10), (5, 2), (8, 4), (16, 2), (2, 300))]
        if tier != "quick":
            out += [{"kind": "multi", "nb": rng.randint(1, 9), "div": rng.randint(1, 20)} for _ in range(10)]
        return out

    def n_runs(self, cfg, tier):
        n = self.quick if tier == "quick" else self.thorough
        return max(6, n * 20 // (20 + cfg["div"]))

    def build(self, cfg):
        c = Ctx()
        c.dut = UARTTransmitter(divisor=cfg["div"]) if cfg["kind"] == "single" else UARTMultibyteTransmitter(byte_width=cfg["nb"], divisor=cfg["div"])
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        ft = 10 * cfg["div"]
        n = rng.randint(1, 8 if cfg["nb"] == 1 else 4)
        if rng.random() < 0.03 and cfg["div"] < 12:
            n = rng.randint(260 // cfg["nb"], 300)
        ops = []
        style = rng.choice(["burst", "mixed", "boundary"])
        for _ in range(n):
            gap = {"burst": 0, "mixed": rng.choice([0, 0, 1, rng.randint(0, 2 * ft)]),
                   "boundary": max(0, ft * rng.choice([1, cfg["nb"]]) + rng.randint(-3, 3))}[style]
            ops.append([rng.choice([rng.getrandbits(8 * cfg["nb"]), 0, (1 << 8 * cfg["nb"]) - 1, 0x55]), gap,
                        rng.randint(1, ft * cfg["nb"]) if rng.random() < 0.05 and n < 20 else 0,
                        rng.choice([1, 2, rng.randint(1, ft)]) if rng.random() < 0.1 else 0])
        return {"ops": ops}

    def run(self, c, cfg, plan, R):
        b, d, s = c.b, c.dut, c.dut.stream
        b.power_on()
        dec = FrameDecoder(cfg["div"])
        exp = deque()
        state = {"quiet": 0}
        limit = 10 * cfg["div"] * cfg["nb"] + 8

        def sample(t):
            """One clock edge: look at the line first."""
            b.settle()
            tx, idle = b.get(d.tx), b.get(d.idle)
            was = dec.busy
            v = dec.feed(tx)
            inframe = dec.busy or v is not None
            R.check(not (idle and inframe), "idle-in-frame", lambda: f"idle indicated during frame {dec.frames}")
            R.check(not (idle and exp), "idle-pending", "idle indicated although an accepted byte waits to be sent")
            if cfg["kind"] == "single":
                dr = b.get(d.driving)
                R.check(dr == (1 if inframe else 0), "driving", lambda: f"driving={dr} while in frame={inframe}")
            if v is not None:
                R.check(exp and exp[0] == v, "data", lambda: f"line carries {v:#04x}, expected {hex(exp[0]) if exp else 'nothing'}")
                exp.popleft()
                R.items += 1
                R.log("byte", v)
            if inframe:
                R.check(len(exp) > 0 or v is not None, "invented", "frame on the line although nothing was accepted")
            state["quiet"] = 0 if (inframe or not exp) else state["quiet"] + 1
            R.check(state["quiet"] <= 6, "hang", lambda: f"accepted byte not on the line after {state['quiet']} idle cycles")
            R.reach(cfg["kind"], cfg["nb"], tx, idle, min(len(exp), 9), dec.k and dec.k // cfg["div"], b.get(s.ready), b.get(s.valid))
            return inframe, idle

        t = 0
        b.set(s.valid, 0)
        for word, gap, crash, tease in plan["ops"]:
            for _ in range(gap):
                sample(t); b.tick(); t += 1
            if gap:
                R.fault("producer_gap")
            for k in range(tease):            # changing words are offered, then withdrawn; only accepted ones count
                w2 = word ^ (0x0123456789abcdef * (k + 1)) & ((1 << 8 * cfg["nb"]) - 1)
                b.set(s.valid, 1); b.set(s.payload, w2)
                b.settle()
                rdy = b.get(s.ready)
                sample(t)
                if rdy:
                    exp.extend((w2 >> 8 * i) & 0xff for i in range(cfg["nb"]))
                b.tick(); t += 1
            if tease:
                b.set(s.valid, 0)
                R.fault("offer_withdrawn")
            if crash:
                b.set(s.valid, 1); b.set(s.payload, word)
                for _ in range(crash):
                    b.settle()
                    rdy = b.get(s.ready)
                    sample(t)
                    if rdy:
                        exp.extend((word >> 8 * i) & 0xff for i in range(cfg["nb"]))
                    b.tick(); t += 1
                b.set(s.valid, 0)
                b.reset()
                dec.abort(); exp.clear()
                R.check(b.get(d.tx) == 1 and b.get(d.idle) == 1, "reset", "line or idle indication not at rest after reset")
                R.fault("reset")
                R.log("reset")
                continue
            b.set(s.valid, 1); b.set(s.payload, word)
            for w in range(limit + 1):
                R.check(w < limit, "not-accepted", lambda: f"word not accepted within {limit} cycles")
                b.settle()
                rdy = b.get(s.ready)
                sample(t)
                b.tick(); t += 1
                if rdy:
                    exp.extend((word >> 8 * i) & 0xff for i in range(cfg["nb"]))
                    R.log("word", word)
                    break
            b.set(s.valid, 0)
            b.set(s.payload, word ^ 0xff)
        for _ in range(limit + 10 * cfg["div"] + 8):
            inframe, idle = sample(t); b.tick(); t += 1
        R.check(not exp and not inframe, "lost", lambda: f"{len(exp)} bytes never sent")
        R.check(idle == 1, "idle", "idle not indicated after everything was sent")
        R.cycles = b.cycles


class Peripheral(Scenario):
    name = "uart-wishbone"
    quick, thorough = 60, 1200

    def configs(self, rng, tier):
        return [{"div": d} for d in ((1, 2, 5, 11, 261) if tier == "quick" else (1, 2, 3, 4, 5, 8, 11, 16, 40))]

    def build(self, cfg):
        c = Ctx()
        c.dut = UARTTransmitterPeripheral(cfg["div"])
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        ft = 10 * cfg["div"]
        ops = [[rng.choice(["w", "w", "w", "w", "r", "stb", "cyc", "reset" if rng.random() < 0.3 else "w"]), rng.getrandbits(8), rng.choice([0, 0, 1, rng.randint(0, 2 * ft)])] for _ in range(rng.randint(1, 10))]
        return {"ops": ops}

    def run(self, c, cfg, plan, R):
        b, d, bus = c.b, c.dut, c.dut.bus
        b.power_on()
        dec, exp = FrameDecoder(cfg["div"]), deque()
        limit = 10 * cfg["div"] + 8

        def cycle(cyc=0, stb=0, we=0, dat=0):
            b.set(bus.cyc, cyc); b.set(bus.stb, stb); b.set(bus.we, we); b.set(bus.dat_w, dat)
            b.settle()
            ack = b.get(bus.ack)
            v = dec.feed(b.get(d.tx))
            if v is not None:
                R.check(exp and exp[0] == v, "data", lambda: f"line carries {v:#04x}, expected {hex(exp[0]) if exp else 'nothing'}")
                exp.popleft(); R.items += 1; R.log("byte", v)
            R.check(not dec.busy or exp, "invented", "frame on the line although nothing was written")
            R.reach(cyc, stb, we, ack, dec.k and dec.k // cfg["div"], len(exp))
            b.tick()
            return ack

        for kind, dat, gap in plan["ops"]:
            for _ in range(gap):
                cycle()
            if kind == "reset":
                R.fault("reset")
                b.set(bus.cyc, 0); b.set(bus.stb, 0)
                b.reset()
                dec.abort(); exp.clear()
                R.check(b.get(d.tx) == 1, "reset", "line not at rest after reset")
                continue
            if kind in ("stb", "cyc"):
                R.fault("bus_noise")
                cycle(int(kind == "cyc"), int(kind == "stb"), 1, dat)
                continue
            for w in range(limit + 1):
                R.check(w < limit, "no-ack", f"bus access not acknowledged within {limit} cycles")
                if cycle(1, 1, int(kind == "w"), dat):
                    if kind == "w":
                        exp.append(dat)
                    break
                R.fault("wait_state")
        for _ in range(2 * limit):
            cycle()
        R.check(not exp and not dec.busy, "lost", lambda: f"{len(exp)} written bytes never sent")
        R.cycles = b.cycles


register("C06", Tx(), Peripheral(),
         rule="Each run offers one to ten drawn words with producer gaps (none, random, or aimed at the frame boundary) and "
              "resets, and decodes the line cycle by cycle with a strict receiver model.",
         real=["UARTTransmitter", "UARTMultibyteTransmitter", "UARTTransmitterPeripheral"],
         stub=["producer, bus master and line receiver", "amaranth_soc bus record"])
