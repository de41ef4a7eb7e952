"""C26 interrupt events, C27 on-chip memories, C28 UART peripheral."""
import os, tempfile
from collections import deque
from amaranth import *
from amlib.soc.event import EventSource, InterruptSource
from amlib.soc.peripheral import Peripheral
from amlib.soc.memory import WishboneRAM, WishboneROM
from amlib.soc.uart import UARTPeripheral
from ..bench import Bench
from ..core import Scenario, register
from ..serialline import FrameDecoder, frame_bits
from ..util import markov_bits
from .spi import Lcg, Ctx

MODES = ("level", "rise", "fall")


class EventModel:
    def __init__(self, modes):
        self.modes = modes
        self.reset()

    def reset(self):
        self.status = self.pending = self.enable = 0
        self.past = 0

    def cycle(self, stb, clr=None, en=None):
        p = self.pending & ~(clr or 0)
        for i, m in enumerate(self.modes):
            s, o = stb >> i & 1, self.past >> i & 1
            if {"level": s, "rise": s & ~o, "fall": o & ~s}[m]:
                p |= 1 << i
        self.pending = p
        if en is not None:
            self.enable = en & ((1 << len(self.modes)) - 1)
        self.status = self.past = stb


class Events(Scenario):
    name = "events"
    quick, thorough = 150, 3000
    chunk = 20

    def configs(self, rng, tier):
        out = []
        ns = [1, 2, 3, 4, 8, rng.randint(5, 12), 32, rng.randint(17, 40)] if tier == "quick" else [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65]
        for n in ns:
            for k in range(2 if n < 12 or tier != "quick" else 1):
                out.append({"modes": [MODES[(i + k) % 3] if n < 4 else rng.choice(MODES) for i in range(n)]})
        return out

    def build(self, cfg):
        c = Ctx()
        c.ev = [EventSource(mode=m, name=f"e{i}") for i, m in enumerate(cfg["modes"])]
        c.dut = InterruptSource(c.ev, name="irqs")
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        n, L = len(cfg["modes"]), rng.choice([rng.randint(20, 120), rng.randint(20, 120), 400])
        cols = [markov_bits(rng, L) for _ in range(n)]
        p = rng.choice([0.1, 0.3, 0.6])
        ops = []
        for t in range(L):
            w = rng.random() < p
            e = rng.random() < p / 2
            ops.append([sum(cols[i][t] << i for i in range(n)),
                        (rng.choice([rng.getrandbits(n), (1 << n) - 1, 1 << rng.randrange(n)]) if w else -1),
                        (rng.choice([rng.getrandbits(n), (1 << n) - 1]) if e else -1), 1 if rng.random() < 0.005 else 0])
        return {"ops": ops, "seed": rng.getrandbits(16)}

    def run(self, c, cfg, plan, R):
        b, d = c.b, c.dut
        b.power_on()
        g, rnd = b.get, Lcg(plan["seed"])
        m = EventModel(cfg["modes"])
        n = len(cfg["modes"])
        for t, (stb, clr, en, rst) in enumerate(plan["ops"]):
            for i, e in enumerate(c.ev):
                b.set(e.stb, stb >> i & 1)
            b.set(d.pending.w_stb, clr >= 0)
            b.set(d.pending.w_data, clr if clr >= 0 else rnd.bits(n))
            b.set(d.enable.w_stb, en >= 0)
            b.set(d.enable.w_data, en if en >= 0 else rnd.bits(n))
            b.set(d.pending.r_stb, rnd.next(2)); b.set(d.enable.r_stb, rnd.next(2)); b.set(d.status.r_stb, rnd.next(2))
            if rst:
                b.reset()
                m.reset()
                R.fault("reset")
            else:
                old = m.pending
                b.tick()
                m.cycle(stb, None if clr < 0 else clr, None if en < 0 else en)
                if clr >= 0 and m.pending & clr & old:
                    R.fault("event_with_acknowledge")
            got = (g(d.status.r_data), g(d.pending.r_data), g(d.enable.r_data), 1 if g(d.irq) else 0)
            want = (m.status, m.pending, m.enable, 1 if m.pending & m.enable else 0)
            for name, a, w in zip(("status", "pending", "enable", "irq"), got, want):
                R.check(a == w, name, lambda: f"cycle {t}: {name} is {a:#x}, expected {w:#x} (events {stb:#x}, acknowledge {clr}, enable write {en})")
            R.items += bin(stb).count("1")
            R.reach(n, m.pending & 15, m.enable & 15, clr >= 0)
        R.log("end", m.pending, m.enable, R.items)
        R.cycles = b.cycles


class BusMaster:
    """Wishbone master for the peripherals (one classic cycle per access)."""
    def __init__(self, b, bus, R, each):
        self.b, self.bus, self.R, self.each = b, bus, R, each
        for f in ("cyc", "stb", "we"):
            b.set(getattr(bus, f), 0)

    def access(self, adr, we, data=0, sel=15):
        b, s = self.b, self.bus
        b.set(s.adr, adr); b.set(s.we, we); b.set(s.dat_w, data); b.set(s.sel, sel)
        b.set(s.cyc, 1); b.set(s.stb, 1)
        for k in range(30):
            self.each()
            b.settle()
            if b.get(s.ack):
                v = b.get(s.dat_r)
                b.tick()
                b.set(s.cyc, 0); b.set(s.stb, 0)
                return v
            b.tick()
        self.R.check(False, "no-ack", f"access to word {adr} not acknowledged")

    def idle(self, n):
        for _ in range(n):
            self.each()
            self.b.tick()


class DemoPeripheral(Peripheral, Elaboratable):
    def __init__(self, modes, data_width, banks, window=0, at=()):
        super().__init__(name="demo")
        self.win = self.window(addr_width=window, data_width=32, granularity=8) if window else None
        self.regs = []
        for k, widths in enumerate(banks):
            a = at[k] if at else None
            bank = self.csr_bank(addr=a) if a is not None else self.csr_bank()
            for i, (w, acc) in enumerate(widths):
                last = a is not None and i == len(widths) - 1
                self.regs.append(bank.csr(w, acc, name=f"r{k}_{i}", addr=0x80) if last else bank.csr(w, acc, name=f"r{k}_{i}"))
        self.got = {r.name: Signal(r.width) for r in self.regs if r.access == "w"}
        self.ev = [self.event(mode=m, name=f"e{i}") for i, m in enumerate(modes)]
        self._bridge = self.bridge(data_width=32, granularity=8, alignment=2)
        self.bus = self._bridge.bus
        if modes:
            self.irq = self._bridge.irq

    def elaborate(self, platform):
        m = Module()
        m.submodules.bridge = self._bridge
        for r in self.regs:
            if "w" in r.access:
                with m.If(r.w_stb):
                    m.d.sync += (r.r_data if r.access == "rw" else self.got[r.name]).eq(r.w_data)
        if self.win is not None:
            # some words of the owner's behind the window
            w = self.win
            words = Array(Signal(32, name=f"word{i}") for i in range(1 << w.addr_width))
            m.d.comb += w.dat_r.eq(words[w.adr])
            m.d.sync += w.ack.eq(w.cyc & w.stb & ~w.ack)
            with m.If(w.cyc & w.stb & w.we & ~w.ack):
                m.d.sync += words[w.adr].eq(w.dat_w)
        return m


class BusEvents(Scenario):
    """Interrupt registers and register banks as software sees them through the bridge."""
    name = "bus-events"
    quick, thorough = 60, 1000
    chunk = 25

    def configs(self, rng, tier):
        out = []
        for n in ([1, 3, 9, rng.choice([16, 17, 24, 31, 32])] if tier == "quick" else [1, 2, 3, 5, 8, 9, 16, 17, 24, 31, 32]):
            for nb in (0, 1, 2, 3):
                out.append({"at": [rng.choice([None, 0x400 * (k + 1)]) for k in range(nb)], "modes": [rng.choice(MODES) for _ in range(n)],
                            "banks": [[[rng.choice([1, 4, 8, 9, 16, 24, 31, 32, rng.randint(1, 32)]), rng.choice(["rw", "rw", "r", "w"])] for _ in range(rng.choice([1, 2, 3, 4, 9]))] for _ in range(nb)], "win": rng.choice([0, 0, 1, 2, 4])})
        # without any event
        for nb in (1, 2):
            out.append({"modes": [], "at": [], "banks": [[[rng.choice([1, 8, 32, rng.randint(1, 32)]), rng.choice(["rw", "r", "w"])] for _ in range(rng.choice([1, 2, 5]))] for _ in range(nb)],
                        "win": rng.choice([0, 1, 3])})
        return out

    def build(self, cfg):
        c = Ctx()
        c.dut = DemoPeripheral(cfg["modes"], 32, cfg["banks"], cfg["win"], cfg["at"])
        c.b = Bench(c.dut)
        # the address of a register is where the peripheral's own memory map puts it
        c.addr, c.el = {}, {}
        for win, start, end in c.dut.bus.memory_map.items:
            if win is c.dut.win:
                c.addr["window"] = start // 4
            elif getattr(win, "csr_bus", None) is not None:
                for el, s, e in win.csr_bus.memory_map.items:
                    c.addr[el.name], c.el[el.name] = (start + s) // 4, el
        return c

    def gen(self, rng, cfg):
        ops = []
        for _ in range(rng.randint(10, 40)):
            r = rng.random()
            if cfg["win"] and rng.random() < 0.15:
                ops.append(["win", rng.getrandbits(cfg["win"]), rng.getrandbits(32)])
            elif not cfg["modes"] and r < 0.8:
                ops.append(["reg", rng.getrandbits(8), rng.getrandbits(32)])
            elif r < 0.35:
                ops.append(["stb", rng.getrandbits(len(cfg["modes"])), rng.randint(0, 4)])
            elif r < 0.5:
                ops.append(["ack", rng.choice([rng.getrandbits(len(cfg["modes"])), (1 << len(cfg["modes"])) - 1]), 0])
            elif r < 0.6:
                ops.append(["enable", rng.getrandbits(len(cfg["modes"])), 0])
            elif r < 0.8:
                ops.append(["check", 0, 0])
            elif r < 0.97:
                ops.append(["reg", rng.getrandbits(8), rng.getrandbits(32)])
            else:
                ops.append(["reset", 0, 0])
        return {"ops": ops}

    def run(self, c, cfg, plan, R):
        b, d, n = c.b, c.dut, len(cfg["modes"])
        b.power_on()
        g = b.get
        i = 0
        for k, bank in enumerate(cfg["banks"]):
            i += len(bank)
            if cfg["at"] and cfg["at"][k] is not None:
                R.check(c.addr[d.regs[i - 1].name] * 4 == cfg["at"][k] + 0x80, "address", "register is not at the address requested for it")
        m = EventModel(cfg["modes"])
        evregs = [x for x in c.addr if x not in {r.name for r in d.regs} | {"window"}]
        R.check(bool(evregs) == (n > 0) == (d._bridge.irq is not None), "irq", "interrupt line or registers of a peripheral without events, or none with events")
        R.check(len(evregs) == (3 if n else 0), "irq", lambda: f"event registers are {evregs}")
        names = {k: next((x for x in evregs if x.endswith(k)), sorted(evregs, key=c.addr.get)[i]) for i, k in enumerate(("status", "pending", "enable"))} if n else {}
        pending, enable = (c.el[names["pending"]], c.el[names["enable"]]) if n else (None, None)
        words = [0] * (1 << cfg["win"])
        S = {"stb": 0}
        regs = [0] * len(d.regs)

        def each():
            for i, e in enumerate(d.ev):
                b.set(e.stb, S["stb"] >> i & 1)
            for i, r in enumerate(d.regs):
                if r.access == "r":
                    b.set(r.r_data, regs[i])
            b.settle()
            if not n:
                return
            R.check((1 if g(d.irq) else 0) == (1 if m.pending & m.enable else 0), "irq",
                    lambda: f"irq={g(d.irq)} with pending {m.pending:#x} and enable {m.enable:#x}")
            # the write strobes the bridge gives are the moments an access takes effect
            m.cycle(S["stb"], g(pending.w_data) if g(pending.w_stb) else None, g(enable.w_data) if g(enable.w_stb) else None)

        bm = BusMaster(b, d.bus, R, each)
        bm.idle(3)
        for op, x, y in plan["ops"]:
            if op == "stb":
                S["stb"] = x
                bm.idle(y + 1)
                R.items += 1
            elif op in ("ack", "enable"):
                was = (m.pending, m.enable)
                bm.access(c.addr[names["pending" if op == "ack" else "enable"]], 1, x)
                bm.idle(2)
                if op == "enable":
                    R.check(m.enable == x, "enable", lambda: f"enable register is {m.enable:#x} after writing {x:#x}")
                else:
                    keep = was[0] & ~x
                    R.check(m.pending & keep == keep, "pending", lambda: f"acknowledging {x:#x} changed pending from {was[0]:#x} to {m.pending:#x}")
                    R.fault("acknowledge")
            elif op == "check":
                bm.idle(2)
                lvl = m.status
                for k, w in (("status", lambda: m.status), ("pending", lambda: m.pending), ("enable", lambda: m.enable)):
                    v = bm.access(c.addr[names[k]], 0)
                    R.check(v & ((1 << n) - 1) == w(), k, lambda: f"{k} register reads {v:#x}, expected {w():#x}")
            elif op == "win":
                if y & 3:
                    bm.access(c.addr["window"] + x, 1, y)
                    words[x] = y
                for k in {x, (x + 1) % len(words), y % len(words)}:
                    v = bm.access(c.addr["window"] + k, 0)
                    R.check(v == words[k], "window", lambda: f"word {k} behind the window reads {v:#x}, holds {words[k]:#x}")
            elif op == "reg" and d.regs:
                i = x % len(d.regs)
                r = d.regs[i]
                y &= (1 << r.width) - 1
                if "w" in r.access:
                    bm.access(c.addr[r.name], 1, y)
                    bm.idle(2)
                    if r.access == "rw":
                        regs[i] = y
                    else:
                        R.check(g(d.got[r.name]) == y, "register", lambda: f"write-only register {i} received {g(d.got[r.name]):#x} instead of {y:#x}")
                elif r.access == "r":
                    regs[i] = y
                    bm.idle(1)
                for k, q in enumerate(d.regs):
                    if "r" in q.access:
                        v = bm.access(c.addr[q.name], 0)
                        R.check(v & ((1 << q.width) - 1) == regs[k], "register", lambda: f"register {k} reads {v:#x}, holds {regs[k]:#x}")
            elif op == "reset":
                b.reset()
                m.reset()
                words = [0] * len(words)
                regs = [0 if r.access != "r" else v for r, v in zip(d.regs, regs)]
                R.fault("reset")
                bm.idle(1)
            R.reach(n, op, m.pending & 7, m.enable & 7)
        R.log("end", m.pending, m.enable, regs)
        R.cycles = b.cycles


register("C26", Events(), BusEvents(),
         rule="Each run drives every event input with its own random on/off process while software acknowledges, enables and reads at drawn cycles "
              "(directly at the registers, and through the peripheral bridge).",
         real=["InterruptSource", "EventSource", "Peripheral", "PeripheralBridge", "CSRBank"],
         stub=["amaranth_soc CSR multiplexer, decoder and bridge (the package is not installed; minimal stand-ins)", "lambdasoc IRQLine"],
         assumptions=["the bus fabric of amaranth_soc is replaced by a minimal stand-in, so only the register bank composition is judged through it",
                      "the edge detectors' past value after reset is 0"])


# --------------------------------------------------------------------------------------------
class Memory(Scenario):
    name = "memory"
    quick, thorough = 120, 1500
    chunk = 15

    def configs(self, rng, tier):
        out = []
        shapes = [(32, 8), (32, 16), (32, 32), (16, 8), (8, 8), (64, 8), (64, 32), (16, 16)]
        for dw, gr in shapes:
            for ro in (0, 1, 2):                      # RAM, read-only RAM, ROM
                aw = rng.randint(3, 6) + (dw // gr).bit_length() - 1
                nbytes = (1 << aw) * gr // 8
                kind = rng.choice(["none", "words", "bytes", "bytes", "file"]) if ro == 0 else rng.choice(["words", "bytes", "bytes", "file"])
                k = rng.choice([nbytes, nbytes // 2 + 1, rng.randint(1, nbytes)])
                out.append({"dw": dw, "gr": gr, "ro": ro, "aw": aw, "kind": kind, "k": k, "order": "little" if ro == 2 else rng.choice(["little", "big"]),
                            "seed": rng.getrandbits(16)})
        # as most users build them: everything but the size left out
        for ro in (0, 1, 2):
            aw = rng.randint(3, 9)
            out.append({"dw": 32, "gr": 8, "ro": ro, "aw": aw, "kind": rng.choice(["bytes", "file"]), "k": rng.randint(1, 1 << aw), "order": "little",
                        "seed": rng.getrandbits(16), "dflt": 1})
        out.append({"dw": 32, "gr": 8, "ro": 0, "aw": rng.randint(9, 12), "kind": "bytes", "k": rng.randint(300, 4000), "order": "big", "seed": rng.getrandbits(16)})
        out.append({"dw": 8, "gr": 8, "ro": 0, "aw": 0, "kind": "bytes", "k": 1, "order": "big", "seed": rng.getrandbits(16)})
        out.append({"dw": 32, "gr": 8, "ro": 0, "aw": 2, "kind": "words", "k": 4, "order": "big", "seed": rng.getrandbits(16)})
        return out if tier == "quick" else out + [dict(c, aw=c["aw"] + 2, seed=rng.getrandbits(16)) for c in out]

    def build(self, cfg):
        c = Ctx()
        dw, gr = cfg["dw"], cfg["gr"]
        depth = (1 << cfg["aw"]) * gr // dw
        rnd = Lcg(cfg["seed"])
        nb = dw // 8
        data = bytes(rnd.next(256) for _ in range(min(cfg["k"], depth * nb)))
        words = [0] * depth
        init = None
        if cfg["kind"] == "words":
            init = [int.from_bytes(data[i:i + nb].ljust(nb, b"\0"), "little") for i in range(0, len(data), nb)]
            words[:len(init)] = init
        elif cfg["kind"] in ("bytes", "file"):
            init = data
            for i in range(0, len(data), nb):
                words[i // nb] = int.from_bytes(data[i:i + nb].ljust(nb, b"\0"), cfg["order"])
        path = None
        if cfg["kind"] == "file":
            fd, path = tempfile.mkstemp(prefix="dst-mem-")
            os.write(fd, data)
            os.close(fd)
            init = path
        try:
            if cfg.get("dflt"):
                c.dut = (WishboneROM(init, addr_width=cfg["aw"]) if cfg["ro"] == 2 else
                         WishboneRAM(addr_width=cfg["aw"], init=init, read_only=True) if cfg["ro"] else WishboneRAM(addr_width=cfg["aw"], init=init))
            elif cfg["ro"] == 2:
                c.dut = WishboneROM(init, addr_width=cfg["aw"], data_width=dw, granularity=gr)
            else:
                c.dut = WishboneRAM(addr_width=cfg["aw"], data_width=dw, granularity=gr, init=init, read_only=bool(cfg["ro"]), byteorder=cfg["order"])
            c.b = Bench(c.dut)
        finally:
            if path:
                os.unlink(path)
        c.init = [[(w >> gr * i) & ((1 << gr) - 1) for i in range(dw // gr)] for w in words]
        c.depth = depth
        return c

    def gen(self, rng, cfg):
        n = (1 << cfg["aw"]) * cfg["gr"] // cfg["dw"]
        ns = cfg["dw"] // cfg["gr"]
        hot = [rng.randrange(n) for _ in range(rng.choice([1, 2, 4, n]))]
        ops = []
        for _ in range(rng.choice([rng.randint(5, 50), rng.randint(5, 50), 150])):
            r = rng.random()
            kind = "w" if r < 0.42 else "r" if r < 0.85 else "wx" if r < 0.9 else "rx" if r < 0.95 else "half" if r < 0.985 else "reset"
            a = rng.choice(hot) if rng.random() < 0.8 else rng.randrange(n)
            sel = (1 << ns) - 1 if rng.random() < 0.4 else rng.getrandbits(ns)
            ops.append([kind, a, sel, rng.getrandbits(30), rng.choice([0, 0, 0, 1, 2, rng.randint(0, 9)])])
        return {"ops": ops, "seed": rng.getrandbits(16)}

    def run(self, c, cfg, plan, R):
        b, bus, gr = c.b, c.dut.bus, cfg["gr"]
        b.power_on()
        g, rnd = b.get, Lcg(plan["seed"])
        dw, ns = cfg["dw"], cfg["dw"] // cfg["gr"]
        mem = [[{v} for v in w] for w in c.init]         # possible values of every cell
        S = {"ok": 0, "t": 0}

        def noise():
            b.set(bus.adr, rnd.next(c.depth)); b.set(bus.dat_w, rnd.bits(dw)); b.set(bus.sel, rnd.bits(ns)); b.set(bus.we, rnd.next(2))

        def idle(allow_ack=False, half=0):
            noise()
            b.set(bus.cyc, 1 if half == 1 else 0)
            b.set(bus.stb, 1 if half == 2 else 0)
            b.settle()
            a = g(bus.ack)
            R.check(not a or allow_ack, "spurious-ack", "acknowledge without a request")
            b.tick()
            return a

        after_withdrawal = False
        for kind, a, sel, val, gap in plan["ops"]:
            for _ in range(max(gap, 1 if after_withdrawal else 0)):
                idle(after_withdrawal)
                after_withdrawal = False
            data = Lcg(val).bits(dw)
            cells = [(data >> gr * i) & ((1 << gr) - 1) for i in range(ns)]
            if kind == "reset":
                b.set(bus.cyc, 0); b.set(bus.stb, 0)
                b.reset()
                for x, w in zip(mem, c.init):
                    for i in range(ns):
                        x[i].add(w[i])
                R.fault("reset")
                continue
            if kind == "half":
                idle(False, half=1 + val % 2)
                R.fault("cycle_without_strobe")
                continue
            we = kind[0] == "w"
            b.set(bus.adr, a); b.set(bus.dat_w, data); b.set(bus.sel, sel); b.set(bus.we, we); b.set(bus.cyc, 1); b.set(bus.stb, 1)
            if we and not cfg["ro"]:
                for i in range(ns):
                    if sel >> i & 1:
                        if kind == "wx":
                            mem[a][i] = mem[a][i] | {cells[i]}
                        else:
                            mem[a][i] = {cells[i]}
            if kind[1:] == "x":
                b.settle()
                R.check(not g(bus.ack), "spurious-ack", "acknowledge in the cycle the request is first made")
                b.tick()
                after_withdrawal = True
                R.fault("request_withdrawn")
                continue
            k = 0
            while True:
                b.settle()
                if g(bus.ack):
                    R.check(k > 0, "spurious-ack", "acknowledge in the cycle the request is first made")
                    break
                k += 1
                R.check(k < 4, "no-ack", lambda: f"{kind} of word {a} not acknowledged after {k} cycles")
                b.tick()
            if not we:
                v = g(bus.dat_r)
                for i in range(ns):
                    if sel >> i & 1:
                        x = (v >> gr * i) & ((1 << gr) - 1)
                        R.check(x in mem[a][i], "data", lambda: f"word {a} cell {i} reads {x:#x}, expected {sorted(mem[a][i])}")
                        mem[a][i] = {x}
                R.log("r", a, v)
            b.tick()
            b.set(bus.cyc, 0); b.set(bus.stb, 0)
            R.items += 1
            R.reach(cfg["dw"], gr, kind, min(gap, 3), sel if ns <= 4 else sel & 15)
        for _ in range(3):
            idle(after_withdrawal)
            after_withdrawal = False
        # finally everything is read back
        for a in range(c.depth):
            b.set(bus.adr, a); b.set(bus.we, 0); b.set(bus.sel, 0); b.set(bus.cyc, 1); b.set(bus.stb, 1)
            for k in range(4):
                b.settle()
                if g(bus.ack):
                    break
                b.tick()
            v = g(bus.dat_r)
            for i in range(ns):
                x = (v >> gr * i) & ((1 << gr) - 1)
                R.check(x in mem[a][i], "data", lambda: f"finally word {a} cell {i} reads {x:#x}, expected {sorted(mem[a][i])}")
            b.tick()
        R.cycles = b.cycles


register("C27", Memory(),
         rule="Each run performs a drawn history of reads, writes with drawn byte selects, withdrawn requests, cycles without strobe and resets, back to back or spaced, "
              "and finally reads the whole memory.",
         real=["WishboneRAM", "WishboneROM"], stub=["amaranth_soc wishbone interface record and memory map (stand-ins)"],
         assumptions=["a withdrawn request is followed by an idle cycle and may have been performed", "memory contents after reset may be the old or the initial ones"])


# --------------------------------------------------------------------------------------------
class UartPeriph(Scenario):
    name = "uart-peripheral"
    quick, thorough = 30, 400
    chunk = 4

    def configs(self, rng, tier):
        out = []
        for k in range(14 if tier == "quick" else 50):
            bits = rng.choice([8, 8, 8, 7, 9, 5])
            out.append({"bits": bits, "parity": rng.choice(["none", "none", "even", "odd", "mark", "space"]), "div": rng.choice([5, 6, 7, 8, 11, 16]),
                        "rxd": rng.choice([1, 2, 3, 4, 8, 16]), "txd": rng.choice([1, 2, 3, 4, 8, 16]), "dbits": rng.choice([5, 8, 12])})
        for k in range(3 if tier == "quick" else 20):
            div = rng.choice([5, 9, 17, 31, 32, 33, 65, 100, rng.randint(5, 130)])
            out.append({"bits": rng.choice([8, 7, 6, 9, 10, 4]), "parity": rng.choice(["none", "even", "odd", "mark", "space"]), "div": div,
                        "rxd": rng.choice([5, 6, 17, rng.randint(1, 40)]), "txd": rng.choice([5, 7, 17, rng.randint(1, 40)]), "dbits": rng.choice([7, 16, div.bit_length(), rng.randint(8, 24)])})
            if out[-1]["dbits"] < div.bit_length():
                out[-1]["dbits"] = div.bit_length()
        # as most users build it
        out.append({"bits": 8, "parity": "none", "div": rng.choice([9, 16, 21]), "rxd": 16, "txd": 16, "dbits": 0, "dflt": 1})
        out[-1]["dbits"] = out[-1]["div"].bit_length()
        return out

    def n_runs(self, cfg, tier):
        return max(8, super().n_runs(cfg, tier) * 12 // max(12, cfg["div"]))

    def build(self, cfg):
        c = Ctx()
        if cfg.get("dflt"):
            c.dut = UARTPeripheral(divisor=cfg["div"])
        else:
            c.dut = UARTPeripheral(rx_depth=cfg["rxd"], tx_depth=cfg["txd"], divisor=cfg["div"], divisor_bits=cfg["dbits"], data_bits=cfg["bits"], parity=cfg["parity"])
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        ops = []
        bias = rng.choice(["rx", "tx", "both"])
        ftime = (cfg["bits"] + 3) * cfg["div"]
        for _ in range(rng.randint(10, 40)):
            r = rng.random()
            if r < 0.25:
                ops.append(["write", rng.choice([1, 1, 2, rng.randint(1, cfg["txd"] + 3)]) if bias != "rx" else 1, 0])
            elif r < 0.35:
                ops.append(["rude", rng.randint(1, 3) if bias != "rx" else 1, 0])
            elif r < 0.55:
                ops.append(["line", rng.choice([1, 1, 2, rng.randint(1, cfg["rxd"] + 3)]) if bias != "tx" else 1,
                            rng.choice(["", "", "", "p", "s"])])
            elif r < 0.75:
                ops.append(["poll", rng.randint(1, 5), 0])
            elif r < 0.85:
                ops.append(["wait", rng.choice([1, 3, rng.randint(1, 3 * ftime)]), 0])
            elif r < 0.9:
                ops.append(["quiet", rng.randint(0, 3), 0])
            elif r < 0.94:
                ops.append([rng.choice(["divisor", "divisor", "divisor-busy"]), rng.choice([n for n in (5, 6, 7, 9, 13, 20, 31, 32, 40, 63, 77) if n >> cfg["dbits"] == 0]),
                            rng.randint(0, ftime)])
            elif r < 0.98:
                ops.append(["enable", rng.choice([0, 1, 1]), 0])
            else:
                ops.append(["reset", 0, 0])
        return {"ops": ops, "seed": rng.getrandbits(16)}

    def run(self, c, cfg, plan, R):
        b, d = c.b, c.dut
        b.power_on()
        b.set(d.rx, 1)
        g = b.get
        rnd = Lcg(plan["seed"])
        par = None if cfg["parity"] == "none" else cfg["parity"]
        nb = cfg["bits"]
        mask = (1 << nb) - 1
        W = {"div": cfg["div"], "t": 0, "on": 0, "seq": rnd.next(200), "rseq": rnd.next(200), "muted": 0}
        dec = FrameDecoder(cfg["div"], nb, par)
        txq = deque()                  # [value, certainly accepted] not yet seen as a whole frame
        rxq = deque()                  # [value, must be delivered, cycle it was complete]
        line = deque()                 # levels to put on rx (run-length: [level, cycles])
        pending_frames = deque()       # frames being sent: (cycles left after this frame) handled through markers
        E = {"bad": False, "clean": True, "quiet": 0, "started": False}

        def frame_complete(v, must):
            if must and sum(1 for x in rxq) >= cfg["rxd"]:
                must = False
                E["bad"] = True        # an overrun sets the overflow flag
                R.fault("receive_overrun")
            rxq.append([v, must, W["t"]])

        def each():
            while line and line[0][1] == 0:
                x = line.popleft()
                if len(x) > 2:
                    frame_complete(*x[2:])
            if line:
                b.set(d.rx, line[0][0])
                line[0][1] -= 1
            else:
                b.set(d.rx, 1)
            b.settle()
            lvl = g(d.tx)
            v = dec.feed(lvl) if W["muted"] <= 0 else None
            W["muted"] -= 1
            if W["muted"] < 0 and dec.busy and dec.k <= (1 + nb) * dec.div:
                R.check(g(d.driving), "driving", "driving not indicated during a frame")
            if v is not None:
                while True:
                    R.check(txq, "tx-invented", lambda: f"byte {v:#x} on the line was not written (or twice)")
                    x, must = txq.popleft()
                    if x == v:
                        break
                    R.check(not must, "tx-lost", lambda: f"line shows {v:#x}, byte {x:#x} written before it is missing")
                R.items += 1
                R.log("tx", W["t"], v)
            E["quiet"] = 0 if (dec.busy or line) else E["quiet"] + 1
            W["t"] += 1

        bm = BusMaster(b, d.bus, R, each)

        def tx_busy():
            return 1 if dec.busy else 0

        def send(must):
            v = W["seq"] & mask
            W["seq"] += 1
            room = len(txq) < cfg["txd"]      # even if the transmitter holds none of them
            bm.access(5, 1, v)
            if W["on"]:
                txq.append([v, must or room])
                if not (must or room):
                    R.fault("write_without_room")
            else:
                R.fault("write_while_disabled")

        def wait_quiet():
            k, limit = 0, (len(txq) + 3) * (nb + 4) * W["div"] + sum(x[1] for x in line) + 200
            while line or E["quiet"] < 3 * W["div"] + 12 or any(m for _, m in txq):
                bm.idle(1)
                k += 1
                R.check(k < limit, "tx-stuck", lambda: f"{len(txq)} bytes not transmitted")
            txq.clear()

        def read_one():
            """poll rx_rdy and read the data register if it says so"""
            n0, t0 = len(rxq), W["t"]
            sure = any(m and t0 - t >= 2 * W["div"] + 10 for _, m, t in rxq)
            r = bm.access(3, 0) & 1
            if r == 0:
                R.check(not sure, "rx-rdy", "receiver not ready although a frame was received long ago")
                if rxq and not any(m for _, m, _ in rxq) and E["quiet"] > 3 * W["div"] + 12:
                    rxq.clear()
                return False
            # the last frame may be delivered in the middle of its stop bit
            early = line and len(line[0]) > 2
            v = bm.access(2, 0) & mask
            while True:
                if not rxq:
                    x = next((x for x in line if len(x) > 2), None)
                    R.check(x is not None and x[2] == v and x[1] <= W["div"] and x is line[0], "rx-invented", lambda: f"data register reads {v:#x}, nothing outstanding")
                    del x[2:]                    # delivered: not outstanding any more
                    break
                x, must, _ = rxq.popleft()
                if x == v:
                    break
                R.check(not must, "rx-lost", lambda: f"data register reads {v:#x}, byte {x:#x} received before it is missing")
            R.log("rx", v)
            R.items += 1
            return True

        bm.access(0, 1, 1)
        W["on"] = 1
        for op, n, x in plan["ops"]:
            if op == "write":
                for _ in range(n):
                    lo0 = len([1 for _, m in txq if m]) - 2
                    if bm.access(6, 0) & 1:
                        R.check(lo0 < cfg["txd"] + 1, "tx-rdy", "transmitter ready with a full buffer")
                        send(True)
                    else:
                        R.check(len(txq) >= cfg["txd"], "tx-rdy", lambda: f"transmitter not ready with {len(txq)} of {cfg['txd']} bytes outstanding")
                        R.fault("transmit_buffer_full")
                        bm.idle(rnd.next(40))
            elif op == "rude":
                for _ in range(n):
                    send(False)
            elif op == "line":
                for _ in range(n):
                    if W["rseq"] & mask == mask and any(o[2] == "s" for o in plan["ops"]):
                        W["rseq"] += 1           # reserved for the frame a low stop bit may be mistaken for
                    v = W["rseq"] & mask
                    W["rseq"] += 1
                    kind = x if not (x == "p" and not par) else ""
                    bits = frame_bits(v, nb, par, flip_parity=kind == "p", stop=0 if kind == "s" else 1)
                    for l in bits[:-1]:
                        line.append([l, W["div"]])
                    line.append([bits[-1], W["div"], v, kind == ""])
                    if kind:
                        R.fault("bad_parity" if kind == "p" else "bad_stop_bit")
                        E["bad"] = True
                        # a low stop bit looks like another start bit: one more frame of ones may appear
                        if kind == "s":
                            line.append([1, 1, mask, False])
                        line.append([1, (nb + 4) * W["div"]])
                    elif rnd.next(2):
                        line.append([1, rnd.next(3 * W["div"])])
            elif op == "poll":
                for _ in range(n):
                    if not read_one():
                        bm.idle(rnd.next(30))
            elif op == "wait":
                bm.idle(n)
            elif op == "divisor-busy":
                # in the middle of a frame: that frame may come out garbled, but the write counts
                wait_quiet()
                if W["on"]:
                    send(True)
                bm.idle(x % ((nb + 3) * W["div"]))
                W["muted"] = 10 ** 6
                bm.access(1, 1, n)
                for _ in range(2):
                    got = bm.access(1, 0) & ((1 << cfg["dbits"]) - 1)
                    R.check(got == n, "divisor", lambda: f"divisor register reads {got} after writing {n} while transmitting")
                    bm.idle((nb + 5) * max(W["div"], n) + 20)
                R.check(g(d.tx) == 1, "tx-stuck", "line not idle long after the last frame")
                txq.clear()
                dec.abort()
                W.update(div=n, muted=0)
                dec.set_div(n)
                R.fault("divisor_change_while_sending")
                bm.idle(60)
            elif op in ("quiet", "divisor"):
                wait_quiet()
                if op == "divisor":
                    bm.access(1, 1, n)
                    bm.idle(3)
                    got = bm.access(1, 0) & ((1 << cfg["dbits"]) - 1)
                    R.check(got == n, "divisor", lambda: f"divisor register reads {got} after writing {n}")
                    W["div"] = n
                    dec.set_div(n)
                    R.fault("divisor_change")
                    bm.idle(60)
                else:
                    self.quiet(bm, cfg, E, rxq, txq, W, R, read_one, g, d, n, line, wait_quiet)
            elif op == "enable":
                bm.access(0, 1, n)
                bm.idle(2)
                R.check(g(d.enabled) == n, "enable", "enable register has no effect")
                W["on"] = n
            elif op == "reset":
                b.reset()
                dec.abort()
                line.clear()
                txq.clear(); rxq.clear()
                b.set(d.rx, 1)
                W.update(div=cfg["div"], on=0)
                dec.set_div(cfg["div"])
                E.update(bad=False, quiet=0)
                R.fault("reset")
                bm.idle(3 * cfg["div"])
                bm.access(0, 1, 1)
                W["on"] = 1
                # an error flag is no error before the first frame
            R.reach(op, min(len(txq), 5), min(len(rxq), 5), cfg["txd"], cfg["rxd"])
        wait_quiet()
        while read_one():
            pass
        R.check(not any(m for _, m, _ in rxq), "rx-lost", lambda: f"{[hex(v) for v, m, _ in rxq if m]} never delivered")
        R.cycles = b.cycles

    def quiet(self, bm, cfg, E, rxq, txq, W, R, read_one, g, d, what, line, wait_quiet):
        """Nothing is moving: indications and events must agree with the (empty) buffers."""
        while read_one():
            pass
        bm.idle(4)
        s = bm.access(8, 0)
        R.check(not s & 1, "event", "rx_rdy event level with an empty receive buffer")
        R.check(s & 4, "event", "tx_mty event level missing with an empty transmit buffer")
        R.check(bm.access(6, 0) & 1, "tx-rdy", "transmitter not ready with an empty buffer")
        p = bm.access(9, 0)
        if not E["bad"]:
            R.check(not p & 2, "event", "receive error event although every frame was good")
        bm.access(9, 1, 7)
        bm.idle(3)
        p = bm.access(9, 0)
        R.check(not p & 7, "event", lambda: f"events {p & 7:#x} pending right after acknowledging in a quiet state")
        bm.access(10, 1, 7)
        bm.idle(3)
        R.check(not g(d.irq), "irq", "interrupt without a pending event")
        if W["on"]:
            v = W["seq"] & ((1 << cfg["bits"]) - 1)
            W["seq"] += 1
            bm.access(5, 1, v)
            txq.append([v, True])
            # sent at once: the buffer empties, which is an event
            R.fault("tx_empty_event")
        if W["on"]:
            for k in range(40):
                if g(d.irq):
                    break
                bm.idle(1)
            R.check(g(d.irq), "irq", "no interrupt after the transmit buffer became empty")
            R.check(bm.access(9, 0) & 4, "event", "tx_mty event missing")
        # the peer sends a good frame, a bad one and a good one: the error flags follow
        if what:
            wait_quiet()
            nb, par = cfg["bits"], None if cfg["parity"] == "none" else cfg["parity"]
            for kind in (None, "p" if par and what & 1 else "s", None):
                bm.access(9, 1, 7)
                v = 5
                bits = frame_bits(v, nb, par, flip_parity=kind == "p", stop=0 if kind == "s" else 1)
                for l in bits:
                    line.append([l, W["div"]])
                line.append([1, 2])
                bm.access(9, 1, 7)
                while line and (kind != "s" or len(line) > 1):
                    bm.idle(1)
                e = bm.access(4, 0) & 7
                p = bm.access(9, 0) & 7
                want = {None: 0, "p": 4, "s": 2}[kind]
                R.check(e == want, "rx-err", lambda: f"error register is {e:#x} after a frame {'with error ' + kind if kind else 'without error'}, expected {want:#x}")
                R.check((p >> 1 & 1) == (1 if kind else 0), "event", lambda: f"receive error event is {p >> 1 & 1} after a frame {'with error ' + kind if kind else 'without error'}")
                R.check(p & 1, "event", "no receive event after a frame")
                bm.idle((nb + 5) * W["div"])
                E["bad"] = True
                R.fault({"p": "bad_parity", "s": "bad_stop_bit", None: "good_after_bad"}[kind])
                while bm.access(3, 0) & 1:
                    x = bm.access(2, 0)
        if what == 2:
            wait_quiet()
            nb, par = cfg["bits"], None if cfg["parity"] == "none" else cfg["parity"]
            bm.access(9, 1, 7)
            sent = [(3 + 5 * i) & ((1 << nb) - 1) for i in range(cfg["rxd"] + 1)]
            for i, v in enumerate(sent):
                for l in frame_bits(v, nb, par):
                    line.append([l, W["div"]])
                line.append([1, 4])
                while line:
                    bm.idle(1)
                e, p, want = bm.access(4, 0) & 7, bm.access(9, 0) & 7, 1 if i == cfg["rxd"] else 0
                R.check(e == want, "overflow", lambda: f"error register is {e:#x} after frame {i + 1} of {cfg['rxd']} that fit, expected {want}")
                R.check((p >> 1 & 1) == want, "overflow", lambda: f"receive error event is {p >> 1 & 1} after frame {i + 1} of {cfg['rxd']} that fit")
            R.fault("receive_overrun")
            E["bad"] = True
            for v in sent[:-1]:
                R.check(bm.access(3, 0) & 1, "rx-lost", "receive buffer lost bytes in an overrun")
                x = bm.access(2, 0) & ((1 << nb) - 1)
                R.check(x == v, "rx-lost", lambda: f"data register reads {x:#x}, expected {v:#x} (buffer filled to the end)")
            bm.idle(3)
            R.check(not bm.access(3, 0) & 1, "rx-invented", "byte in the receive buffer after reading all of them")
        bm.access(9, 1, 7)
        bm.access(10, 1, 0)


register("C28", UartPeriph(),
         rule="Each run lets software write, poll and read the registers over the bus at drawn times while a peer sends frames (some with bad parity or stop bits) on the line, "
              "overrunning either buffer, changing the divisor and resetting; everything on the line is decoded bit by bit.",
         real=["UARTPeripheral", "AsyncSerial", "Peripheral", "PeripheralBridge", "InterruptSource"],
         stub=["amaranth_soc bus fabric (stand-ins)", "serial peer", "CPU"],
         assumptions=["the divisor is changed while both directions are idle", "bytes written while the peripheral is disabled are not sent",
                      "a frame with an error may or may not be put into the receive buffer, at most once"])
