"""C13 I2C initiator, C14 I2C target, C15 stream to I2C."""
from amaranth import *
from amlib.io.i2c import I2CInitiator, I2CTarget
from amlib.stream.i2c import I2CStreamTransmitter
from ..bench import Bench, Violation
from ..core import Scenario, register
from .spi import Lcg, word_bits, value_of


class Ctx:
    pass


class Line:
    def __init__(self, name):
        self.o, self.oe, self.i = Signal(name=name + "_o"), Signal(name=name + "_oe"), Signal(name=name + "_i", reset=1)


class Pads:
    def __init__(self, name="bus"):
        self.scl_t, self.sda_t = Line(name + "_scl"), Line(name + "_sda")


class PlainPads:
    """The same pins under the other names the bus logic accepts (as a platform's resource has them)."""
    def __init__(self, pads):
        self.scl, self.sda = pads.scl_t, pads.sda_t


class Monitor:
    """Watches both lines: start and stop conditions, the data level at every rising clock edge, and
    data changes at illegal moments."""
    def __init__(self, R):
        self.R = R
        self.p = (1, 1)
        self.ev = []
        self.t = 0
        self.rise = self.fall = None
        self.active = False
        self.low, self.high, self.at = [], [], []
        self.cond = []                          # (which, cycles) around start and stop conditions
        self.s_at = self.p_at = None

    def feed(self, scl, sda):
        pc, pd = self.p
        self.t += 1
        if scl != pc:
            if sda != pd:
                raise Violation("simultaneous", "data and clock line change together")
            if scl:
                if self.fall is not None: self.low.append(self.t - self.fall)
                self.rise = self.t
                self.p_at = None
                self.ev.append(("r", sda))
                self.at.append(self.t)
            else:
                if self.rise is not None: self.high.append(self.t - self.rise)
                if self.s_at is not None: self.cond.append(("hold after start", self.t - self.s_at))
                self.fall, self.s_at = self.t, None
        elif sda != pd and scl:
            self.ev.append(("P",) if sda else ("S",))
            if sda:
                if self.rise is not None: self.cond.append(("setup before stop", self.t - self.rise))
                self.p_at, self.s_at = self.t, None
            else:
                if self.p_at is not None: self.cond.append(("bus free before start", self.t - self.p_at))
                elif self.rise is not None: self.cond.append(("setup before repeated start", self.t - self.rise))
                self.p_at, self.s_at = None, self.t
            self.active = not sda
        self.p = (scl, sda)

    def take(self):
        e, self.ev = self.ev, []
        return e


def wire(b, pads, scl, sda, R, seen=None):
    """Resolve the open-drain lines; returns their levels. `seen`: what an unconnected clock input shows instead."""
    for ln in (pads.scl_t, pads.sda_t):
        if b.get(ln.oe) and b.get(ln.o):
            raise Violation("drive-high", "an open-drain line is driven high")
    c = scl & (1 - b.get(pads.scl_t.oe))
    d = sda & (1 - b.get(pads.sda_t.oe))
    b.set(pads.scl_t.i, c if seen is None else seen)
    b.set(pads.sda_t.i, d)
    return c, d


class TargetModel:
    """A device on the bus that follows the clock; told by the harness which byte comes next."""
    def __init__(self, g):
        self.scl, self.sda = 1, 1
        self.g = g
        self.slots = []          # what to drive in each of the coming clock periods (1 = release)
        self.p = 1
        self.delay = 0
        self.stretch = []        # stretch durations for the coming clock periods
        self.timer = None
        self.hold = 0
        self.drive_delay = 0
        self.late = 0

    def expect(self, slots, stretch=()):
        self.slots = list(slots)
        self.stretch = list(stretch)

    def step(self, scl):
        if self.p and not scl:       # falling edge: next clock period
            self.next_sda = self.slots.pop(0) if self.slots else 1
            self.timer = self.drive_delay
            if self.stretch:
                self.hold = self.stretch.pop(0)
                if self.hold:
                    self.scl = 0
                    if self.late and self.hold > 2:      # a stretching target may have its data only just before it releases the clock
                        self.timer = max(self.timer, self.hold - 2 - self.late % (self.hold - 1))
        self.p = scl
        if self.timer is not None:
            if self.timer == 0:
                self.sda = self.next_sda
                self.timer = None
            else:
                self.timer -= 1
        if self.hold:
            self.hold -= 1
            if self.hold == 0 and self.timer is not None:
                self.hold = 1
            if self.hold == 0:
                self.scl = 1


class Initiator(Scenario):
    name = "initiator"
    quick, thorough = 25, 400

    def configs(self, rng, tier):
        out = [{"p": p, "st": s} for p, s in ((16, True), (16, False), (8, True), (4, False), (40, True), (5, True), (25, False), (100, True), (12, False), (4, True))]
        for _ in range(4 if tier == "quick" else 40):
            out.append({"p": rng.choice([rng.randint(4, 40), rng.randint(4, 130), rng.randint(100, 520)]), "st": rng.random() < 0.6})
        for k, cf in enumerate(out):
            cf["plain"] = k % 3 == 1        # pins named scl/sda instead of scl_t/sda_t
            if k % 5 == 3: cf["p"] += 0.75  # computed from two frequencies
        return out

    def build(self, cfg):
        c = Ctx()
        c.pads = Pads()
        pads = PlainPads(c.pads) if cfg["plain"] else c.pads
        c.dut = I2CInitiator(pads, cfg["p"]) if cfg["st"] and cfg["plain"] else I2CInitiator(pads, cfg["p"], clk_stretch=cfg["st"])
        m = Module()
        m.submodules.dut = c.dut
        c.b = Bench(m)
        return c

    def gen(self, rng, cfg):
        ops, active = [], False
        kinds = rng.choice([["write", "write", "write", "read", "read", "start", "stop", "stop"], ["write", "read"], ["write"] * 4 + ["stop"], ["read"] * 4 + ["start"],
                            ["start", "stop"]]) if rng.random() < 0.5 else ["write", "write", "write", "read", "read", "start", "stop", "stop"]
        for _ in range(rng.randint(2, 14) if rng.random() < 0.9 else rng.randint(15, 45)):
            if not active:
                k = "start"
            else:
                k = rng.choice(kinds)
            st = []
            if cfg["st"] and rng.random() < 0.3:
                st = [rng.choice([0, 0, 1, 2, 5, rng.randint(1, 3 * int(cfg["p"]))]) for _ in range(9)]
                if rng.random() < 0.08:
                    st[rng.randrange(9)] = rng.choice([300, 1100, 2100, 4200])
            ops.append([k, rng.choice([0, 0xff, 0x55, 0xaa, 1 << rng.randrange(8), rng.getrandbits(8), rng.getrandbits(8), rng.getrandbits(8)]), rng.randint(0, 1), st, rng.choice([0, 0, 0, 1, 5, rng.randint(0, 2 * int(cfg["p"]))]), rng.getrandbits(30)])
            active = k != "stop"
            if rng.random() < 0.03:
                ops.append(["reset", rng.randint(1, 40 * int(cfg["p"]) // 4), 0, [], 0, 0])
                active = False
        # without clock stretching only the generated clock counts: the clock input may not even be connected
        return {"ops": ops, "blind": rng.choice([0, 0, 1, 2, 3]) if not cfg["st"] else 0, "bseed": rng.getrandbits(30)}

    def run(self, c, cfg, plan, R):
        b, d = c.b, c.dut
        b.power_on()
        q = int(cfg["p"]) // 4
        mon = Monitor(R)
        tm = TargetModel(None)
        tm.drive_delay = 0
        blind, bg = plan.get("blind", 0), Lcg(plan.get("bseed", 0))
        if blind: R.fault("clock_input_unconnected")

        def cyc():
            b.settle()
            scl, sda = wire(b, c.pads, tm.scl, tm.sda, R, {0: None, 1: 0, 2: 1, 3: bg.next(2)}[blind])
            mon.feed(scl, sda)
            tm.step(scl)
            b.tick()

        def idle_in():
            for s in (d.start, d.stop, d.write, d.read):
                b.set(s, 0)

        idle_in()
        for _ in range(4):
            cyc()
        R.check(b.get(d.busy) == 0, "busy", "busy without a request")
        active = False
        for op, val, ack, stretch, gap, salt in plan["ops"]:
            g = Lcg(salt)
            if op == "reset":
                continue
            if not active and op != "start":
                continue              # only meaningful inside a transaction (the minimiser may drop the start)
            R.log(op, val, ack)
            mon.take()
            mon.at.clear()
            tm.drive_delay = g.next(max(1, 2 * q - 3))
            tm.late = g.next(4)
            sig = {"start": d.start, "stop": d.stop, "write": d.write, "read": d.read}[op]
            if op == "write": tm.expect([1] * 8 + [1 - ack], stretch)
            elif op == "read": tm.expect(word_bits(val, 8) + [1], stretch)
            else: tm.expect([1], stretch[:1])
            if any(stretch): R.fault("clock_stretched")
            held, lows, highs = 0, list(mon.low), list(mon.high)
            if op == "start" and not active and cfg["st"] and (salt >> 5) % 5 == 0:
                # something else keeps the idle clock low for a while; the request may come before or after its release
                tm.expect([1])
                tm.scl, tm.hold = 0, 5 + (salt >> 8) % (8 * q + 10)
                held = tm.hold
                for _ in range(5 + (salt >> 16) % (held if salt & 2 else 8)):
                    cyc()
                if tm.scl == 0: R.fault("clock_held_at_start")
                else:
                    for _ in range(4): cyc()        # the released line has to be noticed
            b.set(d.data_i, val if op == "write" else g.bits(8))
            b.set(d.ack_i, ack if op == "read" else g.next(2))
            b.set(sig, 1)
            cyc()
            idle_in()
            R.check(b.get(d.busy) == 1, "busy", f"not busy after accepting {op}")
            limit = 12 * (4 * (q + 1) + 12) + sum(stretch) + held
            t = 0
            while b.get(d.busy):
                b.set(d.data_i, g.bits(8)); b.set(d.ack_i, g.next(2))     # may change once accepted
                for s in (d.start, d.stop, d.write, d.read):              # requests while busy are ignored
                    b.set(s, g.next(2) if salt & 1 else 0)
                cyc()
                t += 1
                R.check(t <= limit, "progress", lambda: f"{op} not finished after {t} cycles")
            idle_in()
            ev, at = mon.take(), list(mon.at)
            mon.at.clear()
            if held:
                # the edges made by the other party say nothing
                R.check(ev in ([("S",)], [("r", 1), ("S",)]), "start", lambda: f"start request while the clock was held low produced {ev}")
                ev = [("S",)]
                mon.low, mon.high = lows, highs
            R.reach(op, ack, any(stretch), gap == 0)
            if op == "start":
                R.check(ev in ([("S",)], [("r", 1), ("S",)]), "start", lambda: f"start request produced {ev}")
                active = True
            elif op == "stop":
                R.check(ev in ([("P",)], [("r", 0), ("P",)]), "stop", lambda: f"stop request produced {ev}")
                active = False
            else:
                line = word_bits(val, 8) + [1 - ack]
                R.check(ev == [("r", x) for x in line], op, lambda: f"{op} of {val:#x}, ack {ack}: bus events {ev}")
                if not any(stretch):
                    for x, y in zip(at, at[1:]):
                        R.check(y - x <= 4 * (q + 1) + 16, "rate", lambda: f"{y - x} cycles between clock pulses of a {op} at period {cfg['p']} without stretching")
                if op == "write":
                    R.check(b.get(d.ack_o) == ack, "ack", lambda: f"acknowledge reported {b.get(d.ack_o)}, bus had {ack}")
                else:
                    R.check(b.get(d.data_o) == val, "read", lambda: f"read returned {b.get(d.data_o):#x}, bus had {val:#x}")
            R.items += 1
            for _ in range(gap):
                cyc()
            R.check(b.get(d.busy) == 0, "busy", "busy without a request")
            R.check(not mon.ev, "quiet", lambda: f"bus activity {mon.ev} without a request")
            if active:
                R.check(mon.p[0] == 1 or op == "x", "release", "clock held low between operations")
        # clock rate
        for x in mon.low[1:]:
            R.check(x >= 2 * q, "rate", lambda: f"clock low for {x} cycles at period {cfg['p']}")
        for x in mon.high[1:]:
            R.check(x >= 2 * q, "rate", lambda: f"clock high for {x} cycles at period {cfg['p']}")
        for what, x in mon.cond:
            R.check(x >= q, "timing", lambda: f"{what}: {x} cycles at period {cfg['p']}")
        # reset in the middle of an operation releases the bus
        r = [o for o in plan["ops"] if o[0] == "reset"]
        if r:
            tm.expect([1] * 9)
            for op, n in (("start", 0), ("write", r[0][1])):
                b.set(d.data_i, 0x5a)
                b.set(d.start if op == "start" else d.write, 1)
                cyc()
                idle_in()
                t = 0
                while b.get(d.busy) and (op == "start" or t < n):
                    cyc(); t += 1
            R.fault("reset_in_operation")
            b.reset()
            R.check(b.get(c.pads.scl_t.oe) == 0 and b.get(c.pads.sda_t.oe) == 0, "reset", "bus still driven after reset")
            tm.sda = tm.scl = 1
            tm.expect([])
            mon = Monitor(R)
            for _ in range(20 * (q + 2)):
                cyc()
            R.check(b.get(d.busy) == 0, "reset", "busy after reset")
            R.check(not mon.take(), "reset", "bus activity after reset without a request")
            b.set(d.start, 1); cyc(); idle_in()
            t = 0
            while b.get(d.busy) and t < 20 * (q + 4):
                cyc(); t += 1
            R.check(mon.take() == [("S",)], "reset", "start after reset is not performed")
        R.cycles = b.cycles


register("C13", Initiator(),
         rule="Each run issues 2 to 14 operations (start, repeated start, write, read, stop) with drawn data, acknowledges, gaps, further "
              "requests and changing inputs while busy, per-clock stretching and target drive delays, starts requested while the idle clock is held low, and may end with a reset in the "
              "middle of a write; every cycle of both lines is checked by a protocol monitor.",
         real=["I2CInitiator", "I2CBus"], stub=["I2C target", "open-drain lines"],
         assumptions=["operations other than start are only requested inside a transaction",
                      "a target drives data early enough in the low phase for the two synchroniser stages"])


# --------------------------------------------------------------------------------------------
class RefTarget:
    """What a target with this address must do, bit by bit."""
    def __init__(self, addr):
        self.addr = addr
        self.state, self.bits = "idle", []
        self.ev = []
        self.ack = 0
        self.out = 0

    @property
    def mine(self):
        return self.state in ("addrack", "wr", "wrack", "rd", "rdack")

    def drive(self):
        """Level the target puts on the data line during the coming clock period (1 = released)."""
        if self.state == "addrack": return 0
        if self.state == "wrack": return 1 - self.ack
        if self.state == "rd": return self.out >> (7 - len(self.bits)) & 1
        return 1

    def clock_high(self, bit):
        """Rising clock edge with this level on the line."""
        if self.state == "rd":
            self.bits.append(bit)
        elif self.state == "rdack":
            if bit:
                self.ev.append(("stop",)); self.state = "idle"
            else:
                self.ev.append(("read",)); self.state = "rdack+"
        elif self.state == "addrack" and self.rw:
            self.ev.append(("read",))
            self.state = "addrack+"
        else:
            self.bits.append(bit)

    def clock_low(self, ack):
        """Falling clock edge; `ack` is what the application answers should a byte be complete now."""
        s = self.state
        if s == "start":
            self.state, self.bits = "addr", []
        elif s == "addr" and len(self.bits) == 8:
            v = value_of(self.bits)
            self.bits = []
            if v >> 1 == self.addr:
                self.rw = v & 1
                self.state = "addrack"
                self.ev.append(("start",))
            else:
                self.state = "idle"
        elif s == "addrack":
            self.state, self.bits = "wr", []
        elif s in ("addrack+", "rdack+"):
            self.state, self.bits = "rd", []
        elif s == "wr" and len(self.bits) == 8:
            self.ev.append(("write", value_of(self.bits)))
            self.ack = ack
            self.state = "wrack"
        elif s == "wrack":
            self.state, self.bits = "wr", []
        elif s == "rd" and len(self.bits) == 8:
            self.state = "rdack"

    def start(self):
        if self.mine or self.state in ("addrack+", "rdack+"):
            self.ev.append(("restart",))
        self.state, self.bits = "start", []

    def stop(self):
        if self.mine or self.state in ("addrack+", "rdack+"):
            self.ev.append(("stop",))
        self.state, self.bits = "idle", []


class Target(Scenario):
    name = "target"
    quick, thorough = 80, 1500

    def configs(self, rng, tier):
        return [{"h": h} for h in (6, 8, 12, 25, 7, 70)] + [{"h": rng.randint(6, 40)} for _ in range(2 if tier == "quick" else 20)]

    def build(self, cfg):
        c = Ctx()
        c.pads = Pads()
        c.dut = I2CTarget(c.pads)
        m = Module()
        m.submodules.dut = c.dut
        c.b = Bench(m)
        return c

    def gen(self, rng, cfg):
        addr = first = rng.choice([0x28, 0, 0x7f, rng.getrandbits(7)])
        ops = []
        for _ in range(rng.randint(1, 7)):
            a = addr if rng.random() < 0.7 else rng.choice([addr ^ (1 << rng.randrange(7)), rng.getrandbits(7)])
            nb = rng.choice([0, 1, 1, 2, 3] if cfg["h"] > 30 or rng.random() < 0.9 else [4, 8, 9, 17, 20])
            data = [[rng.choice([0, 0xff, addr << 1, rng.getrandbits(8), rng.getrandbits(8), rng.getrandbits(8)]), rng.randint(0, 1), int(rng.random() < 0.8)] for _ in range(nb)]
            cut = rng.randint(0, 9 * (nb + 1)) if rng.random() < 0.35 else None
            end = rng.choice(["P", "P", "S"])
            if rng.random() < 0.08:
                addr = rng.choice([0x28, 0, 0x7f, addr ^ (1 << rng.randrange(7)), rng.getrandbits(7)])
                ops.append(["addr", addr, 0, [], None, "P", 0, 0])
            ops.append(["x" if rng.random() > 0.03 else "reset", a, rng.randint(0, 1), data, cut, end, rng.randint(0, 4), rng.getrandbits(30)])
        return {"ops": ops, "addr": first, "stray": rng.random() < 0.5}

    def run(self, c, cfg, plan, R):
        b, d = c.b, c.dut
        b.power_on()
        h, addr = cfg["h"], plan["addr"]
        b.set(d.address, addr)
        ref = RefTarget(addr)
        mon = Monitor(R)
        got = []
        st = {"scl": 1, "sda": 1, "ack": 0, "out": 0, "late": 0}
        g = Lcg(1)

        def cyc(k=1):
            for _ in range(k):
                # the application: acknowledges some time in the acknowledge setup period, offers data when asked
                b.settle()
                scl, sda = wire(b, c.pads, st["scl"], st["sda"], R)
                b.set(d.data_o, g.bits(8) if not st.get("offer") else st["out"])
                # an acknowledge outside the acknowledge bit of a written byte means nothing
                b.set(d.ack_o, g.next(2) if plan["stray"] and ref.state not in ("wr", "wrack") and st.get("ackin") is None else 0)
                b.settle()
                w = b.get(d.write)
                if w:
                    b.set(d.ack_o, 0)
                if w and st["ack"]:
                    st["ackin"] = st["late"]
                if st.get("ackin") is not None:
                    if st["ackin"] == 0:
                        b.set(d.ack_o, 1); st["ackin"] = None
                    else:
                        st["ackin"] -= 1
                b.settle()
                for name, s in (("start", d.start), ("restart", d.restart), ("read", d.read)):
                    if b.get(s): got.append((name,)); R.log(name)
                if b.get(d.read):
                    b.set(d.data_o, st["out"])
                    b.settle()
                if w: got.append(("write", b.get(d.data_i))); R.log(*got[-1])
                if b.get(d.stop): got.append(("stop",)); R.log("stop")
                mon.p = (scl, sda)
                b.tick()

        def levels():
            b.settle()
            return wire(b, c.pads, st["scl"], st["sda"], R)

        def drive_check(what):
            scl, sda = levels()
            R.check(b.get(c.pads.scl_t.oe) == 0, "clock", "target holds the clock")
            drv = 1 - b.get(c.pads.sda_t.oe)
            R.check(drv == ref.drive(), "drive", lambda: f"target {'releases' if drv else 'pulls'} the data line during {what} (state {ref.state}, bit {len(ref.bits)})")
            return sda

        def bit(x, ack=0, out=0):
            """One clock period, starting with the clock high."""
            st["scl"] = 0
            cyc(1)
            ref_was = ref.state
            st["ack"], st["late"] = ack, g.next(max(3, h - 6))
            st["out"] = out
            ref.clock_low(ack)
            # a released line while the target drives
            st["sda"] = x
            cyc(h + g.next(3))
            st["scl"] = 1
            v = drive_check("a bit") 
            if ref.state == "addrack" and ref.rw or ref.state == "rdack":
                ref_out = out
                ref.out = out
            ref.clock_high(v)
            cyc(h + g.next(3))
            drive_check2(v)
            R.reach(ref.state, len(ref.bits), v)
            return v

        def drive_check2(v):
            scl, sda = levels()
            R.check(sda == v, "stability", "data line changes while the clock is high")

        def s_cond():
            if st["scl"] and mon.p[0] and mon.p[1] == 0 or ref.state != "idle" or st["sda"] == 0:
                # repeated start: clock low, release data, clock high
                st["scl"] = 0
                cyc(1)
                ref.clock_low(0); st["ack"] = 0
                if ref.drive() == 0:
                    return False
                st["sda"] = 1
                cyc(h)
                st["scl"] = 1
                v = drive_check("a repeated start")
                ref.clock_high(v)
                cyc(h)
            st["sda"] = 0
            ref.start()
            cyc(h)
            return True

        def p_cond():
            st["scl"] = 0
            cyc(1)
            ref.clock_low(0); st["ack"] = 0
            if ref.drive() == 0:
                return False
            st["sda"] = 0
            cyc(h)
            st["scl"] = 1
            drive_check("a stop")
            ref.clock_high(0)
            cyc(h)
            st["sda"] = 1
            ref.stop()
            cyc(h)
            return True

        def finish_stuck():
            """The target pulls the line low in this period: clock it through, then try again."""
            st["sda"] = 1
            cyc(h)
            st["scl"] = 1
            v = drive_check("a bit")
            if ref.state == "addrack" and ref.rw or ref.state == "rdack": ref.out = st["out"]
            ref.clock_high(v)
            cyc(h)

        b.set(c.pads.scl_t.i, 1)
        cyc(4)
        for kind, a, rw, data, cut, end, gap, salt in plan["ops"]:
            g = Lcg(salt)
            R.log(kind, a, rw, data, cut, end)
            if kind == "addr":
                # a different own address from here on, changed between transactions
                if ref.state == "idle":
                    b.set(d.address, a)
                    ref.addr = a
                    R.fault("address_changed")
                continue
            n = 0
            ok = s_cond()
            tries = 0
            while not ok and tries < 12:
                finish_stuck(); ok = s_cond(); tries += 1
            R.check(ok, "stuck", "target never releases the data line")
            bits = [(x, None) for x in word_bits(a << 1 | rw, 8)]
            seq = []
            for x in word_bits(a << 1 | rw, 8): seq.append(("b", x))
            seq.append(("ack", 1, data[0] if data else None))
            for k, (v, ack, more) in enumerate(data):
                nx = data[k + 1] if k + 1 < len(data) else None
                if rw:
                    seq += [("b", 1)] * 8 + [("ack", 0 if nx and more else 1, nx)]
                    if not (nx and more): break
                else:
                    seq += [("b", x) for x in word_bits(v, 8)] + [("ack", 1, nx, ack)]
            if cut is not None:
                if cut < len(seq): R.fault("condition_inside_byte")
                seq = seq[:cut]
            if kind == "reset":
                seq = seq[:salt % (len(seq) + 1)]
            for e in seq:
                if e[0] == "b":
                    bit(e[1], out=st["out"])
                else:
                    app_ack = e[3] if len(e) > 3 else 0
                    out = e[2][0] if rw and e[2] else 0
                    bit(e[1], ack=app_ack, out=out)
            if kind == "reset":
                R.fault("reset_in_transaction")
                st["ackin"] = None
                b.reset()
                R.check(b.get(c.pads.sda_t.oe) == 0 and b.get(c.pads.scl_t.oe) == 0, "reset", "bus driven after reset")
                got.clear(); ref.ev.clear()
                ref.state, ref.bits = "idle", []
                # the controller gives up: stop condition
                st["scl"] = 0; cyc(2)
                st["sda"] = 0; cyc(h); st["scl"] = 1; cyc(h); st["sda"] = 1; cyc(h)
                R.check(not got, "reset", lambda: f"{got} after reset")
                continue
            if end == "P":
                ok, tries = p_cond(), 0
                while not ok and tries < 12:
                    finish_stuck(); ok = p_cond(); tries += 1
                R.check(ok, "stuck", "target never releases the data line")
                cyc(gap * h)
                if salt % 5 == 0:
                    # a start directly followed by a stop
                    R.fault("empty_transaction")
                    st["sda"] = 0; cyc(h); st["sda"] = 1; cyc(h)
            cyc(5)
            R.check(got == ref.ev, "events", lambda: f"reported {got}, expected {ref.ev}")
            R.items += len(got)
            got.clear(); ref.ev.clear()
        if st["sda"] == 0 or ref.state != "idle":
            tries = 0
            while not p_cond() and tries < 12:
                finish_stuck(); tries += 1
        cyc(4)
        R.check(got == ref.ev, "events", lambda: f"reported {got}, expected {ref.ev}")
        R.check(b.get(c.pads.sda_t.oe) == 0, "release", "data line held after the end of all transactions")
        R.cycles = b.cycles


class Pair(Scenario):
    """The real initiator talking to two real targets."""
    name = "initiator-and-targets"
    quick, thorough = 30, 400

    def configs(self, rng, tier):
        return [{"p": p, "st": s} for p, s in ((16, True), (24, False), (40, True), (17, True), (90, False))]

    def build(self, cfg):
        c = Ctx()
        c.pads = [Pads(f"p{i}") for i in range(3)]
        c.ini = I2CInitiator(c.pads[0], cfg["p"], clk_stretch=cfg["st"])
        c.t = [I2CTarget(c.pads[1]), I2CTarget(c.pads[2])]
        m = Module()
        m.submodules += [c.ini] + c.t
        c.b = Bench(m)
        return c

    def gen(self, rng, cfg):
        a = rng.sample(range(128), 3)
        ops = [[rng.choice([0, 0, 1, 1, 2]), rng.randint(0, 1), [[rng.getrandbits(8), int(rng.random() < 0.8)] for _ in range(rng.choice([0, 1, 2, 3, 4, 4, 9, 18]))], int(rng.random() < 0.3), rng.randint(0, 20)] for _ in range(rng.randint(1, 5))]
        return {"ops": ops, "addr": a}

    def run(self, c, cfg, plan, R):
        b, ini = c.b, c.ini
        b.power_on()
        ev = [[], []]
        app = [{"ack": 1, "out": []}, {"ack": 1, "out": []}]
        for t, a in zip(c.t, plan["addr"]): b.set(t.address, a)
        mon = Monitor(R)

        def cyc():
            b.settle()
            scl = sda = 1
            for p in c.pads:
                R.check(not (b.get(p.scl_t.oe) and b.get(p.scl_t.o)) and not (b.get(p.sda_t.oe) and b.get(p.sda_t.o)), "drive-high", "line driven high")
                scl &= 1 - b.get(p.scl_t.oe); sda &= 1 - b.get(p.sda_t.oe)
            for p in c.pads: b.set(p.scl_t.i, scl); b.set(p.sda_t.i, sda)
            mon.feed(scl, sda)
            b.settle()
            for i, t in enumerate(c.t):
                b.set(t.ack_o, app[i]["ack"] & b.get(t.write))
                if b.get(t.read):
                    b.set(t.data_o, app[i]["out"].pop(0) if app[i]["out"] else 0xff)
                    ev[i].append("read")
                if b.get(t.start): ev[i].append("start")
                if b.get(t.write): ev[i].append(("write", b.get(t.data_i)))
                if b.get(t.restart): ev[i].append("restart")
                if b.get(t.stop): ev[i].append("stop")
            b.tick()

        def do(sig, **kw):
            for k, v in kw.items(): b.set(getattr(ini, k), v)
            b.set(sig, 1); cyc(); b.set(sig, 0)
            t = 0
            while b.get(ini.busy):
                cyc(); t += 1
                R.check(t < 40 * cfg["p"], "progress", "operation does not finish")

        for _ in range(4): cyc()
        open_, last = False, None
        for sel, rw, data, rep, gap in plan["ops"]:
            R.log(sel, rw, data, rep)
            do(ini.start)
            for _ in range(4): cyc()
            if open_ and last[0] < 2 and not (last[1]):
                R.check(ev[last[0]] == ["restart"], "events", lambda: f"target {last[0]} reported {ev[last[0]]} for a repeated start")
            ev[0].clear(); ev[1].clear()
            for i in (0, 1): app[i]["out"] = [x[0] for x in data] if i == sel and rw else []
            do(ini.write, data_i=plan["addr"][sel] << 1 | rw)
            R.check(b.get(ini.ack_o) == (sel < 2), "address", lambda: f"address acknowledge {b.get(ini.ack_o)} for device {sel}")
            exp = ["start"] if sel < 2 else []
            if sel == 2: R.fault("absent_device")
            if rw and sel < 2:
                exp.append("read")
                data = data or [[0xff, 0]]
                for k, (v, _) in enumerate(data):
                    more = k + 1 < len(data)
                    do(ini.read, ack_i=int(more))
                    R.check(b.get(ini.data_o) == v, "read", lambda: f"read {b.get(ini.data_o):#x}, target offered {v:#x}")
                    exp.append("read" if more else "stop")
                    R.items += 1
            elif not rw:
                for v, ack in data:
                    app[sel % 2 if sel < 2 else 0]["ack"] = ack
                    do(ini.write, data_i=v)
                    if sel < 2:
                        if not ack: R.fault("byte_refused")
                        exp.append(("write", v))
                        R.check(b.get(ini.ack_o) == ack, "ack", lambda: f"acknowledge {b.get(ini.ack_o)} for byte {v:#x}, target gave {ack}")
                    else:
                        R.check(b.get(ini.ack_o) == 0, "ack", "acknowledge from nobody")
                    R.items += 1
            for i in (0, 1):
                e = exp if i == sel else []
                R.check(ev[i] == e, "events", lambda: f"target {i} reported {ev[i]}, expected {e}")
                ev[i].clear()
            open_, last = bool(rep), (sel, rw)
            if not rep:
                do(ini.stop)
                for _ in range(4 + gap): cyc()
                for i in (0, 1):
                    e = ["stop"] if i == sel and not rw else []
                    R.check(ev[i] == e, "events", lambda: f"target {i} reported {ev[i]} at the stop, expected {e}")
                    ev[i].clear()
            R.reach(sel, rw, len(data), rep)
        R.cycles = b.cycles


register("C14", Target(), Pair(),
         rule="Target runs perform 1 to 7 transactions from a bit-level controller (own, near and foreign addresses, writes and reads, "
              "repeated starts, start or stop condition forced at any bit, resets) and compare the driven line in every clock period and "
              "the reported events with a bit-level reference; pair runs let the real initiator talk to two real targets.",
         real=["I2CTarget", "I2CBus", "I2CInitiator"], stub=["bit-level controller", "application"],
         assumptions=["clock half periods of at least 6 cycles", "the undocumented clock-stretch request input of the target is not used"])


# --------------------------------------------------------------------------------------------
class Stream(Scenario):
    name = "stream"
    quick, thorough = 25, 400

    def configs(self, rng, tier):
        return [{"p": p, "st": s, "d": d, "plain": s != (p == 4)} for p, s, d in ((4, False, 16), (8, True, 4), (16, True, 16), (12, False, 1), (5, True, 2), (4, True, 3), (40, True, 5), (4, False, 64))] + \
               [{"p": rng.randint(4, 60), "st": rng.random() < 0.5, "d": rng.randint(1, 40), "plain": False} for _ in range(3 if tier == "quick" else 30)]

    def build(self, cfg):
        c = Ctx()
        c.pads = Pads()
        pads = PlainPads(c.pads) if cfg["plain"] else c.pads
        c.dut = I2CStreamTransmitter(pads, cfg["p"]) if cfg["st"] and cfg["d"] == 16 else I2CStreamTransmitter(pads, cfg["p"], clk_stretch=cfg["st"], fifo_depth=cfg["d"])
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        byte_time = 9 * (4 * (cfg["p"] // 4 + 1) + 6)
        ops = []
        for _ in range(rng.randint(1, 6)):
            n = rng.choice([1, 1, 2, 3, rng.randint(1, 24)])
            items = [[rng.choice([0, 0xff, rng.getrandbits(8)]), rng.choice([0] * 6 + [1, rng.randint(0, 2 * byte_time)])] for _ in range(n)]
            ops.append(items)
        if cfg["p"] < 9 and rng.random() < 0.04:
            ops.append([[rng.getrandbits(8), 0] for _ in range(rng.choice([255, 256, 257, 300]))])
        if rng.random() < 0.05:
            it = rng.choice(rng.choice(ops))
            it[1] = rng.choice([1100, 4200])
        return {"ops": ops, "seed": rng.getrandbits(30), "stretch": rng.random() < 0.4, "nack": rng.random() < 0.5,
                "blind": rng.choice([0, 0, 1, 2, 3]) if not cfg["st"] else 0,
                "reset": rng.randint(1, 3000) if rng.random() < 0.06 else None}

    def run(self, c, cfg, plan, R):
        b, d = c.b, c.dut
        b.power_on()
        g = Lcg(plan["seed"])
        q = cfg["p"] // 4
        mon = Monitor(R)
        tm = TargetModel(g)
        s = d.stream_in
        queue = [(v, k == 0, k == len(p) - 1, gap) for p in plan["ops"] for k, (v, gap) in enumerate(p)]
        sent, accepted = [], []
        blind, bg = plan.get("blind", 0), Lcg(plan["seed"] + 1)
        if blind: R.fault("clock_input_unconnected")
        cur, bits = None, []
        gap = queue[0][3] if queue else 0
        quiet = 0
        byte_time = 9 * (4 * (q + 1) + 8)
        budget = byte_time * (len(queue) + 6 * len(plan["ops"])) + sum(x[3] for x in queue) + 800
        if plan["stretch"]: budget += 10 * (len(queue) + 4) * 40
        i, t, resets = 0, 0, 0
        while True:
            if plan["reset"] is not None and t == plan["reset"]:
                R.fault("reset")
                b.reset()
                R.check(b.get(c.pads.scl_t.oe) == 0 and b.get(c.pads.sda_t.oe) == 0, "reset", "bus driven after reset")
                # everything before the reset is forgotten; the producer starts over with whole packets
                sent.clear(); accepted.clear(); cur, bits = None, []
                mon = Monitor(R); tm = TargetModel(g)
                i = 0
                gap = 0
                budget += t
                plan = dict(plan, reset=None)
                b.set(s.valid, 0)
                for _ in range(4): b.tick()
            if i < len(queue) and gap == 0:
                v, f, l, _ = queue[i]
                b.set(s.valid, 1); b.set(s.payload, v); b.set(s.first, int(f)); b.set(s.last, int(l))
            else:
                b.set(s.valid, 0); b.set(s.payload, g.bits(8)); b.set(s.first, g.next(2)); b.set(s.last, g.next(2))
                if gap: gap -= 1
            b.settle()
            scl, sda = wire(b, c.pads, tm.scl, tm.sda, R, {0: None, 1: 0, 2: 1, 3: bg.next(2)}[blind])
            prev = mon.p[0]
            mon.feed(scl, sda)
            for e in mon.take():
                if e == ("S",):
                    R.check(cur is None, "start", "start condition inside a transaction")
                    cur, bits = [], []
                    if plan["nack"]: R.fault("byte_refused", 0)
                    tm.slots = [1] * 8 + [g.next(2) if plan["nack"] else 0]
                    tm.stretch = []
                elif e == ("P",):
                    R.check(cur is not None, "stop", "stop condition without a transaction")
                    R.check(len(bits) in (0, 1) , "stop", lambda: f"stop condition after {len(bits)} bits of a byte")
                    sent.append(cur); cur = None
                    R.log("packet", sent[-1])
                elif cur is not None:
                    bits.append(e[1])
                    if len(bits) == 9:
                        cur.append(value_of(bits[:8]))
                        if bits[8]: R.fault("byte_refused")
                        bits = []
                        n = len(sent)
                        flat = [[v for v, _ in p] for p in plan["ops"]]
                        R.check(n < len(flat) and cur == flat[n][:len(cur)], "bytes", lambda: f"transaction {n} so far {cur}, expected {flat[n] if n < len(flat) else 'nothing'}")
                        tm.slots = [1] * 8 + [g.next(2) if plan["nack"] else 0]
                        if plan["stretch"] and cfg["st"] and g.next(3) == 0:
                            tm.stretch = [g.next(40) for _ in range(9)]
                            if g.next(60) == 0:
                                tm.stretch[g.next(9)] = x = 1100 + 3100 * g.next(2)
                                budget += x
                            R.fault("clock_stretched")
            tm.step(scl)
            if b.get(s.valid) and b.get(s.ready):
                i += 1
                R.items += 1
                gap = queue[i][3] if i < len(queue) else 0
                if gap: R.fault("producer_gap")
            if b.get(s.valid) and not b.get(s.ready):
                R.reach("full")
                # every byte that was accepted and is not yet through on the bus may occupy a place
                R.check(i - sum(map(len, sent)) - len(cur or ()) >= cfg["d"], "room", lambda: f"cycle {t}: refuses a byte with {i} accepted and {sum(map(len, sent)) + len(cur or ())} sent")
            R.reach(i < len(queue), cur is None, len(bits), b.get(s.ready))
            b.tick()
            t += 1
            if i >= len(queue) and len(sent) >= len(plan["ops"]) and cur is None:
                quiet += 1
                if quiet > 3 * byte_time: break
            R.check(t <= budget, "progress", lambda: f"only {len(sent)} of {len(plan['ops'])} packets on the bus after {t} cycles")
        flat = [[v for v, _ in p] for p in plan["ops"]]
        R.check(sent == flat, "packets", lambda: f"bus transactions {sent}, packets {flat}")
        R.check(mon.p == (1, 1), "release", "bus not released after the last packet")
        R.cycles = b.cycles


register("C15", Stream(),
         rule="Each run streams 1 to 6 packets of 1 to 24 bytes with drawn producer gaps (up to two byte times, also inside packets) into "
              "the transmitter, with targets that refuse bytes and stretch the clock, and sometimes a reset.",
         real=["I2CStreamTransmitter", "I2CInitiator", "I2CBus", "connect_stream_to_fifo"], stub=["I2C target", "producer"],
         assumptions=["packets are well formed (first on the first, last on the last byte)"])
