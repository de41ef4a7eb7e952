"""C09 SPI device, C10 SPI command interface, C11 SPI registers, C12 SPI controller and multiplexer."""
from amaranth import *
from amlib.io.spi import (SPIDeviceInterface, SPICommandInterface, SPIRegisterInterface,
                          SPIControllerInterface, SPIMultiplexer, SPIDeviceBus)
from ..bench import Bench
from ..core import Scenario, register


class Ctx:
    pass


class Lcg:
    """Cheap deterministic filler values inside a run (seeded by the plan)."""
    def __init__(self, seed):
        self.s = (seed * 2654435761 + 12345) & 0xffffffff

    def next(self, n):
        self.s = (self.s * 1664525 + 1013904223) & 0xffffffff
        return (self.s >> 8) % n if n > 0 else 0

    def bits(self, n):
        v = 0
        for i in range(0, n, 16):
            v |= self.next(1 << 16) << i
        return v & ((1 << n) - 1)


def word_bits(v, n, msb=True):
    return [(v >> (n - 1 - i if msb else i)) & 1 for i in range(n)]


def value_of(bits, msb=True):
    if not msb:
        bits = bits[::-1]
    v = 0
    for b in bits:
        v = v << 1 | b
    return v


# --------------------------------------------------------------------------------------------
class Device(Scenario):
    name = "device"
    quick, thorough = 30, 400

    def configs(self, rng, tier):
        out = []
        for cpol in (0, 1):
            for cpha in (0, 1):
                for msb in (True, False):
                    out.append({"n": 8, "cpol": cpol, "cpha": cpha, "msb": msb, "csh": bool(cpol ^ msb), "skip": False})
        for n in (1, 2, 3, 5, 7, 12, 16, 24, 32, 64):
            out.append({"n": n, "cpol": n & 1, "cpha": (n >> 1) & 1, "msb": n % 3 != 0, "csh": n % 5 == 2, "skip": n % 4 == 0})
        for _ in range(4 if tier == "quick" else 60):
            out.append({"n": rng.randint(2, 33), "cpol": rng.randint(0, 1), "cpha": rng.randint(0, 1), "msb": rng.random() < 0.6,
                        "csh": rng.random() < 0.4, "skip": rng.random() < 0.4})
        return out

    def build(self, cfg):
        c = Ctx()
        c.dut = SPIDeviceInterface(word_size=cfg["n"], clock_polarity=cfg["cpol"], clock_phase=cfg["cpha"], msb_first=cfg["msb"],
                                   cs_idles_high=cfg["csh"], skip_input_cdc=cfg["skip"])
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        ops = []
        n = cfg["n"]
        for _ in range(rng.randint(2, 9)):
            r = rng.random()
            kind = "full" if r < 0.45 else "cut" if r < 0.62 else "mid" if r < 0.72 else "foreign" if r < 0.86 else "select" if r < 0.94 else "reset"
            words = [[rng.choice([rng.getrandbits(n), 0, (1 << n) - 1, 1, 1 << (n - 1)]), rng.getrandbits(n)] for _ in range(rng.choice([1, 1, 2, 3]) if rng.random() < 0.97 else rng.randint(4, 20))]
            ops.append([kind, words, rng.randint(1, max(1, n - 1)), rng.choice([2, 3, 4, 4, 5, 8, 13, 13 if rng.random() < 0.9 else 70]), rng.choice([0, 0, 1, 3]),
                        rng.randint(2, 12), rng.getrandbits(30)])
        return {"ops": ops}

    def run(self, c, cfg, plan, R):
        b, d = c.b, c.dut
        b.power_on()
        n, idle, cpha, msb = cfg["n"], cfg["cpol"], cfg["cpha"], cfg["msb"]
        on, off = (0, 1) if cfg["csh"] else (1, 0)
        htx = 2 if cfg["skip"] else 4
        got = []
        g = Lcg(1)
        st = {"wo": None}

        def cyc(k=1):
            for _ in range(k):
                b.set(d.word_out, st["wo"] if st["wo"] is not None else g.bits(n))
                b.settle()
                if b.get(d.word_complete):
                    got.append(b.get(d.word_in))
                    R.log("word", got[-1])
                b.tick()

        b.set(d.spi.cs, off); b.set(d.spi.sck, idle)
        b.settle()
        cyc(4)
        got.clear()
        for kind, words, cut, h, jit, gap, salt in plan["ops"]:
            g = Lcg(salt)
            R.log(kind)
            expect = []

            def half():
                return h + g.next(jit + 1)

            if kind == "foreign":
                R.fault("clocks_while_deselected")
                for _ in range(cut * 2):
                    b.set(d.spi.sdi, g.next(2))
                    b.set(d.spi.sck, 1 - idle); cyc(half())
                    b.set(d.spi.sck, idle); cyc(half())
                cyc(4)
                R.check(not got, "foreign", lambda: f"words {got} reported while deselected")
                continue
            if kind == "select":
                R.fault("select_without_clock")
                b.set(d.spi.cs, on); cyc(gap)
                b.set(d.spi.cs, off); cyc(gap + 4)
                R.check(not got, "empty", lambda: f"words {got} reported although nothing was sent")
                continue
            nbits = len(words) * n
            if kind in ("cut", "mid"):
                nbits -= cut
                R.fault("transfer_cut_short")
            if kind == "reset":
                nbits = max(1, nbits - cut)
            rx = [x for w in words for x in word_bits(w[0], n, msb)][:nbits]
            tx = [x for w in words for x in word_bits(w[1], n, msb)][:nbits]
            seen = []
            st["wo"] = words[0][1]
            cyc(gap)
            b.set(d.spi.cs, on)
            cyc(4)
            cyc(g.next(4))

            for i in range(nbits):
                # the word to follow must be on offer around the last sampling edge of this word
                k = i // n
                last = i % n == n - 1
                nxt = words[k + 1][1] if k + 1 < len(words) else None
                st["wo"] = None
                pre = half()
                junk = g.next(max(1, pre - 1))
                if cpha:
                    b.set(d.spi.sck, 1 - idle)
                b.set(d.spi.sdi, g.next(2) if junk else rx[i])
                if last: st["wo"] = nxt
                cyc(junk)
                b.set(d.spi.sdi, rx[i])
                cyc(pre - junk)
                b.settle()
                seen.append(b.get(d.spi.sdo))
                R.reach(i % n, seen[-1], rx[i], last)
                b.set(d.spi.sck, idle if cpha else 1 - idle)
                end = salt >> 5 & 1 and i == nbits - 1 and kind in ("full", "cut")
                post = half()
                cyc(1 if end and cpha else post)
                if not cpha:
                    b.set(d.spi.sck, idle)
            st["wo"] = None
            if kind == "reset":
                R.fault("reset_in_transfer")
                got.clear()
                b.set(d.spi.cs, off); b.set(d.spi.sck, idle)
                b.reset()
                cyc(6)
                R.check(not got, "reset", lambda: f"words {got} reported after reset")
                continue
            if not (salt >> 5 & 1 and kind in ("full", "cut")):
                cyc(2 + g.next(3))
            else:                               # deselected right after the last clock edge
                R.fault("deselected_right_after_last_edge")
                if not cpha: cyc(1)
            sampled = nbits
            if kind == "mid":                   # deselected while the clock is at its active level
                b.set(d.spi.sck, 1 - idle)
                allrx = [x for w in words for x in word_bits(w[0], n, msb)]
                b.set(d.spi.sdi, allrx[nbits])
                cyc(half() + 2)
                sampled += 0 if cpha else 1
                R.fault("deselected_in_clock_pulse")
            b.set(d.spi.cs, off)
            cyc(6)
            if kind == "mid":
                b.set(d.spi.sck, idle)
                cyc(6)
            expect = [w[0] for w in words][:sampled // n]
            R.check(got == expect, "received", lambda: f"{nbits} bits sent for words {[hex(w[0]) for w in words]}: reported {[hex(x) for x in got]}, expected {[hex(x) for x in expect]}")
            R.items += len(got)
            got.clear()
            if h >= htx:
                R.check(seen == tx, "sent", lambda: f"bits on the output {seen}, expected {tx} for words {[hex(w[1]) for w in words]}")
        cyc(3)
        R.check(not got, "surplus", lambda: f"surplus words {got}")
        R.cycles = b.cycles


register("C09", Device(),
         rule="Each run performs 2 to 9 transactions against the real device interface: complete words, several words under one "
              "selection, transfers cut short at any bit, selections without a clock, clock activity while deselected and resets; "
              "clock half periods are drawn with jitter, the data line carries junk away from the sampling edge and the word on "
              "offer is replaced by junk except around the moment the next word begins.",
         real=["SPIDeviceInterface"], stub=["SPI controller"],
         assumptions=["chip select leads the first clock edge by at least four cycles and trails the last one by at least one",
                      "returned bits are judged only if a half clock period leaves room for the synchroniser (4 cycles; 2 without it)"])


# --------------------------------------------------------------------------------------------
class Master:
    """Mode 1 (or mode 2 if idle is 1) controller for the command and register interfaces: data is
    sampled on the falling edge, most significant bit first."""
    def __init__(self, b, spi, idle, each):
        self.b, self.spi, self.idle, self.each = b, spi, idle, each
        b.set(spi.cs, 0); b.set(spi.sck, idle)
        self.tail = 0            # cycles after the last falling edge (0: a half period)

    def cyc(self, k=1):
        for _ in range(k):
            self.each()
            self.b.tick()

    def bits(self, out, half, g, on_edge=None):
        """Shift bits; returns the levels of sdo just before each falling edge."""
        b, s = self.b, self.spi
        seen = []
        for i, x in enumerate(out):
            pre = half()
            junk = g.next(max(1, pre - 1))
            b.set(s.sck, 1)
            b.set(s.sdi, g.next(2) if junk else x)
            self.cyc(junk)
            b.set(s.sdi, x)
            self.cyc(pre - junk)
            b.settle()
            seen.append(b.get(s.sdo))
            b.set(s.sck, 0)
            if on_edge:
                on_edge(i)
            if i == len(out) - 1 and (self.idle or self.tail):
                self.cyc(self.tail or 1)
            else:
                self.cyc(half())
        return seen


class Command(Scenario):
    name = "command"
    quick, thorough = 40, 500

    def configs(self, rng, tier):
        out = [{"c": c, "w": w, "idle": i} for c, w, i in ((8, 32, 0), (8, 8, 1), (16, 32, 0), (4, 12, 0), (12, 4, 1), (1, 1, 0), (3, 5, 0), (7, 16, 1), (8, 7, 0))]
        for _ in range(4 if tier == "quick" else 50):
            out.append({"c": rng.randint(1, 18), "w": rng.randint(1, 34), "idle": rng.randint(0, 1)})
        return out

    def build(self, cfg):
        c = Ctx()
        c.dut = SPICommandInterface(command_size=cfg["c"], word_size=cfg["w"])
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        ops = []
        C, W = cfg["c"], cfg["w"]
        for _ in range(rng.randint(2, 9)):
            n = rng.choice([C + W, C + W, C + W, C, C + W + rng.randint(1, W + 5), rng.randint(0, C), C + rng.randint(0, W), C + W - 1, C - 1])
            ops.append([rng.choice(["x"] * 12 + ["foreign", "reset", "stuck"]), rng.getrandbits(C), rng.getrandbits(W), rng.getrandbits(W), n,
                        rng.choice([2, 3, 4, 6, 9]), rng.choice([0, 0, 1, 3]), rng.choice([4, 4, 5, 9]), rng.getrandbits(30)])
        return {"ops": ops}

    def run(self, c, cfg, plan, R):
        b, d = c.b, c.dut
        b.power_on()
        C, W, idle = cfg["c"], cfg["w"], cfg["idle"]
        ev = []
        st = {"answer": None, "hold": 0, "late": 0}
        g = Lcg(1)

        def each():
            b.settle()
            if b.get(d.command_ready):
                ev.append(("command", b.get(d.command)))
                R.log(*ev[-1])
                st["hold"] = 2
            if st["hold"] and st["answer"] is not None:
                b.set(d.word_to_send, st["answer"] if st["hold"] == 1 or not st["late"] else g.bits(W))
                st["hold"] -= 1
            else:
                b.set(d.word_to_send, g.bits(W))
            if b.get(d.word_complete):
                ev.append(("word", b.get(d.word_received)))
                R.log(*ev[-1])
            R.check(not (b.get(d.idle) and b.get(d.stalled)), "status", "idle and stalled together")

        m = Master(b, d.spi, idle, each)
        m.cyc(4)
        for kind, cmd, word, answer, nbits, h, jit, gap, salt in plan["ops"]:
            g = Lcg(salt)
            half = lambda: h + g.next(jit + 1)
            st["answer"] = answer
            st["late"] = salt >> 4 & 1           # an application with a register in its answer uses the documented wait state
            quick = salt >> 5 & 1                # deselected right after the last clock edge
            m.tail = 0
            R.log(kind, nbits)
            if kind == "foreign":
                R.fault("clocks_while_deselected")
                m.bits([g.next(2) for _ in range(nbits)], half, g)
                b.set(d.spi.sck, idle); m.cyc(4)
                R.check(not ev, "foreign", lambda: f"{ev} while deselected")
                R.check(b.get(d.idle) == 1, "status", "not idle while deselected")
                continue
            out = (word_bits(cmd, C) + word_bits(word, W) + [g.next(2) for _ in range(max(0, nbits - C - W))])[:nbits]
            b.set(d.spi.cs, 1)
            m.cyc(2 + g.next(4))
            R.check(b.get(d.idle) == 0 and b.get(d.stalled) == 0, "status", "idle or stalled although just selected")
            if kind in ("reset", "stuck"):
                cut = g.next(nbits + 1)
                m.bits(out[:cut], half, g)
                R.fault("reset_in_transfer")
                b.reset()
                ev.clear()
                if kind == "stuck":
                    # still selected after the reset: nothing may be taken until the selection ends
                    R.fault("selected_during_reset")
                    m.bits(out + [0, 1] * (C + W), half, g)
                    R.check(not ev, "stall", lambda: f"{ev} although the selection began before the reset")
                    R.check(b.get(d.stalled) == 1, "status", "not stalled while still selected after reset")
                b.set(d.spi.sck, idle)
                m.cyc(2)
                b.set(d.spi.cs, 0)
                m.cyc(gap)
                R.check(not ev, "reset", lambda: f"{ev} after reset")
                continue
            m.tail = quick
            seen = m.bits(out, half, g)
            if quick and nbits: R.fault("deselected_right_after_last_edge")
            else:
                if idle: b.set(d.spi.sck, 1)
                m.cyc(1 + g.next(6)) if nbits != C + W else m.cyc(1)
            if nbits >= C + W and not quick:
                m.cyc(4)
                R.check(b.get(d.stalled) == 1, "status", "not stalled after a complete word while still selected")
            b.set(d.spi.cs, 0)
            if idle: b.set(d.spi.sck, 1)
            exp = []
            if nbits >= C: exp.append(("command", cmd))
            if nbits >= C + W: exp.append(("word", word))
            if nbits < C + W: R.fault("transaction_cut_short")
            if nbits > C + W: R.fault("excess_bits")
            m.cyc(max(gap, 4))
            R.check(ev == exp, "events", lambda: f"{nbits} of {C}+{W} bits, command {cmd:#x}, word {word:#x}: reported {ev}, expected {exp}")
            R.items += len(ev)
            ev.clear()
            b.settle()
            if gap >= 5:
                m.cyc(2)
                R.check(b.get(d.idle) == 1 and b.get(d.stalled) == 0, "status", "not idle after deselection")
            if h >= 3 and nbits > C:
                k = min(nbits, C + W)
                R.check(seen[C:k] == word_bits(answer, W)[:k - C], "response", lambda: f"response bits {seen[C:k]}, expected {word_bits(answer, W)[:k - C]}")
            R.reach(nbits >= C, nbits >= C + W, nbits > C + W, h, gap)
        R.cycles = b.cycles


register("C10", Command(),
         rule="Each run performs 2 to 9 transactions of drawn length (short of a command, exactly a command, cut inside the data, "
              "exact, excess bits) with drawn clock half periods, jitter and gaps, clock activity while deselected, and resets "
              "before, during and while selected; the response word is on offer only right after the command.",
         real=["SPICommandInterface"], stub=["SPI controller", "application that answers commands"],
         assumptions=["half clock period at least 2 cycles (3 when response bits are judged), deselection at least 4 cycles",
                      "the interface has no input synchroniser, so bus signals are driven synchronously to the clock"])


# --------------------------------------------------------------------------------------------
class Registers(Scenario):
    name = "registers"
    quick, thorough = 30, 400

    def configs(self, rng, tier):
        out = []
        for i in range(12 if tier == "quick" else 60):
            a = [15, 7, 3, 4, 5, 16, 23][i % 7]
            w = [32, 8, 16, 12, 5, 24, 40, 64][i % 8]
            auto = i % 3 != 2
            addrs = rng.sample(range(1 if auto else 0, 1 << (a if i % 2 else min(a, 8))), min(5 if i % 7 else 21, (1 << a) - 1))
            if i % 3 == 1:
                addrs[0] = (1 << a) - 1 if (1 << a) - 1 not in addrs else addrs[0]
            regs = []
            for k, ad in enumerate(addrs):
                kind = ["rw", "ro", "rwx", "sfr", "wo", "const"][(k + i) % 6]
                regs.append([ad, kind, rng.choice([w, w, max(1, w // 2), 1]), rng.getrandbits(w)])
            out.append({"a": a, "w": w, "auto": auto, "regs": regs, "default": rng.getrandbits(w), "idle": i & 1})
        return out

    def build(self, cfg):
        c = Ctx()
        d = c.dut = SPIRegisterInterface(address_size=cfg["a"], register_size=cfg["w"], default_read_value=cfg["default"],
                                         support_size_autonegotiation=cfg["auto"])
        c.val, c.rs, c.ws, c.wsig, c.ext = {}, {}, {}, {}, {}
        for ad, kind, size, reset in cfg["regs"]:
            nm = f"r{ad}"
            if kind == "rw":
                c.val[ad] = d.add_register(ad, size=size, reset=reset & ((1 << size) - 1))
            elif kind == "rwx":
                c.rs[ad], c.ws[ad] = Signal(name=nm + "_rs"), Signal(name=nm + "_ws")
                c.val[ad] = Signal(size, name=nm, reset=reset & ((1 << size) - 1))
                d.add_register(ad, value_signal=c.val[ad], read_strobe=c.rs[ad], write_strobe=c.ws[ad])
            elif kind == "const":
                d.add_read_only_register(ad, read=reset & ((1 << size) - 1))
            elif kind == "ro":
                c.rs[ad] = Signal(name=nm + "_rs")
                c.ext[ad] = Signal(size, name=nm + "_ext")
                d.add_read_only_register(ad, read=c.ext[ad], read_strobe=c.rs[ad])
            elif kind == "sfr":
                c.rs[ad], c.ws[ad], c.wsig[ad], c.ext[ad] = Signal(name=nm + "_rs"), Signal(name=nm + "_ws"), Signal(cfg["w"], name=nm + "_w"), Signal(size, name=nm + "_ext")
                d.add_sfr(ad, read=c.ext[ad], write_signal=c.wsig[ad], write_strobe=c.ws[ad], read_strobe=c.rs[ad])
            elif kind == "wo":
                c.ws[ad], c.wsig[ad] = Signal(name=nm + "_ws"), Signal(cfg["w"], name=nm + "_w")
                d.add_sfr(ad, write_signal=c.wsig[ad], write_strobe=c.ws[ad])
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        ops = []
        addrs = [r[0] for r in cfg["regs"]]
        a, w = cfg["a"], cfg["w"]
        for _ in range(rng.randint(3, 16)):
            ad = rng.choice(addrs + addrs + [0, rng.getrandbits(a), (rng.choice(addrs) ^ (1 << rng.randrange(a)))])
            r = rng.random()
            total = 1 + a + w
            n = total if r < 0.7 else rng.randint(0, total - 1) if r < 0.85 else total - 1 if r < 0.92 else total + rng.randint(1, w)
            kind = "reset" if rng.random() < 0.04 else "x"
            ops.append([kind, int(rng.random() < 0.5), ad, rng.getrandbits(w), n, rng.choice([2, 3, 3, 4, 7]), rng.choice([0, 1, 3]), rng.choice([4, 5, 9]), rng.getrandbits(30)])
        return {"ops": ops}

    def run(self, c, cfg, plan, R):
        b, d = c.b, c.dut
        b.power_on()
        A, W = cfg["a"], cfg["w"]
        size = {r[0]: r[2] for r in cfg["regs"]}
        reset = {r[0]: r[3] & ((1 << r[2]) - 1) for r in cfg["regs"]}
        const = {r[0]: reset[r[0]] for r in cfg["regs"] if r[1] == "const"}
        model = {ad: reset[ad] for ad in c.val}
        st = {"pending": None, "fixed": {}, "hold": False}
        strobes = []
        g = Lcg(1)

        def each():
            for ad, s in c.ext.items():
                b.set(s, st["fixed"][ad] if st["hold"] else g.bits(size[ad]))
            b.settle()
            for ad, s in c.val.items():
                v = b.get(s)
                if v != model[ad]:
                    p = st["pending"]
                    R.check(p is not None and p[0] == ad and v == p[1], "register",
                            lambda: f"register {ad:#x} changed from {model[ad]:#x} to {v:#x}" + (f" (pending write {p})" if p else " without a complete write"))
                    model[ad] = v
                    st["pending"] = None
                    R.log("reg", ad, v)
            for ad, s in c.rs.items():
                if b.get(s): strobes.append(("r", ad, None))
            for ad, s in c.ws.items():
                if b.get(s): strobes.append(("w", ad, b.get(c.wsig[ad]) if ad in c.wsig else None))

        m = Master(b, d.spi, cfg["idle"], each)
        m.cyc(4)
        total = 1 + A + W
        for kind, wr, ad, val, nbits, h, jit, gap, salt in plan["ops"]:
            g = Lcg(salt)
            half = lambda: h + g.next(jit + 1)
            R.log(kind, wr, ad, val, nbits)
            out = (word_bits(wr << A | ad, 1 + A) + word_bits(val, W) + [g.next(2) for _ in range(max(0, nbits - total))])[:nbits]
            st["fixed"] = {x: g.bits(size[x]) for x in c.ext}
            b.set(d.spi.cs, 1)
            m.cyc(2 + g.next(4))
            strobes.clear()
            m.tail = 0
            if kind == "reset":
                m.bits(out[:g.next(min(nbits, total - 1) + 1)], half, g)
                R.fault("reset_in_transaction")
                b.set(d.spi.sck, cfg["idle"])
                model = {x: reset[x] for x in c.val}
                b.reset()
                b.set(d.spi.cs, 0)
                m.cyc(6)
                continue

            def on_edge(i):
                st["hold"] = i in (A, A + 1) or (A + 1 < i < A + 6 and h < 4)
                if i == total - 1 and wr and ad in c.val:
                    st["pending"] = (ad, val & ((1 << size[ad]) - 1))
            st["hold"] = False
            before = dict(model)
            m.tail = quick = salt >> 5 & 1       # deselected right after the last clock edge
            seen = m.bits(out, half, g, on_edge)
            if quick and nbits: R.fault("deselected_right_after_last_edge")
            else:
                if cfg["idle"]: b.set(d.spi.sck, 1)
                m.cyc(1 + g.next(3))
            b.set(d.spi.cs, 0)
            if cfg["idle"]: b.set(d.spi.sck, 1)
            m.cyc(gap + 2)
            st["hold"] = False
            R.check(st["pending"] is None or st["pending"][1] == before.get(ad), "write", lambda: f"write of {val:#x} to register {ad:#x} had no effect (still {model[ad]:#x})")
            st["pending"] = None
            exp = []
            if nbits >= total:
                if wr and ad in c.ws: exp.append(("w", ad, val if ad in c.wsig else None))
                if not wr and ad in c.rs: exp.append(("r", ad, None))
            else:
                R.fault("transaction_cut_short")
            if nbits > total: R.fault("excess_bits")
            R.check(strobes == exp, "strobe", lambda: f"{'write' if wr else 'read'} of {ad:#x}, {nbits} of {total} bits: strobes {strobes}, expected {exp}")
            if not wr and h >= 3 and nbits > 1 + A:
                if cfg["auto"] and ad == 0: rv = (1 << W) - 1
                elif ad in c.val: rv = before[ad]
                elif ad in const: rv = const[ad]
                elif ad in c.ext: rv = st["fixed"][ad]
                else: rv = cfg["default"]
                k = min(nbits, total)
                R.check(seen[1 + A:k] == word_bits(rv, W)[:k - 1 - A], "read", lambda: f"read of {ad:#x}: bits {seen[1 + A:k]}, expected value {rv:#x}")
            R.items += nbits >= total
            R.reach(wr, ad in size, nbits >= total, h)
            m.cyc(1)
        R.cycles = b.cycles


register("C11", Registers(),
         rule="Each run performs 3 to 16 register accesses (reads and writes of existing, neighbouring and unknown addresses, complete, "
              "cut at any bit or with excess bits, resets inside a transaction) against a drawn register layout of memory-backed, "
              "read-only, write-only and special registers; every register is compared with the model in every cycle.",
         real=["SPIRegisterInterface", "SPICommandInterface"], stub=["SPI controller", "read-only sources"],
         assumptions=["bus timing as for C10"])


# --------------------------------------------------------------------------------------------
class Controller(Scenario):
    name = "controller"
    quick, thorough = 12, 200

    def configs(self, rng, tier):
        out = []
        i = 0
        for cpol in (0, 1):
            for cpha in (0, 1):
                for div, skip in ((12, False), (16, False), (6, True), (12, True)):
                    out.append({"n": [8, 16, 5, 12][(i + cpol) % 4], "div": div, "cpol": cpol, "cpha": cpha, "msb": i % 3 != 1, "csh": i % 5 in (0, 3), "skip": skip})
                    i += 1
        for _ in range(6 if tier == "quick" else 80):
            skip = rng.random() < 0.4
            out.append({"n": rng.randint(2, 33), "div": 2 * rng.randint(3 if skip else 6, 34), "cpol": rng.randint(0, 1), "cpha": rng.randint(0, 1),
                        "msb": rng.random() < 0.6, "csh": rng.random() < 0.5, "skip": skip})
        return out

    def build(self, cfg):
        c = Ctx()
        c.dut = SPIControllerInterface(word_size=cfg["n"], divisor=cfg["div"], clock_polarity=cfg["cpol"], clock_phase=cfg["cpha"],
                                       msb_first=cfg["msb"], cs_idles_high=cfg["csh"], skip_input_cdc=cfg["skip"])
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        n, div = cfg["n"], cfg["div"]
        ops = []
        for _ in range(rng.randint(1, 6)):
            r = rng.random()
            ops.append(["reset" if r < 0.08 else "busystart" if r < 0.3 else "x", rng.getrandbits(n), rng.getrandbits(n),
                        rng.choice([0, 0, 1, 2, rng.randint(0, 2 * div)]), rng.randint(0, max(0, div // 2 - div // 8 - 3)), rng.getrandbits(30)])
        return {"ops": ops}

    def run(self, c, cfg, plan, R):
        b, d = c.b, c.dut
        b.power_on()
        n, div, idle, cpha, msb = cfg["n"], cfg["div"], cfg["cpol"], cfg["cpha"], cfg["msb"]
        on = 0 if cfg["csh"] else 1
        H = div // 2
        s = d.spi
        st = {}

        def begin(delay, answer):
            st.update(prev=(1 - on, idle), sdo=[], edges=[], bits=[], k=0, delay=delay, pend=None, ans=word_bits(answer, n, msb), done=[], selections=0, need=None, junk=Lcg(answer))

        def cyc():
            b.settle()
            cs, sck, sdo = b.get(s.cs), b.get(s.sck), b.get(s.sdo)
            pcs, psck = st["prev"]
            t = b.cycles
            if cs != on:
                R.check(sck == idle, "idle-clock", "clock not at its idle level while deselected")
            if cs == on and pcs != on:
                st["selections"] += 1
                if not cpha:
                    st["pend"] = st["delay"]
            if st["need"] is not None:
                R.check(sdo == st["need"] or cs != on, "hold", "output data changes right after the sampling edge")
                st["need"] = None
            if cs == on and pcs == on and sck != psck:
                st["edges"].append(t)
                leading = sck != idle
                if leading != bool(cpha):        # sampling edge
                    R.check(st["last"] == sdo, "setup", "output data changes on the sampling edge")
                    st["bits"].append(sdo)
                    st["need"] = sdo
                else:
                    st["pend"] = st["delay"]
                R.reach(len(st["edges"]), sdo, leading)
            elif cs == on and pcs != on and sck != idle:
                # selected together with the first clock edge (possible only if data is sampled on the next one)
                R.check(cpha == 1, "late-select", "device is selected after the first clock edge")
                st["edges"].append(t)
                st["pend"] = st["delay"]
            st["last"] = sdo
            st["prev"] = (cs, sck)
            # the peer puts its next bit on the line some time after the output edge
            if st["pend"] is not None:
                if st["pend"] == 0:
                    b.set(s.sdi, st["ans"][st["k"]] if st["k"] < n else st["junk"].next(2))
                    st["k"] += 1
                    st["pend"] = None
                else:
                    st["pend"] -= 1
            b.settle()
            if b.get(d.word_complete):
                st["done"].append(b.get(d.word_in))
            b.tick()

        begin(0, 0)
        st["last"] = 0
        for _ in range(4):
            cyc()
        for kind, word, answer, gap, delay, salt in plan["ops"]:
            g = Lcg(salt)
            begin(delay, answer)
            R.log(kind, word, answer)
            b.set(d.word_out, word)
            b.set(d.start_transfer, 1)
            cyc()
            b.set(d.start_transfer, 0)
            limit = (n + 3) * div + 12
            t = 0
            stop = g.next(limit) if kind == "reset" else None
            offered = None
            while not st["done"] and t < limit and t != stop:
                # requests for as long as the transfer goes on, up to the very cycle in which it completes
                b.set(d.start_transfer, kind == "busystart" and (salt & 1 or g.next(3) == 0))
                if offered is None and b.get(s.cs) == on:
                    offered = t
                if offered is not None and t > offered + 4 and len(st["bits"]) < n:
                    b.set(d.word_out, g.bits(n))      # the offered word may change once the transfer has begun
                cyc()
                t += 1
            b.set(d.start_transfer, 0)
            if kind == "reset" and not st["done"]:
                R.fault("reset_in_transfer")
                b.reset()
                R.check(b.get(s.cs) != on and b.get(s.sck) == idle, "reset", "bus not idle after reset")
                begin(0, 0)
                for _ in range(div + 8):
                    cyc()
                R.check(not st["done"] and not st["selections"], "reset", "activity after reset without a start")
                continue
            if kind == "busystart": R.fault("start_while_busy")
            R.check(st["done"], "progress", lambda: f"no completion within {limit} cycles")
            for _ in range(2):
                cyc()
            R.check(b.get(s.cs) != on, "release", "still selected after completion")
            R.check(len(st["done"]) == 1, "completion", lambda: f"completion signalled {len(st['done'])} times")
            R.check(st["selections"] == 1, "selection", lambda: f"selected {st['selections']} times for one word")
            R.check(len(st["bits"]) == n, "clocks", lambda: f"{len(st['bits'])} sampling edges for a word of {n} bits")
            e = st["edges"]
            R.check(len(e) in (2 * n, 2 * n - 1), "clocks", lambda: f"{len(e)} clock edges while selected for {n} bits")
            for i in range(len(e) - 1):
                iv = e[i + 1] - e[i]
                short_ok = (cpha == 1 and i == 0) or (cpha == 0 and i == 2 * n - 2)
                R.check(iv == H or (short_ok and 1 <= iv <= H), "rate", lambda: f"half period {i} lasts {iv} cycles instead of {H}")
            R.check(value_of(st["bits"], msb) == word, "sent", lambda: f"bits {st['bits']} on the line for word {word:#x}")
            R.check(st["done"] == [answer], "received", lambda: f"received {st['done'][0]:#x} instead of {answer:#x}")
            R.items += 1
            for _ in range(gap):
                cyc()
            R.check(st["selections"] == 1 and len(st["done"]) == 1, "surplus", "activity after the word without a start")
        R.cycles = b.cycles


class Mux(Scenario):
    name = "multiplexer"
    quick, thorough = 12, 200

    def configs(self, rng, tier):
        return [{"n": n, "w": w, "cpol": p, "cpha": a, "msb": rng.random() < 0.7, "cdc": rng.random() < 0.4}
                for n, w in ((1, 8), (2, 8), (3, 5), (5, 8)) for p in (0, 1) for a in (0, 1)]

    def build(self, cfg):
        c = Ctx()
        m = Module()
        c.dev = [SPIDeviceInterface(word_size=cfg["w"], clock_polarity=cfg["cpol"], clock_phase=cfg["cpha"], msb_first=cfg["msb"], skip_input_cdc=not cfg["cdc"]) for _ in range(cfg["n"])]
        c.mux = SPIMultiplexer([d.spi for d in c.dev])
        m.submodules += c.dev
        m.submodules.mux = c.mux
        c.b = Bench(m)
        return c

    def gen(self, rng, cfg):
        return {"ops": [[rng.randrange(cfg["n"]), rng.getrandbits(cfg["w"]), [rng.getrandbits(cfg["w"]) for _ in range(cfg["n"])], rng.randint(2, 6), rng.randint(1, 5),
                         rng.choice([None, None, rng.randint(1, cfg["w"] - 1)])] for _ in range(rng.randint(1, 8))]}

    def run(self, c, cfg, plan, R):
        b, sh, W = c.b, c.mux.shared_lines, cfg["w"]
        idle, cdc = cfg["cpol"], cfg["cdc"]
        order = lambda v: word_bits(v, W) if cfg["msb"] else word_bits(v, W)[::-1]
        b.power_on()
        b.set(sh.sck, idle)
        got = [[] for _ in c.dev]

        def cyc(k):
            for _ in range(k):
                b.settle()
                for i, d in enumerate(c.dev):
                    if b.get(d.word_complete): got[i].append(b.get(d.word_in))
                b.tick()

        cyc(3)
        for sel, word, offers, h, gap, cut in plan["ops"]:
            R.log(sel, word)
            for d, o in zip(c.dev, offers): b.set(d.word_out, o)
            h += 2 * cdc
            cyc(gap + 2 + 2 * cdc)
            b.set(c.dev[sel].spi.cs, 1)
            cyc(2 + 3 * cdc)
            seen = []
            for x in order(word)[:cut]:
                if cfg["cpha"]:
                    b.set(sh.sck, 1 - idle); b.set(sh.sdi, x); cyc(h)
                    b.settle(); seen.append(b.get(sh.sdo))
                    b.set(sh.sck, idle); cyc(h)
                else:
                    b.set(sh.sdi, x); cyc(h)
                    b.settle(); seen.append(b.get(sh.sdo))
                    b.set(sh.sck, 1 - idle); cyc(h)
                    b.set(sh.sck, idle)
            cyc(h)
            b.set(c.dev[sel].spi.cs, 0)
            cyc(3 + 3 * cdc)
            if cut: R.fault("transfer_cut_short")
            for i in range(len(c.dev)):
                exp = [word] if i == sel and cut is None else []
                R.check(got[i] == exp, "device", lambda: f"device {i} received {got[i]}, expected {exp} (selected: {sel})")
                got[i].clear()
            R.check(seen == order(offers[sel])[:cut], "shared-output", lambda: f"shared output {seen}, expected {order(offers[sel])[:cut]} from device {sel}")
            R.items += 1
            R.reach(sel, h)
        R.cycles = b.cycles


register("C12", Controller(), Mux(),
         rule="Controller runs start 1 to 6 words with drawn gaps, extra start requests while busy and resets, against a strict peer that "
              "records every edge and answers with a drawn delay; multiplexer runs select one of several real devices at a time, some transfers cut short.",
         real=["SPIControllerInterface", "SPIDeviceInterface", "SimpleClockDivider", "SPIMultiplexer"], stub=["SPI peer", "application"],
         assumptions=["divisor at least 12 (6 without input synchroniser): below that the synchroniser delay exceeds half a clock period",
                      "the first half period of clock phase 1 and the last pulse of clock phase 0 may be shorter than nominal"])
