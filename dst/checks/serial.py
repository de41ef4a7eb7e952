"""C07 asynchronous receiver, C08 transmitter and full-duplex link."""
from collections import deque
from amaranth import *
from amlib.io.serial import AsyncSerialRX, AsyncSerialTX, AsyncSerial
from ..bench import Bench
from ..core import Scenario, register
from ..serialline import FrameDecoder, frame_bits, parity_bit
from ..util import rle_schedule, Sched

PAR = ["none", "mark", "space", "even", "odd"]


class Ctx:
    pass


class Pins:
    """Looks like the platform's UART resource."""
    class P:
        pass

    def __init__(self):
        self.rx, self.tx = Pins.P(), Pins.P()
        self.rx.i, self.tx.o = Signal(name="pin_rx", reset=1), Signal(name="pin_tx")


def max_skew(div, nbits):
    """Largest relative bit time deviation that keeps every sample a cycle away from the bit's ends."""
    room = div / 2 - 3.0
    return max(0.0, room / nbits / div)


class Rx(Scenario):
    name = "receiver"
    quick, thorough = 30, 500

    def configs(self, rng, tier):
        out = []
        for i, (div, bits) in enumerate(((5, 8), (6, 8), (7, 7), (8, 8), (10, 5), (16, 8), (25, 8), (33, 9), (60, 8), (5, 7), (104, 8), (12, 16), (rng.choice([257, 300, 521]), 8))):
            out.append({"div": div, "bits": bits, "parity": PAR[i % 5], "pins": i % 4 == 3, "dbits": None})
        for p in PAR:
            out.append({"div": 9, "bits": 8, "parity": p, "pins": False, "dbits": 8})
        for _ in range(6 if tier == "quick" else 60):
            out.append({"div": rng.randint(5, 70), "bits": rng.randint(5, 10), "parity": rng.choice(PAR), "pins": rng.random() < 0.3,
                        "dbits": rng.choice([None, 8, 12])})
        return out

    def n_runs(self, cfg, tier):
        n = self.quick if tier == "quick" else self.thorough
        return max(5, n * 60 // (60 + cfg["div"]))

    def build(self, cfg):
        c = Ctx()
        pins = Pins() if cfg["pins"] else None
        c.dut = AsyncSerialRX(divisor=cfg["div"], divisor_bits=cfg["dbits"], data_bits=cfg["bits"], parity=cfg["parity"], pins=pins)
        c.line = pins.rx.i if pins else c.dut.i
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        nb = 2 + cfg["bits"] + (cfg["parity"] != "none")
        ops = []
        faulty = rng.random() < 0.6
        skew_max = max_skew(cfg["div"], nb)
        for _ in range(rng.randint(2, 12)):
            r = rng.random() if faulty else 1.0
            v = rng.choice([rng.getrandbits(cfg["bits"]), 0, (1 << cfg["bits"]) - 1, 1, 1 << (cfg["bits"] - 1)])
            kind = "good"
            if r < 0.08 and cfg["parity"] != "none": kind = "parity"
            elif r < 0.16: kind = "stop"
            elif r < 0.24: kind = "start"
            elif r < 0.30: kind = "noise"
            elif r < 0.36: kind = "break"
            elif r < 0.42: kind = "trunc"
            elif r < 0.46: kind = "reset"
            elif r < 0.52: kind = "div"
            elif r < 0.58: kind = "stop+parity" if cfg["parity"] != "none" else "stop"
            sk = rng.choice([0, 0, rng.uniform(-1, 1), 1, -1]) * skew_max
            gap = rng.choice([0, 0, 0, 1, 2, cfg["div"] // 2, rng.randint(0, 3 * cfg["div"])])
            ops.append([kind, v, round(sk * 1e6), rng.randint(0, 999), gap, rng.getrandbits(24)])
        # consumer: mostly acknowledging, or stalling for up to several frames
        stall = rng.random() < 0.4
        ack = rle_schedule(rng, 12, rng.choice([0.3, 0.5, 0.8]), nb * cfg["div"] * 2) if stall else []
        return {"ops": ops, "ack": ack}

    def run(self, c, cfg, plan, R):
        b, d = c.b, c.dut
        b.power_on()                    # the divisor input keeps its initial value until it is changed
        par = None if cfg["parity"] == "none" else cfg["parity"]
        nb = 2 + cfg["bits"] + (1 if par else 0)
        D = cfg["div"]
        extra = 3 if cfg["pins"] else 0
        ack = Sched(plan["ack"])
        st = {"rdy": 0, "words": [], "acks": [], "ovf": 0, "hold": None}

        def cycle(level):
            """Apply one line level for one cycle; record acknowledgements and words taken."""
            a = ack.next()
            if st["hold"] is not None:          # a consumer that lets a word wait until just about when the next one completes
                if len(st["acks"]) >= st["hold"]: st["hold"] = None
                elif b.get(d.rdy): a = 0
            b.set(c.line, level)
            b.set(d.ack, a)
            b.settle()
            rdy = b.get(d.rdy)
            cur = (b.get(d.data), b.get(d.err.frame), b.get(d.err.parity)) if rdy else None
            if st.get("held") is not None:
                R.check(cur == st["held"], "replaced", lambda: f"unacknowledged word {st['held']} became {cur}")
            st["held"] = cur if (rdy and not a) else None
            if rdy and a:
                st["words"].append(cur)
                R.items += 1
                R.log("word", *cur)
            st["acks"].append(a)
            R.reach(cfg["parity"], rdy, a, level, b.get(d.err.overflow))
            b.tick()

        def wave(bits, B, phase):
            """Line levels per cycle for bits of (fractional) length B cycles, first edge `phase` of a cycle early."""
            n = len(bits)
            out, t = [], 0
            while True:
                k = int((t + phase) // B)
                if k >= n:
                    return out
                out.append(bits[k])
                t += 1

        def idle(n):
            for _ in range(n):
                cycle(1)

        def drain():
            """Idle line long enough that the receiver is certainly waiting for a start bit."""
            idle((nb + 2) * D + 6 + extra)

        def expect_clear(what):
            R.check(not st["words"], "invented", lambda: f"words {st['words']} {what}")

        idle(2 + extra)
        outstanding = deque()          # words that must still be taken (the consumer may be slow)

        for kind, v, skew, phase, gap, salt in plan["ops"]:
            lim = max_skew(D, nb) * 1e6        # the divisor may have changed since the plan was made
            skew = max(-lim, min(0 if "stop" in kind else lim, skew))
            B = D * (1 + skew / 1e6)
            ph = phase / 1000.0
            R.log(kind, v, skew)
            if skew:
                R.fault("baud_skew")
            if kind in ("noise", "break", "trunc", "start"):
                R.fault("line_" + kind)
                if kind == "noise":
                    r = salt
                    for _ in range(3 * nb):
                        r = (r * 1103515245 + 12345) & 0x7fffffff
                        for _ in range(1 + (r >> 16) % max(2, D)):
                            cycle((r >> 8) & 1)
                elif kind == "break":
                    for _ in range(nb * D * 2 + salt % (3 * D)):
                        cycle(0)
                elif kind == "trunc":
                    for x in wave(frame_bits(v, cfg["bits"], par), B, ph)[:salt % (nb * D)]:
                        cycle(x)
                    # a start bit that is cut short and followed by an idle line must never look like a word
                if kind == "start":
                    # false start: low for less than half a bit, then idle
                    drain()
                    ack_flush(cycle, st)
                    settle_words(st, outstanding, R, cfg)
                    for _ in range(1 + salt % max(1, D // 2 - 1)):
                        cycle(0)
                    drain()
                    for w in st["words"]:
                        R.check(w[1] == 1, "false-start", lambda: f"a glitch on the idle line was reported as word {w[0]:#x} without a framing error")
                    st["words"].clear()
                else:
                    drain()
                # wait until nothing is pending, then forget what the disturbance produced
                ack_flush(cycle, st)
                st["words"].clear(); outstanding.clear()
                continue
            if kind == "reset":
                for x in wave(frame_bits(v, cfg["bits"], par), B, ph)[:salt % (nb * D)]:
                    cycle(x)
                outstanding.append(("may", (v, 0, 0)))      # all of its bits may have been sampled already
                settle_words(st, outstanding, R, cfg)
                b.reset()
                R.fault("reset")
                st["held"] = None
                R.check(b.get(d.rdy) == 0, "reset", "word offered right after reset")
                drain(); ack_flush(cycle, st)
                st["words"].clear(); outstanding.clear()
                continue
            if kind == "div":
                drain(); ack_flush(cycle, st)
                settle_words(st, outstanding, R, cfg)
                expect_clear("on an idle line")
                D = max(5, min(cfg["div"], 5 + salt % max(1, cfg["div"])))
                b.set(d.divisor, D)
                R.fault("divisor_change")
                idle(2)
                B, skew = D, 0
            flip = "parity" in kind
            stop = 0 if "stop" in kind else 1
            if flip: R.fault("parity_corrupted")
            if not stop: R.fault("stop_corrupted")
            settle_words(st, outstanding, R, cfg)
            before_ovf = b.get(d.err.overflow)
            held, st["hold"] = st["hold"] is not None, None
            if held:
                st["hold"] = len(st["acks"]) + int((nb - 0.5) * B) + extra - 3 + (salt >> 4) % 8
                R.fault("ack_at_completion")
            elif not plan["ack"] and (salt >> 16) & 3 == 0 and kind == "good":
                st["hold"] = 1 << 60
            held = st["hold"] is not None
            w = wave(frame_bits(v, cfg["bits"], par, flip, stop), B, ph)
            # decision window: the frame is complete around the middle of its last bit
            mid = int((nb - 0.5) * B)
            w0, w1 = mid - D // 2 - 2, mid + D // 2 + 4 + extra
            base = len(st["acks"])
            for x in w:
                cycle(x)
            tail = max(0, base + w1 + 2 - len(st["acks"]))
            # the next frame may follow at once, unless the consumer is stalling (then look at the flags first)
            stalled = 0 in [ack_at(st, ack, base + k) for k in range(max(0, w0), w1)]
            if stalled or held or not stop or gap >= tail:
                idle(tail)
                win = st["acks"][base + w0:base + w1]
                exp = (v, 0 if stop else 1, 1 if flip else 0)
                if all(win):
                    outstanding.append(("must", exp))
                    R.check(b.get(d.err.overflow) == 0, "overflow", "overflow flagged although the word was acknowledged")
                elif not any(win):
                    R.fault("overrun")
                    R.check(b.get(d.err.overflow) == 1, "overflow", f"frame {v:#x} was lost while the consumer was not acknowledging, without an overflow flag")
                else:
                    R.fault("late_ack")
                    # the overflow flag must tell truthfully which of the two happened
                    if b.get(d.err.overflow) == 0:
                        outstanding.append(("must", exp))
            else:
                outstanding.append(("must", (v, 0, 1 if flip else 0)))
            if not stop:
                drain()
                ack_flush(cycle, st)
                # what follows a missing stop bit on the idle line must not look like a good word
                settle_words(st, outstanding, R, cfg, garbage=True)
            idle(gap)
        drain()
        ack_flush(cycle, st)
        settle_words(st, outstanding, R, cfg)
        R.check(not [o for o in outstanding if o[0] == "must"], "lost", lambda: f"never delivered: {[o[1] for o in outstanding]}")
        R.check(not st["words"], "invented", lambda: f"surplus words {st['words']}")
        R.cycles = b.cycles


def ack_at(st, ack, i):
    if i < len(st["acks"]):
        return st["acks"][i]
    # look ahead in the schedule without consuming it
    k, j, n = ack.k, ack.i, i - len(st["acks"])
    while j < len(ack.rle):
        left = ack.rle[j][1] - k
        if n < left:
            return ack.rle[j][0]
        n -= left
        j, k = j + 1, 0
    return 1


def ack_flush(cycle, st):
    """Let the consumer take whatever is pending (bounded: the schedule ends with ack held)."""
    st["hold"] = None
    for _ in range(100000):
        cycle(1)
        if st["acks"][-1] and st["acks"][-2:] == [1, 1]:
            return


def settle_words(st, outstanding, R, cfg, garbage=False):
    """Match words taken so far with the expected ones, in order."""
    words = st["words"]
    while words:
        w = words[0]
        # optional expectations may be skipped
        skip = 0
        while skip < len(outstanding) and outstanding[skip][1] != w and outstanding[skip][0] == "may":
            skip += 1
        if skip < len(outstanding) and outstanding[skip][1] == w:
            for _ in range(skip + 1):
                outstanding.popleft()
            words.pop(0)
            continue
        if garbage and w[1] == 1:
            words.pop(0)
            continue
        exp = outstanding[0][1] if outstanding else None
        R.check(False, "word", f"received (data, frame error, parity error) = {w}, expected {exp}")
    if garbage:
        return


register("C07", Rx(),
         rule="Each run sends 2 to 12 frames with drawn data, sender bit time (up to the sampling tolerance), phase and gaps, "
              "mixed with corrupted parity, stop and start bits, noise, breaks, truncated frames, divisor changes and "
              "resets, to a consumer that acknowledges at once or stalls for up to frames.",
         real=["AsyncSerialRX"], stub=["line and sender, consumer"],
         assumptions=["sender deviation keeps every nominal sampling point at least one clock cycle inside its bit",
                      "whether a frame that completes just as the acknowledge changes is taken or flagged as overflow is left open"])


class TxOnly(Scenario):
    name = "transmitter"
    quick, thorough = 30, 500

    def configs(self, rng, tier):
        out = []
        for i, (div, bits) in enumerate(((5, 8), (1, 8), (2, 7), (8, 8), (10, 5), (16, 8), (3, 9), (24, 8), (5, 12), (rng.choice([257, 300, 521]), 8), (130, 6), (4, 32))):
            out.append({"div": div, "bits": bits, "parity": PAR[i % 5], "pins": i % 4 == 3, "dbits": None})
        for p in PAR:
            out.append({"div": 4, "bits": 8, "parity": p, "pins": False, "dbits": 6})
        for _ in range(4 if tier == "quick" else 40):
            out.append({"div": rng.randint(1, 40), "bits": rng.randint(5, 10), "parity": rng.choice(PAR), "pins": rng.random() < 0.3, "dbits": rng.choice([None, 8])})
        return out

    n_runs = Rx.n_runs

    def build(self, cfg):
        c = Ctx()
        pins = Pins() if cfg["pins"] else None
        c.dut = AsyncSerialTX(divisor=cfg["div"], divisor_bits=cfg["dbits"], data_bits=cfg["bits"], parity=cfg["parity"], pins=pins)
        c.line = pins.tx.o if pins else c.dut.o
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        nb = 2 + cfg["bits"] + (cfg["parity"] != "none")
        ops = []
        for _ in range(rng.randint(1, 10)):
            v = rng.choice([rng.getrandbits(cfg["bits"]), 0, (1 << cfg["bits"]) - 1, 0x55 & ((1 << cfg["bits"]) - 1)])
            r = rng.random()
            ops.append(["reset" if r < 0.04 else "div" if r < 0.1 else "send", v, rng.choice([0, 0, 0, 1, rng.randint(0, 2 * nb * cfg["div"])]), rng.getrandbits(16)])
        return {"ops": ops}

    def run(self, c, cfg, plan, R):
        b, d = c.b, c.dut
        b.power_on()                    # the divisor input keeps its initial value until it is changed
        par = None if cfg["parity"] == "none" else cfg["parity"]
        D = cfg["div"]
        dec = FrameDecoder(D, cfg["bits"], par)
        exp = deque()
        quiet = 0

        def cycle(ack=0, data=0):
            nonlocal quiet
            b.set(d.ack, ack); b.set(d.data, data)
            b.settle()
            rdy = b.get(d.rdy)
            v = dec.feed(b.get(c.line))
            if v is not None:
                R.check(exp and exp[0] == v, "data", lambda: f"line carries {v:#x}, expected {hex(exp[0]) if exp else 'nothing'}")
                exp.popleft(); R.items += 1; R.log("word", v)
            R.check(not dec.busy or exp, "invented", "frame on the line although nothing was accepted")
            quiet = quiet + 1 if (exp and not dec.busy and v is None) else 0
            R.check(quiet <= D + 6, "hang", lambda: f"accepted word not started after {quiet} cycles")
            # a word may be accepted while the previous stop bit is still on the line, but not earlier
            if ack and rdy:
                R.check(not dec.busy or dec.k >= (dec.nbits - 1) * D, "accept-in-frame", lambda: f"word accepted {dec.k} cycles into a frame")
                R.check(len(exp) <= 1, "accept-in-frame", "word accepted while another one is waiting")
                exp.append(data)
            R.reach(cfg["parity"], rdy, ack, dec.k and dec.k // D, len(exp))
            b.tick()
            return rdy

        limit = (dec.nbits + 2) * D + 8
        for kind, v, gap, salt in plan["ops"]:
            for _ in range(gap):
                cycle()
            if kind == "div":
                for _ in range(2 * limit):
                    cycle()
                D = 1 + salt % cfg["div"]
                b.set(d.divisor, D)
                dec.set_div(D)
                limit = (dec.nbits + 2) * D + 8
                cycle()
                R.fault("divisor_change")
            for w in range(limit + 1):
                R.check(w < limit, "not-accepted", lambda: f"word not accepted within {limit} cycles")
                if cycle(1, v):
                    break
                R.fault("held_off")
            if kind == "reset":
                for _ in range(salt % limit):
                    cycle(0, ~v)
                b.set(d.ack, 0)
                b.reset()
                dec.abort(); exp.clear(); quiet = 0
                R.fault("reset")
                R.check(b.get(c.line) == 1 and b.get(d.rdy) == 1, "reset", "line not idle or not ready after reset")
        for _ in range(2 * limit):
            cycle(0, 0)
        R.check(not exp and not dec.busy, "lost", lambda: f"{len(exp)} words never sent")
        R.cycles = b.cycles


class Link(Scenario):
    name = "full-duplex"
    quick, thorough = 16, 300

    def configs(self, rng, tier):
        out = [{"div": dv, "bits": bt, "parity": PAR[i % 5], "pins": i % 2, "dbits": None} for i, (dv, bt) in enumerate(((5, 8), (8, 8), (16, 7), (24, 8), (40, 9), (13, 5), (10, 8)))]
        out += [{"div": dv, "bits": 8, "parity": p, "pins": 0, "dbits": 10} for dv, p in ((6, "even"), (20, "none"))]
        if tier != "quick":
            out += [{"div": rng.randint(5, 60), "bits": rng.randint(5, 9), "parity": rng.choice(PAR), "pins": rng.randint(0, 1), "dbits": rng.choice([None, 8])} for _ in range(20)]
        return out

    def build(self, cfg):
        c = Ctx()
        m = Module()
        c.p = [Pins() if cfg["pins"] else None for _ in range(2)]
        c.s = [AsyncSerial(divisor=cfg["div"], divisor_bits=cfg["dbits"], data_bits=cfg["bits"], parity=cfg["parity"], **({"pins": c.p[i]} if cfg["pins"] else {})) for i in range(2)]
        for i, n in enumerate("ab"):
            m.submodules[n] = DomainRenamer(n)(c.s[i])
        for i in range(2):
            if cfg["pins"]:
                m.d.comb += c.p[1 - i].rx.i.eq(c.p[i].tx.o)
            else:
                m.d.comb += c.s[1 - i].rx.i.eq(c.s[i].tx.o)
        c.b = Bench(m)
        return c

    def gen(self, rng, cfg):
        nb = 2 + cfg["bits"] + (cfg["parity"] != "none")
        def words():
            return [[rng.choice([rng.getrandbits(cfg["bits"]), rng.getrandbits(cfg["bits"]), 0, (1 << cfg["bits"]) - 1]),
                     rng.choice([0, 0, 0, 1, rng.randint(0, 3 * cfg["div"])])] for _ in range(rng.randint(0, 10))]
        top = (1 << cfg["dbits"]) - 1 if cfg["dbits"] else cfg["div"]
        divs = [0 if rng.random() < 0.5 else rng.randint(5, max(5, min(top, 2 * cfg["div"]))) for _ in range(2)]
        sk = rng.choice([0, rng.uniform(-1, 1), 1, -1]) * min(max_skew(d or cfg["div"], nb) for d in divs + [0])
        return {"a": words(), "b": words(), "skew": round(sk * 1e6), "phase": rng.randint(0, 999),
                "divs": divs, "a2": words() if rng.random() < 0.5 else [], "b2": words() if rng.random() < 0.5 else []}

    lists = ("a", "b", "a2", "b2")

    def run(self, c, cfg, plan, R):
        b = c.b
        b.power_on()
        for s in c.s:
            b.set(s.rx.ack, 1)
        per = [1000000, 1000000 + plan["skew"]]
        nxt = [0, plan["phase"] * 1000]
        if plan["skew"]:
            R.fault("clock_skew")
        div = cfg["div"]
        for k, names in enumerate((("a", "b"), ("a2", "b2"))):
            if plan["divs"][k]:
                div = plan["divs"][k]
                R.fault("divisor_change")
                for s in c.s:
                    b.set(s.divisor, div)
                b.tick("a", "b")
            queue = [deque(plan[n]) for n in names]
            exp = [deque(), deque()]       # exp[i]: words side i must receive
            gap = [0, 0]
            limit = (sum(g for _, g in plan[names[0]] + plan[names[1]]) + (max(len(q) for q in queue) + 3) * (cfg["bits"] + 5) * (div + 1)) * 2 + 50
            calm = 0
            for step in range(limit):
                t = min(nxt)
                doms = [i for i in range(2) if nxt[i] == t]
                for i in doms:
                    nxt[i] += per[i]
                    tx, rx = c.s[i].tx, c.s[i].rx
                    w = queue[i][0] if queue[i] and gap[i] >= queue[i][0][1] else None
                    b.set(tx.ack, 1 if w else 0)
                    b.set(tx.data, w[0] if w else 0x2a)
                    b.settle()
                    if w and b.get(tx.rdy):
                        exp[1 - i].append(w[0]); queue[i].popleft(); gap[i] = 0
                    elif not w:
                        gap[i] += 1
                    if b.get(rx.rdy):
                        got = (b.get(rx.data), b.get(rx.err.frame), b.get(rx.err.parity), b.get(rx.err.overflow))
                        R.check(exp[i] and got == (exp[i][0], 0, 0, 0), "word", lambda: f"side {i} received (data, errors) {got}, expected {exp[i][0] if exp[i] else 'nothing'}")
                        exp[i].popleft(); R.items += 1; R.log(i, got[0])
                    R.reach(cfg["div"], div, i, len(exp[0]), len(exp[1]), b.get(tx.rdy))
                b.tick(*["ab"[i] for i in doms])
                calm = calm + 1 if not any(queue) and not any(exp) else 0
                if calm > 6 * div + 16:             # longer than the stop bit: both sides are idle again
                    break
            R.check(not any(queue) and not any(exp), "lost", lambda: f"undelivered: {[list(e) for e in exp]}, unsent {[list(q) for q in queue]}")
        R.cycles = b.cycles


register("C08", TxOnly(), Link(),
         rule="Transmitter runs offer words with gaps, divisor changes while idle and resets and decode the line strictly; "
              "link runs connect two transceivers on two clocks with drawn skew and phase and send word lists both ways.",
         real=["AsyncSerialTX", "AsyncSerialRX", "AsyncSerial"], stub=["users of the transceivers, the wire"])
