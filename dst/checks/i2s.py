"""C16 I2S transmitter and receiver."""
import contextlib, io
from collections import deque
from amaranth import *
from amlib.io.i2s import I2STransmitter, I2SReceiver, I2S_FORMAT
from ..bench import Bench
from ..core import Scenario, register
from ..util import rle_schedule, Sched
from .spi import Lcg, Ctx


class Slot:
    __slots__ = ("left", "t", "bits", "event", "value", "must", "may", "trk", "clean", "rx_must", "rx_may", "rx_clean", "checked")


class I2S(Scenario):
    name = "i2s-link"
    quick, thorough = 14, 220
    lists = ("ops", "ready")
    chunk = 20

    def configs(self, rng, tier):
        ws = [2, 8, 16, 17, 24, 32] + rng.sample([3, 4, 5, 7, 9, 12, 15, 18, 20, 23, 25, 28, 31], 3) if tier == "quick" else [2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 18, 20, 23, 24, 25, 28, 31, 32]
        out = []
        for w in ws:
            for fmt in ("std", "lj"):
                for src in ("tx", "codec"):
                    out.append({"w": w, "fmt": fmt, "src": src, "half": w + (1 if fmt == "std" else 0) + rng.choice([0, 0, 1, 2, 7]) if rng.random() < 0.8 else max(w + 1, rng.choice([16, 24, 32, 33, 64])),
                                "depth": rng.choice([2, 3, 4, 5, 8, 16, 17])})
        return out

    def build(self, cfg):
        c = Ctx()
        fmt = I2S_FORMAT.STANDARD if cfg["fmt"] == "std" else I2S_FORMAT.LEFT_JUSTIFIED
        m = Module()
        with contextlib.redirect_stdout(io.StringIO()):
            m.submodules.tx = c.tx = I2STransmitter(sample_width=cfg["w"], frame_format=fmt, fifo_depth=cfg["depth"])
            m.submodules.rx = c.rx = I2SReceiver(sample_width=cfg["w"], frame_format=fmt, fifo_depth=cfg["depth"])
            c.sck, c.ws = Signal(), Signal()
            m.d.comb += [c.tx.serial_clock_in.eq(c.sck), c.rx.serial_clock_in.eq(c.sck),
                         c.tx.word_select_in.eq(c.ws), c.rx.word_select_in.eq(c.ws)]
            if cfg["src"] == "tx":
                m.d.comb += c.rx.serial_data_in.eq(c.tx.serial_data_out)
            c.b = Bench(m)
        return c

    def gen(self, rng, cfg):
        hmin = rng.choice([4, 4, 4, 5, 6, 8, 8, 21]) if cfg["w"] < 20 else rng.choice([4, 4, 5, 6, 8])
        if cfg["fmt"] == "lj":
            hmin += 2
        slots = rng.randint(6, 26) if cfg["w"] < 12 else rng.randint(4, 14)
        if cfg["w"] < 12 and hmin < 7 and rng.random() < 0.1:
            slots = rng.randint(40, 80)
        per = cfg["half"] * 2 * hmin
        left, ops = True, []
        style = rng.choice(["full", "paced", "starved", "mixed"])
        for _ in range(slots):
            gap = {"full": 0, "paced": per - rng.randint(0, 6), "starved": per * rng.randint(1, 3),
                   "mixed": rng.choice([0, 0, rng.randint(0, 3 * per)])}[style]
            if rng.random() < 0.06:
                left = not left                     # marker error
            v = rng.choice([rng.getrandbits(cfg["w"]), (1 << cfg["w"]) - 1, 1 << (cfg["w"] - 1), 1, 0, rng.getrandbits(cfg["w"])])
            ops.append(["s", v, int(left), gap])
            left = not left
            r = rng.random()
            if r < 0.03:
                ops.append(["txoff", rng.randint(0, 2 * per), 4 * hmin + 30 + rng.randint(0, 3 * per), 0])
            elif r < 0.06:
                ops.append(["rxoff", rng.randint(0, 2 * per), 4 * hmin + 30 + rng.randint(0, 3 * per), 0])
            elif r < 0.08:
                ops.append(["reset", rng.randint(0, 2 * per), 0, 0])
        return {"ops": ops, "h": [hmin, hmin + rng.choice([0, 0, 1, 3])], "seed": rng.getrandbits(30), "ws0": rng.randint(0, 1),
                "skew": rng.choice([0, 0, -1, 1, 2]) if cfg["fmt"] == "lj" else rng.choice([0, 0, -1, 1, 3]),
                "extra": rng.choice([0, 0, 0, 1, 5]), "start": rng.randint(0, 3 * per), "fill_first": rng.random() < 0.4,
                "ready": rle_schedule(rng, rng.choice([0, 20, 60]), maxlen=rng.choice([3, per, 4 * per])), "dly": rng.randint(0, 3), "nolast": rng.random() < 0.15}

    def run(self, c, cfg, plan, R):
        b, tx, rx = c.b, c.tx, c.rx
        W, depth, std = cfg["w"], cfg["depth"], cfg["fmt"] == "std"
        first_bit = 1 if std else 0
        b.power_on()
        rnd = Lcg(plan["seed"]).next
        hmin, hmax = plan["h"]
        ready = Sched(plan["ready"])
        s_in, s_out = tx.stream_in, rx.stream_out
        g = b.get
        st = {"sck": 0, "left": 1, "ws": plan["ws0"], "wsq": None, "n": 0, "half": cfg["half"], "txq": deque(), "t": 0,
              "tx_since": None, "rx_since": None, "slot": None, "last_right": -1000, "lvl_right": -1000, "lj_t": None,
              "tl": 0, "rl": 0, "rxslots": [], "pos": {0}, "rxwin": [], "dq": deque(), "cur": 0, "held": None,
              "tx_trk": False, "rx_trk": False, "rx_maybe": False, "pend_left": None, "ignore": 0, "deliv": 0}
        st["left"] = hmin
        b.set(c.ws, st["ws"]); b.set(c.sck, 0)
        b.set(tx.enable_in, 0); b.set(rx.enable_in, 0)
        codec = cfg["src"] == "codec"

        def is_left(ws):
            return (ws == 0) if std else (ws == 1)

        def new_slot(ws, t):
            p = st["slot"]
            s = Slot()
            s.left, s.t, s.bits, s.event, s.value, s.clean, s.rx_clean, s.checked = is_left(ws), t, [], None, None, True, True, False
            s.trk = False
            lr = st["last_right"]
            def sync(since, trk):
                if since is None:
                    return False, False
                if trk:
                    return True, True
                return (s.left and lr >= since + 1), (s.left and st["lvl_right"] >= since - 6)
            s.must, s.may = sync(st["tx_since"], st["tx_trk"])
            s.rx_must, s.rx_may = sync(st["rx_since"], st["rx_trk"])
            if not s.must:
                st["tx_trk"] = False
            s.rx_may = s.rx_may or (st["rx_maybe"] and st["rx_since"] is not None)
            st["rx_trk"], st["rx_maybe"] = s.rx_must, s.rx_may
            st["slot"] = s
            return s

        def step():
            """One clock cycle."""
            t = st["t"]
            # clock and word select generation
            rise = fall = False
            st["left"] -= 1
            if st["left"] <= 0:
                st["sck"] ^= 1
                st["left"] = hmin + rnd(hmax - hmin + 1)
                b.set(c.sck, st["sck"])
                rise, fall = bool(st["sck"]), not st["sck"]
                if fall:
                    st["n"] += 1
                    st["dq"].append([t + plan["dly"], rnd(2)])
                    if st["n"] >= st["half"]:
                        st["n"], st["half"] = 0, cfg["half"] + rnd(plan["extra"] + 1)
                        st["wsq"] = t + max(0, plan["skew"])
            if plan["skew"] < 0 and st["sck"] and st["left"] == 1 and st["n"] == st["half"] - 1 and st["wsq"] is None:
                st["ws"] ^= 1
                b.set(c.ws, st["ws"])
            if st["wsq"] is not None and t >= st["wsq"]:
                st["wsq"] = None
                if plan["skew"] >= 0:
                    st["ws"] ^= 1
                    b.set(c.ws, st["ws"])
            if codec and st["dq"] and st["dq"][0][0] <= t:
                b.set(rx.serial_data_in, st["dq"].popleft()[1])
            if not is_left(st["ws"]):
                st["lvl_right"] = t
            lj_start = (not std) and st["sck"] == 0 and st["slot"] is not None and is_left(st["ws"]) != st["cur_left"]
            b.set(s_out.ready, rdy := ready.next())
            b.settle()
            # line level bookkeeping
            if lj_start:
                new_slot(st["ws"], t)
                st["cur_left"] = is_left(st["ws"])
            prev = st["slot"]
            if rise:
                L = is_left(st["ws"])
                if st["slot"] is None or L != st["cur_left"]:
                    new_slot(st["ws"], t)
                    st["cur_left"] = L
                s = st["slot"]
                if not L:
                    st["last_right"] = t
                k = len(s.bits)
                if not std and k == 0 or std and k == 1:
                    # the receiver stores the previous slot now
                    ps = st.get("prev_slot")
                    if ps is not None and len(ps.bits) >= W + first_bit and (ps.rx_may or ps.rx_must):
                        must = ps.rx_must and ps.rx_clean and st["rx_since"] is not None
                        room = g(rx.fifo_level_out) <= depth - (1 if g(s_out.valid) else 2)
                        if ps.rx_clean:
                            v = 0
                            for x in ps.bits[first_bit:first_bit + W]:
                                v = v << 1 | x
                            st["rxwin"].append([t, must and room, False, v, ps.left])
                            st["rxslots"].append((v, ps.left, not (must and room)))
                            if not room:
                                R.fault("receive_buffer_full")
                    st["prev_slot"] = s
                # what a receiver on the line sees
                s.bits.append((g(rx.serial_data_in)) if codec else g(tx.serial_data_out))
                if codec:
                    s.checked = s.checked
                tb = g(tx.serial_data_out)
                if s.trk and s.clean:
                    k = len(s.bits) - 1 - first_bit
                    if 0 <= k < W:
                        R.check(tb == (s.value >> (W - 1 - k)) & 1, "line-data",
                                lambda: f"{'left' if s.left else 'right'} word {s.value:#x} ({s.event}): bit {k} on the line is {tb}")
                        if k == W - 1:
                            s.checked = True
                            if s.event == "send":
                                R.items += 1
                            R.log("word", s.left, s.value, s.event)
            # transmitter events
            un, mm, lvl = g(tx.underflow_out), g(tx.mismatch_out), g(tx.fifo_level_out)
            rlvl = g(rx.fifo_level_out)
            acc = g(s_in.valid) and g(s_in.ready)
            item = (g(s_in.payload), g(s_in.first)) if acc else None
            # a buffer with room takes a sample at once (moving a sample to the buffer's output may take a moment)
            st["stall"] = st.get("stall", 0) + 1 if g(s_in.valid) and not acc and lvl < depth else 0
            R.check(st["stall"] < 4, "room", lambda: f"sample refused although only {lvl} of {depth} are buffered")
            v, dat, fi, la = g(s_out.valid), g(s_out.payload), g(s_out.first), g(s_out.last)
            R.check(fi == 0 or v, "marker", "first without valid")
            if st["held"] is not None:
                R.check((v, dat, fi, la) == st["held"], "stability", "received sample changed while the consumer stalls")
            st["held"] = (v, dat, fi, la) if v and not rdy else None
            if v and rdy:
                R.check(fi + la == 1, "marker", "not exactly one of first and last marks a sample")
                new = set()
                sl = st["rxslots"]
                for p in st["pos"]:
                    while p < len(sl):
                        if sl[p][0] == dat and sl[p][1] == bool(fi):
                            new.add(p + 1)
                        if not sl[p][2]:
                            break
                        p += 1
                R.check(new, "received", lambda: f"receiver delivers {dat:#x} ({'left' if fi else 'right'}), on the line: {[(hex(x), l, m) for x, l, m in sl[max(0, min(st['pos']) - 1):]]}")
                st["pos"] = new
                st["deliv"] += 1
                R.items += 1
                R.log("recv", dat, fi)
            R.check(bool(v) <= bool(rlvl), "rx-level", lambda: f"sample available but level {rlvl}")
            s = st["slot"]
            b.tick()
            b.settle()
            st["t"] = t + 1
            lvl2, rlvl2 = g(tx.fifo_level_out), g(rx.fifo_level_out)
            R.check(lvl2 <= depth and rlvl2 <= depth, "level", "level above the buffer depth")
            dec = lvl + (1 if acc else 0) - lvl2
            R.check(dec in (0, 1), "tx-level", lambda: f"transmit level goes from {lvl} to {lvl2} with accepted={acc}")
            if un or mm or dec:
                R.check(un + mm + dec == 1, "events", lambda: f"underflow={un} mismatch={mm} consumed={dec} in the same cycle")
                R.check(s is not None and s.may and s.event is None and s.t + 1 <= t <= s.t + 5, "event-time",
                        lambda: f"underflow={un} mismatch={mm} consumed={dec} at cycle {t}, outside the start of a word (slot {s and (s.left, s.t, s.event, s.may)})")
                avail = [x for x in st["txq"] if x[2] <= t - 1]
                old = [x for x in st["txq"] if x[2] <= t - 3]
                if dec:
                    R.check(avail and bool(avail[0][1]) == s.left, "channel", lambda: f"sample with first={avail and avail[0][1]} taken for the {'left' if s.left else 'right'} channel")
                    s.value = st["txq"].popleft()[0]
                    s.event = "send"
                elif un:
                    R.check(not old, "underflow", lambda: f"underflow reported with {len(old)} samples buffered")
                    s.value, s.event = 0, "underflow"
                    R.fault("underflow")
                else:
                    R.check(avail and bool(avail[0][1]) != s.left, "mismatch", "mismatch reported although the next sample has the right marker")
                    s.value, s.event = 0, "mismatch"
                    R.fault("marker_error")
                s.trk = True
                st["tx_trk"] = st["tx_since"] is not None
                R.log("ev", s.event)
                R.reach(W, s.left, s.event, lvl2, cfg["fmt"])
            if acc:
                st["txq"].append((item[0], item[1], t))
            R.check(lvl2 == len(st["txq"]), "tx-level", lambda: f"transmit level {lvl2} with {len(st['txq'])} samples buffered")
            if s is not None and s.must and s.clean and t == s.t + 6:
                R.check(s.event is not None, "slot-missed", lambda: f"{'left' if s.left else 'right'} word started at {s.t}: neither a sample nor underflow nor mismatch")
            # receiver level
            inc = rlvl2 - rlvl + (1 if v and rdy else 0)
            R.check(inc in (0, 1), "rx-level", lambda: f"receive level goes from {rlvl} to {rlvl2}")
            for w in st["rxwin"]:
                if inc and not w[2] and w[0] + 1 <= t <= w[0] + 5:
                    w[2], inc = True, 0
            R.check(not inc, "rx-store", lambda: f"receiver stores a sample at {t} although no word was completed")
            while st["rxwin"] and t > st["rxwin"][0][0] + 5:
                w = st["rxwin"].pop(0)
                R.check(w[2] or not w[1], "rx-lost", lambda: f"receiver did not store {'left' if w[4] else 'right'} word {w[3]:#x}")

        def enable(which, on):
            if which == "tx":
                b.set(tx.enable_in, on)
                st["tx_since"] = st["t"] if on else None
                st["tx_trk"] = False
                if st["slot"] is not None:
                    st["slot"].clean = False
                    st["slot"].must = False
            else:
                b.set(rx.enable_in, on)
                st["rx_since"] = st["t"] if on else None
                st["rx_trk"] = st["rx_maybe"] = False
                for s in (st["slot"], st.get("prev_slot")):
                    if s is not None:
                        s.rx_must = False
                        if on:
                            s.rx_may = False
                # a word completed just now may or may not have been stored
                for w in st["rxwin"]:
                    w[1] = False
                    for i, x in enumerate(st["rxslots"]):
                        if i >= len(st["rxslots"]) - len(st["rxwin"]):
                            st["rxslots"][i] = (x[0], x[1], True)

        st["cur_left"] = is_left(st["ws"])
        if not plan["fill_first"]:
            enable("tx", 1); enable("rx", 1)
        for _ in range(plan["start"]):
            step()
        todo = deque(plan["ops"])
        offs = []                       # [time, what]
        per = (cfg["half"] + plan["extra"]) * 2 * hmax
        if plan["fill_first"]:
            offs.append([st["t"] + 4 * per, "tx", 1])
            enable("rx", 1)

        def tick_all():
            for o in [o for o in offs if o[0] <= st["t"]]:
                offs.remove(o)
                enable(o[1], o[2])
            step()

        while todo:
            o = todo.popleft()
            if o[0] == "s":
                for _ in range(o[3]):
                    tick_all()
                b.set(s_in.valid, 1); b.set(s_in.payload, o[1]); b.set(s_in.first, o[2]); b.set(s_in.last, 0 if plan.get("nolast") else 1 - o[2])
                for w in range(12 * per):
                    b.settle()
                    r = g(s_in.ready)
                    tick_all()
                    if r:
                        break
                    if w == 2 * depth + 4:
                        R.fault("producer_stall")
                else:
                    if not any(o for o in offs) and st["tx_since"] is not None and st["t"] - st["tx_since"] > 10 * per:
                        # a marker error at the head blocks one slot only; 12 word times are plenty
                        R.check(False, "tx-hang", f"sample not accepted within {12 * per} cycles")
                b.set(s_in.valid, 0)
                b.set(s_in.payload, o[1] ^ 1)
            elif o[0] == "reset":
                for _ in range(o[1]):
                    tick_all()
                b.reset()
                st["t"] += 1
                R.fault("reset"); R.log("reset")
                R.check(g(tx.fifo_level_out) == 0 and g(rx.fifo_level_out) == 0 and not g(s_out.valid), "reset", "samples left after a reset")
                st["txq"].clear(); st["rxslots"].clear(); st["rxwin"].clear(); st["pos"] = {0}; st["held"] = None
                s = st["slot"]
                for s in (st["slot"], st.get("prev_slot")):
                    if s is not None:
                        s.clean = s.rx_clean = s.must = s.may = s.rx_must = s.rx_may = False
                        s.trk = False
                st["tx_trk"] = st["rx_trk"] = st["rx_maybe"] = False
                for k in ("tx_since", "rx_since"):
                    if st[k] is not None:
                        st[k] = st["t"] + 3
            else:
                which = o[0][:2]
                if any(x[1] == which for x in offs):
                    continue
                offs.append([st["t"] + o[1], which, 0])
                offs.append([st["t"] + o[1] + o[2] + 2 * hmax, which, 1])
                R.fault("disabled_" + which)
        # drain
        for _ in range((len(st["txq"]) * 3 + 8) * per):
            tick_all()
            if not st["txq"] and not offs and (st["deliv"] and st["slot"].event == "underflow") and not g(s_out.valid):
                break
        for _ in range(3 * per):
            tick_all()
        while not ready.done:
            ready.next()
        for _ in range(4 * depth + 12):
            step()
        R.check(not st["txq"], "tx-lost", lambda: f"{len(st['txq'])} samples never sent")
        sl = st["rxslots"]
        def reach_end(p):
            while p < len(sl) - 1 and sl[p][2]:
                p += 1
            return p >= len(sl) - 1
        R.check(any(reach_end(p) for p in st["pos"]), "rx-lost", "received words were never delivered")
        R.cycles = b.cycles


register("C16", I2S(),
         rule="Each run plays a drawn stream of samples (paced, starved, saturating, with wrong channel markers) into a transmitter under a bit "
              "clock with jittering half periods and a skewed word clock, with enables withdrawn and resets; every word on the line is decoded and "
              "compared, and the receiver listens to the transmitter or to a modelled codec with random padding bits and stalled consumers.",
         real=["I2STransmitter", "I2SReceiver", "their FIFOs and synchronisers"],
         stub=["I2S clock master, codec, sample producer and consumer"],
         assumptions=["half periods of the bit clock of at least 4 clock cycles (6 for left justified), word lengths of at least sample width (+1 for the standard format)"])
