"""C01 arbitration, C02 FIFO/stream connections."""
from collections import deque
from amaranth import *
from amaranth.lib.fifo import SyncFIFO, SyncFIFOBuffered, AsyncFIFO, AsyncFIFOBuffered
from amlib.stream import StreamInterface, connect_fifo_to_stream, connect_stream_to_fifo
from amlib.stream.arbiter import StreamArbiter, StreamMultiplexer
from ..bench import Bench
from ..core import Scenario, register
from ..util import markov_bits


def wide(width, extra, vw=1):
    if width == 8 and not extra and vw == 1:
        return StreamInterface
    class T(StreamInterface):
        def __init__(self, name=None):
            super().__init__(name=name, payload_width=width, valid_width=vw, extra_fields=[("tag", 3), ("grp", 2)][:extra])
    return T


class ArbCtx:
    pass


class Arbiter(Scenario):
    name = "arbiter"
    quick, thorough = 260, 6000
    cls = "arbiter"

    def configs(self, rng, tier):
        out = []
        for n in (1, 2, 3, 4, 5, 7):
            out.append({"n": n, "extra": n % 3, "domain": "usb" if n == 3 else "sync", "width": 24, "vw": 1})
        out.append({"n": 2, "extra": 0, "domain": "sync", "width": 8, "vw": 1})
        out.append({"n": 3, "extra": 2, "domain": "sync", "width": 32, "vw": 4})
        out.append({"n": rng.choice([8, 9, 16, 17]), "extra": 0, "domain": "ss", "width": rng.choice([9, 16, 40]), "vw": rng.choice([1, 2])})
        out.append({"n": rng.choice([33, 34, 65]), "extra": 0, "domain": "sync", "width": 24, "vw": 1})
        for n in (6, 8, 9, 12, 33) if tier != "quick" else ():
            out.append({"n": n, "extra": n % 3, "domain": rng.choice(["sync", "fast"]), "width": rng.choice([12, 24, 64]), "vw": rng.choice([1, 1, 3, 8])})
        return out

    def build(self, cfg):
        T = wide(cfg["width"], cfg["extra"], cfg["vw"])
        c = ArbCtx()
        if self.cls == "arbiter":
            c.dut = StreamArbiter(stream_type=T, domain=cfg["domain"]) if cfg["domain"] != "sync" else StreamArbiter(stream_type=T)
            c.out = c.dut.source
        else:
            c.dut = StreamMultiplexer(stream_type=T)
            c.out = c.dut.output
        c.ins = [T(name=f"in{i}") for i in range(cfg["n"])]
        for s in c.ins:
            (c.dut.add_stream if self.cls == "arbiter" else c.dut.add_input)(s)
        m = Module()
        m.submodules.dut = c.dut
        m.d[cfg.get("domain", "sync")] += Signal(name="alive").eq(1)   # the domain exists in every variant
        c.b = Bench(m)
        return c

    def gen(self, rng, cfg):
        n, L = cfg["n"], rng.randint(20, 160) if rng.random() < 0.98 else rng.randint(600, 1200)
        cols = [markov_bits(rng, L) for _ in range(n)]
        ready = markov_bits(rng, L)
        # swarm: sometimes everything is offered, sometimes a single producer is greedy
        for c in range(n):
            r = rng.random()
            if r < 0.1:
                cols[c] = [0] * L
            elif r < 0.2:
                cols[c] = [1] * L
        p_rst = rng.choice([0, 0, 0, 0.02])
        ops = [[sum(cols[c][t] << c for c in range(n)), ready[t], 1 if rng.random() < p_rst else 0] for t in range(L)]
        return {"hold": rng.random() < 0.5, "ops": ops, "marks": rng.getrandbits(30)}

    def run(self, c, cfg, plan, R):
        b, n, out, W, vw = c.b, cfg["n"], c.out, cfg["width"], cfg["vw"]
        ib = n.bit_length()
        dom = cfg["domain"]
        b.power_on()
        seq = [0] * n
        prev = None                   # (owner shown, winner selected) of the previous cycle
        holding = [False] * n
        ops = list(plan["ops"])
        tail = 3 * n + 6
        ops += [[(1 << n) - 1 if k < 2 else 0, 1, 0] for k in range(tail)] if plan["hold"] else []
        mk = plan["marks"]
        for t, (mask, ready, rst) in enumerate(ops):
            val = []
            for i, s in enumerate(c.ins):
                v = (mask >> i) & 1
                if plan["hold"] and holding[i]:
                    v = 1
                val.append(v)
                item = ((((seq[i] * 0x9e3779b97f4a7c15) >> 20 if seq[i] % 3 else ~seq[i]) << ib) | i) & ((1 << W) - 1)
                k = (seq[i] * 7 + i * 3 + mk)
                b.set(s.valid, (1 + (k % ((1 << vw) - 1))) * v)          # any non-zero mask offers an item
                b.set(s.payload, item)
                b.set(s.first, (mk >> (k % 29)) & 1)
                b.set(s.last, (mk >> ((k * 5) % 29)) & 1)
                if cfg["extra"]:
                    b.set(s.tag, (k * 11) & 7)
                if cfg["extra"] > 1:
                    b.set(s.grp, (k * 5) & 3)
            b.set(out.ready, ready)
            b.settle()
            ov, orr = 1 if b.get(out.valid) else 0, ready
            acc = [i for i in range(n) if val[i] and b.get(c.ins[i].ready)]
            owner = b.get(out.payload) & ((1 << ib) - 1) if ov else None
            R.check(len(acc) == (1 if ov and orr else 0), "conservation",
                    lambda: f"cycle {t}: output transfer {ov & orr} but producers {acc} handed over an item")
            if ov:
                R.check(owner < n and val[owner], "invented", lambda: f"cycle {t}: output valid but producer {owner} offers nothing")
                s = c.ins[owner]
                for f in ("valid", "payload", "first", "last") + ("tag", "grp")[:cfg["extra"]]:
                    R.check(b.get(getattr(out, f)) == b.get(getattr(s, f)), "altered",
                            lambda: f"cycle {t}: {f} of producer {owner} changed on the way")
                if acc:
                    R.check(acc[0] == owner, "misrouted", lambda: f"cycle {t}: producer {acc[0]} was told its item was taken, but {owner}'s was")
            offering = [i for i in range(n) if val[i]]
            if self.cls == "arbiter":
                R.check(b.get(c.dut.idle) == (0 if offering else 1), "idle", lambda: f"cycle {t}: idle={b.get(c.dut.idle)} with producers {offering} offering")
                if prev is not None:
                    powner, psel = prev
                    if powner is not None and val[powner]:
                        R.check(owner == powner, "interrupted", lambda: f"cycle {t}: output left producer {powner} (still offering) for {owner}")
                    if psel is not None:
                        R.check(owner == (psel if val[psel] else None), "priority",
                                lambda: f"cycle {t}: free output should have gone to producer {psel}, shows {owner}")
                prev = (owner, min(offering) if (not ov and offering) else None)
            else:
                R.check(owner == (min(offering) if offering else None), "priority",
                        lambda: f"cycle {t}: multiplexer shows {owner} while {offering} offer")
            R.reach(n, owner, tuple(val), ready)
            R.log(t, owner, tuple(acc))
            if not ready and ov:
                R.fault("consumer_stall")
            for i in range(n):
                took = i in acc
                if took:
                    seq[i] += 1
                    R.items += 1
                holding[i] = bool(val[i] and not took)
                if plan["hold"] is False and val[i] and not took and not (t + 1 < len(ops) and (ops[t + 1][0] >> i) & 1):
                    R.fault("offer_withdrawn")
            if rst:
                b.reset(dom)
                prev = None
                R.fault("reset")
            else:
                b.tick(dom)
        R.cycles = b.cycles
        if plan["hold"] and self.cls == "arbiter":
            R.check(not any(holding), "starved", "an offered item was never served although the consumer accepts")


class Multiplexer(Arbiter):
    name = "multiplexer"
    cls = "mux"
    quick, thorough = 120, 2000

    def configs(self, rng, tier):
        return [{"n": n, "extra": n % 3, "domain": "sync", "width": 8 if n == 3 else 24, "vw": 4 if n == 5 else 1} for n in ((1, 2, 3, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6, 9))]


register("C01", Arbiter(), Multiplexer(),
         rule="Each run draws, from the seed, a valid schedule per producer (Markov gaps and bursts, greedy and silent "
              "producers), a ready schedule, marker patterns and reset points for one of the enumerated arbiter or "
              "multiplexer sizes, and checks every clock cycle against the hand-over rules.",
         real=["StreamArbiter", "StreamMultiplexer", "StreamInterface"], stub=["producers and consumer (scheduled by the simulator)"])


class FifoBridge(Scenario):
    name = "fifo-bridge"
    quick, thorough = 150, 4000

    def configs(self, rng, tier):
        out = []
        for kind in ("sync", "buffered", "async", "asyncbuf"):
            for w, first, last, depth in ((8, 8, 9, 4), (16, None, 16, 8), (5, 6, None, 5), (8, None, None, 1 if kind == "sync" else 4), (7, 8, 7, 16), (rng.choice([1, 24, 33, 64]), 70, 66, rng.choice([2, 3, 32]) if kind in ("sync", "buffered") else 32)):
                out.append({"kind": kind, "w": w, "first": first, "last": last, "depth": depth, "tap": w == 8})
        return out

    def build(self, cfg):
        c = ArbCtx()
        m = Module()
        nb = max([cfg["w"]] + [x + 1 for x in (cfg["first"], cfg["last"]) if x is not None])
        K = {"sync": SyncFIFO, "buffered": SyncFIFOBuffered, "async": AsyncFIFO, "asyncbuf": AsyncFIFOBuffered}[cfg["kind"]]
        kw = dict(width=nb, depth=cfg["depth"])
        if cfg["kind"] == "sync":
            kw["fwft"] = True
        if cfg["kind"].startswith("async"):
            kw.update(w_domain="wr", r_domain="rd")
        c.fifo = fifo = K(**kw)
        m.submodules.fifo = fifo
        ex = [("tag", 1), ("grp", 1)] if cfg["tap"] else None
        c.src = StreamInterface(name="src", payload_width=cfg["w"], extra_fields=ex)
        c.mid = StreamInterface(name="mid", payload_width=cfg["w"], extra_fields=ex)
        c.fout = StreamInterface(name="fout", payload_width=cfg["w"])
        c.dst = StreamInterface(name="dst", payload_width=cfg["w"])
        c.tapped = StreamInterface(name="tapped", payload_width=cfg["w"], extra_fields=ex)
        c.tapr = StreamInterface(name="tapr", payload_width=cfg["w"], extra_fields=ex)
        m.d.comb += c.src.connect(c.mid) if cfg["first"] else c.mid.stream_eq(c.src)
        m.d.comb += connect_stream_to_fifo(c.mid, fifo, firstBit=cfg["first"], lastBit=cfg["last"])
        m.d.comb += connect_fifo_to_stream(fifo, c.fout, firstBit=cfg["first"], lastBit=cfg["last"])
        m.d.comb += c.dst.stream_eq(c.fout)
        m.d.comb += c.tapped.tap(c.src)
        m.d.comb += c.tapr.tap(c.src, tap_ready=True)
        c.part = []                                  # streams that are connected without some of the fields
        for left in (("ready", "payload"), ("ready", "valid", "last"), ("ready", "first", *(["tag"] if ex else [])), ("ready", *(["tag", "grp"] if ex else []))):
            x = StreamInterface(name="part", payload_width=cfg["w"], extra_fields=ex)
            m.d.comb += x.stream_eq(c.src, omit=set(left))
            c.part.append((x, left))
        c.b = Bench(m)
        c.wd, c.rd = ("wr", "rd") if cfg["kind"].startswith("async") else ("sync", "sync")
        return c

    def gen(self, rng, cfg):
        L = rng.randint(20, 200) if rng.random() < 0.97 else rng.randint(600, 1500)
        v, r = markov_bits(rng, L), markov_bits(rng, L)
        if rng.random() < 0.3:      # a long time full, then a long time empty
            k = rng.randint(1, L)
            r[:k] = [0] * k
        p = rng.choice([(1, 1), (1, 1), (0.3, 1), (1, 0.3), (0.5, 0.5)])
        ops = []
        for t in range(L):
            ck = 3
            if cfg["kind"].startswith("async"):
                ck = (1 if rng.random() < p[0] else 0) | (2 if rng.random() < p[1] else 0) or 1
            ops.append([v[t], r[t], rng.getrandbits(cfg["w"]), rng.getrandbits(4), ck])
        return {"ops": ops}

    def run(self, c, cfg, plan, R):
        b = c.b
        b.power_on()
        q = deque()
        same = c.wd == "sync"
        pend = None
        stalled = None
        n_in = n_out = 0
        ops = list(plan["ops"]) + [[0, 1, 0, 0, 3]] * (4 * cfg["depth"] + 30)
        full_seen = 0
        for t, (v, r, data, marks, ck) in enumerate(ops):
            wr, rd = (ck & 1, (ck >> 1) & 1) if not same else (1, 1)
            if pend is None and v and t < len(plan["ops"]):
                pend = (data, marks & 1, (marks >> 1) & 1, marks >> 2)
            it = pend
            b.set(c.src.valid, 1 if it else 0)
            if it:
                b.set(c.src.payload, it[0]); b.set(c.src.first, it[1]); b.set(c.src.last, it[2])
                if cfg["tap"]:
                    b.set(c.src.tag, it[3] & 1); b.set(c.src.grp, it[3] >> 1)
            b.set(c.dst.ready, r)
            b.settle()
            sv, sr = (1 if it else 0), b.get(c.src.ready)
            R.check(sr == b.get(c.fifo.w_rdy), "back-pressure", lambda: f"cycle {t}: ready {sr} while FIFO room is {b.get(c.fifo.w_rdy)}")
            for tp in (c.tapped, c.tapr):
                R.check(b.get(tp.valid) == sv and (not it or (b.get(tp.payload), b.get(tp.first), b.get(tp.last)) == it[:3]),
                        "tap", lambda: f"cycle {t}: tap differs from the stream")
                if it and cfg["tap"]:
                    R.check(all(b.get(x.tag) == it[3] & 1 and b.get(x.grp) == it[3] >> 1 for x in (tp, c.mid)), "tap", "extra field lost")
            for x, left in c.part:
                for f in ("valid", "first", "last", "payload", "ready", *(("tag", "grp") if cfg["tap"] else ())):
                    R.check(b.get(getattr(x, f)) == (0 if f in left else b.get(getattr(c.src, f))), "omit", lambda: f"{f} of a stream connected without {left}")
            R.check(b.get(c.tapr.ready) == sr, "tap", "ready not tapped")
            dv = b.get(c.dst.valid)
            if same and cfg["kind"] == "sync":
                R.check(sr == (len(q) < cfg["depth"]), "room", lambda: f"cycle {t}: ready {sr} with {len(q)} of {cfg['depth']} stored")
                R.check(dv == (len(q) > 0), "avail", lambda: f"cycle {t}: valid {dv} with {len(q)} stored")
            cur = None
            if dv:
                R.check(len(q) > 0, "invented", lambda: f"cycle {t}: output without a stored item")
                cur = (b.get(c.dst.payload), b.get(c.dst.first), b.get(c.dst.last))
                exp = (q[0][0], q[0][1] if cfg["first"] else 0, q[0][2] if cfg["last"] else 0)
                R.check(cur == exp, "item", lambda: f"cycle {t}: got {cur}, expected {exp}")
            if stalled is not None:
                R.check(cur == stalled, "unstable", lambda: f"cycle {t}: stalled item changed from {stalled} to {cur}")
            if not sr and it:
                R.fault("fifo_full")
            if dv and not r:
                R.fault("consumer_stall")
            R.reach(cfg["kind"], len(q), sv, sr, dv, r, wr, rd)
            if rd:
                stalled = cur if (dv and not r) else None
                if dv and r:
                    q.popleft(); n_out += 1; R.items += 1
                    R.log(t, "out", cur)
            if wr and it and sr:
                q.append(it); n_in += 1
                pend = None
            if wr != rd:
                R.fault("clock_skew")
            b.tick(*[d for d, on in ((c.wd, wr), (c.rd, rd)) if on][: (1 if same else 2)])
        R.cycles = b.cycles
        R.check(not q, "lost", f"{len(q)} items never came out")


register("C02", FifoBridge(),
         rule="Each run draws a producer schedule, a consumer schedule (including long stalls that fill the FIFO), random "
              "items with random markers and, for two-clock FIFOs, which clock ticks at each step.",
         real=["connect_stream_to_fifo", "connect_fifo_to_stream", "StreamInterface.attach/connect/stream_eq/tap"],
         stub=["producer and consumer"], assumptions=["the FIFOs of Amaranth itself are trusted"])
