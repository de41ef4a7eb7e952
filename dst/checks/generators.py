"""C03 constant generators / serializers, C04 packet list streamer."""
from amaranth import *
from amlib.stream import StreamInterface
from amlib.stream.generator import ConstantStreamGenerator, StreamSerializer, PacketListStreamer
from ..bench import Bench
from ..core import Scenario, register
from ..util import rle_schedule, Sched


class Ctx:
    pass


def typ(valid_width, width):
    class T(StreamInterface):
        def __init__(self, payload_width=width, name=None):
            super().__init__(name=name, payload_width=payload_width, valid_width=valid_width)
    return T


def drive(b, dom, n=1):
    b.tick(dom)


class Emit(Scenario):
    """Common loop: start requests, a stalling consumer, an expected list of items per start."""
    lists = ("ops",)

    def expected(self, c, cfg, op):
        raise NotImplementedError

    def begin(self, c, cfg, op):
        pass

    def gen(self, rng, cfg):
        ops = []
        for _ in range(rng.randint(1, 5)):
            ops.append(self.gen_op(rng, cfg) + [rng.choice([0, 0, 0, 1, 2, 5]),       # idle gap before start
                                                rng.choice([0, 0, 1, 2]),             # spurious starts while busy
                                                rng.randint(1, 60) if rng.random() < 0.08 else 0])  # reset after n cycles
        return {"ops": ops, "ready": rle_schedule(rng, rng.randint(1, 60)) if not cfg.get("big") else rle_schedule(rng, rng.randint(1, 300), rng.choice([0.7, 0.9, 0.98])),
                "poke": rng.getrandbits(40)}

    def n_runs(self, cfg, tier):
        return (self.quick if tier == "quick" else self.thorough) // (6 if cfg.get("big") else 1)

    def run(self, c, cfg, plan, R):
        b, dom, s = c.b, cfg["domain"], c.stream
        b.power_on()
        b.set(c.start, 0)
        ready = Sched(plan["ready"])
        poke = plan["poke"]

        def cycle(start=0):
            b.set(c.start, start)
            rd = ready.next()
            b.set(s.ready, rd)
            b.settle()
            return rd

        def idle_check(what):
            R.check(b.get(s.valid) == 0, "invented", lambda: f"stream valid {what}")
            R.check(b.get(c.done) == 0, "done", lambda: f"done signalled {what}")

        for k, op in enumerate(plan["ops"]):
            *args, gap, spurious, crash = op
            for _ in range(gap):
                cycle()
                idle_check(f"while idle before emission {k}")
                b.tick(dom)
            self.begin(c, cfg, args)
            exp = self.expected(c, cfg, args)
            R.log("start", k, len(exp))
            cycle(1)
            R.check(b.get(c.done) == 0 and b.get(s.valid) == 0, "early", f"activity in the cycle of start {k}")
            b.tick(dom)
            if not exp:
                for _ in range(6):
                    cycle()
                    idle_check(f"after an empty request (emission {k})")
                    b.tick(dom)
                continue
            pos, wait, t, crashed = 0, 0, 0, False
            held = None
            self.disturb(c, cfg, args, b, poke + k)
            while pos < len(exp):
                t += 1
                if crash and t == crash:
                    b.set(c.start, 0)
                    b.reset(dom)
                    R.fault("reset")
                    crashed = True
                    R.log("reset")
                    break
                sp = 1 if spurious and (poke >> (t % 40)) & 1 else 0
                if sp:
                    R.fault("start_while_busy")
                rd = cycle(sp)
                R.check(b.get(c.done) == 0, "done", lambda: f"done before the last item of emission {k} was accepted ({pos} of {len(exp)})")
                v = b.get(s.valid)
                R.reach(pos if pos < 3 else 3, len(exp) - pos if len(exp) - pos < 3 else 3, v, rd, sp, spurious)
                if v:
                    wait = 0
                    it = (v, b.get(s.payload), b.get(s.first), b.get(s.last))
                    ev, ep, ef, el, em = exp[pos]
                    R.check(v == ev, "valid-mask", lambda: f"emission {k} item {pos}: valid {v:#b}, expected {ev:#b}")
                    R.check(it[1] & em == ep & em, "data", lambda: f"emission {k} item {pos} of {len(exp)}: {it[1]:#x}, expected {ep:#x}")
                    R.check(it[2] == ef, "first", lambda: f"emission {k} item {pos} of {len(exp)}: first={it[2]}")
                    R.check(it[3] == el, "last", lambda: f"emission {k} item {pos} of {len(exp)}: last={it[3]}")
                    if rd:
                        pos += 1
                        R.items += 1
                        R.log(t, it)
                    else:
                        R.fault("consumer_stall")
                else:
                    wait += 1
                    R.check(wait <= 8, "hang", lambda: f"emission {k} stopped after {pos} of {len(exp)} items")
                b.tick(dom)
            if crashed:
                for _ in range(6):
                    cycle()
                    idle_check("after reset")
                    b.tick(dom)
                continue
            # completion: exactly one done pulse, soon, and nothing more on the stream
            dones = 0
            for w in range(8):
                cycle(1 if (poke >> 33) & 1 and spurious and not dones else 0)      # a start before or with completion is ignored
                R.check(b.get(s.valid) == 0, "surplus", lambda: f"emission {k}: item after the last")
                dones += b.get(c.done)
                b.tick(dom)
                if dones and (w >= 1 or (poke >> (k % 7)) & 1):      # the next start may come right after completion
                    break
            R.check(dones == 1, "done", lambda: f"emission {k}: {dones} completion cycles")
        for _ in range(6):
            cycle()
            idle_check("at the end")
            b.tick(dom)
        R.cycles = b.cycles

    def disturb(self, c, cfg, args, b, k):
        pass


class Constant(Emit):
    name = "constant-generator"
    quick, thorough = 60, 1500

    def configs(self, rng, tier):
        out = []
        base = [(8, 1, 12, 16, "little"), (8, 1, 16, None, "little"), (32, 4, 11, 16, "little"), (32, 4, 12, 5, "big"),
                (16, 2, 7, None, "little"), (16, 2, 9, 4, "big"), (24, 3, 10, 6, "little"), (32, 1, 10, None, "little"), (64, 8, 21, 6, "big"),
                (8, 1, 1, 3, "little"), (8, 1, 5, 2, "little"), (32, 4, 3, 4, "little")]
        for _ in range(16 if tier == "quick" else 80):
            w = rng.choice([8, 8, 16, 24, 32, 40])
            base.append((w, rng.choice([1, w // 8, w // 8]), rng.randint(1, 40), rng.choice([None, 3, 6, 10]), rng.choice(["little", "big"])))
        for i, (w, vw, n, mw, en) in enumerate(base):
            out.append({"w": w, "vw": vw, "n": n, "mw": mw, "endian": en, "domain": "usb" if i % 5 == 4 else "sync",
                        "bytes": True, "data": [rng.randrange(256) for _ in range(n)]})
        out.append({"w": 8, "vw": 1, "n": 17, "mw": 6, "endian": "little", "domain": "sync", "bytes": True, "default": 1,
                    "data": [rng.randrange(256) for _ in range(17)]})
        for w, vw, n, mw in ((8, 1, 300, rng.choice([9, 16])), (16, 2, 259, None), (32, 4, 1030, 11), (8, 1, rng.randint(60, 600), None))[:4 if tier == "quick" else 99]:
            out.append({"w": w, "vw": vw, "n": n, "mw": mw, "endian": "little", "domain": "sync", "bytes": True, "big": 1,
                        "data": [rng.randrange(256) for _ in range(n)]})
        for w, n, mw in ((12, 9, 6), (16, 6, None), (5, 8, 4), (16, 5, 5), (9, 4, 4)):
            out.append({"w": w, "vw": 1, "n": n, "mw": mw, "endian": "little", "domain": "sync", "bytes": False,
                        "data": [rng.getrandbits(w) for _ in range(n)]})
        return out

    def words(self, cfg):
        if not cfg["bytes"]:
            return [(d, (cfg["w"] + 7) // 8) for d in cfg["data"]]
        n = cfg["w"] // 8
        d = bytes(cfg["data"])
        return [(int.from_bytes(d[i:i + n], cfg["endian"]), len(d[i:i + n])) for i in range(0, len(d), n)]

    def build(self, cfg):
        c = Ctx()
        data = bytes(cfg["data"]) if cfg["bytes"] else cfg["data"]
        if cfg.get("default"):
            c.dut = ConstantStreamGenerator(data, max_length_width=cfg["mw"])
            c.stream, c.start, c.done = c.dut.stream, c.dut.start, c.dut.done
            c.b = Bench(c.dut)
            return c
        c.dut = ConstantStreamGenerator(data, domain=cfg["domain"], stream_type=typ(cfg["vw"], cfg["w"]), max_length_width=cfg["mw"],
                                        data_width=cfg["w"], data_endianness=cfg["endian"])
        c.stream, c.start, c.done = c.dut.stream, c.dut.start, c.dut.done
        c.b = Bench(c.dut)
        return c

    def gen_op(self, rng, cfg):
        nw = len(self.words(cfg))
        sp = rng.choice([0, 0, rng.randrange(nw), nw - 1, rng.randrange(cfg["n"])])
        ml = 0
        if cfg["mw"]:
            top = (1 << cfg["mw"]) - 1
            ml = min(top, rng.choice([top, rng.randint(0, top), rng.randint(0, min(top, 2 * cfg["n"])), cfg["n"], 1, 0, cfg["w"] // 8]))
        return [sp, ml]

    def begin(self, c, cfg, args):
        sp, ml = args
        c.b.set(c.dut.start_position, sp)
        if cfg["mw"]:
            c.b.set(c.dut.max_length, ml)

    def disturb(self, c, cfg, args, b, k):
        # the start position only matters when start is pulsed
        if k % 3 == 0:
            b.set(c.dut.start_position, (k // 3) % max(1, cfg["n"]))

    def expected(self, c, cfg, args):
        sp, ml = args
        ws = self.words(cfg)
        sp = min(sp, len(ws) - 1)
        bpw = (cfg["w"] + 7) // 8
        left = ml if cfg["mw"] else 10 ** 9
        out = []
        if cfg["mw"]:
            c.b.settle()
            if cfg["bytes"]:
                got = c.b.get(c.dut.output_length)
                if got != min(ml, cfg["n"]):
                    from ..bench import Violation
                    raise Violation("output-length", f"output length {got}, expected {min(ml, cfg['n'])}")
        while left > 0 and sp < len(ws):
            w, nb = ws[sp]
            take = min(nb, left)
            v = ((1 << take) - 1) if cfg["vw"] > 1 else 1
            mask = (1 << cfg["w"]) - 1 if (cfg["vw"] == 1 or take == bpw) else (1 << (8 * take)) - 1
            out.append([v, w, 0, 0, mask])
            left -= bpw
            sp += 1
        if out:
            out[0][2] = 1
            out[-1][3] = 1
        return out


class Serializer(Emit):
    name = "serializer"
    quick, thorough = 60, 1500

    def configs(self, rng, tier):
        out = [{"n": n, "w": w, "mw": mw, "domain": d} for n, w, mw, d in
               ((1, 8, None, "sync"), (2, 8, 3, "sync"), (4, 8, None, "usb"), (5, 16, 4, "sync"), (8, 8, 4, "usb"), (8, 3, 2, "sync"), (7, 9, 8, "sync"), (1, 8, 2, "sync"), (16, 8, 5, "sync"), (33, 8, 6, "sync"), (3, 64, 2, "sync"))]
        return out

    def build(self, cfg):
        c = Ctx()
        c.dut = StreamSerializer(cfg["n"], domain=cfg["domain"], data_width=cfg["w"], max_length_width=cfg["mw"])
        c.stream, c.start, c.done = c.dut.stream, c.dut.start, c.dut.done
        c.b = Bench(c.dut)
        return c

    def gen_op(self, rng, cfg):
        top = (1 << cfg["mw"]) - 1 if cfg["mw"] else 0
        return [rng.choice([top, rng.randint(0, top), min(top, cfg["n"]), min(top, 1), 0]), rng.getrandbits(32)]

    def vals(self, cfg, seed):
        return [(seed * (2 * i + 1) >> (i % 7)) & ((1 << cfg["w"]) - 1) for i in range(cfg["n"])]

    def begin(self, c, cfg, args):
        ml, seed = args
        for s, v in zip(c.dut.data, self.vals(cfg, seed)):
            c.b.set(s, v)
        if cfg["mw"]:
            c.b.set(c.dut.max_length, ml)

    def expected(self, c, cfg, args):
        ml, seed = args
        n = min(ml, cfg["n"]) if cfg["mw"] else cfg["n"]
        out = [[1, v, 0, 0, -1] for v in self.vals(cfg, seed)[:n]]
        if out:
            out[0][2] = out[-1][3] = 1
        return out


register("C03", Constant(), Serializer(),
         rule="Each run makes one to five start requests with drawn start positions, length limits, table contents and "
              "gaps against a stalling consumer, with spurious starts while busy, the start position changed while "
              "busy, and resets.",
         real=["ConstantStreamGenerator", "StreamSerializer"], stub=["requester and consumer"])


class PacketList(Emit):
    name = "packet-list"
    quick, thorough = 60, 1500

    def configs(self, rng, tier):
        lens = [[4, 4, 1, 7, 1, 6], [1], [2, 2], [1, 1, 1, 1], [8], [3, 5], [16], [1, 2, 3, 4, 5], [5, 11], [9], [3, 3, 3], [1, 15], [31, 1, 1]]
        for _ in range(8 if tier == "quick" else 40):
            lens.append([rng.randint(1, rng.choice([2, 5, 12])) for _ in range(rng.randint(1, 8))])
        lens += [[rng.randint(1, 4) for _ in range(rng.randint(17, 70))], [rng.randint(60, 300), 1, rng.randint(1, 300)], [257], [1] * 33]
        out = []
        for i, l in enumerate(lens):
            w = (None, 8, 16, None, 9)[i % 5]
            out.append({"packets": [[rng.getrandbits(w or 8) for _ in range(n)] for n in l], "w": w, "domain": "sync", "big": int(sum(l) > 60)})
        return out

    def build(self, cfg):
        c = Ctx()
        pk = cfg["packets"]
        if cfg["w"] is None:
            pk = [bytes(p) for p in pk]
        c.dut = PacketListStreamer(pk, data_width=cfg["w"]) if cfg["w"] else PacketListStreamer(pk)
        c.stream, c.start, c.done = c.dut.stream, c.dut.start, c.dut.done
        c.b = Bench(c.dut)
        return c

    def gen_op(self, rng, cfg):
        return []

    def expected(self, c, cfg, args):
        out = []
        for p in cfg["packets"]:
            for i, x in enumerate(p):
                out.append([1, x, int(i == 0), int(i == len(p) - 1), -1])
        return out


register("C04", PacketList(),
         rule="Each run starts the whole list one to five times against a stalling consumer, with gaps (including a start "
              "in the first cycle after power-on or reset), spurious starts while busy and resets.",
         real=["PacketListStreamer", "ConstantStreamGenerator"], stub=["requester and consumer"])
