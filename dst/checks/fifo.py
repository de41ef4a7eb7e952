"""C05 transactional FIFO against an executable queue model."""
from amaranth import *
from amlib.utils.fifo import TransactionalizedFIFO
from ..bench import Bench
from ..core import Scenario, register
from ..util import markov_bits


class Ctx:
    pass


# bits of an operation word
WEN, WCOM, WDIS, REN, RCOM, RDIS, RST = 1, 2, 4, 8, 16, 32, 64


class Fifo(Scenario):
    name = "transactional-fifo"
    quick, thorough = 500, 12000

    def configs(self, rng, tier):
        depths = [1, 2, 3, 4, 5, 7, 8, 16, 31, 64, rng.randint(9, 130), rng.choice([255, 256, 300])] if tier == "quick" else [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 63, 64, 100]
        return [{"depth": d, "width": [8, 1, 16, 5, 33][i % 5], "domain": "usb" if i % 4 == 1 else "sync"} for i, d in enumerate(depths)]

    def n_runs(self, cfg, tier):
        n = self.quick if tier == "quick" else self.thorough
        return max(6, n * 40 // (40 + cfg["depth"]) if cfg["depth"] > 40 else n)

    def build(self, cfg):
        c = Ctx()
        c.dut = TransactionalizedFIFO(width=cfg["width"], depth=cfg["depth"], domain=cfg["domain"])
        c.b = Bench(c.dut)
        return c

    def gen(self, rng, cfg):
        L = rng.choice([30, 80, 200]) if cfg["depth"] < 40 else rng.choice([80, 5 * cfg["depth"]])
        w, r = markov_bits(rng, L), markov_bits(rng, L)
        pw, pr = rng.choice([0.02, 0.1, 0.3, 0.9]), rng.choice([0.02, 0.1, 0.3, 0.9])
        pd, qd = rng.choice([0, 0.02, 0.1, 0.3]), rng.choice([0, 0.02, 0.1, 0.3])
        prst = rng.choice([0, 0, 0, 0.01])
        illegal = rng.random() < 0.5       # may write when full / read when empty
        ops = []
        for t in range(L):
            x = (WEN if w[t] else 0) | (REN if r[t] else 0)
            if rng.random() < pd: x |= WDIS
            elif rng.random() < pw: x |= WCOM
            if rng.random() < qd: x |= RDIS
            elif rng.random() < pr: x |= RCOM
            if rng.random() < prst: x |= RST
            ops.append([x, rng.getrandbits(cfg["width"])])
        return {"ops": ops, "illegal": illegal}

    def run(self, c, cfg, plan, R):
        b, d, dom, depth = c.b, c.dut, cfg["domain"], cfg["depth"]
        b.power_on()
        mem, cr, cw = [], 0, 0        # from the committed read position: all written words; read; committed writes
        # afterwards: commit everything and read everything back
        tail = [[WCOM, 0], [RDIS, 0]] + [[REN, 0]] * (depth + 1) + [[RCOM, 0], [0, 0]]
        for t, (x, data) in enumerate(list(plan["ops"]) + tail):
            empty, full = b.get(d.empty), b.get(d.full)
            R.check(empty == (cr == cw), "empty", lambda: f"cycle {t}: empty={empty}, model: {cw - cr} readable")
            R.check(full == (len(mem) == depth), "full", lambda: f"cycle {t}: full={full}, model: {len(mem)} of {depth} in use")
            sp = b.get(d.space_available)
            R.check(sp == depth - len(mem), "space", lambda: f"cycle {t}: space {sp}, model: {depth - len(mem)}")
            if cr != cw:
                rd = b.get(d.read_data)
                R.check(rd == mem[cr], "data", lambda: f"cycle {t}: read data {rd:#x}, oldest readable word is {mem[cr]:#x}")
            wen, ren = x & WEN, x & REN
            if not plan["illegal"]:
                if full: wen = 0
                if empty: ren = 0
            else:
                if wen and full: R.fault("write_when_full")
                if ren and empty: R.fault("read_when_empty")
            b.set(d.write_en, 1 if wen else 0); b.set(d.read_en, 1 if ren else 0)
            b.set(d.write_data, data)
            b.set(d.write_commit, 1 if x & WCOM else 0); b.set(d.write_discard, 1 if x & WDIS else 0)
            b.set(d.read_commit, 1 if x & RCOM else 0); b.set(d.read_discard, 1 if x & RDIS else 0)
            R.reach(cfg["depth"], len(mem), cw, cr, x & 63)
            if x & RST:
                b.reset(dom)
                mem, cr, cw = [], 0, 0
                R.fault("reset")
                continue
            b.tick(dom)
            # the model's edge
            ncr = cr + 1 if ren and cr < cw else cr
            nmem = mem + [data] if wen and len(mem) < depth else list(mem)
            ncw = len(mem) if x & WCOM else cw
            if x & WDIS:
                nmem = mem[:cw]
                R.fault("write_rollback")
            base = cr if x & RCOM else 0
            if x & RDIS:
                ncr = 0
                R.fault("read_rollback")
            if ncr > cr:
                R.items += 1
                R.log(t, mem[cr])
            mem, cr, cw = nmem[base:], ncr - base, ncw - base
        R.cycles = b.cycles


register("C05", Fifo(),
         rule="Each run applies 30 to 200 cycles of independently drawn write, read, commit and discard requests on both "
              "sides (with roll-backs, overruns, underruns and resets) and compares all outputs with a queue model at "
              "every clock edge, then commits and reads everything back.",
         real=["TransactionalizedFIFO"], stub=["both users of the FIFO"],
         assumptions=["commit and discard of the same side are never requested in the same cycle (the documentation gives it no meaning)"])
