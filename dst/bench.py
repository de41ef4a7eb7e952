"""The simulated world: one Amaranth design, every clock edge and reset under our control.

The design under test is the real code of the repository, elaborated by Amaranth and executed by
Amaranth's own RTL interpreter (PySimEngine).  No Amaranth clock or coroutine process is ever
added: time only moves when the scheduler of a run calls `tick`, which toggles exactly the clock
domains it names.  That makes clock ratios, phases, gaps and resets ordinary scheduling choices.
"""
from amaranth import *
from amaranth.hdl.ast import Value, Signal
from amaranth.hdl.rec import Record
from amaranth.hdl.ir import Fragment
from amaranth.sim import Simulator
from amaranth.sim._pyrtl import _RHSValueCompiler, _ValueCompiler

__all__ = ["Bench", "Violation", "HarnessError"]


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg = kind, msg


class HarnessError(Exception):
    pass


class Bench:
    MAX_DELTAS = 2000
    RENAME = None                # while set, designs are placed in a clock domain of this name
    JOIN = None                  # while set, called with (bench, design) in place of making a simulation of its own

    def __init__(self, dut, ports=()):
        if Bench.JOIN is not None:
            return Bench.JOIN(self, dut)
        if self.RENAME is not None:
            dut = DomainRenamer(self.RENAME)(Fragment.get(dut, None))
        self._bind(Simulator(dut))

    def _bind(self, sim, prefix=None):
        """Attach to a simulation; with a prefix, to the domains of that prefix only."""
        self.sim = sim
        self.engine = sim._engine
        self.state = sim._engine._state
        self.domains = dict(sim._fragment.domains)
        if prefix is not None:
            self.domains = {n[len(prefix):]: d for n, d in self.domains.items() if n.startswith(prefix)}
        self._procs = list(self.engine._processes)
        self._slots = self.state.slots
        self._clk = {n: self._slots[self.state.get_signal(d.clk)] for n, d in self.domains.items()}
        self._rst = {n: self._slots[self.state.get_signal(d.rst)] for n, d in self.domains.items() if d.rst is not None}
        self.decoy = None
        if self.RENAME in self.domains:
            # the harness goes on calling it sync; whatever did stay in sync hangs on a clock of its own
            self.decoy = self._clk.pop("sync", None)
            self._rst.pop("sync", None)
            for t in (self.domains, self._clk, self._rst):
                if self.RENAME in t:
                    t["sync"] = t.pop(self.RENAME)
        self._getters = {}
        self._known = {}             # id(signal) -> (slot, mask, sign bit or 0, signal)
        self._pending = self.state.pending
        self._settled = False
        self.cycles = 0
        self.ticks = {n: 0 for n in self.domains}

    # -- handles -----------------------------------------------------------------------------
    def slot(self, sig):
        assert isinstance(sig, Signal), sig
        return self._slots[self.state.get_signal(sig)]

    def getter(self, value):
        """A function returning the current value of any Amaranth expression (as an int)."""
        if isinstance(value, Signal):
            s = self.slot(value)
            return lambda: s.curr
        value = Value.cast(value)
        code = _RHSValueCompiler.compile(self.state, value, mode="curr")
        code = compile(code, "<getter>", "exec")
        env = {"slots": self._slots, **_ValueCompiler.helpers}
        w, signed = len(value), value.shape().signed
        mask = (1 << w) - 1
        def get():
            loc = dict(env)
            exec(code, loc)
            v = loc["result"] & mask
            if signed and w and v >> (w - 1):
                v -= 1 << w
            return v
        return get

    def _entry(self, sig):
        sh = sig.shape()
        e = self._known[id(sig)] = (self.slot(sig), (1 << sh.width) - 1, 1 << (sh.width - 1) if sh.signed and sh.width else 0, sig)
        return e

    def get(self, value):
        e = self._known.get(id(value))
        if e is not None:
            return e[0].curr
        if isinstance(value, Signal):
            return self._entry(value)[0].curr
        k = id(value)
        g = self._getters.get(k)
        if g is None:
            g = self._getters[k] = (self.getter(value), value)
        return g[0]()

    def set(self, sig, v):
        e = self._known.get(id(sig))
        if e is None and isinstance(sig, Signal):
            e = self._entry(sig)
        if e is not None:
            v = int(v) & e[1]
            if v & e[2]:
                v -= e[1] + 1
            e[0].set(v)
        elif isinstance(sig, Record):
            off = 0
            for f in sig.fields.values():
                n = len(f)
                self.set(f, (v >> off) & ((1 << n) - 1))
                off += n
        else:
            raise TypeError(sig)

    # -- execution ---------------------------------------------------------------------------
    def settle(self):
        if self._settled and not self._pending:
            return
        self._settled = False
        procs = self._procs
        commit = self.state.commit
        n = 0
        while True:
            for p in procs:
                if p.runnable:
                    p.runnable = False
                    p.run()
            if commit():
                self._settled = True
                return
            n += 1
            if n > self.MAX_DELTAS:
                raise Violation("comb-loop", "combinational loop does not settle")

    def tick(self, *names):
        """One rising edge on every named domain (all of them at the same instant)."""
        self.settle()
        clk = self._clk
        names = names or ("sync",)
        for n in names:
            clk[n].set(1)
            self.ticks[n] += 1
        self.settle()
        for n in names:
            clk[n].set(0)
        self.settle()
        self.cycles += 1

    def power_on(self):
        """Back to the state after configuration (a new run on the same elaborated design)."""
        self.engine.reset()
        self._settled = False
        self.cycles = 0
        for n in self.ticks:
            self.ticks[n] = 0
        self.settle()

    def reset(self, *names, cycles=1):
        """Crash: assert the synchronous reset of the named domains for `cycles` edges."""
        names = names or tuple(self._rst)
        for n in names:
            self._rst[n].set(1)
        for _ in range(cycles):
            self.tick(*names)
        for n in names:
            self._rst[n].set(0)
        self.settle()
