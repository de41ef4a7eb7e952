from amaranth import *
from ..memory import MemoryMap

__all__ = ["Element", "Interface", "Multiplexer"]


class Element(Record):
    def __init__(self, width, access, *, name=None, src_loc_at=0):
        self.width, self.access = width, access
        layout = []
        if "r" in access:
            layout += [("r_data", width), ("r_stb", 1)]
        if "w" in access:
            layout += [("w_data", width), ("w_stb", 1)]
        super().__init__(layout, name=name, src_loc_at=1)


class Interface(Record):
    def __init__(self, *, addr_width, data_width, name=None):
        self.addr_width, self.data_width = addr_width, data_width
        self.memory_map = None
        super().__init__([("addr", addr_width), ("r_data", data_width), ("r_stb", 1), ("w_data", data_width), ("w_stb", 1)], name=name)


class Multiplexer(Elaboratable):
    def __init__(self, *, addr_width, data_width, alignment=0, name=None):
        self.data_width = data_width
        self._map = MemoryMap(addr_width=addr_width, data_width=data_width, alignment=alignment)
        self._bus = None

    def add(self, elem, *, addr=None, alignment=None, extend=False):
        n = -(-elem.width // self.data_width)
        return self._map.add_resource(elem, size=n, addr=addr, alignment=alignment, extend=extend)

    @property
    def bus(self):
        if self._bus is None:
            self._bus = Interface(addr_width=self._map.addr_width, data_width=self.data_width, name="csr_bus")
            self._bus.memory_map = self._map
        return self._bus

    def elaborate(self, platform):
        m = Module()
        bus, dw = self.bus, self.data_width
        fanin = 0
        for elem, start, end in self._map.items:
            n = -(-elem.width // dw)
            shadow = Signal(n * dw)
            if "w" in elem.access:
                m.d.comb += elem.w_data.eq(Mux(elem.w_stb, shadow, ~shadow))      # only meaningful under the strobe
                m.d.sync += elem.w_stb.eq(0)
            for k in range(n):
                here = Signal()
                m.d.comb += here.eq(bus.addr == start + k)
                if "r" in elem.access:
                    sel = Signal()
                    m.d.sync += sel.eq(here & bus.r_stb)
                    fanin = fanin | Mux(sel, shadow[k * dw:(k + 1) * dw], 0)
                    if k == 0:
                        m.d.comb += elem.r_stb.eq(here & bus.r_stb)
                        with m.If(here & bus.r_stb):
                            m.d.sync += shadow.eq(elem.r_data)
                if "w" in elem.access:
                    with m.If(here & bus.w_stb):
                        m.d.sync += shadow[k * dw:(k + 1) * dw].eq(bus.w_data)
                        if k == n - 1:
                            m.d.sync += elem.w_stb.eq(1)
        m.d.comb += bus.r_data.eq(fanin)
        return m
