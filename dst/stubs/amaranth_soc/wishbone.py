from amaranth import *
from amaranth.utils import log2_int
from .memory import MemoryMap

__all__ = ["Interface", "Decoder"]


class Interface(Record):
    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset(), alignment=0, name=None):
        granularity = granularity or data_width
        self.addr_width, self.data_width, self.granularity = addr_width, data_width, granularity
        self.features = set(features)
        self.memory_map = None
        layout = [("adr", addr_width), ("dat_w", data_width), ("dat_r", data_width), ("sel", data_width // granularity),
                  ("cyc", 1), ("stb", 1), ("we", 1), ("ack", 1)]
        for f in ("err", "rty", "stall", "lock"):
            if f in features:
                layout.append((f, 1))
        super().__init__(layout, name=name, src_loc_at=1)


class Decoder(Elaboratable):
    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset(), alignment=0, name=None):
        self.data_width, self.granularity = data_width, granularity or data_width
        self.features = features
        self._map = MemoryMap(addr_width=max(addr_width, 1) + log2_int(data_width // self.granularity),
                              data_width=self.granularity, alignment=alignment)
        self._bus = None

    def add(self, sub_bus, *, addr=None, sparse=None, extend=False):
        return self._map.add_window(sub_bus, sub_bus.memory_map, addr=addr, sparse=sparse, extend=extend)

    @property
    def bus(self):
        if self._bus is None:
            gb = log2_int(self.data_width // self.granularity)
            self._bus = Interface(addr_width=self._map.addr_width - gb, data_width=self.data_width,
                                  granularity=self.granularity, features=self.features, name="decoder_bus")
            self._bus.memory_map = self._map
        return self._bus

    def elaborate(self, platform):
        m = Module()
        bus, gb = self.bus, log2_int(self.data_width // self.granularity)
        for sub, start, end in self._map.items:
            hit = Signal()
            m.d.comb += [hit.eq((bus.adr >= (start >> gb)) & (bus.adr < (end >> gb))),
                         sub.adr.eq(bus.adr - (start >> gb)), sub.dat_w.eq(bus.dat_w), sub.sel.eq(bus.sel),
                         sub.we.eq(bus.we), sub.stb.eq(bus.stb), sub.cyc.eq(bus.cyc & hit)]
            with m.If(hit):
                m.d.comb += [bus.dat_r.eq(sub.dat_r), bus.ack.eq(sub.ack)]
        return m
