from amaranth import *
from amaranth.utils import log2_int
from .. import wishbone
from ..memory import MemoryMap

__all__ = ["WishboneCSRBridge"]


class WishboneCSRBridge(Elaboratable):
    def __init__(self, csr_bus, *, data_width=None, name=None):
        data_width = data_width or csr_bus.data_width
        self.csr_bus = csr_bus
        self.gb = log2_int(data_width // csr_bus.data_width)
        self.wb_bus = wishbone.Interface(addr_width=max(0, csr_bus.addr_width - self.gb), data_width=data_width,
                                         granularity=csr_bus.data_width, name="csr_wb")
        self.wb_bus.memory_map = MemoryMap(addr_width=max(csr_bus.addr_width, self.gb), data_width=csr_bus.data_width)
        self.wb_bus.csr_bus = csr_bus            # lets a harness find the registers behind a window of the decoder

    def elaborate(self, platform):
        m = Module()
        csr, wb, n = self.csr_bus, self.wb_bus, 1 << self.gb
        cycle = Signal(range(n + 2))
        with m.If(wb.ack):
            m.d.sync += [wb.ack.eq(0), cycle.eq(0)]
        with m.Elif(wb.cyc & wb.stb):
            with m.Switch(cycle):
                for i in range(n):
                    with m.Case(i):
                        m.d.comb += [csr.addr.eq(Cat(C(i, self.gb), wb.adr)), csr.w_data.eq(wb.dat_w[i * csr.data_width:(i + 1) * csr.data_width]),
                                     csr.r_stb.eq(wb.sel[i] & ~wb.we), csr.w_stb.eq(wb.sel[i] & wb.we)]
                        if i:
                            m.d.sync += wb.dat_r[(i - 1) * csr.data_width:i * csr.data_width].eq(csr.r_data)
                        m.d.sync += cycle.eq(i + 1)
                with m.Default():
                    m.d.sync += [wb.dat_r[(n - 1) * csr.data_width:].eq(csr.r_data), wb.ack.eq(1)]
        with m.Else():
            m.d.sync += cycle.eq(0)
        return m
