from amaranth import Elaboratable, Module, Signal, Cat
from amaranth.utils import log2_int
from ..wishbone import Interface
from ..memory import MemoryMap


class WishboneCSRBridge(Elaboratable):
    """Splits each Wishbone access into one CSR access per selected byte."""

    def __init__(self, csr_bus, *, data_width=None, name=None, **kw):
        self.csr_bus = csr_bus
        data_width = data_width or csr_bus.data_width
        bits = log2_int(data_width // csr_bus.data_width)
        self.wb_bus = Interface(addr_width=max(0, csr_bus.addr_width - bits), data_width=data_width, granularity=csr_bus.data_width)
        m = MemoryMap(addr_width=max(1, self.wb_bus.addr_width + bits), data_width=csr_bus.data_width)
        m.add_window(csr_bus.memory_map)
        self.wb_bus.memory_map = m

    def elaborate(self, platform):
        m = Module()
        csr, wb = self.csr_bus, self.wb_bus
        n = wb.data_width // wb.granularity
        w = wb.granularity
        cycle = Signal(range(n + 2))
        bits = log2_int(n)
        with m.If(wb.cyc & wb.stb & ~wb.ack):
            with m.Switch(cycle):
                for i in range(n + 1):
                    with m.Case(i):
                        if i:
                            m.d.sync += wb.dat_r[(i - 1) * w:i * w].eq(csr.r_data)
                        if i < n:
                            m.d.comb += [csr.addr.eq((wb.adr << bits) | i), csr.w_data.eq(wb.dat_w[i * w:(i + 1) * w]),
                                         csr.r_stb.eq(wb.sel[i] & ~wb.we), csr.w_stb.eq(wb.sel[i] & wb.we)]
                            m.d.sync += cycle.eq(i + 1)
                        else:
                            m.d.sync += [cycle.eq(0), wb.ack.eq(1)]
        with m.Else():
            m.d.sync += [wb.ack.eq(0), cycle.eq(0)]
        return m
