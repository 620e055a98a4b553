"""Stand-in for ``amaranth_soc.csr.wishbone.WishboneCSRBridge`` (timing as in amaranth-soc 0.1a)."""
from amaranth import Cat, Module, Signal
from amaranth.lib import wiring
from amaranth.lib.wiring import In

from .. import wishbone
from ..memory import MemoryMap


class WishboneCSRBridge(wiring.Component):
    def __init__(self, csr_bus, *, data_width=None, name=None):
        gran = csr_bus.data_width
        data_width = data_width or gran
        self.lanes = data_width // gran
        self._bits = (self.lanes - 1).bit_length()
        self.csr_bus = csr_bus
        super().__init__({"wb_bus": In(wishbone.Signature(addr_width=csr_bus.addr_width - self._bits,
                                                          data_width=data_width, granularity=gran))})
        mm = MemoryMap(addr_width=csr_bus.addr_width, data_width=gran)
        mm.add_window(csr_bus.memory_map, name=name)
        self.wb_bus.memory_map = mm

    def elaborate(self, platform):
        m = Module()
        wb, cb, n = self.wb_bus, self.csr_bus, self.lanes
        gran = cb.data_width
        cycle = Signal(range(n + 1))
        m.d.comb += cb.addr.eq(Cat(cycle[:self._bits], wb.adr))

        def seg(i):
            return slice(i * gran, (i + 1) * gran)

        with m.If(wb.cyc & wb.stb):
            with m.Switch(cycle):
                for i in range(n):
                    with m.Case(i):
                        if i:
                            m.d.sync += wb.dat_r[seg(i - 1)].eq(cb.r_data)
                        m.d.comb += [cb.r_stb.eq(wb.sel[i] & ~wb.we), cb.w_data.eq(wb.dat_w[seg(i)]),
                                     cb.w_stb.eq(wb.sel[i] & wb.we)]
                        m.d.sync += cycle.eq(i + 1)
                with m.Default():
                    m.d.sync += [wb.dat_r[seg(n - 1)].eq(cb.r_data), wb.ack.eq(1)]
        with m.If(wb.ack):
            m.d.sync += [cycle.eq(0), wb.ack.eq(0)]
        return m
