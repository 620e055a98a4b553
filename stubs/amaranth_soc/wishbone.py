"""Stand-in for ``amaranth_soc.wishbone`` (Signature, Interface, Decoder)."""
from amaranth import Cat, Module
from amaranth.lib import wiring
from amaranth.lib.wiring import In, Out

from .memory import MemoryMap

__all__ = ["Signature", "Interface", "Decoder"]


class Signature(wiring.Signature):
    def __init__(self, *, addr_width, data_width, granularity=None,
                 features=frozenset()):
        if granularity is None:
            granularity = data_width
        self.addr_width = addr_width
        self.data_width = data_width
        self.granularity = granularity
        self.features = frozenset(features)
        super().__init__({
            "adr": Out(addr_width),
            "dat_w": Out(data_width),
            "dat_r": In(data_width),
            "sel": Out(data_width // granularity),
            "cyc": Out(1),
            "stb": Out(1),
            "we": Out(1),
            "ack": In(1),
        })

    def create(self, *, path=None, src_loc_at=0):
        return Interface(addr_width=self.addr_width,
                         data_width=self.data_width,
                         granularity=self.granularity,
                         features=self.features,
                         path=path, src_loc_at=1 + src_loc_at)

    def __eq__(self, other):
        return (isinstance(other, Signature) and
                self.addr_width == other.addr_width and
                self.data_width == other.data_width and
                self.granularity == other.granularity)

    def __repr__(self):
        return f"wishbone.Signature({self.members!r})"


class Interface(wiring.PureInterface):
    def __init__(self, *, addr_width, data_width, granularity=None,
                 features=frozenset(), path=None, src_loc_at=0):
        super().__init__(Signature(addr_width=addr_width,
                                   data_width=data_width,
                                   granularity=granularity,
                                   features=features),
                         path=path, src_loc_at=1 + src_loc_at)
        self._memory_map = None

    @property
    def addr_width(self):
        return self.signature.addr_width

    @property
    def data_width(self):
        return self.signature.data_width

    @property
    def granularity(self):
        return self.signature.granularity

    @property
    def memory_map(self):
        if self._memory_map is None:
            raise AttributeError(f"{self!r} does not have a memory map")
        return self._memory_map

    @memory_map.setter
    def memory_map(self, m):
        self._memory_map = m


class Decoder(wiring.Component):
    def __init__(self, *, addr_width, data_width, granularity=None, alignment=0, name=None):
        granularity = granularity or data_width
        self._bits = (data_width // granularity - 1).bit_length()
        super().__init__({"bus": In(Signature(addr_width=addr_width, data_width=data_width,
                                              granularity=granularity))})
        self.bus.memory_map = MemoryMap(addr_width=addr_width + self._bits, data_width=granularity,
                                        alignment=alignment)
        self._subs = {}

    def add(self, sub_bus, *, name=None, addr=None, sparse=False):
        if isinstance(sub_bus, wiring.FlippedInterface):
            mm = wiring.flipped(sub_bus).memory_map
        else:
            mm = sub_bus.memory_map
        self._subs[mm] = sub_bus
        return self.bus.memory_map.add_window(mm, name=name, addr=addr, sparse=sparse)

    def elaborate(self, platform):
        m = Module()
        bus = self.bus
        with m.Switch(bus.adr):
            for sub_map, _, (pat, ratio) in bus.memory_map.window_patterns():
                sub = self._subs[sub_map]
                m.d.comb += [
                    sub.adr.eq(bus.adr << (ratio - 1).bit_length()),
                    sub.dat_w.eq(bus.dat_w),
                    sub.sel.eq(Cat(s.replicate(ratio) for s in bus.sel)),
                    sub.we.eq(bus.we),
                    sub.stb.eq(bus.stb),
                ]
                with m.Case(pat[:-self._bits] if self._bits else pat):
                    m.d.comb += [
                        sub.cyc.eq(bus.cyc),
                        bus.dat_r.eq(sub.dat_r),
                        bus.ack.eq(sub.ack),
                    ]
        return m
