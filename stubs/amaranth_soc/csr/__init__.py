"""Stand-in for ``amaranth_soc.csr``: registers of one bus word, builder, bridge, decoder.

Bus timing follows amaranth-soc 0.1a: read data is registered (valid in the cycle
after the strobe), write strobes reach the fields one cycle after the bus strobe.
"""
import enum

from amaranth import Module, Signal
from amaranth.lib import wiring
from amaranth.lib.wiring import In, Out, connect, flipped

from ..memory import MemoryMap
from . import action  # noqa: F401
from .field import Field, FieldAction, FieldPort  # noqa: F401

__all__ = ["Signature", "Interface", "Element", "Field", "FieldPort", "FieldAction", "Register",
           "Builder", "Bridge", "Decoder", "action"]


class Signature(wiring.Signature):
    def __init__(self, *, addr_width, data_width):
        self.addr_width = addr_width
        self.data_width = data_width
        super().__init__({
            "addr": Out(addr_width),
            "r_data": In(data_width),
            "r_stb": Out(1),
            "w_data": Out(data_width),
            "w_stb": Out(1),
        })

    def create(self, *, path=None, src_loc_at=0):
        return Interface(addr_width=self.addr_width, data_width=self.data_width, path=path,
                         src_loc_at=1 + src_loc_at)

    def __eq__(self, other):
        return (isinstance(other, Signature) and self.addr_width == other.addr_width and
                self.data_width == other.data_width)

    def __repr__(self):
        return f"csr.Signature({self.members!r})"


class Interface(wiring.PureInterface):
    def __init__(self, *, addr_width, data_width, path=None, src_loc_at=0):
        super().__init__(Signature(addr_width=addr_width, data_width=data_width), path=path,
                         src_loc_at=1 + src_loc_at)
        self._memory_map = None

    @property
    def addr_width(self):
        return self.signature.addr_width

    @property
    def data_width(self):
        return self.signature.data_width

    @property
    def memory_map(self):
        if self._memory_map is None:
            raise AttributeError(f"{self!r} does not have a memory map")
        return self._memory_map

    @memory_map.setter
    def memory_map(self, m):
        self._memory_map = m


class Element:
    class Access(enum.Enum):
        R = "r"
        W = "w"
        RW = "rw"

        def readable(self):
            return self in (self.R, self.RW)

        def writable(self):
            return self in (self.W, self.RW)


class _Fields:
    pass


class Register(wiring.Component):
    def __init_subclass__(cls, *, access=None, **kwargs):
        if access is not None:
            cls._access = Element.Access(access)
        super().__init_subclass__(**kwargs)

    def __init__(self):
        self.f = _Fields()
        self._list = []
        width = 0
        for name, field in type(self).__dict__.get("__annotations__", {}).items():
            if isinstance(field, Field):
                act = field.create()
                setattr(self.f, name, act)
                self._list.append((name, act, width))
                width += act.port.width
        self.width = width
        super().__init__({
            "r_data": Out(width), "r_stb": In(1), "w_data": In(width), "w_stb": In(1),
        })

    def elaborate(self, platform):
        m = Module()
        for name, act, at in self._list:
            m.submodules[name] = act
            w = act.port.width
            if act.port.access.readable():
                m.d.comb += [self.r_data[at:at + w].eq(act.port.r_data), act.port.r_stb.eq(self.r_stb)]
            if act.port.access.writable():
                m.d.comb += [act.port.w_data.eq(self.w_data[at:at + w]), act.port.w_stb.eq(self.w_stb)]
        return m


class Builder:
    def __init__(self, *, addr_width, data_width, granularity=8):
        self.addr_width = addr_width
        self.data_width = data_width
        self._map = MemoryMap(addr_width=addr_width, data_width=data_width)

    def add(self, name, reg, *, offset=None):
        if reg.width > self.data_width:
            raise NotImplementedError("stand-in: registers of one bus word only")
        self._map.add_resource(reg, name=(name,), size=1, addr=offset)
        return reg

    def as_memory_map(self):
        return self._map


class Bridge(wiring.Component):
    def __init__(self, memory_map):
        self._map = memory_map
        super().__init__({"bus": In(Signature(addr_width=memory_map.addr_width,
                                              data_width=memory_map.data_width))})
        self.bus.memory_map = memory_map

    def elaborate(self, platform):
        m = Module()
        data = Signal(self._map.data_width)
        m.d.comb += self.bus.r_data.eq(data)
        m.d.sync += data.eq(0)
        for reg, name, (start, _) in self._map.resources():
            m.submodules["_".join(name)] = reg
            m.d.sync += reg.w_stb.eq(0)
            with m.If(self.bus.addr == start):
                if reg._access.readable():
                    m.d.comb += reg.r_stb.eq(self.bus.r_stb)
                    with m.If(self.bus.r_stb):
                        m.d.sync += data.eq(reg.r_data)
                if reg._access.writable():
                    m.d.sync += reg.w_stb.eq(self.bus.w_stb)
                    with m.If(self.bus.w_stb):
                        m.d.sync += reg.w_data.eq(self.bus.w_data)
        return m


class Decoder(wiring.Component):
    def __init__(self, *, addr_width, data_width, alignment=0):
        super().__init__({"bus": In(Signature(addr_width=addr_width, data_width=data_width))})
        self.bus.memory_map = MemoryMap(addr_width=addr_width, data_width=data_width, alignment=alignment)
        self._subs = {}

    def add(self, sub_bus, *, name=None, addr=None):
        self._subs[sub_bus.memory_map] = sub_bus
        return self.bus.memory_map.add_window(sub_bus.memory_map, name=name, addr=addr)

    def elaborate(self, platform):
        m = Module()
        select = Signal(range(len(self._subs) + 1))
        last = Signal.like(select)
        m.d.sync += last.eq(select)
        for i, (sub_map, name, (pat, _)) in enumerate(self.bus.memory_map.window_patterns()):
            sub = self._subs[sub_map]
            m.d.comb += [sub.addr.eq(self.bus.addr[:sub.addr_width]), sub.w_data.eq(self.bus.w_data)]
            with m.If(self.bus.addr.matches(pat)):
                m.d.comb += [select.eq(i + 1), sub.r_stb.eq(self.bus.r_stb), sub.w_stb.eq(self.bus.w_stb)]
            with m.If(last == i + 1):
                m.d.comb += self.bus.r_data.eq(sub.r_data)
        return m
