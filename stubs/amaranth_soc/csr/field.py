"""Stand-in for the field half of ``amaranth_soc.csr.reg``."""
import enum

from amaranth import Shape, Signal
from amaranth.lib import wiring
from amaranth.lib.wiring import In


class FieldPort:
    class Access(enum.Enum):
        R = "r"
        W = "w"
        RW = "rw"
        NC = "nc"

        def readable(self):
            return self in (self.R, self.RW)

        def writable(self):
            return self in (self.W, self.RW)

    class Signature(wiring.Signature):
        def __init__(self, shape, access):
            self.shape = Shape.cast(shape)
            self.access = FieldPort.Access(access)
            super().__init__({"r_data": wiring.In(shape), "r_stb": wiring.Out(1),
                              "w_data": wiring.Out(shape), "w_stb": wiring.Out(1)})

        def create(self, *, path=None, src_loc_at=0):
            p = wiring.PureInterface(self, path=path, src_loc_at=1 + src_loc_at)
            p.access = self.access
            p.shape = self.shape
            p.width = self.shape.width
            return p


class FieldAction(wiring.Component):
    def __init__(self, shape, access, members=()):
        super().__init__({"port": In(FieldPort.Signature(shape, access)), **dict(members)})


class Field:
    def __init__(self, action_cls, *args, **kwargs):
        self._make = lambda: action_cls(*args, **kwargs)

    def create(self):
        return self._make()
