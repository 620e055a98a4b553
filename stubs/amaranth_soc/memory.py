"""Stand-in for ``amaranth_soc.memory.MemoryMap`` (allocation and lookup only)."""
__all__ = ["MemoryMap", "ResourceInfo"]


class ResourceInfo:
    def __init__(self, resource, path, start, end, width):
        self.resource = resource
        self.path = path
        self.start = start
        self.end = end
        self.width = width


class MemoryMap:
    def __init__(self, *, addr_width, data_width, alignment=0):
        self.addr_width = addr_width
        self.data_width = data_width
        self.alignment = alignment
        self._next = 0
        self._resources = []
        self._windows = []

    @staticmethod
    def _up(value, log2):
        return -(-value >> log2) << log2

    def _place(self, addr, size, align):
        size = self._up(max(size, 1), align)
        if addr is None:
            addr = self._up(self._next, align)
        elif addr & ((1 << align) - 1):
            raise ValueError(f"address {addr:#x} is not aligned to 2**{align}")
        if addr + size > 1 << self.addr_width:
            raise ValueError(f"{addr:#x}..{addr + size:#x} is outside {self.addr_width} address bits")
        for s, e, *_ in self._resources + self._windows:
            if addr < e and s < addr + size:
                raise ValueError(f"{addr:#x}..{addr + size:#x} overlaps {s:#x}..{e:#x}")
        self._next = addr + size
        return addr, addr + size

    def add_resource(self, resource, *, name, size, addr=None, alignment=None):
        s, e = self._place(addr, size, max(self.alignment, alignment or 0))
        self._resources.append((s, e, resource, name))
        return s, e

    def add_window(self, window, *, name=None, addr=None, sparse=None):
        ratio = 1 if sparse or window.data_width == self.data_width else self.data_width // window.data_width
        size = (1 << window.addr_width) // ratio
        s, e = self._place(addr, size, max(self.alignment, (size - 1).bit_length()))
        self._windows.append((s, e, window, name, ratio))
        return s, e, ratio

    def resources(self):
        for s, e, r, name in self._resources:
            yield r, name, (s, e)

    def windows(self):
        for s, e, w, name, ratio in self._windows:
            yield w, name, (s, e, ratio)

    def window_patterns(self):
        for s, e, w, name, ratio in self._windows:
            bits = (e - s - 1).bit_length()
            const = self.addr_width - bits
            pat = (f"{s >> bits:0{const}b}" if const else "") + "-" * bits
            yield w, name, (pat, ratio)

    def all_resources(self):
        for s, e, r, name in self._resources:
            yield ResourceInfo(r, (name,), s, e, self.data_width)
        for s, e, w, name, ratio in self._windows:
            for i in w.all_resources():
                path = ((name,) if name is not None else ()) + i.path
                yield ResourceInfo(i.resource, path, s + i.start // ratio, s + -(-i.end // ratio), i.width * ratio)
