__all__ = ["MemoryMap"]


def _bits(n):
    return max(0, (n - 1).bit_length())


class MemoryMap:
    def __init__(self, *, addr_width, data_width, alignment=0, name=None):
        self.addr_width, self.data_width, self.alignment = addr_width, data_width, alignment
        self._next = 0
        self._frozen = False
        self.items = []                # (object, start, end)

    def _place(self, obj, size, addr, alignment, extend):
        a = max(alignment or 0, self.alignment)
        unit = 1 << a
        size = -(-size // unit) * unit
        start = addr if addr is not None else -(-self._next // unit) * unit
        end = start + size
        if end > 1 << self.addr_width:
            if not extend:
                raise ValueError("address range out of bounds")
            self.addr_width = _bits(end)
        for o, s, e in self.items:
            if s < end and start < e:
                raise ValueError("address range overlaps")
        self.items.append((obj, start, end))
        self._next = max(self._next, end)
        return start, end

    def add_resource(self, resource, *, size, addr=None, alignment=None, extend=False, name=None):
        return self._place(resource, size, addr, alignment, extend)

    def add_window(self, obj, window, *, addr=None, sparse=None, extend=False):
        size = 1 << window.addr_width
        return self._place(obj, size, addr, _bits(size), extend)
