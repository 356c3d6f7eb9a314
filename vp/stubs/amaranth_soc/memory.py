from amaranth.utils import log2_int


class ResourceInfo:
    def __init__(self, resource, name, start, end, width):
        self.resource, self.name, self.start, self.end, self.width = resource, name, start, end, width


def align(value, bits):
    return -(-value // (1 << bits)) << bits


class MemoryMap:
    def __init__(self, *, addr_width, data_width, alignment=0, name=None):
        self.addr_width, self.data_width, self.alignment, self.name = addr_width, data_width, alignment, name
        self._frozen = False
        self._next = 0
        self._items = []      # (kind, object, name, start, stop, ratio)

    def freeze(self):
        self._frozen = True

    def align_to(self, alignment):
        self._next = align(self._next, max(alignment, self.alignment))
        return self._next

    def _place(self, size, addr, alignment, extend, step=None):
        if self._frozen:
            raise ValueError("Memory map has been frozen")
        if addr is None:
            start = align(self._next, alignment)
        else:
            if addr % (1 << alignment):
                raise ValueError("Explicitly specified address 0x{:x} must be a multiple of 0x{:x}".format(addr, 1 << alignment))
            start = addr
        size = align(max(size, 1), alignment)
        stop = start + size
        for kind, _, _, a, b, _ in self._items:
            if start < b and a < stop:
                raise ValueError("Address range 0x{:x}..0x{:x} overlaps with 0x{:x}..0x{:x}".format(start, stop, a, b))
        if stop > 1 << self.addr_width:
            if not extend:
                raise ValueError("Address range 0x{:x}..0x{:x} out of bounds".format(start, stop))
            self.addr_width = (stop - 1).bit_length()
        self._next = stop
        return start, stop

    def add_resource(self, resource, *, size, name=None, addr=None, alignment=None, extend=False):
        alignment = self.alignment if alignment is None else max(alignment, self.alignment)
        start, stop = self._place(size, addr, alignment, extend)
        name = name or getattr(resource, "name", None)
        self._items.append(("resource", resource, name if isinstance(name, tuple) else (name,), start, stop, 1))
        return start, stop

    def add_window(self, window, *, addr=None, sparse=None, extend=False):
        if window.data_width > self.data_width or (window.data_width != self.data_width and sparse is None):
            raise ValueError("window of data width {} in a map of data width {}".format(window.data_width, self.data_width))
        ratio = 1 if sparse else self.data_width // window.data_width
        size = (1 << window.addr_width) // ratio
        # a window has to be naturally aligned
        alignment = log2_int(size) if size else 0
        start, stop = self._place(size, addr, max(alignment, self.alignment) if addr is None else alignment, extend)
        window.freeze()
        self._items.append(("window", window, window.name, start, stop, ratio))
        return start, stop, ratio

    def resources(self):
        for kind, o, n, a, b, _ in self._items:
            if kind == "resource":
                yield o, n, (a, b)

    def windows(self):
        for kind, o, n, a, b, r in self._items:
            if kind == "window":
                yield o, (a, b, r)

    def all_resources(self):
        for kind, o, n, a, b, r in self._items:
            if kind == "resource":
                yield ResourceInfo(o, n, a, b, self.data_width)
            else:
                for i in o.all_resources():
                    yield ResourceInfo(i.resource, i.name, a + i.start // r, a + i.end // r, i.width * r)
