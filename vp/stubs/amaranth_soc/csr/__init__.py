import enum
from amaranth import Record, Elaboratable, Module, Signal, Cat
from ..memory import MemoryMap


class Access(enum.Enum):
    R, W, RW = "r", "w", "rw"

    def readable(self):
        return self in (Access.R, Access.RW)

    def writable(self):
        return self in (Access.W, Access.RW)


class Element(Record):
    Access = Access

    def __init__(self, width, access, *, name=None, **kw):
        if not isinstance(width, int) or width < 0:
            raise TypeError("Width must be a non-negative integer, not {!r}".format(width))
        self.width, self.access = width, Access(access)
        layout = []
        if self.access.readable():
            layout += [("r_data", width), ("r_stb", 1)]
        if self.access.writable():
            layout += [("w_data", width), ("w_stb", 1)]
        super().__init__(layout, name=name or "element")


class Interface(Record):
    def __init__(self, *, addr_width, data_width, name=None, **kw):
        self.addr_width, self.data_width = addr_width, data_width
        self.memory_map = None
        super().__init__([("addr", addr_width), ("r_data", data_width), ("r_stb", 1),
                          ("w_data", data_width), ("w_stb", 1)], name=name or "csr")


class Multiplexer(Elaboratable):
    def __init__(self, *, addr_width, data_width, alignment=0, name=None, **kw):
        self._map = MemoryMap(addr_width=addr_width, data_width=data_width, alignment=alignment)
        self._bus = None

    @property
    def bus(self):
        if self._bus is None:
            self._bus = Interface(addr_width=self._map.addr_width, data_width=self._map.data_width)
            self._bus.memory_map = self._map
            self._map.freeze()
        return self._bus

    def align_to(self, alignment):
        return self._map.align_to(alignment)

    def add(self, element, *, addr=None, alignment=None, extend=False, name=None):
        size = -(-element.width // self._map.data_width)
        return self._map.add_resource(element, size=size, addr=addr, alignment=alignment, extend=extend, name=name)

    def elaborate(self, platform):
        m = Module()
        bus, w = self.bus, self._map.data_width
        for elem, name, (start, stop) in self._map.resources():
            n = max(1, -(-elem.width // w))
            last = start + n - 1
            if elem.access.readable():
                # the first chunk is read through, the others from a snapshot; data is valid in the next cycle
                shadow = Signal(n * w)
                with m.If(bus.r_stb & (bus.addr == start)):
                    m.d.comb += elem.r_stb.eq(1)
                    m.d.sync += shadow.eq(elem.r_data)
                for i in range(n):
                    en = Signal()
                    m.d.sync += en.eq(bus.r_stb & (bus.addr == start + i))
                    with m.If(en):
                        m.d.comb += bus.r_data.eq(shadow[i * w:(i + 1) * w])
            if elem.access.writable():
                shadow = Signal(n * w)
                m.d.sync += elem.w_stb.eq(bus.w_stb & (bus.addr == last))
                m.d.comb += elem.w_data.eq(shadow)
                for i in range(n):
                    with m.If(bus.w_stb & (bus.addr == start + i)):
                        m.d.sync += shadow[i * w:(i + 1) * w].eq(bus.w_data)
        return m


Decoder = Multiplexer
