from amaranth import Record, Elaboratable, Module, Signal
from amaranth.hdl.rec import DIR_FANOUT, DIR_FANIN
from amaranth.utils import log2_int
from .memory import MemoryMap


class Interface(Record):
    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset(), name=None, **kw):
        if granularity is None:
            granularity = data_width
        if data_width not in (8, 16, 32, 64) or granularity not in (8, 16, 32, 64) or granularity > data_width:
            raise ValueError("unsupported width/granularity")
        self.addr_width, self.data_width, self.granularity = addr_width, data_width, granularity
        self.features = set(features)
        self._map = None
        layout = [("adr", addr_width, DIR_FANOUT), ("dat_w", data_width, DIR_FANOUT), ("dat_r", data_width, DIR_FANIN),
                  ("sel", data_width // granularity, DIR_FANOUT), ("cyc", 1, DIR_FANOUT), ("stb", 1, DIR_FANOUT),
                  ("we", 1, DIR_FANOUT), ("ack", 1, DIR_FANIN)]
        for f, w, direction in (("err", 1, DIR_FANIN), ("rty", 1, DIR_FANIN), ("stall", 1, DIR_FANIN),
                                ("lock", 1, DIR_FANOUT), ("cti", 3, DIR_FANOUT), ("bte", 2, DIR_FANOUT)):
            if f in self.features:
                layout.append((f, w, direction))
        super().__init__(layout, name=name or "bus")

    @property
    def memory_map(self):
        if self._map is None:
            raise NotImplementedError("bus interface does not have a memory map")
        return self._map

    @memory_map.setter
    def memory_map(self, m):
        bits = log2_int(self.data_width // self.granularity)
        if m.data_width != self.granularity or m.addr_width != max(1, self.addr_width + bits):
            raise ValueError("Memory map has address width {}, data width {} on a bus of {}+{}, {}".format(
                m.addr_width, m.data_width, self.addr_width, bits, self.granularity))
        m.freeze()
        self._map = m


class Decoder(Elaboratable):
    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset(), alignment=0, name=None):
        self.data_width, self.granularity, self.features = data_width, granularity or data_width, features
        self._bits = log2_int(self.data_width // self.granularity)
        self._map = MemoryMap(addr_width=max(1, addr_width + self._bits), data_width=self.granularity, alignment=alignment)
        self._subs = []
        self._bus = None

    @property
    def bus(self):
        if self._bus is None:
            self._bus = Interface(addr_width=self._map.addr_width - self._bits, data_width=self.data_width,
                                  granularity=self.granularity, features=self.features)
            self._bus._map = self._map
            self._map.freeze()
        return self._bus

    def align_to(self, alignment):
        return self._map.align_to(alignment)

    def add(self, sub_bus, *, addr=None, sparse=False, extend=False):
        if not sparse and sub_bus.data_width != self.data_width:
            raise ValueError("data width of the subordinate bus")
        if sub_bus.granularity > self.granularity:
            raise ValueError("granularity of the subordinate bus")
        out = self._map.add_window(sub_bus.memory_map, addr=addr, sparse=sparse, extend=extend)
        self._subs.append((sub_bus, out))
        return out

    def elaborate(self, platform):
        m = Module()
        bus = self.bus
        for sub, (start, stop, ratio) in self._subs:
            lo, hi = start >> self._bits, max((stop - 1) >> self._bits, start >> self._bits)
            m.d.comb += [sub.adr.eq(bus.adr - lo), sub.dat_w.eq(bus.dat_w), sub.sel.eq(bus.sel), sub.we.eq(bus.we), sub.stb.eq(bus.stb)]
            with m.If((bus.adr >= lo) & (bus.adr <= hi)):
                m.d.comb += [sub.cyc.eq(bus.cyc), bus.dat_r.eq(sub.dat_r), bus.ack.eq(sub.ack)]
        return m


class Arbiter(Elaboratable):
    """The bus stays with one initiator until it ends its cycle."""

    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset(), name=None):
        self.bus = Interface(addr_width=addr_width, data_width=data_width, granularity=granularity, features=features)
        self._buses = []

    def add(self, bus):
        self._buses.append(bus)

    def elaborate(self, platform):
        m = Module()
        n = len(self._buses)
        grant = Signal(range(max(2, n)))
        out = self.bus
        with m.Switch(grant):
            for i, b in enumerate(self._buses):
                with m.Case(i):
                    m.d.comb += [getattr(out, f).eq(getattr(b, f)) for f in ("adr", "dat_w", "sel", "we", "stb", "cyc")]
                    m.d.comb += b.ack.eq(out.ack)
                    with m.If(~b.cyc):
                        for j in reversed([(i + k) % n for k in range(1, n)]):
                            with m.If(self._buses[j].cyc):
                                m.d.sync += grant.eq(j)
        for b in self._buses:
            m.d.comb += b.dat_r.eq(out.dat_r)
        return m
