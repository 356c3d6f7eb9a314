"""Wishbone classic bus master."""

from .core import Violation, expect
from .util import Pat


class Master:
    def __init__(self, d, bus, tick=None, limit=40, what="bus"):
        self.d, self.bus, self.limit, self.what = d, bus, limit, what
        self.tick = tick or d.tick
        self.acks = 0

    def idle(self, n, junk=0, adr=0, dat=0):
        """No transfer for n cycles, with meaningless values on the other lines. junk: 1 = stb without cyc, 2 = cyc without stb"""
        d, b = self.d, self.bus
        for i in range(n):
            d.set(b.cyc, junk == 2)
            d.set(b.stb, junk == 1)
            d.set(b.we, junk & 1)
            d.set(b.adr, adr)
            d.set(b.dat_w, dat)
            d.set(b.sel, (1 << len(b.sel)) - 1)
            expect(not d.get(b.ack), "{}: acknowledge without a transfer".format(self.what))
            self.tick()

    def access(self, adr, we, dat, sel):
        d, b = self.d, self.bus
        d.set(b.cyc, 1)
        d.set(b.stb, 1)
        d.set(b.we, we)
        d.set(b.adr, adr)
        d.set(b.dat_w, dat)
        d.set(b.sel, sel)
        for i in range(self.limit):
            if d.get(b.ack):
                v = d.get(b.dat_r)
                self.acks += 1
                self.tick()
                d.set(b.cyc, 0)
                d.set(b.stb, 0)
                return v
            self.tick()
        raise Violation("{}: no acknowledge of an access to {:#x} in {} cycles".format(self.what, adr, self.limit))
