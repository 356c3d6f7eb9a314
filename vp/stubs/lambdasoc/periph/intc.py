from amaranth import Elaboratable, Module, Signal
from .event import IRQLine


class GenericInterruptController(Elaboratable):
    def __init__(self, *, width):
        self.width, self.ip, self._lines = width, Signal(width), {}

    def add_irq(self, line, index):
        if not isinstance(line, IRQLine):
            raise TypeError("IRQ line must be an instance of IRQLine, not {!r}".format(line))
        if not 0 <= index < self.width or index in self._lines:
            raise ValueError("IRQ index {}".format(index))
        self._lines[index] = line

    def elaborate(self, platform):
        m = Module()
        for i, line in self._lines.items():
            m.d.comb += self.ip[i].eq(line)
        return m
