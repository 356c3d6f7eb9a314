from amaranth import Elaboratable, Module, Signal
from amaranth_soc import wishbone


class MinervaCPU(Elaboratable):
    """A processor that does nothing by itself: its two bus masters are driven from outside."""

    def __init__(self, with_debug=False, **kwargs):
        self.with_debug = with_debug
        self.ibus = wishbone.Interface(addr_width=30, data_width=32, granularity=8, features={"cti", "bte"}, name="ibus")
        self.dbus = wishbone.Interface(addr_width=30, data_width=32, granularity=8, features={"cti", "bte"}, name="dbus")
        self.ip = Signal(32)

    def elaborate(self, platform):
        return Module()
