"""Open-drain I2C bus, protocol monitor and scripted devices, in Python."""

from .core import Violation, expect


class Pads:
    """Pads as amlib's I2C cores expect them: tristate triples (o, oe, i)."""
    def __init__(self, suffix):
        from amaranth import Signal

        class T:
            def __init__(self, n):
                self.o = Signal(name=n + "_o")
                self.oe = Signal(name=n + "_oe")
                self.i = Signal(name=n + "_i", reset=1)
        self._scl, self._sda = T("scl"), T("sda")
        setattr(self, "scl_t" if suffix else "scl", self._scl)
        setattr(self, "sda_t" if suffix else "sda", self._sda)


class Monitor:
    """Decodes bus levels, one call per cycle, into events 'S', 'P' and ('B', byte, ack bit level)."""

    def __init__(self):
        self.scl = self.sda = 1
        self.events = []
        self.bits = []
        self.pending = None
        self.t = 0
        self.last_rise = None
        self.last_fall = None
        self.min_period = None
        self.min_high = None
        self.min_low = None
        self.open = False

    def _commit(self):
        self.bits.append(self.pending)
        self.pending = None
        if len(self.bits) == 9:
            v = 0
            for b in self.bits[:8]:
                v = v << 1 | b
            self.events.append(("B", v, self.bits[8]))
            self.bits = []

    def step(self, scl, sda):
        self.t += 1
        if self.scl and scl:
            if self.sda != sda:
                if self.pending is not None and len(self.bits) == 8:
                    self._commit()
                self.events.append("P" if sda else "S")
                if self.bits:
                    self.events.append(("partial", list(self.bits)))
                self.bits = []
                self.pending = None
        elif not self.scl and scl:
            if self.sda != sda:
                raise Violation("SDA changes together with the rising edge of SCL (cycle {})".format(self.t))
            self.pending = sda
            if self.last_rise is not None and self.last_fall is not None and self.last_fall > self.last_rise:
                low = self.t - self.last_fall
                self.min_low = low if self.min_low is None else min(self.min_low, low)
                per = self.t - self.last_rise
                self.min_period = per if self.min_period is None else min(self.min_period, per)
            self.last_rise = self.t
        elif self.scl and not scl:
            if self.sda != sda:
                raise Violation("SDA changes together with the falling edge of SCL (cycle {})".format(self.t))
            if self.pending is not None:
                self._commit()
            if self.last_rise is not None:
                high = self.t - self.last_rise
                self.min_high = high if self.min_high is None else min(self.min_high, high)
            self.last_fall = self.t
        self.scl, self.sda = scl, sda


class ScriptedSlave:
    """Follows the bus; for each byte after a START it is told whether to send or receive."""

    def __init__(self, hold=1):
        self.sda = self.scl = 1
        self.p_scl = self.p_sda = 1
        self.bit = 0
        self.active = False
        self.script = []        # per byte: ("rx", ack) or ("tx", value)
        self.idx = 0
        self.low_for = 0
        self.hold = hold
        self.stretch = []
        self.nstretch = 0
        self.stretch_left = 0
        self.seen = []

    def begin(self, segments):
        """One list per START; after its last byte the device releases the bus."""
        self.segments = segments
        self.seg = -1

    def step(self, scl, sda):
        """Called with the levels of this cycle; sets self.scl/self.sda for the next one."""
        if self.p_scl and scl and self.p_sda != sda and self.active and self.bit == 8:
            self.idx += 1       # START or STOP within the acknowledge bit's high phase
            self.bit = 0
        if self.p_scl and scl and self.p_sda and not sda:
            self.seg += 1
            self.idx = 0
            self.script = self.segments[self.seg] if self.seg < len(self.segments) else []
        if self.p_scl and scl and self.p_sda and not sda:
            self.active, self.bit, self.fresh = True, 0, True
            self.sda = 1
        elif self.p_scl and scl and not self.p_sda and sda:
            self.active = False
            self.sda = 1
        elif self.p_scl and not scl:
            self.low_for = 0
            if self.active:
                if self.fresh:
                    self.fresh = False
                else:
                    self.bit += 1
                    if self.bit == 9:
                        self.bit = 0
                        self.idx += 1
                if self.stretch:
                    self.stretch_left = self.stretch[self.nstretch % len(self.stretch)]
                    self.nstretch += 1
        if not scl:
            self.low_for += 1
            if self.active and self.low_for >= self.hold:
                cur = self.script[self.idx] if self.idx < len(self.script) else None
                if cur is None:
                    self.sda = 1
                elif cur[0] == "tx":
                    self.sda = (cur[1] >> (7 - self.bit) & 1) if self.bit < 8 else 1
                else:
                    self.sda = (0 if cur[1] else 1) if self.bit == 8 else 1
            if self.stretch_left > 0:
                self.stretch_left -= 1
                self.scl = 0
            else:
                self.scl = 1
        else:
            self.scl = 1
        self.p_scl, self.p_sda = scl, sda
