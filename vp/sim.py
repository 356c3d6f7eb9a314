"""Cycle-accurate lock-step driver on top of Amaranth's Python simulator.

A :class:`Dut` elaborates a design once and can be reset and re-run many times.
The semantics are those of synchronous hardware, with no process-ordering subtleties:

    d.set(sig, value)     drive an input (takes effect at the next settle)
    d.get(sig)            settle combinational logic, read a value
    d.tick()              one rising edge of `sync` (or of the named domains, simultaneously)
"""

import warnings
warnings.filterwarnings("ignore")

from amaranth import Signal, Value
from amaranth.hdl.ir import Fragment
from amaranth.sim.pysim import PySimEngine

from .core import Violation

MAX_DELTAS = 20000


class Dut:
    def __init__(self, elaboratable, ports=()):
        self.top = elaboratable
        frag = Fragment.get(elaboratable, platform=None).prepare()
        self.frag = frag
        self.eng = PySimEngine(frag)
        self.state = self.eng._state
        self._idx = {}
        self.domains = {n: d for n, d in frag.domains.items()}
        self._clk = {n: self._slot(d.clk) for n, d in self.domains.items()}
        self._rst = {n: self._slot(d.rst) for n, d in self.domains.items() if d.rst is not None}
        self.cycle = 0
        self._dirty = True
        self._first = True

    # -- plumbing -------------------------------------------------------------------------------
    def _slot(self, sig):
        s = self._idx.get(id(sig))
        if s is None:
            if not isinstance(sig, Signal):
                sig2 = Value.cast(sig)
                if not isinstance(sig2, Signal):
                    raise TypeError("not a signal: {!r}".format(sig))
            else:
                sig2 = sig
            s = (self.state.slots[self.state.get_signal(sig2)], len(sig2), sig2.shape().signed, sig)
            self._idx[id(sig)] = s
        return s

    def reset(self):
        self.eng.reset()
        self.cycle = 0
        self._dirty = True
        return self

    def settle(self):
        if not self._dirty:
            return
        procs = self.eng._processes
        state = self.state
        n = 0
        while True:
            for p in procs:
                if p.runnable:
                    p.runnable = False
                    p.run()
            if state.commit():
                break
            n += 1
            if n > MAX_DELTAS:
                raise Violation("combinational logic does not settle")
        self._dirty = False

    # -- user interface -------------------------------------------------------------------------
    def set(self, sig, value):
        slot, width, signed, _ = self._slot(sig)
        value = int(value) & ((1 << width) - 1)
        if signed and width and value >> (width - 1):
            value -= 1 << width
        slot.set(value)
        self._dirty = True

    def get(self, sig):
        if self._dirty:
            self.settle()
        return self._slot(sig)[0].curr

    def tick(self, *domains):
        """Rising edge on the named domains (default: sync)."""
        if self._dirty:
            self.settle()
        if not domains:
            domains = ("sync",)
        # a design without state has no clock; its outputs are judged all the same
        clocks = [self._clk[dom] for dom in domains if dom in self._clk]
        for clk in clocks:
            clk[0].set(1)
        self._dirty = True
        self.settle()
        for clk in clocks:
            clk[0].set(0)
        self._dirty = True
        self.cycle += 1

    def fall(self, *domains):
        pass

    def ticks(self, n):
        for _ in range(n):
            self.tick()


_cache = {}


def cached_dut(key, build, limit=64):
    """Elaborating is by far the most expensive step: keep recently used designs and reset them.
    `build()` returns anything; it must contain a Dut as attribute/first item `dut`."""
    d = _cache.get(key)
    if d is None:
        if len(_cache) >= limit:
            _cache.pop(next(iter(_cache)))
        d = build()
        _cache[key] = d
        if isinstance(d, Dut):
            d.reset()
        return d
    d.reset()
    return d


class Clocks:
    """Several clock domains with their own integer periods and phases; step() advances to the next rising edges."""

    def __init__(self, dut, periods, phases):
        self.d = dut
        self.period = dict(periods)
        self.next = {n: phases.get(n, 0) % p for n, p in periods.items()}
        self.now = 0

    def step(self):
        """the domains whose clocks rise next (at the same moment), without ticking them"""
        self.now = min(self.next.values())
        due = [n for n, t in self.next.items() if t == self.now]
        for n in due:
            self.next[n] += self.period[n]
        return due

    def tick(self, due):
        self.d.tick(*[n for n in due if n in self.d.domains])
