"""SPIControllerInterface."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import wide, make

ID = "I08"
TITLE = "The SPI controller performs each requested transfer exactly, in all modes"
STATEMENT = (
    "For every word size, even divisor the input stage can follow, SPI mode, bit order and chip-select polarity, every start request made while idle selects the chip once, gives exactly one clock period per bit, and exchanges exactly the offered word for the device's word, reported with one completion strobe. "
    "Requests while busy change nothing; with no request the bus stays idle, the clock at its idle level and the chip deselected. "
    "A connected board resource is wired pin by pin in the right direction."
)
QUANTIFIER = {"over": ["inputs", "histories", "configurations", "schedules"],
              "text": "all modes, word sizes, divisors, bit orders, polarities, words and request timings, including back-to-back and during transfers"}
WHY = "One 16-bit loopback transfer in one mode is simulated; loopback cannot notice wrong bit orders, phases or clock counts, and nothing tests a second transfer."
ANCHORS = {"files": ["amlib/io/spi.py", "amlib/utils/dividingcounter.py"],
           "mechanism": [{"name": "SPIControllerInterface", "where": "amlib/io/spi.py"}],
           "observe_at": ["pins sck, sdo, cs at an independent SPI device model", "word_in", "word_complete"]}
TECHNIQUE = "stateful property testing with an independent SPI device model"
LEVEL_NOTE = "Word sizes 1-80, divisors 12-256 (8-256 without input synchronisers), up to 5 transfers. Trusts Amaranth's simulator."
RULE = "Non-trivial: two or more transfers, or a request while busy."


class Device:
    """Models an SPI device at the pins. Standard modes: phase 0 samples at the leading edge of the clock."""

    def __init__(self, w, cpol, cpha, msb, csh):
        self.w, self.cpol, self.cpha, self.csh = w, cpol, cpha, csh
        self.order = (lambda i: w - 1 - i) if msb else (lambda i: i)
        self.sel = self.clk = 0
        self.sdo_prev = 0
        self.word = 0           # to be sent
        self.out = 0
        self.transfers = []     # (word received, sampling edges, leading edges)
        self.cur = None
        self.trace = []

    def present(self, i):
        self.out = self.word >> self.order(i) & 1 if i < self.w else 0

    def step(self, cs, sck, sdo):
        sel, clk = cs ^ self.csh, sck ^ self.cpol
        lead = clk and not self.clk
        trail = self.clk and not clk
        if sel and not self.sel:
            self.cur = dict(rx=0, samples=0, leads=0, outs=0, trails=0)
            if lead:
                expect(self.cpha, "leading clock edge while the chip is only just being selected (phase 0)")
            if not self.cpha:
                self.present(0)
                self.cur["outs"] = 1
        c = self.cur
        if sel:
            expect(not (trail and not self.sel), "clock active before selection")
            if lead:
                c["leads"] += 1
                c["t"] = 0
            if trail:
                c["trails"] += 1
            if (trail if self.cpha else lead):
                expect_eq(sdo, self.sdo_prev, "data output must be stable at the sampling edge")
                if c["samples"] < self.w:
                    c["rx"] |= sdo << self.order(c["samples"])
                c["samples"] += 1
            if (lead if self.cpha else trail):
                self.present(c["outs"])
                c["outs"] += 1
        else:
            expect(not lead, "clock leaves its idle level while deselected")
            if self.sel:
                self.transfers.append(c)
                self.cur = None
        self.sel, self.clk, self.sdo_prev = sel, clk, sdo


def run(case, rec):
    from amlib.io.spi import SPIControllerInterface
    from ..sim import cached_dut, Dut
    w, cpol, cpha, msb, csh, skip = (case[k] for k in ("w", "cpol", "cpha", "msb", "cs_high", "skip"))
    div = 2 * max(case["div"], 4 if skip else 6)

    def build():
        u = make(SPIControllerInterface, word_size=w, divisor=div, clock_polarity=cpol, clock_phase=cpha, msb_first=bool(msb),
                                   cs_idles_high=bool(csh), skip_input_cdc=bool(skip))
        d = Dut(u)
        d.u = u
        return d
    d = cached_dut(("i08", w, cpol, cpha, msb, csh, skip, div), build)
    u = d.u
    mask = (1 << w) - 1
    dev = Device(w, cpol, cpha, msb, csh)
    got = []
    state = {"t": 0}
    busy_requests = 0

    def cycle(start=0):
        d.set(u.start_transfer, start)
        dev.step(d.get(u.spi.cs), d.get(u.spi.sck), d.get(u.spi.sdo))
        d.set(u.spi.sdi, dev.out if dev.sel else state["t"] % 3 == 0)
        if d.get(u.word_complete):
            got.append(d.get(u.word_in))
        d.tick()
        state["t"] += 1

    def idle(n):
        for _ in range(n):
            cycle()
            expect(not dev.sel, "chip selected although no transfer was requested")
    idle(10 + case["settle"])
    got.clear()
    limit = div * (w + 6) + 40
    for n, x in enumerate(case["transfers"]):
        outw, dev.word = x["out"] & mask, x["in"] & mask
        d.set(u.word_out, outw)
        idle(x["gap"])
        if x["gap"] == 0:
            expect(not dev.sel, "chip selected although the transfer is over")
        cycle(1)
        t, changed, seen = 0, False, 0
        while len(dev.transfers) == n:
            t += 1
            expect(t < limit, "transfer {} does not end ({} cycles, divisor {}, {} bits)".format(n, t, div, w))
            poke = x["poke"] and t % x["poke"] == 0
            # only while certainly busy: the request has been taken, the word is not complete
            if poke and len(got) == n and not d.get(u.word_complete):
                busy_requests += 1
                cycle(1)
            else:
                cycle()
            if dev.sel:
                seen += 1
                if seen == 7 and not changed and w > 1:
                    d.set(u.word_out, ~outw & mask)
                    changed = True
        tr = dev.transfers[n]
        what = "mode {}{}, {} bits, divisor {}, transfer {}".format(cpol, cpha, w, div, n)
        expect_eq((tr["samples"], tr["leads"]), (w, w), "sampling edges and clock periods ({})".format(what))
        expect_eq(tr["rx"], outw, "word received by the device ({})".format(what))
        if not x["tight"]:
            idle(4)
        expect_eq(len(got), n + 1, "completed words ({})".format(what))
        expect_eq(got[n], dev.word, "word received by the controller ({})".format(what))
        expect_eq(d.get(u.word_in), dev.word, "word_in after the transfer ({})".format(what))
    idle(3 * div)
    total = len(case["transfers"])
    if case["held"]:
        # the request stays asserted: one transfer after the other, each with its own selection
        outw, dev.word = case["transfers"][0]["out"] & mask, case["transfers"][-1]["in"] & mask
        d.set(u.word_out, outw)
        t = 0
        while len(dev.transfers) < total + case["held"]:
            last = len(dev.transfers) == total + case["held"] - 1 and dev.sel
            cycle(int(not last))
            t += 1
            expect(t < limit * case["held"], "transfers with a held request do not end")
        idle(3 * div)
        for tr in dev.transfers[total:]:
            expect_eq((tr["samples"], tr["leads"], tr["rx"]), (w, w, outw), "edges and word of a transfer with a held request")
        expect_eq(got[total:], [dev.word] * case["held"], "words received with a held request")
        total += case["held"]
        rec.label("held request")
    expect_eq(len(got), total, "completed words at the end")
    expect_eq(len(dev.transfers), total, "selections at the end")
    rec.nontrivial(len(case["transfers"]) > 1 or busy_requests)
    rec.label("mode {}{}".format(cpol, cpha), "msb" if msb else "lsb")
    if busy_requests:
        rec.label("requests while busy")


def strategy(tier):
    return st.fixed_dictionaries({
        "w": st.one_of(st.sampled_from([8, 16, 32]), st.integers(1, 33), st.integers(1, 33), st.integers(34, 80)), "cpol": st.integers(0, 1), "cpha": st.integers(0, 1),
        "msb": st.integers(0, 1), "cs_high": st.integers(0, 1), "skip": st.integers(0, 1),
        "div": st.one_of(*[st.integers(4, 8), st.integers(4, 20)] * 6, st.sampled_from([25, 32, 50, 64, 125, 128])), "settle": st.integers(0, 20), "held": st.sampled_from([0, 0, 0, 1, 2, 3]),
        "transfers": st.lists(st.fixed_dictionaries({
            "out": wide(80), "in": wide(80),
            "gap": st.one_of(st.integers(0, 3), st.integers(0, 50)), "tight": st.integers(0, 1),
            "poke": st.sampled_from([0, 0, 1, 7, 23])}), min_size=1, max_size=5)})


def resource(case, rec):
    from amaranth import Module, Signal
    from amlib.io.spi import SPIControllerInterface
    from ..sim import Dut
    csh = case["cs_high"]
    u = make(SPIControllerInterface, word_size=4, divisor=10, cs_idles_high=bool(csh), clock_polarity=case["cpol"], clock_phase=case["cpha"])

    class R:
        copi, cipo, clk, cs = Signal(name="copi"), Signal(name="cipo"), Signal(name="clk"), Signal(name="cs")
    m = Module()
    m.submodules.u = u
    m.d.comb += u.connect_to_resource(R)
    d = Dut(m)
    d.set(u.word_out, case["word"])
    for t in range(100):
        d.set(u.start_transfer, t == 12)
        d.set(R.cipo, t % case["toggle"] == 0)
        # the platform inverts active-low pins itself: a resource's cs is always active high
        expect_eq((d.get(R.copi), d.get(u.spi.sdi), d.get(R.clk), d.get(R.cs)),
                  (d.get(u.spi.sdo), t % case["toggle"] == 0, d.get(u.spi.sck), d.get(u.spi.cs) ^ csh), "copi, sdi, clk, cs")
        d.tick()
    rec.nontrivial()


def resource_strategy(tier):
    return st.fixed_dictionaries({"cs_high": st.integers(0, 1), "cpol": st.integers(0, 1), "cpha": st.integers(0, 1),
                                  "word": st.integers(0, 15), "toggle": st.integers(2, 5)})


CHECKS = [Check("transfers", run, strategy, quick=6000, shards=8, rule="random configurations, words and request timings"),
          Check("resource", resource, resource_strategy, quick=20, shards=1, rule="every case")]
