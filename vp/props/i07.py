"""SPIDeviceInterface."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import values, wide, make

ID = "I07"
TITLE = "The SPI device interface exchanges every word bit-exactly in all four modes"
STATEMENT = (
    "For every word size, SPI mode, bit order, chip-select polarity and clock timing the input stage can follow, every complete word clocked in while selected is delivered exactly, with one completion strobe, and the word offered when it starts is clocked out bit by bit at the controller's sampling edges, for any number of words in one selection. "
    "A word cut short by deselection and all clocking while deselected deliver nothing and leave no trace in later transfers. "
    "While deselected the data output is low; a connected board resource is wired pin by pin in the right direction."
)
QUANTIFIER = {"over": ["inputs", "histories", "configurations", "schedules"],
              "text": "all modes, word sizes, bit orders, bus timings, numbers of words, aborts and foreign clocking"}
WHY = "One 16-bit word is exchanged in one mode; the second-word test is commented out, phase, polarity, LSB-first and aborted words are never tested."
ANCHORS = {"files": ["amlib/io/spi.py"], "mechanism": [{"name": "SPIDeviceInterface", "where": "amlib/io/spi.py"}],
           "observe_at": ["spi.sdo at the controller's sampling edges", "word_in", "word_complete", "word_accepted"]}
TECHNIQUE = "stateful property testing with an independent SPI controller model"
LEVEL_NOTE = "Word sizes 1-80, half-periods of 4-40 clocks (2-40 without input synchronisers), up to 4 selections of up to 9 words, clocked with or without pauses. Trusts Amaranth's simulator."
RULE = "Non-trivial: two or more words in a selection, or a transfer after an aborted one."


class Bus:
    """Drives the pins of a device from lists of operations, one clock cycle at a time."""

    def __init__(self, spi, d, cpol, cpha, cs_high, hook):
        self.spi, self.d, self.cpol, self.cpha, self.cs_high, self.hook = spi, d, cpol, cpha, cs_high, hook
        self.cs(0)
        self.sck(0)

    def cs(self, on):
        self.d.set(self.spi.cs, on ^ self.cs_high)

    def sck(self, lvl):
        self.d.set(self.spi.sck, lvl ^ self.cpol)

    def wait(self, n):
        for _ in range(n):
            self.hook()
            self.d.tick()

    def bit(self, b, h1, h2, early=0):
        """One bit; returns the level of sdo at the sampling edge."""
        d = self.d
        if not self.cpha:
            d.set(self.spi.sdi, b)
            self.wait(h1)
            out = d.get(self.spi.sdo)
            self.sck(1)
            self.wait(h2)
            self.sck(0)
        else:
            self.sck(1)
            d.set(self.spi.sdi, b)
            self.wait(h1)
            out = d.get(self.spi.sdo)
            self.sck(0)
            self.wait(h2)
        return out


def run(case, rec):
    from amlib.io.spi import SPIDeviceInterface
    from ..sim import cached_dut, Dut
    from ..util import Pat
    w, cpol, cpha, msb, csh, skip = (case[k] for k in ("w", "cpol", "cpha", "msb", "cs_high", "skip"))

    def build():
        u = make(SPIDeviceInterface, word_size=w, clock_polarity=cpol, clock_phase=cpha, msb_first=bool(msb), cs_idles_high=bool(csh),
                               skip_input_cdc=bool(skip))
        d = Dut(u)
        d.u = u
        return d
    d = cached_dut(("i07", w, cpol, cpha, msb, csh, skip), build)
    u = d.u
    mask = (1 << w) - 1
    h = Pat([max(x, 2 if skip else 4) for x in case["half"]])
    got, accepted, sent = [], [], []
    state = {"quiet": 0, "boot": 8}

    def hook():
        if state["boot"]:
            state["boot"] -= 1      # the synchronisers start at zero, which may look like a selected chip
            return
        if d.get(u.word_complete):
            got.append(d.get(u.word_in))
        if d.get(u.word_accepted):
            accepted.append(1)
    b = Bus(u.spi, d, cpol, cpha, csh, hook)
    b.wait(10)
    nwords = aborted = multi = 0
    order = (lambda i: w - 1 - i) if msb else (lambda i: i)
    for sel in case["selections"]:
        expect_eq(d.get(u.spi.sdo), 0, "data output while deselected")
        for x in range(sel["foreign"]):       # clocking meant for someone else
            d.set(u.spi.sdi, x & 1)
            b.sck(1)
            b.wait(h.next())
            b.sck(0)
            b.wait(h.next())
        expect_eq(d.get(u.spi.sdo), 0, "data output while deselected")
        n0 = len(got)
        expect_eq(n0, nwords, "words completed before the selection")
        outs = [x[1] & mask for x in sel["words"]]
        d.set(u.word_out, outs[0])
        b.wait(6)
        b.cs(1)
        b.wait(max(h.next(), 3))
        for i, (inw, outw) in enumerate(sel["words"]):
            inw &= mask
            bits = w if i + 1 < len(sel["words"]) or not sel["cut"] else sel["cut"] % w
            cont = sel["cont"]          # clock without any pause
            change = 1 + (sel["change"] + i) % max(w - 1, 1) if cont else 0
            seen = 0
            for k in range(bits):
                if cont and k == change:
                    d.set(u.word_out, outs[i + 1] if i + 1 < len(sel["words"]) else ~outs[i] & mask)
                o = b.bit(inw >> order(k) & 1, h.next(), h.next())
                seen |= o << order(k)
                if not cont and k == 0 and w > 1:
                    # the next word may be offered once this one has been taken
                    b.wait(6)
                    d.set(u.word_out, outs[i + 1] if i + 1 < len(sel["words"]) else ~outs[i] & mask)
            want = 0
            for k in range(bits):
                want |= outs[i if w > 1 else 0] & (1 << order(k))
            expect_eq(seen, want, "bits sent in word {} ({} of {} bits, mode {}{})".format(i, bits, w, cpol, cpha))
            if not cont:
                b.wait(7)
            if bits == w:
                nwords += 1
                if not cont:
                    expect_eq(len(got), nwords, "completed words")
                    expect_eq(len(accepted), nwords, "accepted words")
                    expect_eq(got[-1], inw, "word received ({} bits, mode {}{}, {} first)".format(w, cpol, cpha, "msb" if msb else "lsb"))
                sent.append(inw)
                multi += i > 0
            else:
                aborted += 1
                if not cont:
                    expect_eq(len(got), nwords, "completed words after a partial one")
            if sel["gap"]:
                b.wait(sel["gap"])
        b.cs(0)
        b.wait(8)
        expect_eq(d.get(u.spi.sdo), 0, "data output after deselection")
        expect_eq(len(got), nwords, "completed words after deselection")
        expect_eq(len(accepted), nwords, "accepted words after deselection")
        expect_eq(got, sent, "words received ({} bits, mode {}{}, {} first)".format(w, cpol, cpha, "msb" if msb else "lsb"))
        if nwords:
            expect_eq(d.get(u.word_in), got[-1], "last word stays available")
    rec.nontrivial(multi or (aborted and nwords))
    rec.label("mode {}{}".format(cpol, cpha), "msb" if msb else "lsb")
    if aborted:
        rec.label("aborted")
    if multi:
        rec.label("several words")


def strategy(tier):
    word = st.tuples(wide(80), wide(80)).map(list)
    return st.fixed_dictionaries({
        "w": st.one_of(st.sampled_from([8, 16, 32]), st.integers(1, 33), st.integers(1, 33), st.integers(34, 80)), "cpol": st.integers(0, 1), "cpha": st.integers(0, 1),
        "msb": st.integers(0, 1), "cs_high": st.integers(0, 1), "skip": st.integers(0, 1),
        "half": st.one_of(*[st.lists(st.integers(2, 9), min_size=1, max_size=5)] * 7, st.lists(st.sampled_from([2, 9, 16, 40]), min_size=1, max_size=3)),
        "selections": st.lists(st.fixed_dictionaries({
            "foreign": st.sampled_from([0, 0, 1, 3, 8]), "words": st.one_of(st.lists(word, min_size=1, max_size=4), st.lists(word, min_size=1, max_size=9)),
            "cont": st.integers(0, 1), "change": st.integers(0, 79),
            "cut": st.one_of(st.just(0), st.just(0), st.integers(1, 79)), "gap": st.sampled_from([0, 0, 5])}), min_size=1, max_size=4)})


def resource(case, rec):
    """connect_to_resource joins the pins of a board resource to the bus."""
    from amaranth import Module, Signal, Record
    from amlib.io import spi as S
    from ..sim import Dut
    kind, csh = case["kind"], bool(case["cs_high"])
    if kind == "device":
        u = S.SPIDeviceInterface(word_size=8, cs_idles_high=csh, skip_input_cdc=True)
    elif kind == "command":
        u, csh = S.SPICommandInterface(), False
    else:
        u, csh = S.SPIRegisterInterface(), False

    class R:
        copi, cipo, clk, cs = Signal(name="copi"), Signal(name="cipo"), Signal(name="clk"), Signal(name="cs")
    m = Module()
    m.d.comb += u.connect_to_resource(R)
    drive = Signal()
    m.d.comb += u.spi.sdo.eq(drive)
    d = Dut(m)
    for x in case["pins"]:
        copi, clk, cs, sdo = (x >> i & 1 for i in range(4))
        d.set(R.copi, copi)
        d.set(R.clk, clk)
        d.set(R.cs, cs)
        d.set(drive, sdo)
        expect_eq((d.get(u.spi.sdi), d.get(u.spi.sck), d.get(u.spi.cs), d.get(R.cipo)), (copi, clk, cs ^ csh, sdo), "sdi, sck, cs, cipo")
    rec.nontrivial()


def resource_strategy(tier):
    return st.fixed_dictionaries({"kind": st.sampled_from(["device", "command", "register"]), "cs_high": st.integers(0, 1),
                                  "pins": st.lists(st.integers(0, 15), min_size=1, max_size=16)})


CHECKS = [Check("device", run, strategy, quick=10000, shards=8, rule="random modes, timings and selections"),
          Check("resource", resource, resource_strategy, quick=120, shards=1, rule="every case")]
