"""Serial readout of the logic analyzer: SPI and UART."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import bitpat, make
from . import g01, i07
from .g02 import build_sigs

ID = "G03"
TITLE = "SPI and UART analyzers send every captured sample, bit for bit"
STATEMENT = (
    "For every signal set, depth, SPI mode and chip-select polarity, each selection of the SPI analyzer reads the captured samples from the first one on, in order, each zero-extended to the announced number of bits and sent most significant bit first, at any bus timing the input stage follows, as often as desired and after aborted reads. "
    "For every divisor, each trigger makes the UART analyzer send every captured sample once, in order, as the announced number of bytes in 8n1 frames, least significant byte first, and nothing else. "
    "Both work in any clock domain, with pretrigger samples, sample enable and repeated captures."
)
QUANTIFIER = {"over": ["histories", "inputs", "configurations", "schedules"], "text": "signal sets, depths, SPI modes and timings, partial and repeated reads, divisors, domains, repeated captures"}
WHY = "The SPI readout test fails and is excluded; the UART analyzer has no test at all."
ANCHORS = {"files": ["amlib/debug/ila.py", "amlib/io/spi.py", "amlib/stream/uart.py"],
           "mechanism": [{"name": "SyncSerialILA, AsyncSerialILA", "where": "amlib/debug/ila.py"}],
           "observe_at": ["spi pins", "tx"]}
TECHNIQUE = "stateful property testing with independent SPI and UART receivers"
LEVEL_NOTE = "1-4 signals up to 70 bits, depth 1-16, pretrigger 0-8, SPI half-periods 4-40, divisors 1-140. amaranth-soc is not installed: only its bus record (not used here) is replaced by a stand-in. Trusts Amaranth's simulator."


def spi(case, rec):
    from ..sim import Dut, cached_dut
    from ..util import Pat
    from amlib.debug.ila import SyncSerialILA
    shapes = [tuple(x) for x in case["signals"]]
    depth, k, en, dom = case["depth"], case["pre"], case["enable"], case["domain"]
    cpol, cpha, csh = case["cpol"], case["cpha"], case["cs_high"]

    def build():
        sigs = build_sigs(shapes)
        kw = {"domain": dom} if dom != "sync" else {}
        u = make(SyncSerialILA, signals=sigs, sample_depth=depth, samples_pretrigger=k, with_enable=bool(en),
                          clock_polarity=cpol, clock_phase=cpha, cs_idles_high=bool(csh), **kw)
        d = Dut(u)
        d.u, d.sigs = u, sigs
        return d
    d = cached_dut(("g03s", tuple(shapes), depth, k, en, dom, cpol, cpha, csh), build, limit=24)
    u = d.u
    width = sum(w for w, _ in shapes)
    bits = max(32, 1 << (width - 1).bit_length())
    expect_eq(u.bits_per_sample, bits, "bits_per_sample of {} bits".format(width))
    expect_eq(u.bytes_per_sample, bits // 8, "bytes_per_sample")
    hist = g01.History(d, u, d.sigs, shapes, k, en, case["pattern"], case["seed"])
    trig = [0]
    half = Pat(case["half"])

    class B(i07.Bus):
        def wait(self, n):
            for _ in range(n):
                hist.drive(trig[0])
                self.d.tick(dom)
    b = B(u.spi, d, cpol, cpha, csh, None)
    b.wait(8)
    full = aborted = 0
    for cap in case["captures"]:
        b.wait(cap["idle"])
        t0 = hist.t
        trig[0] = 1
        b.wait(1)
        trig[0] = 0
        limit = (depth + 2 * k + 12) * (len(case["pattern"]) + 1)
        b.wait(2)
        while not d.get(u.complete):
            b.wait(1)
            limit -= 1
            expect(limit > 0, "the capture does not end")
        b.wait(6)
        for n, cut in cap["reads"]:
            n = 1 + n % depth
            b.cs(1)
            b.wait(max(half.next(), 4))
            data = []
            for i in range(n):
                length = bits if i + 1 < n or not cut else cut % bits
                v = 0
                for j in range(length):
                    v = v << 1 | b.bit((j ^ i) & 1, half.next(), half.next())
                if length == bits:
                    expect(not v >> width, "sample {} was sent as {:#x}, but has {} bits".format(i, v, width))
                    data.append(v)
                else:
                    aborted += 1
            b.cs(0)
            b.wait(8)
            expect_eq(d.get(u.complete), 1, "complete during readout")
            if data:
                hist.match(data, t0, "read")
            full += len(data) > 1
    rec.nontrivial(full)
    rec.label("mode {}{}".format(cpol, cpha), "active low" if csh else "active high", "{} bits".format(bits))
    if aborted:
        rec.label("aborted read")


def wide():
    return st.lists(st.tuples(st.one_of(st.sampled_from([1, 2, 5, 8, 13]), st.integers(1, 33)), st.integers(0, 1)).map(list), min_size=1, max_size=4)


def spi_strategy(tier):
    return st.fixed_dictionaries({
        "signals": wide(), "depth": st.one_of(st.integers(1, 16), st.integers(1, 40)), "pre": st.sampled_from([0, 1, 1, 2, 3, 8]), "enable": st.sampled_from([0, 0, 1]),
        "domain": st.sampled_from(["sync", "sync", "usb"]), "cpol": st.integers(0, 1), "cpha": st.integers(0, 1), "cs_high": st.integers(0, 1),
        "pattern": bitpat(6), "half": st.one_of(*[st.lists(st.integers(4, 9), min_size=1, max_size=4)] * 8, st.lists(st.integers(4, 40), min_size=1, max_size=6)), "seed": st.integers(0, 10**6),
        "captures": st.lists(st.fixed_dictionaries({
            "idle": st.integers(0, 12), "reads": st.lists(st.tuples(st.integers(0, 47), st.one_of(st.just(0), st.integers(1, 127))).map(list), min_size=1, max_size=2)}),
            min_size=1, max_size=2)})


class Uart:
    """An independent 8n1 receiver sampling in the middle of each bit."""

    def __init__(self, div):
        self.div, self.n, self.bytes, self.cur, self.prev = div, None, [], 0, 1

    def step(self, level):
        if self.n is None:
            if not level:
                self.n, self.cur = 0, 0
        if self.n is not None:
            bit, at = divmod(self.n, self.div)
            if at == self.div // 2:
                if bit == 0:
                    expect_eq(level, 0, "start bit of byte {}".format(len(self.bytes)))
                elif bit == 9:
                    expect_eq(level, 1, "stop bit of byte {}".format(len(self.bytes)))
                    self.bytes.append(self.cur)
                else:
                    self.cur |= level << (bit - 1)
            self.n += 1
            if self.n == 10 * self.div:
                self.n = None
        return len(self.bytes)


def uart(case, rec):
    from ..sim import Dut, cached_dut
    from amlib.debug.ila import AsyncSerialILA
    shapes = [tuple(x) for x in case["signals"]]
    depth, k, en, dom, div = case["depth"], case["pre"], case["enable"], case["domain"], case["div"]

    def build():
        sigs = build_sigs(shapes)
        kw = {"domain": dom} if dom != "sync" else {}
        u = make(AsyncSerialILA, signals=sigs, sample_depth=depth, samples_pretrigger=k, with_enable=bool(en), divisor=div, **kw)
        d = Dut(u)
        d.u, d.sigs = u, sigs
        return d
    d = cached_dut(("g03u", tuple(shapes), depth, k, en, dom, div), build, limit=24)
    u = d.u
    width = sum(w for w, _ in shapes)
    n = max(1, (1 << (width - 1).bit_length()) // 8)
    expect_eq(u.bytes_per_sample, n, "bytes_per_sample of {} bits".format(width))
    hist = g01.History(d, u, d.sigs, shapes, k, en, case["pattern"], case["seed"])
    rx = Uart(div)

    def step(trigger):
        hist.drive(trigger)
        if hist.t > 1:
            rx.step(d.get(u.tx))
        d.tick(dom)
    total = 0
    for cap in case["captures"]:
        for _ in range(cap["idle"]):
            step(0)
        expect_eq(len(rx.bytes), total, "bytes before the trigger")
        t0 = hist.t
        step(1)
        limit = (depth + 2 * k + 12) * (len(case["pattern"]) + 1) + depth * n * 10 * div + depth * 8 + 50
        while len(rx.bytes) < total + depth * n:
            step(len(rx.bytes) + n + 3 < total + depth * n and hist.rng.random() < cap["retrigger"] / 4)
            limit -= 1
            expect(limit > 0, "the transfer does not end: {} of {} bytes sent".format(len(rx.bytes) - total, depth * n))
        for _ in range(25 * div + 12):
            step(0)
        got = bytes(rx.bytes[total:])
        total += depth * n
        expect_eq(len(rx.bytes), total, "bytes after the capture was sent")
        expect_eq(d.get(u.tx), 1, "idle line")
        hist.match([int.from_bytes(got[i:i + n], "little") for i in range(0, depth * n, n)], t0, "sent")
    rec.nontrivial(depth > 1)
    rec.label("{} bytes".format(n), "several captures" if len(case["captures"]) > 1 else "one capture", dom)


def uart_strategy(tier):
    return st.fixed_dictionaries({
        "signals": wide(), "depth": st.integers(1, 12), "pre": st.sampled_from([0, 1, 1, 2, 3, 8]), "enable": st.sampled_from([0, 0, 1]),
        "domain": st.sampled_from(["sync", "sync", "usb"]), "div": st.one_of(*[st.integers(1, 4)] * 6, *[st.integers(1, 12)] * 6, st.integers(13, 140)), "pattern": bitpat(6), "seed": st.integers(0, 10**6),
        "captures": st.lists(st.fixed_dictionaries({"idle": st.integers(0, 12), "retrigger": st.sampled_from([0, 1, 4])}), min_size=1, max_size=2)})


CHECKS = [Check("spi", spi, spi_strategy, quick=800, shards=8, rule="two or more samples read in one selection"),
          Check("uart", uart, uart_strategy, quick=800, shards=8, rule="two or more samples")]
