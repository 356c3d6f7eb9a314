"""Serial transmitters connected to AsyncSerialRX across clock domains."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import values

ID = "N03"
TITLE = "Serial transceivers of the library understand one another at any clock"
STATEMENT = (
    "For every frame format and any two clocks whose bit times agree within two per cent, two of the library's serial transceivers connected to each other deliver every accepted word to the other side exactly once, in order and without an error, in both directions at once. "
    "So does a receiver connected to the byte-stream transmitter or, byte by byte from the lowest, to the multi-byte transmitter."
)
QUANTIFIER = {"over": ["inputs", "schedules", "configurations"],
              "text": "all formats, words, gaps, divisors, clock ratios and phases, and rate deviations up to two per cent"}
WHY = "Transmitters and receivers are only tested apart (if at all), in one clock domain and at one divisor."
ANCHORS = {"files": ["amlib/io/serial.py", "amlib/stream/uart.py"], "mechanism": [{"name": "AsyncSerial, AsyncSerialRX, AsyncSerialTX", "where": "amlib/io/serial.py"}, {"name": "UARTTransmitter, UARTMultibyteTransmitter", "where": "amlib/stream/uart.py"}],
           "observe_at": ["words accepted on one side and reported on the other", "error flags"]}
TECHNIQUE = "property testing of the cores connected to each other, in two generated clock domains"
LEVEL_NOTE = "Data of 5-9 bits, divisors of the receivers 12-40, up to 8 words per direction. Clock edges interleave freely, metastability is not modelled. Trusts Amaranth's simulator."


class Sender:
    """offers words to one transmitter, one step per clock of its domain"""

    def __init__(self, d, data, offer, taken, words, gaps):
        self.d, self.data, self.offer, self.taken, self.words = d, data, offer, taken, words
        self.gaps, self.wait, self.i = gaps, gaps[0], 0

    def step(self):
        d = self.d
        if self.i < len(self.words) and self.wait == 0:
            d.set(self.data, self.words[self.i])
            d.set(self.offer, 1)
            if d.get(self.taken):
                self.i += 1
                self.wait = self.gaps[self.i % len(self.gaps)]
        else:
            # the data lines may hold anything in between
            d.set(self.data, ~self.words[self.i - 1] if self.i else 0)
            d.set(self.offer, 0)
            self.wait = max(0, self.wait - 1)


def run(case, rec):
    from amaranth import Module, Record, DomainRenamer, Signal
    from amlib.io.serial import AsyncSerial, AsyncSerialRX
    from amlib.stream.uart import UARTTransmitter, UARTMultibyteTransmitter
    from ..sim import cached_dut, Dut, Clocks
    kind, diva, divb, nbytes = case["kind"], case["div"][0], case["div"][1], case["bytes"]
    bits, parity = (case["bits"], case["parity"]) if kind == "serial" else (8, "none")

    def build():
        def pins():
            return Record([("rx", [("i", 1)]), ("tx", [("o", 1)])])
        m = Module()
        fmt = dict(data_bits=bits, parity=parity)
        if kind == "serial":
            pa, pb = pins(), pins()
            a, b = AsyncSerial(divisor=diva, pins=pa, **fmt), AsyncSerial(divisor=divb, pins=pb, **fmt)
            m.d.comb += [pa.rx.i.eq(pb.tx.o), pb.rx.i.eq(pa.tx.o)]
            ends = (a.tx, b.tx, a.rx, b.rx)
        else:
            pb = pins()
            a = UARTTransmitter(divisor=diva) if kind == "uart" else UARTMultibyteTransmitter(divisor=diva, byte_width=nbytes)
            b = AsyncSerialRX(divisor=divb, pins=pb, **fmt)
            m.d.comb += pb.rx.i.eq(a.tx)
            ends = (a, None, None, b)
        m.submodules.a = DomainRenamer("a")(a)
        m.submodules.b = DomainRenamer("b")(b)
        d = Dut(m)
        d.ends = ends
        return d
    d = cached_dut(("n03", kind, diva, divb, bits, parity, nbytes), build)
    atx, btx, arx, brx = d.ends
    pa = case["clock"]
    # the clock that makes the bit times equal, but for the deviation
    pb = max(1, round(diva * pa * (1 + case["off"] / 1000) / divb))
    dev = abs(divb * pb - diva * pa) / (diva * pa)
    if dev > .0205:
        pb = -(-diva * pa // divb) if case["off"] > 0 else diva * pa // divb
        dev = abs(divb * pb - diva * pa) / (diva * pa)
    if pb < 1 or dev > .0205:
        return
    clk = Clocks(d, {"a": pa, "b": pb}, {"a": case["phase"][0], "b": case["phase"][1]})
    width = bits if kind != "multi" else 8 * nbytes
    words = [[x & ((1 << width) - 1) for x in case["words"][0]], [x & ((1 << bits) - 1) for x in case["words"][1]]]
    if kind == "serial":
        senders = {"a": Sender(d, atx.data, atx.ack, atx.rdy, words[0], case["gaps"][0]), "b": Sender(d, btx.data, btx.ack, btx.rdy, words[1], case["gaps"][1])}
        receivers = {"a": (arx, []), "b": (brx, [])}
        want = {"a": words[1], "b": words[0]}
    else:
        senders = {"a": Sender(d, atx.stream.payload, atx.stream.valid, atx.stream.ready, words[0], case["gaps"][0])}
        receivers = {"b": (brx, [])}
        want = {"b": [w >> 8 * i & 255 for w in words[0] for i in range(nbytes if kind == "multi" else 1)]}
    frame = (bits + 3) * max(diva * pa, divb * pb)
    end = frame * (3 + max(len(w) for w in want.values())) + sum(max(case["gaps"][i]) * (len(words[i]) + 1) * (pa, pb)[i] for i in (0, 1))
    end += 40 * max(pa, pb)
    for rx, _ in receivers.values():
        d.set(rx.ack, 1)
    while clk.now < end:
        due = clk.step()
        for n in due:
            if n in receivers:
                rx, got = receivers[n]
                if d.get(rx.rdy):
                    got.append((d.get(rx.data), d.get(rx.err.overflow) | d.get(rx.err.frame) | d.get(rx.err.parity)))
            if n in senders:
                senders[n].step()
        clk.tick(due)
    for n, s in senders.items():
        expect_eq(s.i, len(s.words), "words accepted by the transmitter in domain {} ({})".format(n, kind))
    for n, (rx, got) in receivers.items():
        expect_eq([x for x, _ in got], want[n], "words received in domain {} ({}, {} bits, parity {}, divisors {}, rates differ by {:.2f}%)".format(n, kind, bits, parity, case["div"], dev * 100))
        expect(not any(e for _, e in got), "errors reported in domain {}: {}", n, got)
    rec.nontrivial(len(want["b"]) > 1)
    rec.label(kind, parity, "within a clock" if dev < .0005 else "rates differ")


def strategy(tier):
    gaps = st.lists(st.sampled_from([0, 0, 0, 1, 30, 300]), min_size=1, max_size=4)
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["serial", "serial", "serial", "uart", "multi"]), "bits": st.one_of(st.just(8), st.integers(5, 9)), "parity": st.sampled_from(["none", "mark", "space", "even", "odd"]),
        "bytes": st.integers(1, 4), "div": st.tuples(st.integers(12, 40), st.integers(12, 40)).map(list), "clock": st.integers(40, 300), "off": st.one_of(st.just(0), st.sampled_from([-20, 20]), st.integers(-20, 20)),
        "phase": st.lists(st.integers(0, 300), min_size=2, max_size=2), "words": st.lists(st.lists(values(32), min_size=2, max_size=8), min_size=2, max_size=2),
        "gaps": st.lists(gaps, min_size=2, max_size=2)})


CHECKS = [Check("links", run, strategy, quick=1200, shards=8, rule="two or more words are received")]
