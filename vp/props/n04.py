"""Random networks of stream components."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import Pat, Sink, bitpat

ID = "N04"
TITLE = "Networks of stream components deliver every packet's words unchanged"
STATEMENT = (
    "For every network of the library's stream sources, arbiters, first-in-first-out stages and direct connections, in one or two clock domains, and for every schedule of the producers and the consumer: what arrives at the end from each source is exactly what that source was asked to send, in its order, with its first and last flags, and nothing else. "
    "Every word offered at the end stays offered until it is accepted, everything arrives in bounded time, and every source reports each completion once."
)
QUANTIFIER = {"over": ["configurations", "inputs", "schedules", "histories"],
              "text": "all trees of up to 6 sources and three levels, all data and packet lengths, repeated starts, valid and ready patterns, clock ratios"}
WHY = "Streams exist to be connected to each other; no test connects any two stream components."
ANCHORS = {"files": ["amlib/stream/__init__.py", "amlib/stream/generator.py", "amlib/stream/arbiter.py", "amlib/stream/uart.py"],
           "mechanism": [{"name": "connect_stream_to_fifo, connect_fifo_to_stream, StreamInterface.stream_eq", "where": "amlib/stream/__init__.py"},
                         {"name": "ConstantStreamGenerator, StreamSerializer, PacketListStreamer", "where": "amlib/stream/generator.py"}, {"name": "StreamArbiter", "where": "amlib/stream/arbiter.py"}],
           "observe_at": ["the stream, or the serial line, at the root of the network", "done of each source"]}
TECHNIQUE = "property testing of generated networks of components against the sequences put in"
LEVEL_NOTE = "Payloads of 6-16 bits, packets of up to 6 words, up to 4 starts per source, arbiters of up to 4 inputs, FIFOs of up to 5 words. Trusts Amaranth's FIFOs and simulator."

TAG = 3


class Driven:
    """words offered by the environment"""
    def __init__(self, tag, w, node, stream, dom):
        self.tag, self.dom, self.s = tag, dom, stream
        lens, n = node["lens"], 0
        self.words = []
        for length in lens:
            for i in range(length):
                self.words.append((value(tag, w, node["seed"], n), int(i == 0), int(i == length - 1)))
                n += 1
        self.want = list(self.words)
        self.pat, self.i, self.on = Pat(node["pat"]), 0, False

    def drive(self, d):
        if not self.on and self.i < len(self.words):
            self.on = bool(self.pat.next())
        d.set(self.s.valid, int(self.on))
        if self.on:
            for f, v in zip(("payload", "first", "last"), self.words[self.i]):
                d.set(getattr(self.s, f), v)

    def after(self, d):
        if self.on and d.get(self.s.ready):
            self.i += 1
            self.on = False

    def finished(self):
        return self.i == len(self.words)


class Started:
    """a component which sends `once` at each start"""
    def __init__(self, tag, node, unit, stream, dom, once, data=None):
        self.tag, self.dom, self.u, self.once, self.data = tag, dom, unit, once, data
        self.starts, self.gap = node["starts"], node["gap"]
        self.want = once * self.starts
        self.left, self.wait, self.busy, self.dones = self.starts, node["gap"], False, 0
        self.ready = 4

    def drive(self, d):
        if self.data:
            for s, v in self.data:
                d.set(s, v)
        self.ready = max(0, self.ready - 1)     # the ROM is read once before the first start
        self.go = not self.busy and self.left > 0 and self.wait == 0 and not self.ready
        d.set(self.u.start, int(self.go))

    def after(self, d):
        if d.get(self.u.done):
            self.dones += 1
            expect(self.busy, "a source reports completion without having been started")
            self.busy, self.wait = False, self.gap + 1
        elif self.go:
            self.left -= 1
            self.busy = True
        elif self.wait:
            self.wait -= 1

    def finished(self):
        return self.dones == self.starts


def value(tag, w, seed, n):
    low = (1 << w - TAG) - 1
    return tag << w - TAG | (seed * 7919 + n * 40503 >> 3 ^ n) & low


def build(top, w):
    from amaranth import Module, DomainRenamer
    from amaranth.lib.fifo import SyncFIFO, SyncFIFOBuffered, AsyncFIFO
    from amlib.stream import StreamInterface, connect_fifo_to_stream, connect_stream_to_fifo
    from amlib.stream.arbiter import StreamArbiter
    from amlib.stream.generator import ConstantStreamGenerator, StreamSerializer, PacketListStreamer
    m = Module()
    sources = []
    stats = {"arbiters": 0, "fifos": 0, "crossed": 0}

    def new():
        return StreamInterface(payload_width=w)

    def add(x, dom):
        m.submodules += x if dom == "sync" else DomainRenamer(dom)(x)

    def make(n, dom):
        t = n["t"]
        if t in ("drive", "const", "serial", "list") and len(sources) == 1 << TAG:
            return None
        if t == "drive":
            s = new()
            sources.append(Driven(len(sources), w, n, s, dom))
            return s
        if t == "const" or t == "serial":
            tag = len(sources)
            data = [value(tag, w, n["seed"], i) for i in range(n["lens"][0])]
            once = [(x, int(i == 0), int(i == len(data) - 1)) for i, x in enumerate(data)]
            kw = {"domain": dom} if dom != "sync" or n["seed"] & 1 else {}
            if t == "const":
                u = ConstantStreamGenerator(data, data_width=w, **kw)
                ports = None
            else:
                u = StreamSerializer(len(data), data_width=w, **kw)
                ports = list(zip(u.data, data))
            m.submodules += u
            sources.append(Started(tag, n, u, u.stream, dom, once, ports))
            return u.stream
        if t == "list":
            tag = len(sources)
            k, packets, once = 0, [], []
            for length in n["lens"]:
                packets.append([value(tag, w, n["seed"], k + i) for i in range(length)])
                once += [(x, int(i == 0), int(i == length - 1)) for i, x in enumerate(packets[-1])]
                k += length
            u = PacketListStreamer(packets, data_width=w)
            add(u, dom)
            sources.append(Started(tag, n, u, u.stream, dom, once))
            return u.stream
        if t == "arb":
            kids = [x for x in (make(k, dom) for k in n["kids"]) if x is not None]
            if not kids:
                return None
            a = StreamArbiter(stream_type=new, **({"domain": dom} if dom != "sync" else {}))
            for k in kids:
                a.add_stream(k)
            m.submodules += a
            stats["arbiters"] += len(kids) > 1
            return a.source
        if t == "wire":
            s = make(n["kid"], dom)
            if s is None:
                return None
            o = new()
            m.d.comb += {0: lambda: o.stream_eq(s), 1: lambda: s.attach(o), 2: lambda: s.connect(o)}[n["how"]]()
            return o
        # first-in-first-out stages, perhaps between two domains
        cross = t == "cross"
        other = {"sync": "b", "b": "sync"}[dom] if cross else dom
        s = make(n["kid"], other)
        if s is None:
            return None
        kw = dict(width=w + 2, depth=n["depth"])
        if cross:
            f = AsyncFIFO(w_domain=other, r_domain=dom, **dict(kw, depth=max(2, n["depth"])))
            m.submodules += f
        else:
            f = SyncFIFOBuffered(**kw) if n["buffered"] else SyncFIFO(**kw)
            add(f, dom)
        o = new()
        m.d.comb += connect_stream_to_fifo(s, f, firstBit=w + n["swap"], lastBit=w + 1 - n["swap"])
        m.d.comb += connect_fifo_to_stream(f, o, firstBit=w + n["swap"], lastBit=w + 1 - n["swap"])
        stats["crossed" if cross else "fifos"] += 1
        return o
    out = make(top, "sync")
    return m, out, sources, stats


def run(case, rec):
    from amaranth import Record, Signal
    from amlib.stream.uart import UARTTransmitter
    from amlib.io.serial import AsyncSerialRX
    from ..sim import Dut, Clocks
    uart = case["uart"]
    w = 8 if uart else case["w"]
    m, out, sources, stats = build(case["top"], w)
    x, y = Signal(), Signal()
    m.d.sync += x.eq(~x)
    m.d.b += y.eq(~y)
    rx = None
    if uart:
        m.submodules.tx = tx = UARTTransmitter(divisor=6)
        pins = Record([("rx", [("i", 1)])])
        m.submodules.rx = rx = AsyncSerialRX(divisor=6, pins=pins)
        m.d.comb += [tx.stream.stream_eq(out), pins.rx.i.eq(tx.tx)]
    d = Dut(m)
    got = []
    sink = None
    if uart:
        d.set(rx.ack, 1)
    else:
        sink = Sink(d, out, case["ready"], what="the end of the network")
    clk = Clocks(d, {"sync": 12, "b": case["clock"]}, {"b": case["phase"]})
    total = sum(len(s.want) for s in sources)
    per = 64 if uart else len(case["ready"]) + 1
    slow = max([1] + [len(s.pat.pat) for s in sources if isinstance(s, Driven)])
    limit = 12 * max(1, case["clock"] / 12) * (100 + total * (per + slow + 14) + sum(getattr(s, "starts", 0) * 40 for s in sources))
    rest = None
    while rest is None or clk.now < rest:
        due = clk.step()
        for s in sources:
            if s.dom in due:
                s.drive(d)
        if sink and "sync" in due:
            sink.pre()
            sink.post()
        if uart and "sync" in due and d.get(rx.rdy):
            got.append(d.get(rx.data))
        for s in sources:
            if s.dom in due:
                s.after(d)
        if sink:
            got = sink.words
        clk.tick(due)
        if rest is None and len(got) >= total and all(s.finished() for s in sources):
            rest = clk.now + 40 * max(12, case["clock"]) + (1200 if uart else 0)
        expect(rest is not None or clk.now < limit, "after {} time units {} of {} words have arrived; unfinished sources: {}", clk.now, len(got), total, [s.tag for s in sources if not s.finished()])
    for s in sources:
        if uart:
            expect_eq([x for x in got if x >> w - TAG == s.tag], [p for p, _, _ in s.want], "octets on the serial line from source {}".format(s.tag))
        else:
            expect_eq([(x["payload"], x["first"], x["last"]) for x in got if x["payload"] >> w - TAG == s.tag], s.want, "words from source {}".format(s.tag))
    expect_eq(len(got), total, "number of words arriving")
    rec.nontrivial(len(sources) > 1 and stats["arbiters"] and (stats["fifos"] or stats["crossed"]))
    rec.label("serial line" if uart else "stream", "{} sources".format(len(sources)))
    if stats["crossed"]:
        rec.label("two domains")


def strategy(tier):
    lens = st.lists(st.integers(1, 6), min_size=1, max_size=4)
    common = {"lens": lens, "seed": st.integers(0, 255)}
    start = {"starts": st.sampled_from([1, 1, 2, 4]), "gap": st.sampled_from([0, 0, 1, 9])}
    leaf = st.one_of(
        st.fixed_dictionaries({"t": st.just("drive"), "pat": bitpat(6), **common}),
        st.fixed_dictionaries({"t": st.sampled_from(["const", "serial", "list"]), **common, **start}))

    def fifo(kid):
        return st.fixed_dictionaries({"t": st.sampled_from(["fifo", "fifo", "cross"]), "kid": kid, "depth": st.integers(1, 5), "buffered": st.booleans(), "swap": st.integers(0, 1)})

    def wire(kid):
        return st.fixed_dictionaries({"t": st.just("wire"), "kid": kid, "how": st.integers(0, 2)})

    def arb(kid):
        return st.fixed_dictionaries({"t": st.just("arb"), "kids": st.lists(kid, min_size=1, max_size=4)})
    low = st.one_of(leaf, leaf, fifo(leaf), wire(leaf))
    mid = arb(low)
    high = arb(st.one_of(low, mid, fifo(mid), wire(mid)))
    top = st.one_of(mid, high, fifo(mid), fifo(high), wire(fifo(mid)), fifo(leaf))
    return st.fixed_dictionaries({"top": top, "w": st.one_of(st.just(8), st.integers(6, 16)), "uart": st.sampled_from([0, 0, 0, 0, 1]), "ready": bitpat(8),
                                  "clock": st.one_of(st.just(12), st.integers(3, 50)), "phase": st.integers(0, 49)})


CHECKS = [Check("network", run, strategy, quick=600, shards=8, rule="two sources are merged and at least one FIFO is passed")]
