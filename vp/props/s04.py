"""Stream interface connections and FIFO adaptors."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import Pat, Sink, Source, bitpat, wide, make

ID = "S04"
TITLE = "Stream connections and FIFO bridges carry every field, word and frame"
STATEMENT = (
    "For every payload width, valid width and set of extra fields, connecting two streams (in either calling style) forwards valid, first, last, payload and every extra field downstream and ready upstream, leaves omitted fields undriven, and tapping observes all of them without driving the tapped stream. "
    "A stream bridged into a FIFO and back out, with any layout of the framing bits above the payload, delivers exactly the accepted words with their framing, in order, under every producer and consumer schedule, never losing or duplicating one when the FIFO is full or empty."
)
QUANTIFIER = {"over": ["configurations", "inputs", "schedules"],
              "text": "all stream shapes, omit sets and field values; all FIFO depths, bit layouts and stall patterns"}
WHY = "Neither the connection helpers nor the FIFO bridges have a test of their own; extra fields, omission and taps are never exercised."
ANCHORS = {"files": ["amlib/stream/__init__.py"],
           "mechanism": [{"name": "StreamInterface.attach/connect/stream_eq/tap, connect_fifo_to_stream, connect_stream_to_fifo", "where": "amlib/stream/__init__.py"}],
           "observe_at": ["downstream fields", "upstream ready"]}
TECHNIQUE = "property testing of generated connection topologies and FIFO histories"
LEVEL_NOTE = "Payloads 1-64 bits, valid 1-8 bits, up to 3 extra fields, FIFO depths 1-9. Trusts Amaranth's Record, FIFO and simulator."
RULE = "Non-trivial: extra fields or an omission (connect); the FIFO both filled up and drained (bridge)."


def run_connect(case, rec):
    from amaranth import Module, Signal
    from amlib.stream import StreamInterface
    from ..sim import Dut
    extra = [("x{}".format(i), w) for i, w in enumerate(case["extra"])]
    kw = dict(payload_width=case["pw"], valid_width=case["vw"])
    if extra:
        kw["extra_fields"] = extra
    elif case["empty_extra"]:
        kw["extra_fields"] = []
    names = ["valid", "first", "last", "payload"] + [n for n, _ in extra]
    widths = [case["vw"], 1, 1, case["pw"]] + [w for _, w in extra]
    style = case["style"]
    omit = set() if style == "tap" or style == "tap_ready" else {(names + ["ready"])[i % (len(names) + 1)] for i in case["omit"]}
    m = Module()
    x = Signal()
    m.d.sync += x.eq(~x)
    chain = [StreamInterface(**kw) for _ in range(case["hops"] + 1)]
    om = (omit if case["omit_set"] else sorted(omit)) if omit or case["omit_set"] else None
    for a, b in zip(chain, chain[1:]):
        k = {} if om is None else {"omit": om}
        if style == "attach":
            m.d.comb += a.attach(b, **k)
        elif style == "connect":
            m.d.comb += a.connect(b, **k)
        elif style == "stream_eq":
            m.d.comb += b.stream_eq(a, **k)
        elif style == "tap":
            m.d.comb += b.tap(a)
        else:
            m.d.comb += b.tap(a, tap_ready=True)
    d = Dut(m)
    src, dst = chain[0], chain[-1]
    if hasattr(src, "data"):
        expect(src.data is src.payload, "data is not an alias of payload")
    for row in case["rows"]:
        vals = {}
        for i, (n, w) in enumerate(zip(names, widths)):
            vals[n] = (row["v"] * (i * 2 + 3) + (row["v"] >> i)) & ((1 << w) - 1)
            d.set(src[n], vals[n])
        up = style not in ("tap", "tap_ready") and "ready" not in omit
        # ready: driven by the consumer, or (for taps) observed from the source side
        if style in ("tap", "tap_ready"):
            d.set(src.ready, row["r"])
            if style == "tap":
                d.set(dst.ready, row["r2"])
        else:
            d.set(dst.ready, row["r"])
            if not up:
                d.set(src.ready, row["r2"])
        for n in names:
            want = 0 if n in omit else vals[n]
            expect_eq(d.get(dst[n]), want, "field {} after {} ({} hops, omitting {})".format(n, style, case["hops"], sorted(omit)))
            expect_eq(d.get(src[n]), vals[n], "source field {}".format(n))
        if style == "tap":
            expect_eq((d.get(src.ready), d.get(dst.ready)), (row["r"], row["r2"]), "ready of tapped/tapping stream")
        elif style == "tap_ready":
            expect_eq((d.get(src.ready), d.get(dst.ready)), (row["r"], row["r"]), "ready of tapped/tapping stream")
        elif up:
            expect_eq(d.get(src.ready), row["r"], "ready at the source")
        else:
            expect_eq(d.get(src.ready), row["r2"], "ready must be left undriven when omitted")
        d.tick()
    rec.nontrivial(bool(extra or omit))
    rec.label(style, "extra" if extra else "no extra", "omit" if omit else "no omit")


def st_connect(tier):
    return st.fixed_dictionaries({
        "pw": st.sampled_from([8, 8, 1, 16, 32, 64, 5]), "vw": st.sampled_from([1, 1, 2, 4, 8]),
        "extra": st.one_of(st.lists(st.integers(1, 9), max_size=3), st.lists(st.integers(1, 9), max_size=7)), "empty_extra": st.booleans(),
        "style": st.sampled_from(["attach", "connect", "stream_eq", "tap", "tap_ready"]),
        "omit": st.lists(st.integers(0, 7), max_size=3), "omit_set": st.booleans(), "hops": st.sampled_from([1, 1, 2, 3]),
        "rows": st.lists(st.fixed_dictionaries({"v": wide(70), "r": st.integers(0, 1), "r2": st.integers(0, 1)}), min_size=1, max_size=4)})


def run_bridge(case, rec):
    from amaranth import Module
    from amaranth.lib.fifo import SyncFIFO, SyncFIFOBuffered
    from amlib.stream import StreamInterface, connect_fifo_to_stream, connect_stream_to_fifo
    from ..sim import Dut, cached_dut
    pw, depth, kind, layout = case["pw"], case["depth"], case["fifo"], case["layout"]
    fb = {"none": None, "first": pw, "last": None, "fl": pw, "lf": pw + 1, "gap": pw + 2}[layout]
    lb = {"none": None, "first": None, "last": pw, "fl": pw + 1, "lf": pw, "gap": pw + 1}[layout]
    width = max([pw] + [b + 1 for b in (fb, lb) if b is not None])

    def build():
        m = Module()
        f = m.submodules.fifo = (SyncFIFO if kind == "plain" else SyncFIFOBuffered)(width=width, depth=depth)
        a, b = make(StreamInterface, payload_width=pw), StreamInterface(payload_width=pw)
        k = {}
        if fb is not None:
            k["firstBit"] = fb
        if lb is not None:
            k["lastBit"] = lb
        m.d.comb += connect_stream_to_fifo(a, f, **k)
        m.d.comb += connect_fifo_to_stream(f, b, **k)
        d = Dut(m)
        d.a, d.b = a, b
        return d
    d = cached_dut(("s04", pw, depth, kind, layout), build)
    mask = (1 << pw) - 1
    words = [{"payload": (w * 2654435761 >> 2) & mask, "first": w & 1, "last": w >> 1 & 1} for w in case["words"]]
    src = Source(d, d.a, words, case["valid"], idle={"payload": mask, "first": 1, "last": 1})
    sink = Sink(d, d.b, case["ready"], what="FIFO bridge")
    t = level = 0
    full = empty = False
    while len(sink.words) < len(words):
        src.pre()
        sink.pre()
        acc = src.post()
        sink.post()
        level += int(acc) - int(sink.just is not None)
        full |= src.offered is not False and not acc
        empty |= level == 0
        expect(len(sink.words) <= src.i, "a word was delivered before it was accepted")
        d.tick()
        t += 1
        expect(t < 40 + (len(words) + depth + 4) * (len(case["valid"]) + len(case["ready"]) + 2), "stalled: {} of {} words delivered", len(sink.words), len(words))
    for _ in range(4):
        src.pre()
        sink.pre(1)
        src.post()
        sink.post()
        d.tick()
    got = [(w["payload"], w["first"], w["last"]) for w in sink.words]
    want = [(w["payload"], w["first"] if fb is not None else 0, w["last"] if lb is not None else 0) for w in words]
    expect_eq(got, want, "words through the FIFO")
    rec.nontrivial(full and len(words) > depth)
    rec.label(layout, kind, "overfull" if full else "never full")


def st_bridge(tier):
    return st.fixed_dictionaries({
        "pw": st.sampled_from([8, 8, 1, 16, 5, 32, 48]), "depth": st.integers(1, 9), "fifo": st.sampled_from(["plain", "buffered"]),
        "layout": st.sampled_from(["none", "first", "last", "fl", "fl", "lf", "gap"]),
        "words": st.lists(wide(50), min_size=1, max_size=40), "valid": bitpat(), "ready": bitpat()})


CHECKS = [Check("connect", run_connect, st_connect, quick=10000, shards=4, rule="random stream shapes, calling styles, omissions, chains"),
          Check("fifo_bridge", run_bridge, st_bridge, quick=10000, shards=4, rule="random words through stream->FIFO->stream")]
