from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import Sink, bitpat

ID = "S01"
TITLE = "The constant stream generator emits exactly the requested window"
STATEMENT = (
    "For every constant data, word width and endianness, start position, byte limit, clock domain and consumer back-pressure: each start strobe given while idle with a nonzero limit produces exactly one packet consisting of the data words "
    "from the start position (clamped to the last word) to the end of the data or until the byte limit is reached, with first on exactly the first word, last on exactly the last word, "
    "the byte-valid mask of a wide little-endian stream full except for the last word where it covers exactly the remaining bytes, and every offered word held unchanged until accepted. "
    "Done pulses for exactly one cycle per packet, after its last word was accepted; without a start, with a zero limit, or from strobes during a packet nothing extra is emitted, "
    "and changing the start position during a packet has no effect. The reported output length of a byte-wide stream is the lesser of the data length and the limit."
)
QUANTIFIER = {"over": ["inputs", "histories", "configurations", "schedules"],
              "text": "all data, widths, start positions, limits and ready patterns, over repeated transmissions"}
WHY = ("Tests use one string, mostly an always-ready consumer and two limits; start positions other than one value, non-multiple lengths, repeated packets and stalls on the last word are not covered.")
ANCHORS = {"files": ["amlib/stream/generator.py"],
           "mechanism": [{"name": "ConstantStreamGenerator", "where": "amlib/stream/generator.py"}],
           "observe_at": ["stream", "done", "output_length"]}
TECHNIQUE = "model-based property testing with random back-pressure schedules"
LEVEL_NOTE = ("Data up to 40 words, widths 4-64, 1-3 packets per run, cyclic random ready patterns. The limit is held stable during a packet. Trusts Amaranth's simulator.")
RULE = "Non-trivial: at least one packet of two or more words, or a limited/partial last word, with at least one stalled cycle."


def words_of(case):
    dw = case["dw"]
    if case["bytes"]:
        data = (bytearray if case["array"] else bytes)(case["data"])
        if dw == 8:
            return data, list(data)
        n = dw // 8
        return data, [int.from_bytes(data[i:i + n], case["endian"]) for i in range(0, len(data), n)]
    data = [x & ((1 << dw) - 1) for x in case["data"]]
    return data, data


def run(case, rec):
    from amlib.stream import StreamInterface
    from amlib.stream.generator import ConstantStreamGenerator
    from ..sim import Dut
    dw, dom, vw = case["dw"], case["domain"], case["vw"]
    data, words = words_of(case)
    nbytes = (dw + 7) // 8

    class Wide(StreamInterface):
        def __init__(self, payload_width=dw):
            super().__init__(payload_width=payload_width, valid_width=vw)
    kw = {}
    if vw > 1:
        kw["stream_type"] = Wide
    if vw == 1 and (dw != 8 or case["explicit"]):
        kw["data_width"] = dw
    if dom != "sync":
        kw["domain"] = dom
    if case["endian"] != "little":
        kw["data_endianness"] = case["endian"]
    mlw = case["mlw"]
    if mlw:
        kw["max_length_width"] = mlw
    g = ConstantStreamGenerator(data if case["bytes"] or case["aslist"] else tuple(data), **kw)
    d = Dut(g)
    s = g.stream
    spw = len(g.start_position)
    sink = Sink(d, s, case["ready"], what="generator")
    dones = []
    last_t = -10
    stalled = False

    def cycle(start, pos, lim):
        nonlocal stalled
        d.set(g.start, start)
        d.set(g.start_position, pos)
        if mlw:
            d.set(g.max_length, lim)
        sink.pre()
        v = sink.post()
        if v and not sink.ready:
            stalled = True
        if mlw and (dw == 8 or case["bytes"]):
            expect_eq(d.get(g.output_length), min(len(data), lim), "output_length with limit {}".format(lim))
        dn = d.get(g.done)
        if dn:
            dones.append(d.cycle)
        d.tick(dom)
        return v, dn

    for pk in case["packets"]:
        lim = (pk["limit"] % (1 << mlw)) if mlw else None
        pos = pk["pos"] & ((1 << spw) - 1)
        for _ in range(pk["gap"]):
            v, dn = cycle(0, pos if pk["early"] else 0, lim)
            expect(not v, "valid without a start strobe")
            expect(not dn, "done without a transmission")
        # expected packet
        p = min(pos, len(words) - 1)
        exp = []
        left = lim if mlw else 10 ** 9
        while p < len(words) and left > 0:
            w = words[p]
            avail = nbytes
            if vw > 1 and p == len(words) - 1 and case["bytes"] and len(data) % nbytes:
                avail = len(data) % nbytes
            mask = (1 << min(avail, left)) - 1 if vw > 1 else 1
            exp.append((w, mask))
            left -= nbytes
            p += 1
        n0 = len(sink.words)
        d0 = len(dones)
        v, dn = cycle(1, pos, lim)
        expect(not v and not dn, "output in the start cycle")
        guard = 60 + (len(exp) + 2) * (len(case["ready"]) + 1)
        t = 0
        if exp:
            while len(dones) == d0:
                busy = len(sink.words) - n0 < len(exp) and (sink.pending is not None)
                # a start while busy, or held until the transmission is over
                spur = int(pk["spurious"] == 2 or bool(pk["spurious"]) and busy and t % 3 == 1)
                if spur:
                    rec.label("start while busy")
                cycle(spur, (pos + t) if pk["move"] else pos, lim)
                t += 1
                got = len(sink.words) - n0
                expect(got <= len(exp), "more words than requested: {} of {}", got, len(exp))
                if len(dones) > d0:
                    expect_eq(got, len(exp), "words accepted when done was signalled")
                expect(t < guard, "transmission of {} words did not finish ({} accepted)", len(exp), got)
        else:
            rec.label("zero limit")
        for _ in range(3 if not pk["tight"] else 0):
            v, dn = cycle(0, pos, lim)
            expect(not v, "extra word after the packet")
            expect(not dn, "done pulsed again")
        got = sink.words[n0:]
        for i, (w, mask) in enumerate(exp):
            ctx = " of word {}/{} (start {}, limit {}, {} words of {} bits)".format(i, len(exp), pos, lim, len(words), dw)
            expect_eq(got[i]["payload"], w, "payload" + ctx)
            expect_eq(got[i]["first"], int(i == 0), "first" + ctx)
            expect_eq(got[i]["last"], int(i == len(exp) - 1), "last" + ctx)
            expect_eq(got[i]["valid"], mask, "valid mask" + ctx)
        if len(exp) >= 2 and stalled:
            rec.nontrivial()
        if exp and mlw and lim < len(data):
            rec.label("limited")
        if pos:
            rec.label("start>0")
        if pos >= len(words):
            rec.label("start clamped")
    rec.label("dw{}".format(dw), "vw>1" if vw > 1 else "vw1", "mlw" if mlw else "no limit", dom)


def strategy(tier):
    packet = st.fixed_dictionaries({
        "gap": st.integers(0, 3), "pos": st.one_of(st.just(0), st.integers(0, 63), st.integers(0, 1023)), "limit": st.one_of(st.integers(0, 70), st.integers(0, 12), st.integers(0, 65535)),
        "early": st.booleans(), "move": st.booleans(), "spurious": st.integers(0, 2), "tight": st.booleans()})

    def long(elem):
        # short seeds, repeated with variations in words_of
        return st.tuples(st.lists(elem, min_size=1, max_size=8), st.sampled_from([100, 128, 129, 255, 256, 257, 300, 520])).map(lambda t: [(t[0] * 600)[i] ^ (i & 1) ^ (i >> 7 & 1) for i in range(t[1])])

    def by_shape(shape):
        dw, isbytes, vw = shape
        elem = st.integers(0, 255) if isbytes else st.integers(0, (1 << dw) - 1)
        return st.fixed_dictionaries({
            "dw": st.just(dw), "bytes": st.just(isbytes), "vw": st.just(vw),
            "explicit": st.booleans(), "aslist": st.just(True),
            "data": st.one_of(*[st.integers(1, 14).flatmap(lambda k: st.lists(elem, min_size=k, max_size=k * 3))] * 19, long(elem)),
            "array": st.sampled_from([0, 0, 1]),
            "endian": st.sampled_from(["little", "big"]) if isbytes and vw == 1 and dw > 8 else st.just("little"),
            "mlw": st.sampled_from([0, 3, 5, 6, 16]), "domain": st.sampled_from(["sync", "sync", "usb"]),
            "ready": bitpat(), "packets": st.lists(packet, min_size=1, max_size=3)})
    shapes = st.sampled_from([(8, True, 1)] * 3 + [(8, False, 1), (4, False, 1), (12, False, 1), (16, True, 1), (24, True, 1), (32, True, 1),
                              (32, True, 4), (32, True, 4), (16, True, 2), (64, True, 8), (24, True, 3), (32, False, 4), (32, False, 1)])
    return shapes.flatmap(by_shape)


CHECKS = [Check("window", run, strategy, quick=12000, shards=8, rule="random data, width, window, limit and ready pattern")]
