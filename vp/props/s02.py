from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import Sink, bitpat, packetize, wide

ID = "S02"
TITLE = "Array and packet-list streamers emit every word exactly once, framed"
STATEMENT = (
    "For every array content, length, length limit, word width, domain and consumer back-pressure, each start of the array serializer with a nonzero limit emits exactly the first min(length, limit) array words in order, "
    "first and last set on exactly the first and last of them, holding each word until accepted, and then pulses done once. "
    "For every list of non-empty packets and every word width, each start of the packet-list streamer (a cycle or more after reset) emits all packets in order, each complete and framed by first and last, then pulses done exactly once and can be started again with the same result."
)
QUANTIFIER = {"over": ["inputs", "histories", "configurations", "schedules"],
              "text": "all contents, packet length combinations, limits, widths and ready patterns, over repeated transmissions"}
WHY = "The serializer has no test; the packet streamer is tested with one packet list whose total length happens not to be a power of two, and bytes only."
ANCHORS = {"files": ["amlib/stream/generator.py"],
           "mechanism": [{"name": "StreamSerializer, PacketListStreamer", "where": "amlib/stream/generator.py"}],
           "observe_at": ["stream", "done"]}
TECHNIQUE = "model-based property testing with random back-pressure schedules"
LEVEL_NOTE = "Arrays up to 17 words, up to 8 packets of 1-12 words, widths 4-32; the limit and array are held stable during a packet. Trusts Amaranth's simulator."
RULE = "Non-trivial: at least two words and one stalled cycle (serializer); at least two packets (packet list)."


def run_ser(case, rec):
    from amlib.stream.generator import StreamSerializer
    from ..sim import cached_dut, Dut
    n, dw, mlw, dom = case["n"], case["dw"], case["mlw"], case["domain"]

    def build():
        kw = {}
        if dw != 8:
            kw["data_width"] = dw
        if mlw:
            kw["max_length_width"] = mlw
        if dom != "sync":
            kw["domain"] = dom
        g = StreamSerializer(n, **kw)
        d = Dut(g)
        d.g = g
        return d
    d = cached_dut(("s02", n, dw, mlw, dom), build)
    g, s = d.g, d.g.stream
    sink = Sink(d, s, case["ready"], what="serializer")
    mask = (1 << dw) - 1
    for pk in case["packets"]:
        lim = pk["limit"] % (1 << mlw) if mlw else n
        data = [(x * 2654435761 + i * pk["limit"]) & mask for i, x in enumerate(pk["data"][:n] + [7] * (n - len(pk["data"])))]
        exp = data[:min(n, lim)]

        def cycle(start):
            d.set(g.start, start)
            if mlw:
                d.set(g.max_length, lim)
            for i in range(n):
                d.set(g.data[i], data[i])
            sink.pre()
            v = sink.post()
            dn = d.get(g.done)
            d.tick(dom)
            return v, dn
        for _ in range(pk["gap"]):
            v, dn = cycle(0)
            expect(not v and not dn, "activity without a start")
        n0 = len(sink.words)
        v, dn = cycle(1)
        expect(not v and not dn, "activity in the start cycle")
        t = dones = 0
        stalled = False
        if exp:
            while not dones:
                busy = sink.pending is not None
                v, dn = cycle(int(pk["spurious"] == 2 or bool(busy and pk["spurious"])))
                stalled |= v and not sink.ready
                dones += dn
                t += 1
                expect(len(sink.words) - n0 <= len(exp), "too many words")
                expect(t < 60 + (len(exp) + 2) * (len(case["ready"]) + 1), "serializer did not finish")
            expect_eq(len(sink.words) - n0, len(exp), "words accepted when done pulsed")
        for _ in range(0 if pk["tight"] else 3):
            v, dn = cycle(0)
            expect(not v and not dn, "activity after done")
        got = sink.words[n0:]
        expect_eq([w["payload"] for w in got], exp, "payloads (length {}, limit {})".format(n, lim))
        expect_eq([w["first"] for w in got], [int(i == 0) for i in range(len(exp))], "first flags")
        expect_eq([w["last"] for w in got], [int(i == len(exp) - 1) for i in range(len(exp))], "last flags")
        rec.nontrivial(len(exp) >= 2 and bool(stalled))
        rec.label("limited" if lim < n else "full", "n=1" if n == 1 else "n>1")


def st_ser(tier):
    pk = st.fixed_dictionaries({"gap": st.integers(0, 2), "limit": st.integers(0, 40), "spurious": st.integers(0, 2), "tight": st.booleans(),
                                "data": st.lists(wide(32), max_size=17)})
    return st.fixed_dictionaries({"n": st.one_of(st.integers(1, 8), st.sampled_from([1, 3, 4, 8, 9, 16, 17])), "dw": st.sampled_from([8, 4, 16, 32]),
                                  "mlw": st.sampled_from([0, 2, 4, 5, 8]), "domain": st.sampled_from(["sync", "sync", "usb"]),
                                  "ready": bitpat(), "packets": st.lists(pk, min_size=1, max_size=3)})


def run_pkt(case, rec):
    from amlib.stream.generator import PacketListStreamer
    from amlib.stream import StreamInterface
    from ..sim import Dut
    dw = case["dw"]
    mask = (1 << dw) - 1
    pkts = [[x & mask for x in p] for p in case["pkts"]]
    kw = {}
    if dw != 8 or case["explicit"]:
        kw["data_width"] = dw

    class Sub(StreamInterface):
        def __init__(self, payload_width=8):
            super().__init__(payload_width=payload_width)
    if case["subclass"]:
        kw["stream_type"] = Sub
    arg = [bytes(p) for p in pkts] if case["bytes"] and dw <= 8 else pkts
    g = PacketListStreamer(arg, **kw)
    d = Dut(g)
    s = g.stream
    expect_eq(len(s.payload), dw, "payload width of the output stream")
    sink = Sink(d, s, case["ready"], what="packet list")
    total = sum(map(len, pkts))
    d.tick()
    for rep, (gap, held) in enumerate(case["gaps"]):
        def cycle(start):
            d.set(g.start, start)
            sink.pre()
            v = sink.post()
            dn = d.get(g.done)
            d.tick()
            return v, dn
        for _ in range(gap):
            v, dn = cycle(0)
            expect(not v and not dn, "activity without a start")
        n0 = len(sink.words)
        cycle(1)
        dones = t = 0
        while not dones:
            v, dn = cycle(held)
            dones += dn
            t += 1
            expect(len(sink.words) - n0 <= total, "more words than the packets contain")
            expect(t < 80 + (total + 4 * len(pkts) + 2) * (len(case["ready"]) + 1), "packet list of {} packets, {} words did not finish ({} words accepted)",
                   len(pkts), total, len(sink.words) - n0)
        expect_eq(len(sink.words) - n0, total, "words accepted when done pulsed (run {})".format(rep))
        got, rest = packetize(sink.words[n0:])
        expect(not rest, "last packet not terminated by last")
        expect_eq([[w["payload"] for w in p] for p in got], pkts, "packets (run {})".format(rep))
        if gap:
            v, dn = cycle(0)
            expect(not v and not dn, "activity after done")
    rec.nontrivial(len(pkts) >= 2)
    rec.label("total is a power of two" if total & (total - 1) == 0 else "total other", "dw{}".format(dw),
              "one packet" if len(pkts) == 1 else "packets", "repeated" if len(case["gaps"]) > 1 else "once")


def st_pkt(tier):
    pkt = st.one_of(st.lists(wide(32), min_size=1, max_size=4), st.lists(wide(32), min_size=1, max_size=12))
    return st.fixed_dictionaries({"pkts": st.one_of(*[st.lists(pkt, min_size=1, max_size=8)] * 9, st.lists(pkt, min_size=9, max_size=40)), "dw": st.sampled_from([8, 8, 8, 4, 10, 16, 32]),
                                  "bytes": st.booleans(), "explicit": st.booleans(), "subclass": st.booleans(),
                                  "ready": bitpat(), "gaps": st.lists(st.tuples(st.integers(0, 3), st.sampled_from([0, 0, 1])).map(list), min_size=1, max_size=3)})


CHECKS = [Check("serializer", run_ser, st_ser, quick=6000, shards=3, rule="random arrays, limits and ready patterns"),
          Check("packet_list", run_pkt, st_pkt, quick=6000, shards=5, rule="random packet lists, widths and ready patterns")]
