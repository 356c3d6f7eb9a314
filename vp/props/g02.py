"""StreamILA."""

import random

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import bitpat, Pat, Sink, make
from . import g01

ID = "G02"
TITLE = "The streaming logic analyzer sends every capture exactly once, framed"
STATEMENT = (
    "For every signal set, depth, pretrigger count, enable pattern and pair of capture and output clock domains, each trigger of an idle analyzer puts exactly one packet on the stream: the captured samples in order, zero-extended, the first and the last one flagged. "
    "No timing of the consumer, including one that waits for valid, nor any ratio of the two clocks, loses, repeats or changes a sample or stalls the transfer, and triggers before the packet is out are ignored."
)
QUANTIFIER = {"over": ["histories", "inputs", "configurations", "schedules"], "text": "signal sets, depths, domains with independent clocks, consumer patterns, repeated and premature triggers"}
WHY = "The test is excluded from the baseline, always ready, and covers a single clock domain and a single capture."
ANCHORS = {"files": ["amlib/debug/ila.py"], "mechanism": [{"name": "StreamILA", "where": "amlib/debug/ila.py"}],
           "observe_at": ["stream", "capturing", "complete"]}
TECHNIQUE = "stateful property testing with generated clock interleavings against a sample-sequence model"
LEVEL_NOTE = "1-4 signals up to 90 bits, depth 1-300, pretrigger 0-40, up to 3 captures, arbitrary interleavings of two clocks (no metastability). Trusts Amaranth's simulator and its asynchronous FIFO."


def build_sigs(shapes):
    from amaranth import Signal, Shape
    return [Signal(Shape(w, bool(sg)), name="s{}".format(i)) for i, (w, sg) in enumerate(shapes)]


def run(case, rec):
    from ..sim import Dut, cached_dut
    from amlib.debug.ila import StreamILA
    shapes = [tuple(x) for x in case["signals"]]
    depth, k, en = case["depth"], case["pre"], case["enable"]
    dom, odom = case["domains"]

    def build():
        sigs = build_sigs(shapes)
        kw = {}
        if dom != "sync":
            kw["domain"] = dom
        if odom:
            kw["o_domain"] = odom
        u = make(StreamILA, signals=sigs, sample_depth=depth, samples_pretrigger=k, with_enable=bool(en), **kw)
        d = Dut(u)
        d.u, d.sigs = u, sigs
        return d
    d = cached_dut(("g02", tuple(shapes), depth, k, en, dom, odom), build, limit=24)
    u = d.u
    crossing = bool(odom) and odom != dom
    if crossing:
        expect(odom in d.domains and dom in d.domains, "the design has clock domains {} but should have {} and {}".format(sorted(d.domains), dom, odom))
    width = sum(w for w, _ in shapes)
    expect_eq(u.bits_per_sample, 1 << (width - 1).bit_length(), "bits_per_sample")
    expect_eq(u.bytes_per_sample, -(-u.bits_per_sample // 8), "bytes_per_sample")
    hist = g01.History(d, u, d.sigs, shapes, k, en, case["pattern"], case["seed"])
    rng = hist.rng
    snk = Sink(d, u.stream, case["ready"], what="stream")
    wait = Pat(case["ready"])
    clocks = Pat(case["clocks"])
    busy = [0]

    def step(trigger):
        """one step: one of the clocks, or both, have an edge; returns whether the capture clock had one"""
        c = clocks.next() if crossing else 2
        if c != 1:
            hist.drive(trigger)
        else:
            d.set(u.trigger, 0)
        if c != 0:
            if case["waits"]:
                d.set(u.stream.ready, 0)
                snk.pre(force=1 if d.get(u.stream.valid) and wait.next() else 0)
            else:
                snk.pre()
            snk.post()
        if c == 2 and crossing:
            d.tick(dom, odom)
        else:
            d.tick(odom if c == 1 else dom)
        return c != 1

    lag = (18 if crossing else 0)
    total = packets = 0
    for cap in case["captures"]:
        for _ in range(cap["idle"]):
            step(0)
        expect_eq(len(snk.words), total, "words on the stream before the trigger")
        t0 = hist.t
        while not step(1):
            t0 = hist.t
        limit = (depth + 2 * k + 60) * (len(case["pattern"]) + 2 * len(case["ready"]) + 4) * (len(case["clocks"]) + 1)
        while len(snk.words) < total + depth:
            early = len(snk.words) < total + depth - lag
            step(early and rng.random() < cap["retrigger"] / 4)
            limit -= 1
            expect(limit > 0, "the transfer does not end: {} of {} samples sent".format(len(snk.words) - total, depth))
        words = snk.words[total:]
        for i, w in enumerate(words):
            expect_eq((w["first"], w["last"]), (int(i == 0), int(i == depth - 1)), "first and last with sample {} of {}".format(i, depth))
        for _ in range(12 if not crossing else 12 * len(case["clocks"])):
            step(0)
        total += depth
        expect_eq(len(snk.words), total, "words after the packet was complete")
        hist.match([w["payload"] for w in words], t0, "sent")
        packets += 1
    rec.nontrivial(packets and depth > 1 and (packets > 1 or 0 in case["ready"]))
    rec.label("crossing" if crossing else "one domain", "waits for valid" if case["waits"] else "ready pattern", "enable" if en else "always")


def strategy(tier):
    return st.fixed_dictionaries({
        "signals": st.lists(st.tuples(st.one_of(st.sampled_from([1, 2, 5, 8, 13]), st.sampled_from([1, 2, 5, 8, 13]), st.integers(1, 90)), st.integers(0, 1)).map(list), min_size=1, max_size=4),
        "depth": st.one_of(*[st.integers(1, 40)] * 5, *[st.sampled_from([8, 16, 31, 32, 33])] * 5, st.integers(41, 300)), "pre": st.one_of(*[st.sampled_from([0, 1, 1, 2, 3, 8])] * 8, st.integers(0, 40)),
        "enable": st.sampled_from([0, 0, 1]),
        "domains": st.sampled_from([["sync", None], ["usb", None], ["sync", "sync"], ["sync", "usb"], ["usb", "sync"], ["usb", "fast"]]),
        "pattern": bitpat(6), "ready": bitpat(8), "waits": st.sampled_from([0, 0, 1]), "seed": st.integers(0, 10**6),
        "clocks": st.one_of(*[st.lists(st.integers(0, 2), min_size=1, max_size=8).map(lambda l: l + [2])] * 6, st.tuples(st.integers(0, 1), st.integers(10, 40)).map(lambda t: [t[0]] * t[1] + [1 - t[0]])),
        "captures": st.lists(st.fixed_dictionaries({"idle": st.one_of(st.integers(0, 20), st.integers(0, 4)), "retrigger": st.sampled_from([0, 1, 4])}), min_size=1, max_size=3)})


CHECKS = [Check("packets", run, strategy, quick=4800, shards=8, rule="repeated captures, or one with a stalling consumer")]
