"""Integrated logic analyzer core."""

import random

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import bitpat, Pat, make

ID = "G01"
TITLE = "The logic analyzer stores exactly the samples around its trigger"
STATEMENT = (
    "For every set of signals, depth, pretrigger count, clock domain, enable pattern and history of triggers, a completed capture holds, in order and without gaps or repeats, consecutive enabled samples starting the requested number of samples before the trigger (the trigger's own sample first if none is requested). "
    "Sampling is asserted once per stored sample, capturing and complete tell the state of the capture, triggers during a capture are ignored, and neither time nor reading changes a completed capture."
)
QUANTIFIER = {"over": ["histories", "inputs", "configurations"], "text": "signal sets, depths, pretrigger counts, enable patterns, trigger times including during captures and right after reset, repeated captures, read orders"}
WHY = "The tests are excluded from the baseline and pin one depth, two pretrigger counts and one trigger."
ANCHORS = {"files": ["amlib/debug/ila.py"], "mechanism": [{"name": "IntegratedLogicAnalyzer", "where": "amlib/debug/ila.py"}],
           "observe_at": ["capturing", "sampling", "complete", "captured_sample"]}
TECHNIQUE = "stateful property testing against a sample-sequence model"
LEVEL_NOTE = "1-4 signals up to 90 bits, depth 1-300, pretrigger 0-80, up to 3 captures. Trusts Amaranth's simulator."
NOTES = ["With an enable input the pretrigger window may contain fewer than the requested number of enabled samples; the model accepts any start between the two readings of the documentation (the last k cycles, the last k enabled samples)."]



class History:
    """Drives random samples into an analyzer and knows which of them it has to store."""

    def __init__(self, d, u, sigs, shapes, k, enable, pattern, seed):
        self.d, self.u, self.sigs, self.shapes, self.k, self.enable = d, u, sigs, shapes, k, enable
        self.rng, self.pat, self.pattern = random.Random(seed), Pat(pattern), pattern
        # the synchronizer starts out with zeros, which count as samples before time zero
        self.lead = 0 if enable or k == 0 else 2
        self.seq = [0] * self.lead                              # enabled samples since reset
        self.stamp = [i - self.lead for i in range(self.lead)]  # and when they were there
        self.t = 0

    def drive(self, trigger):
        """Sets the inputs for one cycle (the caller clocks it)."""
        d, word, shift = self.d, 0, 0
        for s, (w, sg) in zip(self.sigs, self.shapes):
            v = self.rng.getrandbits(w)
            d.set(s, v)
            word |= v << shift
            shift += w
        e = 1
        if self.enable:
            e = self.pat.next()
            d.set(self.u.enable, e)
        d.set(self.u.trigger, trigger)
        if e:
            self.seq.append(word)
            self.stamp.append(self.t)
        self.t += 1

    def match(self, data, t0, what):
        """data must be a consecutive run of the enabled samples, beginning k before the trigger at t0"""
        k, seq, stamp = self.k, self.seq, self.stamp
        first_after = next((i for i, s in enumerate(stamp) if s >= t0), len(stamp))
        latest = next((i for i, s in enumerate(stamp) if s >= max(t0 - k, -self.lead)), len(stamp))
        for start in range(max(0, first_after - k), latest + 1):
            if seq[start:start + len(data)] == data:
                return
        raise Violation("{} {} but should be {} (depth {}, {} pretrigger samples, trigger at cycle {}{})".format(
            what, data[:12], seq[latest:latest + len(data)][:12], len(data), k, t0, ", enable pattern {}".format(self.pattern) if self.enable else ""))


def run(case, rec):
    from amaranth import Signal, Module, Cat, Shape
    from ..sim import Dut, cached_dut
    from amlib.debug.ila import IntegratedLogicAnalyzer
    shapes = [tuple(x) for x in case["signals"]]
    depth, k, en, dom = case["depth"], case["pre"], case["enable"], case["domain"]

    def build():
        sigs = [Signal(Shape(w, bool(sg)), name="s{}".format(i)) for i, (w, sg) in enumerate(shapes)]
        kw = {} if dom == "sync" else {"domain": dom}
        u = make(IntegratedLogicAnalyzer, signals=sigs, sample_depth=depth, samples_pretrigger=k, with_enable=bool(en), **kw)
        d = Dut(u)
        d.u, d.sigs = u, sigs
        return d
    d = cached_dut(("g01", tuple(shapes), depth, k, en, dom), build, limit=24)
    u, sigs = d.u, d.sigs
    expect_eq(u.sample_width, sum(w for w, _ in shapes), "sample_width")
    expect_eq(u.sample_depth, depth, "sample_depth")
    hist = History(d, u, sigs, shapes, k, en, case["pattern"], case["seed"])
    rng = hist.rng

    def cycle(trigger):
        hist.drive(trigger)
        got = (d.get(u.capturing), d.get(u.sampling), d.get(u.complete))
        d.tick(dom)
        return got

    complete = 0
    varied = 0
    for cap in case["captures"]:
        for _ in range(cap["idle"]):
            got = cycle(0)
            expect(got == (0, 0, complete), "idle, but (capturing, sampling, complete) = {} at cycle {}".format(got, hist.t - 1))
        t0 = hist.t
        got = cycle(1)
        expect(got == (0, 0, complete), "at the trigger, (capturing, sampling, complete) = {}".format(got))
        stored, limit = 0, (depth + 2 * k + 12) * (len(case["pattern"]) + 1)
        while True:
            got = cycle(rng.random() < cap["retrigger"] / 4)
            if not got[0]:
                break
            expect_eq(got[2], 0, "complete while capturing")
            stored += got[1]
            limit -= 1
            expect(limit > 0, "the capture triggered at cycle {} does not end ({} of {} samples stored)".format(t0, stored, depth))
            if stored == depth:
                # from the next cycle on the capture is over: a trigger would start a new one
                got = cycle(0)
                break
        expect_eq(got, (0, 0, 1), "(capturing, sampling, complete) after {} of {} samples were stored".format(stored, depth))
        expect_eq(stored, depth, "samples stored when the capture was over")
        complete = 1
        order = list(range(depth))
        rng.shuffle(order)
        data = [None] * depth
        for i in order:
            d.set(u.captured_sample_number, i)
            got = cycle(0)
            expect(got == (0, 0, 1), "while reading, (capturing, sampling, complete) = {}".format(got))
            data[i] = d.get(u.captured_sample)
        hist.match(data, t0, "captured")
        varied += len(set(data)) >= min(depth, 4)
    rec.nontrivial(varied)
    rec.label("pre " + ("0" if k == 0 else "1" if k == 1 else "2" if k == 2 else "3+"), "enable" if en else "always", dom)


def strategy(tier):
    return st.fixed_dictionaries({
        "signals": st.lists(st.tuples(st.one_of(st.sampled_from([1, 2, 5, 8, 13]), st.sampled_from([1, 2, 5, 8, 13]), st.integers(1, 90)), st.integers(0, 1)).map(list), min_size=1, max_size=4),
        "depth": st.one_of(*[st.integers(1, 40)] * 5, *[st.sampled_from([8, 16, 31, 32, 33])] * 5, st.integers(41, 300)), "pre": st.one_of(*[st.sampled_from([0, 1, 2, 3, 4, 5, 8, 10])] * 8, st.integers(0, 80)),
        "enable": st.integers(0, 1), "domain": st.sampled_from(["sync", "sync", "usb"]), "pattern": bitpat(), "seed": st.integers(0, 10**6),
        "captures": st.lists(st.fixed_dictionaries({"idle": st.one_of(st.integers(0, 30), st.integers(0, 4)), "retrigger": st.sampled_from([0, 1, 4])}), min_size=1, max_size=3)})


CHECKS = [Check("capture", run, strategy, quick=10000, shards=8, rule="at least one capture holds distinct samples")]
