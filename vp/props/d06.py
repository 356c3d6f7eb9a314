"""Filterbank."""

import json
from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import make
from ..dspref import segments, expand, quantise, convolve, iir, l1_inverse
from . import d01, d02

ID = "D06"
TITLE = "A filter bank applies its filter as many times as it has instances"
STATEMENT = (
    "For every number of instances, filter structure, order, cut-off and width, the filter bank's output is the input, as enabled, passed through that many identical filters in series, within rounding error and at a constant delay of one sample per further instance. "
    "Samples presented while not enabled have no effect on any stage; an unknown filter structure is refused."
)
QUANTIFIER = {"over": ["inputs", "histories", "configurations"], "text": "1-9 instances, both structures, filter specifications, signals without overflow, enable patterns"}
WHY = "There is no test of the filter bank; the resampler test that contains one with a single instance checks nothing."
ANCHORS = {"files": ["amlib/dsp/filterbank.py"], "mechanism": [{"name": "Filterbank", "where": "amlib/dsp/filterbank.py"}],
           "observe_at": ["signal_out after each enabled sample"]}
TECHNIQUE = "property testing against floating-point reference filters in series"
LEVEL_NOTE = "1-9 instances, orders 1-3 (IIR) and 5-24 (FIR), widths 12-24. Trusts Amaranth's simulator."
RULE = "Non-trivial: two or more instances and an output well above the tolerance."


def run(case, rec):
    from ..sim import Dut, cached_dut
    from amlib.dsp.filterbank import Filterbank
    import contextlib, io
    bw, fw, n, fs = case["bw"], case["bw"] + case["extra"], case["instances"], case["fs"]
    fc = max(1, fs * case["fc"] // 1000)
    if case["structure"] == "iir":
        order = 1 + case["order"] % 3
        b, a = d02.design(order, fc, fs, case["type"])
        one = lambda xs: iir(b, a, xs)
        base = d02.tolerance(b, a)
        h = one([1.0] + [0.0] * 600)
    else:
        order, fc, taps = d01.design(dict(kind="window", type=case["type"], order=case["order"], fs=fs, fc=case["fc"]))
        taps = [float(t) for t in taps]
        one = lambda xs: convolve(taps, xs)
        base = 1.5 * len(taps) + 1
        h = taps
    gain = max(1.0, sum(abs(x) for x in h))
    tol = sum(base * gain ** k for k in range(n))
    scale = 1 << (bw - 1)
    if tol > scale / 4:
        rec.label("skipped: rounding too large")
        return

    def build():
        with contextlib.redirect_stdout(io.StringIO()):
            u = make(Filterbank, n, fs, bitwidth=bw, fraction_width=fw, cutoff_freq=fc, filter_order=order, filter_structure=case["structure"],
                           filter_type=case["type"], verbose=False)
            d = Dut(u)
        d.u = u
        return d
    d = cached_dut(("d06", n, bw, fw, fs, fc, order, case["structure"], case["type"]), build, limit=24)
    u = d.u
    xs = expand(case["signal"]) + [0.0] * (n + 2)
    peak, ys = 1e-9, xs
    for _ in range(n):
        ys = one(ys)
        peak = max(peak, max(map(abs, ys)))
    room = scale - tol - 2
    if peak * scale > room:
        xs = [x * room / (peak * scale) for x in xs]
    xs = quantise(xs, scale)
    want = xs
    for _ in range(n):
        want = one(want)
        if max(map(abs, want)) > scale - tol - 1:
            return
    gaps = case["gaps"]
    got = []
    for i, x in enumerate(xs):
        d.set(u.signal_in, x)
        d.set(u.enable_in, 1)
        d.tick()
        d.set(u.enable_in, 0)
        for k in range(gaps[i % len(gaps)]):
            d.set(u.signal_in, x * (3 + k) + 1234567 + k)     # must be ignored
            d.tick()
        got.append(d.get(u.signal_out))
    lat = n - 1
    for i in range(len(got)):
        w = want[i - lat] if i >= lat else 0
        if abs(got[i] - w) > tol:
            raise Violation("sample {}: output {} but {} {} {} filters of order {} in series give {:.2f} (tolerance {:.1f})".format(
                i, got[i], n, case["type"], case["structure"], order, w, tol))
    rec.nontrivial(n > 1 and max(map(abs, want)) > 5 * tol)
    rec.label(case["structure"], "{} instances".format(n))


def strategy(tier):
    return st.fixed_dictionaries({
        "bw": st.one_of(st.sampled_from([18, 24]), st.integers(12, 24)), "extra": st.one_of(st.just(0), st.integers(0, 6)),
        "instances": st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 7)), "structure": st.sampled_from(["fir", "iir"]), "order": st.integers(5, 24),
        "fs": st.sampled_from([336000, 48000]), "fc": st.integers(40, 400), "type": st.sampled_from(["lowpass", "highpass"]),
        "gaps": st.lists(st.integers(0, 3), min_size=1, max_size=3), "signal": segments(3, 40)})


def run_same(case, rec):
    from ..sim import cached_dut, Dut
    from amaranth import Module
    from amlib.dsp.filterbank import Filterbank
    from amlib.dsp.fixedpointiirfilter import FixedPointIIRFilter
    from amlib.dsp.fixedpointfirfilter import FixedPointFIRFilter
    import contextlib, io
    n, s = case["instances"], case["structure"]
    kw = {} if case["plain"] else dict(bitwidth=case["bw"], fraction_width=case["bw"] + case["extra"], cutoff_freq=max(1, case["fs"] * case["fc"] // 1000),
                                       filter_order=1 + case["order"] % 3 if s == "iir" else case["order"] | 1, filter_type=case["type"])

    def build():
        with contextlib.redirect_stdout(io.StringIO()):
            m = Module()
            m.submodules.u = u = make(Filterbank, n, case["fs"], filter_structure=s, **kw)
            kw2 = dict(dict(bitwidth=18, fraction_width=18, cutoff_freq=20000, filter_order=2, filter_type="lowpass"), **kw)
            fs = [(FixedPointIIRFilter if s == "iir" else FixedPointFIRFilter)(samplerate=case["fs"], **kw2) for _ in range(n)]
            m.submodules += fs
            m.d.comb += [f.enable_in.eq(u.enable_in) for f in fs] + [fs[0].signal_in.eq(u.signal_in)]
            m.d.comb += [b.signal_in.eq(a.signal_out) for a, b in zip(fs, fs[1:])]
            d = Dut(m)
        d.u, d.out = u, fs[-1].signal_out
        return d
    d = cached_dut(("d06s", n, s, case["fs"], tuple(kw.items())), build, limit=24)
    u = d.u
    scale = 1 << len(u.signal_in) - 1
    seen = set()
    gaps = case["gaps"]
    for i, x in enumerate(expand(case["signal"])):
        d.set(u.signal_in, max(-scale, min(scale - 1, int(x * scale))))
        d.set(u.enable_in, 1)
        d.tick()
        d.set(u.enable_in, 0)
        for k in range(gaps[i % len(gaps)]):
            d.tick()
        expect_eq(d.get(u.signal_out), d.get(d.out), "sample {}: output of {} filters of a bank, and of {} single ones in series".format(i, n, n))
        seen.add(d.get(d.out))
    rec.nontrivial(len(seen) > 3)
    rec.label(s, "defaults" if case["plain"] else "all arguments")


def st_same(tier):
    return st.fixed_dictionaries({
        "bw": st.integers(8, 24), "extra": st.integers(0, 6), "plain": st.sampled_from([0, 0, 0, 1]), "instances": st.one_of(st.integers(1, 4), st.integers(1, 9)), "structure": st.sampled_from(["fir", "iir"]),
        "order": st.integers(5, 24), "fs": st.sampled_from([336000, 48000, 96000]), "fc": st.integers(40, 400), "type": st.sampled_from(["lowpass", "highpass"]),
        "gaps": st.lists(st.integers(0, 3), min_size=1, max_size=3), "signal": segments(3, 40)})


def run_unknown(case, rec):
    from amlib.dsp.filterbank import Filterbank
    try:
        Filterbank(1, 48000, filter_structure=case["name"], verbose=False)
    except Exception:
        rec.nontrivial()
        return
    raise Violation("filter structure {!r} was accepted".format(case["name"]))


CHECKS = [Check("series", run, strategy, quick=4800, shards=8, rule="two or more instances and a substantial output"),
          Check("same", run_same, st_same, quick=1200, shards=4, rule="the output takes several values"),
          Check("unknown", run_unknown, None, enumerate=lambda tier: [{"name": x} for x in ("", "FIR", "lowpass", "fft")], shards=1, rule="every case")]
