"""FixedPointFIRFilter."""

import warnings
from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import make
from ..dspref import segments, expand, quantise, convolve

ID = "D01"
TITLE = "The FIR filter computes the designed filter, in both implementations"
STATEMENT = (
    "For every order, word width, coefficient precision, filter type and cut-off specification, the FIR filter's output is the convolution of the enabled input samples with the filter that was asked for (its pass and stop bands where requested), within the rounding error of its arithmetic. "
    "Samples presented while not enabled have no effect. "
    "The multiply-accumulate loop gives the same results as the parallel implementation for samples spaced far enough apart."
)
QUANTIFIER = {"over": ["inputs", "histories", "configurations"], "text": "filter specifications, widths, both implementations, input signals without overflow, enable patterns"}
WHY = "The existing test only drives the filter without checking any output, in one configuration."
ANCHORS = {"files": ["amlib/dsp/fixedpointfirfilter.py"], "mechanism": [{"name": "FixedPointFIRFilter", "where": "amlib/dsp/fixedpointfirfilter.py"}],
           "observe_at": ["signal_out after each enabled sample"]}
TECHNIQUE = "property testing against a floating-point reference filter with a derived rounding bound"
LEVEL_NOTE = "Orders 3-72, widths 8-24, fraction widths up to width+8. The reference uses SciPy's filter design. Trusts Amaranth's simulator."
RULE = "Non-trivial: the reference output exceeds ten times the tolerance."


def design(spec):
    """The filter that was asked for, designed directly from the specification."""
    from scipy import signal
    order, fs = spec["order"], spec["fs"]
    if spec["kind"] == "window":
        fc = max(1, fs * spec["fc"] // 1000)
        if spec["type"] == "highpass" and order % 2 == 0:
            order += 1
        return order, fc, signal.firwin(order, fc, fs=fs, pass_zero=spec["type"], window="hamming")
    lo = max(1, fs * spec["fc"] // 1000)
    hi = min(fs // 2 - 1, lo + max(1, fs * spec["gap"] // 1000))
    if spec["type"] == "highpass" and order % 2 == 0:
        order += 1
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        taps = signal.remez(order, [0, lo, hi, fs / 2], [1, 0] if spec["type"] == "lowpass" else [0, 1], weight=spec.get("weight"), fs=fs)
    return order, [lo, hi], taps


def check_response(taps, spec, cutoff):
    """The design really passes and stops what was asked for (guards the reference itself)."""
    import numpy as np

    def mag(f):
        return abs(sum(t * np.exp(-2j * np.pi * f / spec["fs"] * k) for k, t in enumerate(taps)))
    if spec["kind"] == "window":
        dc, ny = mag(0), mag(spec["fs"] / 2)
        if spec["type"] == "lowpass":
            assert abs(dc - 1) < 1e-6, dc
        else:
            assert abs(ny - 1) < 1e-6, ny


def run(case, rec):
    from ..sim import Dut, cached_dut
    from amlib.dsp.fixedpointfirfilter import FixedPointFIRFilter
    import contextlib, io, json
    bw, fw, mac = case["bw"], case["bw"] + case["extra"], bool(case["mac"])
    spec = case["spec"]
    key = ("d01", bw, fw, mac, json.dumps(spec, sort_keys=True))

    def build():
        try:
            order, cutoff, taps = design(spec)
        except ValueError:
            return None              # the exchange algorithm did not converge at all
        if max(map(abs, taps)) > 4:
            return None              # the exchange algorithm did not converge to a filter
        check_response(taps, spec, cutoff)
        with contextlib.redirect_stdout(io.StringIO()):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                u = make(FixedPointFIRFilter, samplerate=spec["fs"], bitwidth=bw, fraction_width=fw, cutoff_freq=cutoff, filter_order=order,
                                        weight=spec["weight"], filter_type=spec["type"], mac_loop=mac, verbose=bool(case["verbose"]))
            d = Dut(u)
        d.u, d.taps = u, [float(t) for t in taps]
        return d
    d = cached_dut(key, build, limit=24)
    if d is None:
        return
    u, taps = d.u, d.taps
    n = len(taps)
    tol = 1.5 * n + 1
    scale = 1 << (bw - 1)
    xs = expand(case["signal"])
    peak = max(1e-9, max(abs(y) for y in convolve(taps, xs))) * scale
    if peak > scale - tol - 2:
        if scale - tol - 2 <= 0:
            return
        xs = [x * (scale - tol - 2) / peak for x in xs]
    xs = quantise(xs, scale)
    want = convolve(taps, xs)
    gaps = case["gaps"]
    big = 0
    for i, x in enumerate(xs):
        d.set(u.signal_in, x)
        d.set(u.enable_in, 1)
        d.tick()
        d.set(u.enable_in, 0)
        for k in range((n + 3 if mac else 0) + gaps[i % len(gaps)]):
            d.set(u.signal_in, x * (3 + k) + 1234567 + k)     # must be ignored
            d.tick()
        got = d.get(u.signal_out)
        if abs(got - want[i]) > tol:
            raise Violation("sample {}: output {} but the {}-tap {} filter gives {:.2f} (tolerance {:.1f}, {} bits, fraction {}, {})".format(
                i, got, n, spec["type"], want[i], tol, bw, fw, "MAC loop" if mac else "parallel"))
        big = max(big, abs(want[i]))
    rec.nontrivial(big > 10 * tol)
    rec.label("MAC loop" if mac else "parallel", spec["kind"], spec["type"])


def strategy(tier):
    spec = st.fixed_dictionaries({
        "kind": st.sampled_from(["window", "window", "bands"]), "type": st.sampled_from(["lowpass", "highpass"]),
        "order": st.one_of(*[st.just(24), st.integers(5, 32)] * 6, st.integers(33, 72)), "fs": st.sampled_from([336000, 48000, 44100, 192000]),
        "fc": st.integers(20, 350), "gap": st.integers(60, 120), "weight": st.sampled_from([None, None, [1, 10], [20, 1]])})
    return st.fixed_dictionaries({
        "bw": st.one_of(st.sampled_from([16, 18, 24]), st.integers(8, 24)), "extra": st.one_of(st.just(0), st.integers(0, 8)),
        "mac": st.integers(0, 1), "verbose": st.sampled_from([0, 0, 0, 1]), "spec": spec,
        "gaps": st.lists(st.integers(0, 3), min_size=1, max_size=4), "signal": segments(3, 50)})


CHECKS = [Check("convolution", run, strategy, quick=8000, shards=8, rule="output well above the tolerance")]
