"""FixedPointHBFilter."""

import warnings
from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import make
from ..dspref import segments, expand, quantise, convolve

ID = "D03"
TITLE = "The half-band decimator filters and keeps every second sample"
STATEMENT = (
    "For every supported order, word width and coefficient precision, the half-band filter's output is the convolution of the strobed input samples with the half-band low-pass filter of that order, within rounding error, and its output strobe marks exactly every second sample. "
    "Samples without a strobe have no effect. "
    "The multiply-accumulate loop gives the same results as the parallel implementation for samples spaced far enough apart; unsupported orders are refused."
)
QUANTIFIER = {"over": ["inputs", "histories", "configurations"], "text": "all orders 4m+3 up to 35, widths, both implementations, signals without overflow, strobe spacings"}
WHY = "The existing test drives one configuration without checking any output."
ANCHORS = {"files": ["amlib/dsp/fixedpointhbfilter.py"], "mechanism": [{"name": "FixedPointHBFilter", "where": "amlib/dsp/fixedpointhbfilter.py"}],
           "observe_at": ["signal_out after each strobe", "strobe_out"]}
TECHNIQUE = "property testing against a floating-point reference filter with a derived rounding bound"
LEVEL_NOTE = "Orders 7-71, widths 8-24, fraction widths up to width+8. The reference uses SciPy's filter design. Trusts Amaranth's simulator."
RULE = "Non-trivial: the reference output exceeds ten times the tolerance."


def design(order):
    from scipy import signal
    taps = [float(t) for t in signal.remez(order, [0.0, 0.22, 0.28, 0.5], [1, 0], weight=[1, 1], fs=1.0)]
    mid = order // 2
    # what makes it a half-band filter: the centre is one half, every other tap vanishes, it is symmetric, and passes DC
    err = max([abs(taps[mid] - 0.5)] + [abs(taps[i]) for i in range(order) if i != mid and (i - mid) % 2 == 0])
    assert err < 0.02 and max(abs(taps[i] - taps[-1 - i]) for i in range(order)) < 1e-9 and abs(sum(taps) - 1) < 0.25
    return taps, err


def run(case, rec):
    from ..sim import Dut, cached_dut
    from amlib.dsp.fixedpointhbfilter import FixedPointHBFilter
    import contextlib, io
    bw, fw, mac, order = case["bw"], case["bw"] + case["extra"], bool(case["mac"]), 4 * case["m"] + 3

    def build():
        taps, err = design(order)
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            u = make(FixedPointHBFilter, bitwidth=bw, fraction_width=fw, filter_order=order, mac_loop=mac, verbose=bool(case["verbose"]))
            d = Dut(u)
        d.u, d.taps, d.err = u, taps, err
        return d
    d = cached_dut(("d03", bw, fw, order, mac, case["verbose"]), build, limit=24)
    u, taps, n = d.u, d.taps, len(d.taps)
    scale = 1 << (bw - 1)
    # the implementation may use that every other tap (nearly) vanishes
    tol = 1.5 * n + 2 + d.err * scale * (n // 2 + 1)
    xs = expand(case["signal"])
    room = scale - tol - 2
    if room <= scale / 4:
        rec.label("skipped: tolerance too large")
        return
    peak = max(1e-9, max(abs(y) for y in convolve(taps, xs))) * scale
    if peak > room:
        xs = [x * room / peak for x in xs]
    xs = quantise(xs, scale)
    want = convolve(taps, xs)
    gaps = case["gaps"]
    big, outs = 0, []

    def watch():
        if d.get(u.strobe_out):
            outs.append(d.get(u.signal_out))
    for i, x in enumerate(xs):
        d.set(u.signal_in, x)
        d.set(u.strobe_in, 1)
        watch()
        d.tick()
        d.set(u.strobe_in, 0)
        for k in range((n // 4 + 6 if mac else 0) + gaps[i % len(gaps)]):
            d.set(u.signal_in, x * (3 + k) + 1234567 + k)     # must be ignored
            watch()
            d.tick()
        strobes = len(outs)
        got = d.get(u.signal_out)
        if abs(got - want[i]) > tol:
            raise Violation("sample {}: output {} but the {}-tap half-band filter gives {:.2f} (tolerance {:.1f}, {} bits, fraction {}, {})".format(
                i, got, n, want[i], tol, bw, fw, "MAC loop" if mac else "parallel"))
        if gaps[i % len(gaps)] >= 1 or mac:
            expect_eq(strobes, (i + 1) // 2, "output strobes after {} samples".format(i + 1))
        elif strobes not in ((i + 1) // 2, (i + 1) // 2 - 1):
            raise Violation("{} output strobes after {} samples".format(strobes, i + 1))
        big = max(big, abs(want[i]))
    for k in range(4):
        watch()
        d.tick()
    expect_eq(len(outs), len(xs) // 2, "output strobes at the end")
    # the strobed values are one of the two phases of the filter output, always the same
    if not any(all(abs(o - (want[2 * k + ph] if 2 * k + ph >= 0 else 0)) <= tol for k, o in enumerate(outs)) for ph in (1, 0)):
        raise Violation("values at the output strobes {} are not every second output of the filter {}".format(outs, [round(x) for x in want]))
    rec.nontrivial(big > 10 * tol)
    rec.label("MAC loop" if mac else "parallel")


def strategy(tier):
    return st.fixed_dictionaries({
        "bw": st.one_of(st.sampled_from([16, 18, 24]), st.integers(8, 24)), "extra": st.one_of(st.just(0), st.integers(0, 8)),
        "m": st.one_of(*[st.just(4), st.integers(1, 8)] * 6, st.integers(9, 17)), "mac": st.integers(0, 1), "verbose": st.sampled_from([0, 0, 0, 1]),
        "gaps": st.lists(st.integers(0, 3), min_size=1, max_size=4), "signal": segments(3, 50)})


def run_refused(case, rec):
    from amlib.dsp.fixedpointhbfilter import FixedPointHBFilter
    try:
        FixedPointHBFilter(filter_order=case["order"], verbose=False)
    except Exception:
        rec.nontrivial()
        return
    raise Violation("order {} was accepted".format(case["order"]))


CHECKS = [Check("convolution", run, strategy, quick=7200, shards=8, rule="output well above the tolerance"),
          Check("refused", run_refused, None, enumerate=lambda tier: [{"order": n} for n in (8, 9, 10, 13, 17, 18, 21)], shards=1, rule="every case")]
