"""FixedPointIIRFilter."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import make
from ..dspref import segments, expand, quantise, iir, l1_inverse

ID = "D02"
TITLE = "The IIR filter computes the designed Chebyshev filter"
STATEMENT = (
    "For every order, cut-off frequency, filter type, word width and coefficient precision, the IIR filter's output follows the requested Chebyshev filter applied to the enabled input samples, within the error its rounding can cause. "
    "Samples presented while not enabled have no effect, on the input or on the recursive part."
)
QUANTIFIER = {"over": ["inputs", "histories", "configurations"], "text": "filter specifications, widths, input signals without overflow, enable patterns"}
WHY = "The existing test only drives the filter without checking any output, in one configuration."
ANCHORS = {"files": ["amlib/dsp/fixedpointiirfilter.py"], "mechanism": [{"name": "FixedPointIIRFilter", "where": "amlib/dsp/fixedpointiirfilter.py"}],
           "observe_at": ["signal_out after each enabled sample"]}
TECHNIQUE = "property testing against a floating-point reference filter with a derived bound on the accumulated rounding error"
LEVEL_NOTE = "Orders 1-7, widths 10-24. The reference uses SciPy's filter design; configurations whose rounding can grow beyond a quarter of full scale are skipped. Trusts Amaranth's simulator."
RULE = "Non-trivial: the reference output exceeds five times the tolerance."


def design(order, fc, fs, kind):
    from scipy import signal
    b, a = signal.cheby1(order, 1.0, fc, btype=kind, fs=fs, output="ba")
    return [float(x) for x in b], [float(x) for x in a]


def tolerance(b, a):
    # every product is rounded by less than one and every coefficient by less than 2^-fraction of at most half a unit
    return 1.5 * (len(b) + len(a) - 1) * l1_inverse(a) + 1


def run(case, rec):
    from ..sim import Dut, cached_dut
    from amlib.dsp.fixedpointiirfilter import FixedPointIIRFilter
    import contextlib, io
    bw, fw, order, fs = case["bw"], case["bw"] + case["extra"], case["order"], case["fs"]
    fc = max(1, fs * case["fc"] // 1000)
    b, a = design(order, fc, fs, case["type"])
    tol = tolerance(b, a)
    scale = 1 << (bw - 1)
    if tol > scale / 4:
        rec.label("skipped: rounding too large")
        return

    def build():
        with contextlib.redirect_stdout(io.StringIO()):
            u = make(FixedPointIIRFilter, samplerate=fs, bitwidth=bw, fraction_width=fw, cutoff_freq=fc, filter_order=order,
                                    filter_type=case["type"], verbose=bool(case["verbose"]))
            d = Dut(u)
        d.u = u
        return d
    d = cached_dut(("d02", bw, fw, order, fs, fc, case["type"], case["verbose"]), build, limit=24)
    u = d.u
    xs = expand(case["signal"])
    peak = max(1e-9, max(abs(y) for y in iir(b, a, xs))) * scale
    if peak > scale - tol - 2:
        xs = [x * (scale - tol - 2) / peak for x in xs]
    xs = quantise(xs, scale)
    want = iir(b, a, xs)
    gaps = case["gaps"]
    big = 0
    for i, x in enumerate(xs):
        if abs(want[i]) > scale - tol - 1:
            break                      # rounding of the input may still bring the ideal output near full scale
        d.set(u.signal_in, x)
        d.set(u.enable_in, 1)
        d.tick()
        d.set(u.enable_in, 0)
        for k in range(gaps[i % len(gaps)]):
            d.set(u.signal_in, x * (3 + k) + 1234567 + k)     # must be ignored
            d.tick()
        got = d.get(u.signal_out)
        if abs(got - want[i]) > tol:
            raise Violation("sample {}: output {} but the order {} {} filter gives {:.2f} (tolerance {:.1f}, {} bits, fraction {})".format(
                i, got, order, case["type"], want[i], tol, bw, fw))
        big = max(big, abs(want[i]))
    rec.nontrivial(big > 5 * tol)
    rec.label(case["type"], "order {}".format(order))


def strategy(tier):
    return st.fixed_dictionaries({
        "bw": st.one_of(st.sampled_from([16, 18, 24]), st.integers(10, 24)), "extra": st.one_of(st.just(0), st.integers(0, 8)),
        "order": st.one_of(st.just(2), st.integers(1, 4), st.integers(1, 7)), "fs": st.sampled_from([336000, 48000, 44100]), "fc": st.one_of(st.integers(30, 450), st.integers(10, 490)),
        "type": st.sampled_from(["lowpass", "highpass"]), "verbose": st.sampled_from([0, 0, 0, 1]),
        "gaps": st.lists(st.integers(0, 3), min_size=1, max_size=4), "signal": segments(4, 80)})


CHECKS = [Check("reference", run, strategy, quick=10000, shards=8, rule="output well above the tolerance")]
