"""FractionalResampler."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..dspref import segments, expand, quantise, convolve, iir
from ..util import bitpat, Sink, Source, Pat, make
from . import d01, d02, d06

ID = "D07"
TITLE = "The resampler delivers the filtered signal at exactly M/N times the rate"
STATEMENT = (
    "For every pair of factors, filter specification, prescaling and signal, the resampler's output is the input stuffed with zeros to M times its rate, low-pass filtered as asked for, and reduced to every N-th sample, within rounding error. "
    "Whatever the handshake timing on either side, including a consumer that waits for valid, no sample is lost, repeated, changed or reordered and the numbers of samples stay in the ratio M/N."
)
QUANTIFIER = {"over": ["inputs", "histories", "configurations", "schedules"], "text": "factors, FIR and IIR filters, instances, prescaling, signals without overflow, valid and ready patterns"}
WHY = "Two configurations are simulated without looking at any output; sample counts under back-pressure cannot be seen by eye."
ANCHORS = {"files": ["amlib/dsp/resampler.py", "amlib/dsp/filterbank.py"], "mechanism": [{"name": "FractionalResampler", "where": "amlib/dsp/resampler.py"}],
           "observe_at": ["signal_in and signal_out handshakes"]}
TECHNIQUE = "stateful property testing against a floating-point reference with a derived rounding bound"
LEVEL_NOTE = "Factors 1-24, widths 8-16, FIR orders 5-24, IIR order 1-3, 1-2 instances, up to 60 samples. Trusts Amaranth's simulator."
RULE = "Non-trivial: at least six outputs, one of them well above the tolerance."


def run(case, rec):
    import contextlib, io
    from ..sim import Dut, cached_dut
    from amlib.dsp.resampler import FractionalResampler
    M, N, bw, inst, fs = case["m"], case["n"], case["bw"], case["instances"], case["fs"]
    hb = -(-bw // 8) * 9
    fc = max(1, fs * M * case["fc"] // 1000)
    pre = case["prescale"]
    if case["structure"] == "iir":
        order = 1 + case["order"] % 3
        b, a = d02.design(order, fc, fs * M, "lowpass")
        one = lambda xs: iir(b, a, xs)
        base = d02.tolerance(b, a)
        h = one([1.0] + [0.0] * 600)
        scale_pre = (M - 1) if pre is None else pre
    else:
        order = case["order"]
        _, _, taps = d01.design(dict(kind="window", type="lowpass", order=order, fs=fs * M, fc=case["fc"]))
        taps = [float(t) for t in taps]
        one = lambda xs: convolve(taps, xs)
        base = 1.5 * len(taps) + 1
        h = taps
        scale_pre = 4 if pre is None else pre
    gain = max(1.0, sum(abs(x) for x in h))
    tol = sum(base * gain ** k for k in range(inst))
    out_scale, wide = 1 << (bw - 1), 1 << (hb - 1)
    if tol > out_scale / 3 or scale_pre < 1:
        rec.label("skipped: rounding too large")
        return

    def build():
        with contextlib.redirect_stdout(io.StringIO()):
            u = make(FractionalResampler, input_samplerate=fs, upsample_factor=M, downsample_factor=N, filter_structure=case["structure"],
                                    filter_instances=inst, filter_order=order, filter_cutoff=fc, bitwidth=bw, prescale=pre, verbose=bool(case["verbose"]))
            d = Dut(u)
        d.u = u
        return d
    d = cached_dut(("d07", M, N, bw, inst, fs, fc, order, case["structure"], pre, case["verbose"]), build, limit=16)
    u = d.u

    def reference(xs):
        up = []
        for x in xs:
            up += [x * scale_pre] + [0.0] * (M - 1)
        peak = max(map(abs, up))
        stages = [up]
        for _ in range(inst):
            stages.append(one(stages[-1]))
        return stages
    xs = expand(case["signal"])[:60]
    room = out_scale - tol - 2
    stages = reference(xs)
    worst = max([max(map(abs, s)) * out_scale / (wide - tol - 2) for s in stages] + [max(map(abs, stages[-1])) * out_scale / room, 1e-9])
    if worst > 1:
        xs = [x / worst for x in xs]
    xs = quantise(xs, out_scale)
    stages = reference(xs)
    if max(map(abs, stages[-1])) > out_scale - tol - 1 or any(max(map(abs, s)) > wide - tol - 1 for s in stages):
        return
    y = stages[-1]
    mask = 2 * out_scale - 1
    src = Source(d, u.signal_in, [{"payload": x & mask} for x in xs], case["valid"], fields=("payload",), idle={"payload": 77})
    snk = Sink(d, u.signal_out, case["ready"], fields=("payload",), what="signal_out")
    wait, hold = Pat(case["ready"]), 0
    quiet = 0
    limit = (len(xs) * M + 10) * 4 * (len(case["valid"]) + len(case["ready"])) + 200
    for t in range(limit):
        src.pre()
        if case["waits"]:
            # a consumer that only becomes ready after it has seen valid
            d.set(u.signal_out.ready, 0)
            seen = d.get(u.signal_out.valid)
            snk.pre(force=1 if (seen and (hold or wait.next())) else 0)
        else:
            snk.pre()
        src.post()
        snk.post()
        quiet = 0 if snk.just or not src.done else quiet + 1
        d.tick()
        if quiet > 4 * M * len(case["ready"]) + 40:
            break
    expect(src.done, "the resampler stopped taking samples ({} of {} taken)".format(src.i, len(xs)))
    got = [w["payload"] - (2 * out_scale if w["payload"] >= out_scale else 0) for w in snk.words]
    # M samples at the high rate per input; every N-th one, starting with the first, comes out
    expect_eq(len(got), -(-len(xs) * M // N), "output samples for {} input samples, factor {}/{}".format(len(xs), M, N))
    # at the high rate, the output may lag by a constant number of samples: one per register on the way
    best = None
    for lag in range(0, inst + 2):
        bad = None
        for k, g in enumerate(got):
            j = k * N - lag
            w = y[j] if j >= 0 else 0
            if abs(g - w) > tol:
                bad = (k, g, w, lag)
                break
        if bad is None:
            break
        if best is None or bad[0] > best[0]:
            best = bad
    else:
        raise Violation("output {} is {} but should be {:.2f} (tolerance {:.1f}, factor {}/{}, {} x {} order {})".format(
            best[0], best[1], best[2], tol, M, N, inst, case["structure"], order))
    rec.nontrivial(len(got) >= 6 and max(map(abs, y)) > 5 * tol)
    rec.label(case["structure"], "waits for valid" if case["waits"] else "ready pattern")


def strategy(tier):
    return st.fixed_dictionaries({
        "m": st.one_of(st.just(6), st.integers(1, 9), st.integers(1, 24)), "n": st.one_of(st.just(7), st.integers(1, 9), st.integers(1, 24)),
        "bw": st.one_of(st.just(16), st.integers(10, 16)), "instances": st.sampled_from([1, 1, 2]), "structure": st.sampled_from(["fir", "fir", "iir"]),
        "order": st.integers(5, 24), "fs": st.sampled_from([56000, 48000, 44100]), "fc": st.integers(40, 300), "prescale": st.sampled_from([None, None, 1, 2, 3, 4, 7, 16]),
        "verbose": st.sampled_from([0, 0, 1]), "waits": st.sampled_from([0, 0, 1]), "valid": bitpat(), "ready": bitpat(), "signal": segments(3, 25)})


CHECKS = [Check("ratio", run, strategy, quick=3600, shards=8, rule="six or more outputs, well above the tolerance")]
