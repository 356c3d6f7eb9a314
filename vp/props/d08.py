"""StereoConvolutionMAC."""

import random
from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import bitpat, Sink, Source, values, make

ID = "D08"
TITLE = "The stereo convolver computes the exact convolution in every mode and slicing"
STATEMENT = (
    "For every impulse response, mode, word width and number of parallel slices, each stereo input sample produces exactly one stereo output sample, left first, equal to the full-precision convolution of all samples so far with the impulse response of the mode (straight, per channel, or with cross-feed), scaled down by the word width. "
    "No handshake timing on input or output loses, repeats, reorders or changes a sample, and an offered output is held until it is taken."
)
QUANTIFIER = {"over": ["inputs", "histories", "configurations", "schedules"], "text": "impulse responses, modes, widths, slicings, sample sequences without overflow, valid and ready patterns"}
WHY = "One impulse response in one mode and slicing is tested with an always-ready consumer and a tolerance that hides rounding mistakes."
ANCHORS = {"files": ["amlib/dsp/convolution/mac.py"], "mechanism": [{"name": "StereoConvolutionMAC", "where": "amlib/dsp/convolution/mac.py"}],
           "observe_at": ["signal_in and signal_out handshakes"]}
TECHNIQUE = "stateful property testing against an exact integer model"
LEVEL_NOTE = "1-960 taps, 1-12 slices, widths 8-24, up to 30 stereo samples. Trusts Amaranth's simulator."
RULE = "Non-trivial: two or more taps and three or more samples with an output different from zero."


def run(case, rec):
    import contextlib, io
    import numpy as np
    from ..sim import Dut
    from amlib.dsp.convolution.mac import StereoConvolutionMAC
    from amlib.dsp.convolution import convolutionmode
    mode = case["mode"]
    slices = case["slices"]
    per = case["per_slice"]
    n, bw = slices * per, case["bw"]
    full = 1 << (bw - 1)
    r = random.Random(case["seed"])

    def tap():
        k = r.randrange(4)
        return r.choice([-full, full - 1, -1, 0, 1]) if k == 0 else r.randint(-full, full - 1) >> (0 if k < 3 else r.randint(0, bw - 1))
    taps = [[tap(), tap()] for _ in range(n)]
    # keep the exact result representable: |sum| < full * 2^bw
    lim = 2 * full - 2
    tot = {"CROSSFEED": sum(abs(a) + abs(b) for a, b in taps), "STEREO": max(sum(abs(t[0]) for t in taps), sum(abs(t[1]) for t in taps)),
           "MONO": sum(abs(t[0]) for t in taps)}[mode]
    if tot > lim:
        taps = [[int(a * lim / tot), int(b * lim / tot)] for a, b in taps]
    arr = np.zeros((n, 2), dtype=np.int32)
    for i, (a, b) in enumerate(taps):
        arr[i, 0], arr[i, 1] = a, b
    with contextlib.redirect_stdout(io.StringIO()):
        # choose the clock so that exactly this many slices are needed
        u = make(StereoConvolutionMAC, taps=arr, samplerate=1000, clockfrequency=1000 * per, bitwidth=bw,
                                 convolutionMode=getattr(convolutionmode.ConvolutionMode, mode), debug=bool(case["debug"]))
        d = Dut(u)
    samples = []
    for kind, a, b in case["samples"]:
        if kind == "rand":
            samples += [(r.randint(-full, full - 1), r.randint(-full, full - 1)) for _ in range(1 + a % 4)]
        else:
            samples.append({"zero": (0, 0), "min": (-full, -full), "max": (full - 1, full - 1), "left": (full - 1 - a, 0), "right": (0, -full + b)}[kind])
    samples = [tuple(max(-full, min(full - 1, x)) for x in s) for s in samples][:30]
    words = []
    for l, rt in samples:
        words += [{"payload": l & (2 * full - 1), "first": 1, "last": 0}, {"payload": rt & (2 * full - 1), "first": 0, "last": 1}]
    want = []
    for i in range(len(samples)):
        sl = sr = 0
        for k in range(min(n, i + 1)):
            l, rt = samples[i - k]
            a, b = taps[k]
            if mode == "CROSSFEED":
                sl += l * a + rt * b
                sr += rt * a + l * b
            elif mode == "STEREO":
                sl += l * a
                sr += rt * b
            else:
                sl += l * a
                sr += rt * a
        want += [(sl >> bw) & (2 * full - 1), (sr >> bw) & (2 * full - 1)]
    src = Source(d, u.signal_in, words, case["valid"], idle={"first": 1, "last": 1, "payload": 5})
    snk = Sink(d, u.signal_out, case["ready"], what="signal_out")
    limit = (per + 20) * (len(samples) + 1) * 3 + 60 * (len(words) + 2) * (len(case["valid"]) + len(case["ready"]))
    for _ in range(case["settle"]):
        d.tick()
    for t in range(limit):
        src.pre()
        snk.pre()
        src.post()
        snk.post()
        d.tick()
        if len(snk.words) >= len(words):
            break
    for _ in range(per + 20):
        src.pre()
        snk.pre()
        src.post()
        snk.post()
        d.tick()
    got = snk.words
    for i, w in enumerate(got[:len(want)]):
        if (w["payload"], w["first"], w["last"]) != (want[i], int(i % 2 == 0), i % 2):
            raise Violation("output {} ({} of sample {}) is {:#x} (first {}, last {}) but should be {:#x} ({} taps in {} slices, {} bits, {})".format(
                i, "right" if i % 2 else "left", i // 2, w["payload"], w["first"], w["last"], want[i], n, slices, bw, mode))
    expect_eq(len(got), len(want), "output words for {} stereo samples ({} taps in {} slices)".format(len(samples), n, slices))
    rec.nontrivial(n > 1 and len(samples) > 2 and any(want))
    rec.label(mode.lower(), "{} slices".format(slices))


def strategy(tier):
    return st.fixed_dictionaries({
        "mode": st.sampled_from(["CROSSFEED", "STEREO", "MONO"]), "slices": st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(1, 12)), "per_slice": st.one_of(*[st.integers(1, 9)] * 8, st.integers(10, 80)),
        "bw": st.one_of(st.sampled_from([16, 24]), st.integers(8, 24)), "seed": st.integers(0, 10 ** 6), "debug": st.sampled_from([0, 0, 1]),
        "samples": st.lists(st.tuples(st.sampled_from(["rand", "rand", "zero", "min", "max", "left", "right"]), st.integers(0, 100), st.integers(0, 100)).map(list),
                            min_size=1, max_size=10),
        "valid": bitpat(), "ready": bitpat(), "settle": st.integers(0, 3)})


CHECKS = [Check("convolution", run, strategy, quick=2400, shards=8, rule="a non-zero output and several taps and samples")]
