"""FixedPointFFT."""

import math
import random
from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import make

ID = "D05"
TITLE = "The FFT delivers the spectrum of the windowed input, bin by bin"
STATEMENT = (
    "For every size, word width, window and complex input sequence, each transform outputs exactly one value per bin in ascending order, equal to the discrete Fourier transform of the windowed input divided by the size, within its rounding error, and then reports done. "
    "The window is the Blackman-Harris window until another one has been loaded, and then exactly the loaded one, for all following transforms. "
    "Earlier transforms leave no trace, and samples are taken only at their strobes."
)
QUANTIFIER = {"over": ["inputs", "histories", "configurations", "schedules"], "text": "sizes 4-128, widths, windows, complex inputs, strobe spacings, sequences of transforms and window loads"}
WHY = "The existing test runs one transform without looking at any output."
ANCHORS = {"files": ["amlib/dsp/fixedpointfft.py"], "mechanism": [{"name": "FixedPointFFT", "where": "amlib/dsp/fixedpointfft.py"}],
           "observe_at": ["out_real and out_imag at strobe_out", "done"]}
TECHNIQUE = "property testing against a floating-point discrete Fourier transform with a derived rounding bound"
LEVEL_NOTE = "Sizes 4-128 (256 in the thorough tier), widths 8-20, up to 3 transforms. Input magnitude up to 0.9 of full scale. Trusts Amaranth's simulator."
RULE = "Non-trivial: a spectrum with a bin above ten times the tolerance."


def dft(x):
    import numpy as np
    return np.fft.fft(np.array(x)) / len(x)


def signal(spec, n):
    """n complex values of magnitude at most 1."""
    kind, a, b = spec
    if kind == "tone":
        return [a / 1000 * complex(math.cos(2 * math.pi * b * i / n), math.sin(2 * math.pi * b * i / n)) for i in range(n)]
    if kind == "real":
        return [complex(a / 1000 * math.cos(2 * math.pi * b * i / n), 0) for i in range(n)]
    if kind == "impulse":
        return [complex(a / 1000, -a / 2000) * 0.9 if i == b % n else 0j for i in range(n)]
    if kind == "const":
        return [a / 1000 * complex(math.cos(b), math.sin(b))] * n
    r = random.Random(b)
    return [r.random() * complex(math.cos(t), math.sin(t)) for t in [r.uniform(0, 7) for _ in range(n)]]


def run(case, rec):
    from ..sim import Dut, cached_dut
    from amlib.dsp.fixedpointfft import FixedPointFFT
    n, bw = 1 << case["stages"], case["bw"]

    def build():
        u = make(FixedPointFFT, bitwidth=bw, pts=n, verbose=bool(case["stages"] & 1))
        d = Dut(u)
        d.u = u
        return d
    d = cached_dut(("d05", n, bw), build, limit=12)
    u = d.u
    fs = 1 << (bw - 1)
    gaps = case["gaps"]
    tol = 8 + case["stages"]
    t = {"i": 0, "limit": 40 + n * case["stages"] * 20}

    def gap():
        t["i"] += 1
        return 3 + gaps[t["i"] % len(gaps)]

    def feed(strobe, values, sigs):
        for v in values:
            for s, x in zip(sigs, v):
                d.set(s, x)
            d.set(strobe, 1)
            expect_eq((d.get(u.done), d.get(u.strobe_out)), (0, 0), "done, strobe_out while taking samples")
            d.tick()
            d.set(strobe, 0)
            for s, x in zip(sigs, v):
                d.set(s, ~x + 3)            # valid only at the strobe
            for _ in range(gap() - 1):
                d.tick()
    window = [complex(0.35875 - 0.48829 * math.cos(2 * math.pi * k / n) + 0.14128 * math.cos(4 * math.pi * k / n) - 0.01168 * math.cos(6 * math.pi * k / n), 0)
              for k in range(n)]
    expect_eq(d.get(u.done), 1, "done after reset")
    big = 0
    for op in case["ops"]:
        if op["window"]:
            w = [z * 0.999 for z in signal(op["window"], n)]
            q = [(int(round(z.real * fs)), int(round(z.imag * fs))) for z in w]
            d.set(u.wf_start, 1)
            d.tick()
            d.set(u.wf_start, 0)
            for _ in range(3):
                d.tick()
            feed(u.wf_strobe, q, (u.wf_real, u.wf_imag))
            for _ in range(8):
                d.tick()
            expect_eq(d.get(u.done), 1, "done after loading a window")
            window = [complex(a, b) / fs for a, b in q]
        x = [0.9 * z for z in signal(op["signal"], n)]
        q = [(int(round(z.real * fs)), int(round(z.imag * fs))) for z in x]
        x = [complex(a, b) / fs for a, b in q]
        d.set(u.start, 1)
        d.tick()
        d.set(u.start, 0)
        for _ in range(gap()):
            d.tick()
        feed(u.strobe_in, q, (u.in_i, u.in_q))
        want = dft([a * b for a, b in zip(window, x)])
        out, cycles = [], 0
        while not d.get(u.done):
            if d.get(u.strobe_out):
                out.append((d.get(u.out_real), d.get(u.out_imag)))
            cycles += 1
            expect(cycles < t["limit"], "transform of {} points is not done after {} cycles".format(n, cycles))
            d.tick()
        expect_eq(len(out), n, "output strobes of a {}-point transform".format(n))
        for k in range(n):
            for got, ideal, part in ((out[k][0], want[k].real * fs, "real"), (out[k][1], want[k].imag * fs, "imaginary")):
                if abs(got - ideal) > tol:
                    raise Violation("{} part of bin {} of {} is {} but should be {:.2f} (tolerance {}); bins around: {}".format(
                        part, k, n, got, ideal, tol, out[max(0, k - 2):k + 3]))
                big = max(big, abs(ideal))
        for _ in range(op["idle"]):
            expect_eq((d.get(u.done), d.get(u.strobe_out)), (1, 0), "done, strobe_out while idle")
            d.set(u.strobe_in, 1)           # samples nobody asked for
            d.set(u.in_i, 99)
            d.tick()
        d.set(u.strobe_in, 0)
        if op["window"]:
            rec.label("loaded window")
    rec.nontrivial(big > 10 * tol)
    if len(case["ops"]) > 1:
        rec.label("several transforms")


def strategy(tier):
    sig = st.tuples(st.sampled_from(["tone", "real", "impulse", "const", "rand", "rand"]), st.one_of(st.just(1000), st.integers(-1000, 1000)),
                    st.integers(0, 300)).map(list)
    top = 8 if tier == "thorough" else 7
    return st.fixed_dictionaries({
        "stages": st.one_of(st.integers(2, 5), st.integers(2, top)), "bw": st.one_of(st.sampled_from([16, 18]), st.integers(8, 20)),
        "gaps": st.lists(st.integers(0, 3), min_size=1, max_size=3),
        "ops": st.lists(st.fixed_dictionaries({"window": st.one_of(st.none(), sig), "signal": sig, "idle": st.integers(0, 4)}), min_size=1, max_size=3)})


CHECKS = [Check("spectrum", run, strategy, quick=400, shards=8, rule="a bin well above the tolerance")]
