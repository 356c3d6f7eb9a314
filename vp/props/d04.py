"""FixedPointCICFilter."""

import random
from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import make

ID = "D04"
TITLE = "The CIC decimator computes exact boxcar sums, without ever overflowing"
STATEMENT = (
    "For every number of stages, decimation factor and width, and every sequence of +1 and -1 inputs including constant ones, the outputs are exactly the cascaded moving sums of the strobed inputs at every decimation-th sample, scaled to the output width, at a constant delay. "
    "There is exactly one output strobe per decimation factor of input strobes, at any strobe spacing, and inputs without a strobe have no effect."
)
QUANTIFIER = {"over": ["inputs", "histories", "configurations", "schedules"], "text": "stages, factors, widths, all +-1 sequences, strobe spacings down to every cycle"}
WHY = "The existing test drives one configuration without checking any output; overflow needs extreme sequences and power-of-two factors."
ANCHORS = {"files": ["amlib/dsp/fixedpointcicfilter.py"], "mechanism": [{"name": "FixedPointCICFilter", "where": "amlib/dsp/fixedpointcicfilter.py"}],
           "observe_at": ["signal_out at strobe_out"]}
TECHNIQUE = "property testing against an exact integer model"
LEVEL_NOTE = "1-7 stages, factors 2-140, widths 4-24, up to about 1200 input samples. Trusts Amaranth's simulator."
RULE = "Non-trivial: more outputs than the filter's memory, with different values."


def impulse(n, r):
    h = [1]
    for _ in range(n):
        out = [0] * (len(h) + r - 1)
        for i, a in enumerate(h):
            for j in range(r):
                out[i + j] += a
        h = out
    return h


def run(case, rec):
    from ..sim import Dut, cached_dut
    from amlib.dsp.fixedpointcicfilter import FixedPointCICFilter
    import contextlib, io
    n, r, bw = case["stages"], case["factor"], case["bw"]

    def build():
        with contextlib.redirect_stdout(io.StringIO()):
            u = make(FixedPointCICFilter, bitwidth=bw, filter_stage=n, decimation=r, verbose=bool(case["verbose"]))
            d = Dut(u)
        d.u = u
        return d
    d = cached_dut(("d04", n, r, bw, case["verbose"]), build, limit=24)
    u = d.u
    xs = []
    for kind, arg, length in case["signal"]:
        length = length % (3 * n * r) + 1
        if kind == "const":
            xs += [1 if arg & 1 else -1] * length
        elif kind == "square":
            xs += [1 if i // (arg % (2 * r) + 1) % 2 else -1 for i in range(length)]
        elif kind == "density":
            acc = 0
            for i in range(length):
                acc += arg % 97
                xs.append(1 if acc >= 97 else -1)
                acc %= 97
        else:
            rnd = random.Random(arg)
            xs += [rnd.choice((-1, 1)) for _ in range(length)]
    xs = xs[:1200]
    h = impulse(n, r)
    g = r ** n
    width = max(bw, g.bit_length() + 1)       # just enough for -g .. g
    v, shift = [], width - bw
    pre = [0] * (len(h) - 1) + xs
    if len(xs) * len(h) < 250000:
        rh = h[::-1]
        for i in range(len(xs)):
            v.append(sum(a * b for a, b in zip(rh, pre[i:i + len(h)])))
    else:
        import numpy as np
        v = [int(x) for x in np.convolve(np.array(xs, dtype=np.int64), np.array(h, dtype=np.int64))[:len(xs)]]
    outs = []
    inputs = 0

    def watch():
        if d.get(u.strobe_out):
            outs.append(d.get(u.signal_out))
    gaps = case["gaps"]
    for i, x in enumerate(xs):
        d.set(u.signal_in, x)
        d.set(u.strobe_in, 1)
        watch()
        d.tick()
        d.set(u.strobe_in, 0)
        for k in range(gaps[i % len(gaps)]):
            d.set(u.signal_in, 1 - 2 * (k & 1))
            watch()
            d.tick()
        if not len(xs) // r - 2 <= len(outs) + (len(xs) - i - 1) // r <= len(xs) // r:
            raise Violation("{} output strobes after {} samples".format(len(outs), i + 1))
    for _ in range(4):
        watch()
        d.tick()
    expect_eq(len(outs), len(xs) // r, "output strobes for {} samples, decimation {}".format(len(xs), r))
    best = None
    for delay in range(0, (n + 3) * r + n + 2):
        bad = None
        for k, o in enumerate(outs):
            j = k * r + r - 1 - delay
            want = (v[j] if j >= 0 else 0) >> shift
            if o != want:
                bad = (k, o, want, delay)
                break
        if bad is None:
            break
        if best is None or bad[0] > best[0]:
            best = bad
    else:
        raise Violation("output {} is {} but should be {} (best delay {}); {} stages, factor {}, {} bits; outputs {}".format(
            best[0], best[1], best[2], best[3], n, r, bw, outs[-12:]))
    rec.nontrivial(len(outs) > 2 * n and len(set(outs)) > 2)
    if g in (max(v), -min(v)) if v else False:
        rec.label("full scale")
    rec.label("width grows" if width > bw else "width given")


def strategy(tier):
    return st.fixed_dictionaries({
        "stages": st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(1, 7)), "factor": st.one_of(st.sampled_from([2, 4, 8, 16, 12]), st.integers(2, 32), st.integers(2, 32), st.integers(33, 140)),
        "bw": st.one_of(st.just(18), st.integers(4, 24)), "verbose": st.sampled_from([0, 0, 1]),
        "gaps": st.lists(st.integers(0, 3), min_size=1, max_size=4),
        "signal": st.lists(st.tuples(st.sampled_from(["const", "square", "density", "rand"]), st.integers(0, 10 ** 6), st.integers(0, 400)).map(list),
                           min_size=1, max_size=6)})


CHECKS = [Check("sums", run, strategy, quick=9600, shards=8, rule="several different outputs")]
