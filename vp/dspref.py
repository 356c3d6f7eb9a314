"""Shared oracle pieces for the signal processing properties: test signals and exact/float references."""

import math
import random

from hypothesis import strategies as st


def segments(max_segments=4, max_len=60):
    a = st.one_of(st.sampled_from([-1000, 1000, 999, 500, 0]), st.integers(-1000, 1000))
    n = st.integers(1, max_len)
    return st.lists(st.one_of(
        st.tuples(st.just("const"), a, n), st.tuples(st.just("impulse"), a, n),
        st.tuples(st.just("alt"), a, n, st.integers(1, 12)),
        st.tuples(st.just("sine"), a, n, st.integers(1, 500)),
        st.tuples(st.just("rand"), st.integers(1, 10 ** 6), n)).map(list), min_size=1, max_size=max_segments)


def expand(segs):
    """Values in [-1, 1]."""
    out = []
    for s in segs:
        k, n = s[0], s[2]
        if k == "const":
            out += [s[1] / 1000] * n
        elif k == "impulse":
            out += [s[1] / 1000] + [0.0] * (n - 1)
        elif k == "alt":
            out += [s[1] / 1000 * (1 if i // s[3] % 2 == 0 else -1) for i in range(n)]
        elif k == "sine":
            out += [s[1] / 1000 * math.sin(2 * math.pi * s[3] / 1000 * i) for i in range(n)]
        else:
            r = random.Random(s[1])
            out += [r.uniform(-1, 1) for _ in range(n)]
    return out


def quantise(xs, scale):
    lo, hi = -scale, scale - 1
    return [max(lo, min(hi, int(round(x * scale)))) for x in xs]


def convolve(taps, xs):
    return [sum(taps[k] * xs[i - k] for k in range(min(i + 1, len(taps)))) for i in range(len(xs))]


def iir(b, a, xs):
    """Direct form I in floating point; a[0] == 1."""
    ys = []
    for i in range(len(xs)):
        y = sum(b[k] * xs[i - k] for k in range(len(b)) if i >= k)
        y -= sum(a[k] * ys[i - k] for k in range(1, len(a)) if i >= k)
        ys.append(y)
    return ys


def l1_inverse(a, n=4000):
    """L1 norm of the impulse response of 1/A(z): how far an error added at the output can grow."""
    ys, tot = [], 0.0
    for i in range(n):
        y = (1.0 if i == 0 else 0.0) - sum(a[k] * ys[i - k] for k in range(1, len(a)) if i >= k)
        ys.append(y)
        tot += abs(y)
        if abs(y) > 1e6:
            return float("inf")
    return tot
