"""NibbleToSevenSegmentHex, NumberToSevenSegmentHex, NumberToBitBar."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import values, make

ID = "I10"
TITLE = "Number displays show every value legibly and faithfully"
STATEMENT = (
    "For every width and value, the seven-segment converter shows each nibble as its hexadecimal digit, no two digits alike, with each digit's dot, number and dots always of the same moment, with and without output registers. "
    "The bar converter always shows a bar of adjacent bits from the least significant one: empty exactly up to the minimum, full exactly from the maximum, and in between growing linearly with the value, for every range and bar width."
)
QUANTIFIER = {"over": ["inputs", "configurations", "histories"], "text": "all numbers, dots, widths, ranges, bar widths and sequences of values"}
WHY = "The seven-segment converters have no test at all; the bar is tested for one range that hides rounding and range-width mistakes."
ANCHORS = {"files": ["amlib/io/led.py"], "mechanism": [{"name": n, "where": "amlib/io/led.py"} for n in ("NumberToSevenSegmentHex", "NumberToBitBar")],
           "observe_at": ["seven_segment_out", "bitbar_out"]}
TECHNIQUE = "property testing against a drawn font and an arithmetic model; exhaustive over digits and small ranges"
LEVEL_NOTE = "Widths 4-160; ranges up to 2000, bars of 3-24 bits with at least one value per step. Trusts Amaranth's simulator."
RULE = "Non-trivial: at least two different digits, or values on both sides of a step."

# segments lit, drawn: a top, b upper right, c lower right, d bottom, e lower left, f upper left, g middle
SEGMENTS = ["abcdef", "bc", "abdeg", "abcdg", "bcfg", "acdfg", "acdefg", "abc", "abcdefg", "abcdfg",
            "abcefg", "cdefg", "adef", "bcdeg", "adefg", "aefg"]
FONT = [sum(1 << (6 - "abcdefg".index(s)) for s in seg) for seg in SEGMENTS]


def run_digit(case, rec):
    from amlib.io.led import NibbleToSevenSegmentHex
    from ..sim import cached_dut, Dut

    def build():
        u = NibbleToSevenSegmentHex()
        d = Dut(_comb(u))
        d.u = u
        return d
    d = cached_dut("i10n", build)
    d.set(d.u.nibble_in, case["n"])
    expect_eq(d.get(d.u.seven_segment_out), FONT[case["n"]], "segments of digit {:X}".format(case["n"]))
    rec.nontrivial()


def _comb(u):
    from amaranth import Module, ClockDomain
    m = Module()
    m.domains.sync = ClockDomain()
    m.submodules.u = u
    return m


def run_number(case, rec):
    from amlib.io.led import NumberToSevenSegmentHex
    from ..sim import cached_dut, Dut
    w, reg = 4 * case["digits"], bool(case["register"])

    def build():
        u = make(NumberToSevenSegmentHex, width=w, register=reg)
        d = Dut(_comb(u))
        d.u = u
        return d
    d = cached_dut(("i10", w, reg), build)
    u = d.u

    def image(number, dots):
        return sum((FONT[number >> 4 * i & 15] | (dots >> i & 1) << 7) << 8 * i for i in range(case["digits"]))
    hist = []
    latency = None
    for n, dots in case["values"] + ([[5, 1]] * 4 if reg else []):
        n &= (1 << w) - 1
        dots &= (1 << w // 4) - 1
        d.set(u.number_in, n)
        d.set(u.dots_in, dots)
        hist.append((image(n, dots), d.get(u.seven_segment_out)))
        d.tick()
    if not reg:
        for want, got in hist:
            expect_eq(got, want, "segments")
    else:
        # the registered output shows what the inputs were a constant, small number of cycles ago
        ok = []
        for lat in (1, 2):
            if all(hist[t + lat][1] == hist[t][0] for t in range(len(hist) - lat)):
                ok.append(lat)
        if not ok:
            raise Violation("registered segments are not a delayed image of number and dots: inputs {} images {}".format(
                case["values"], [(hex(a), hex(b)) for a, b in hist]))
    rec.nontrivial(len({v[0] & 15 for v in case["values"]}) > 1)
    rec.label("registered" if reg else "combinational")


def number_strategy(tier):
    return st.fixed_dictionaries({"digits": st.one_of(st.integers(1, 16), st.integers(1, 40)), "register": st.integers(0, 1),
                                  "values": st.lists(st.tuples(values(160), values(40)).map(list), min_size=2, max_size=10)})


def run_bar(case, rec):
    from amlib.io.led import NumberToBitBar
    from ..sim import cached_dut, Dut
    lo, n = case["min"], case["bits"]
    hi = lo + max(case["span"], n - 2)

    def build():
        u = NumberToBitBar(lo, hi, n)
        d = Dut(u)
        d.u = u
        return d
    d = cached_dut(("i10b", lo, hi, n), build)
    u = d.u
    top = (1 << len(u.value_in)) - 1
    expect(top >= hi, "value_in ({} bits) cannot hold the maximum {}".format(len(u.value_in), hi))
    step = (hi - lo) // (n - 2)
    interior = set()
    todo = range(min(top, hi + 20) + 1) if case["sweep"] else [min(top, x) for x in case["values"]]
    for v in todo:
        d.set(u.value_in, v)
        d.tick()
        got = d.get(u.bitbar_out)
        length = 0 if v <= lo else n if v >= hi else min(n - 1, (v - lo) // step + 1)
        interior.add(length)
        expect_eq(got, (1 << length) - 1, "bar for value {} (range {} to {}, {} bits)".format(v, lo, hi, n))
    rec.nontrivial(len(interior) > 2)
    rec.label("sweep" if case["sweep"] else "random order")


def bar_strategy(tier):
    return st.fixed_dictionaries({
        "min": st.one_of(st.integers(0, 30), st.integers(0, 500)), "bits": st.one_of(st.just(8), st.integers(3, 24)),
        "span": st.one_of(st.sampled_from([8, 16, 32, 64, 128, 256]), st.integers(1, 300), st.integers(1, 1500)), "sweep": st.integers(0, 1),
        "values": st.lists(st.integers(0, 2100), min_size=1, max_size=60)})


CHECKS = [Check("digit", run_digit, None, enumerate=lambda tier: [{"n": n} for n in range(16)], shards=1, rule="every digit"),
          Check("number", run_number, number_strategy, quick=8000, shards=4, rule="two different digits"),
          Check("bar", run_bar, bar_strategy, quick=8000, shards=8, rule="three or more bar lengths")]
