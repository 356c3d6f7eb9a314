from hypothesis import strategies as st
from ..core import Check, expect, expect_eq
from ..util import lockstep, wide

ID = "U04"
TITLE = "Shift registers, NRZI encoder and LFSR follow their bit-level definitions"
STATEMENT = (
    "For every control history: the input shift register holds the last depth enabled bits (oldest in the most significant position, cleared by clear, which wins over enable); "
    "the output shift register presents the bits of the last written value LSB first, one per enabled cycle, followed by zeros or (when rotating) by the same bits again, with a write taking precedence over shifting; "
    "and the NRZI output inverts exactly after each one bit and holds after each zero bit. "
    "For every degree, tap set and nonzero start value whose feedback includes the top bit, the LFSR hardware walks through exactly the value sequence its software generator yields, repeating with that period, "
    "each next value being the previous one shifted left with the XOR of the tapped bits shifted in, and gated or reset by enable/reset wrappers without skipping values."
)
QUANTIFIER = {"over": ["inputs", "histories", "configurations"],
              "text": "all control histories, depths, tap sets and start values"}
WHY = ("One fixed pattern of eight bits per shift register, one 16-bit tap set, and no NRZI test; precedence of simultaneous controls and other depths are unreached.")
ANCHORS = {"files": ["amlib/utils/shiftregister.py", "amlib/utils/nrziencoder.py", "amlib/utils/lfsr.py"],
           "mechanism": [{"name": "InputShiftRegister / OutputShiftRegister", "where": "amlib/utils/shiftregister.py"},
                         {"name": "NRZIEncoder", "where": "amlib/utils/nrziencoder.py"},
                         {"name": "LinearFeedbackShiftRegister", "where": "amlib/utils/lfsr.py"}],
           "observe_at": ["value_out", "bit_out", "nrzi_out", "value", "generate()"]}
TECHNIQUE = "property-based testing: random control histories in lock-step with reference models; software/hardware differential for the LFSR"
LEVEL_NOTE = "Random histories up to 80 cycles, depths 1-24, LFSR degrees 2-12 (full period compared up to 4095 values). Trusts Amaranth's simulator."
RULE = "Non-trivial: at least three enabled shifts after some non-zero data (registers), both bit values (NRZI), period of at least 3 (LFSR)."


def _dut(m):
    from ..sim import Dut
    return Dut(m)


class InModel:
    def __init__(self, n):
        self.bits = [0] * n     # newest first

    def out(self, row):
        return {"value": sum(b << i for i, b in enumerate(self.bits))}

    def step(self, row):
        if row["clear"]:
            self.bits = [0] * len(self.bits)
        elif row["en"]:
            self.bits = [row["bit"]] + self.bits[:-1]


def run_in(case, rec):
    from amlib.utils import InputShiftRegister
    r = InputShiftRegister(case["depth"])
    d = _dut(r)
    rows = [dict(zip(("en", "bit", "clear"), x)) for x in case["rows"]]
    lockstep(d, {"en": r.enable_in, "bit": r.bit_in, "clear": r.clear_in}, {"value": r.value_out},
             rows, InModel(case["depth"]), "input shift register depth {}".format(case["depth"]))
    rec.label("clear+enable" if any(x["clear"] and x["en"] for x in rows) else "plain")
    rec.nontrivial(sum(x["en"] and x["bit"] for x in rows) >= 3)


class OutModel:
    def __init__(self, n, rotate):
        self.q = [0] * n
        self.rotate = rotate

    def out(self, row):
        return {"bit": self.q[0]}

    def step(self, row):
        n = len(self.q)
        if row["we"]:
            self.q = [(row["value"] >> i) & 1 for i in range(n)]
        elif row["en"]:
            self.q = self.q[1:] + [self.q[0] if self.rotate else 0]


def run_out(case, rec):
    from amlib.utils import OutputShiftRegister
    n = case["depth"]
    r = OutputShiftRegister(n, rotate=True) if case["rotate"] else OutputShiftRegister(n)
    d = _dut(r)
    rows = [dict(zip(("en", "we", "value"), x)) for x in case["rows"]]
    lockstep(d, {"en": r.enable_in, "we": r.we_in, "value": r.value_in}, {"bit": r.bit_out},
             rows, OutModel(n, case["rotate"]), "output shift register depth {} rotate {}".format(n, case["rotate"]))
    rec.label("rotate" if case["rotate"] else "shift")
    rec.nontrivial(any(x["we"] and x["value"] for x in rows) and sum(x["en"] for x in rows) >= 3)


def run_nrzi(case, rec):
    from amlib.utils import NRZIEncoder
    e = NRZIEncoder()
    d = _dut(e)
    lvl = d.get(e.nrzi_out)
    for t, b in enumerate(case["bits"]):
        d.set(e.data_in, b)
        expect_eq(d.get(e.nrzi_out), lvl, "NRZI level at bit {} of {}".format(t, case["bits"]))
        d.tick()
        lvl ^= b
    expect_eq(d.get(e.nrzi_out), lvl, "final NRZI level of {}".format(case["bits"]))
    rec.nontrivial(len(set(case["bits"])) == 2)


def run_lfsr(case, rec):
    from amaranth import Signal, EnableInserter, ResetInserter
    from amlib.utils import LinearFeedbackShiftRegister
    n, taps, reset = case["degree"], case["taps"], case["reset"]
    kw = {} if reset == 1 else {"reset": reset}
    lf = LinearFeedbackShiftRegister(n, taps, **kw)
    mask = (1 << n) - 1

    def nxt(v):
        f = 0
        for tp in taps:
            f ^= (v >> (tp - 1)) & 1
        return ((v << 1) & mask) | f
    seq = [reset]
    while True:
        v = nxt(seq[-1])
        if v == reset:
            break
        seq.append(v)
        if len(seq) > 1 << n:
            raise AssertionError("model: not a permutation")
    got = []
    for v in lf.generate():
        got.append(v)
        if len(got) > len(seq):
            break
    expect_eq(got, seq, "generate() for degree {} taps {} reset {}".format(n, taps, reset))
    en, rs = Signal(), Signal()
    d = _dut(ResetInserter(rs)(EnableInserter(en)(lf)))
    i = 0
    budget = len(seq) + 3 if len(seq) <= 300 else 300
    t = 0
    pat = case["pat"]
    while i < budget and t < 2000:
        e, r = pat[t % len(pat)]
        if t >= 60:
            e, r = 1, 0
        d.set(en, e)
        d.set(rs, r)
        expect_eq(d.get(lf.value), seq[i % len(seq)], "LFSR degree {} taps {} reset {} step {}".format(n, taps, reset, i))
        if r:
            i = 0
        elif e:
            i += 1
        t += 1
        d.tick()
    rec.label("degree {}".format(n), "maximal" if len(seq) == mask else "not maximal")
    rec.nontrivial(len(seq) >= 3)


def st_in(tier):
    row = st.tuples(st.sampled_from([0, 1, 1]), st.integers(0, 1), st.sampled_from([0] * 9 + [1])).map(list)
    return st.fixed_dictionaries({"depth": st.integers(1, 24), "rows": st.lists(row, min_size=1, max_size=70)})


def st_out(tier):
    row = st.tuples(st.sampled_from([0, 1, 1]), st.sampled_from([0] * 6 + [1]), wide(24)).map(list)
    return st.integers(1, 24).flatmap(lambda n: st.fixed_dictionaries({
        "depth": st.just(n), "rotate": st.booleans(),
        "rows": st.tuples(st.lists(row, max_size=2), st.integers(1, 2 ** n - 1), st.lists(row, min_size=1, max_size=60)).map(
            lambda t: t[0] + [[1, 1, t[1]]] + t[2])}))


def st_lfsr(tier):
    top = 9 if tier == "quick" else 12
    return st.integers(2, top).flatmap(lambda n: st.fixed_dictionaries({
        "degree": st.just(n),
        "taps": st.sets(st.integers(1, n - 1), max_size=4).flatmap(
            lambda s: st.permutations(sorted(s | {n}))).map(list),
        "reset": st.one_of(st.just(1), st.integers(1, (1 << n) - 1)),
        "pat": st.lists(st.tuples(st.integers(0, 1), st.sampled_from([0, 0, 0, 0, 1])).map(list), min_size=1, max_size=12)}))


CHECKS = [
    Check("input_shift", run_in, st_in, quick=6000, shards=2, rule="random enable/bit/clear histories"),
    Check("output_shift", run_out, st_out, quick=6000, shards=2, rule="random enable/write histories, shifting and rotating"),
    Check("nrzi", run_nrzi, lambda tier: st.fixed_dictionaries({"bits": st.lists(st.integers(0, 1), min_size=1, max_size=80)}),
          quick=1800, rule="random bit streams"),
    Check("lfsr", run_lfsr, st_lfsr, quick=4800, shards=2, rule="random tap sets including the top bit, random start, random enable/reset patterns",
          examples=[{"degree": 16, "taps": [16, 14, 13, 11], "reset": 1, "pat": [[1, 0]]},
                    {"degree": 10, "taps": [10, 7], "reset": 5, "pat": [[1, 0], [0, 0]]}]),
]
