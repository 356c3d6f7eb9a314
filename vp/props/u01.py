from hypothesis import strategies as st
from ..core import Check, expect, expect_eq
from ..util import wide

ID = "U01"
TITLE = "bits behaves as an immutable LSB-first bit sequence"
STATEMENT = (
    "For every bit string, a bits value built from it by any supported route (integer with length, binary "
    "string, bytes in either byte order, iterable of truth values, another bits value) has the same length and the same bits in "
    "LSB-to-MSB order, and converting it back (int, str, bytes in either byte order, iteration) is lossless. "
    "Length, truth value, indexing (negative indices count from the most significant end), step-1 slicing, concatenation, repetition, and/or/xor with any "
    "convertible operand on either side, reversal and equality agree with the same operations on a plain list of bits, "
    "and no operation changes its operands."
)
QUANTIFIER = {"over": ["inputs", "histories"],
              "text": "all bit strings, all construction routes, all operation sequences over them"}
WHY = ("The unit tests check a handful of literals per operation; none covers negative indices, big-endian "
       "round trips of odd lengths, mixed-length logic or composed operations.")
ANCHORS = {"files": ["amlib/utils/bits.py"],
           "mechanism": [{"name": "bits", "where": "amlib/utils/bits.py: class bits"}],
           "observe_at": ["public methods and operators of bits"]}
TECHNIQUE = "model-based property testing (Hypothesis) against a list-of-bits reference model"
LEVEL_NOTE = ("Random and boundary bit strings up to 80 bits, operation sequences up to 14 steps; trusts "
              "Python's own int/bytes conversions as oracle. Out-of-range indices are outside the domain.")
RULE = ("Cases are programs over a pool of bit strings; a case is non-trivial when some operand is at least 2 bits and has both a 0 and a 1.")


def model_int(m):
    return sum(b << i for i, b in enumerate(m))


def build(bits, m, route):
    n = len(m)
    v = model_int(m)
    if route == "int":
        return bits(v, n)
    if route == "from_int":
        return bits.from_int(v, n)
    if route == "negint":
        return bits(v - (1 << n), n) if n else bits(0, 0)
    if route == "bigint":
        return bits(v + (5 << n), n)
    if route == "str":
        return bits("".join(str(b) for b in reversed(m)))
    if route == "str_":
        s = " _".join(str(b) for b in reversed(m))
        return bits.from_str("+" + s + " ") if m else bits("")
    if route == "bytes":
        return bits(v.to_bytes((n + 7) // 8, "little"), n)
    if route == "bytesbig":
        return bits(v.to_bytes((n + 7) // 8 + n % 3, "big"), n, "big")
    if route == "bytearray":
        return bits.from_bytes(bytearray(v.to_bytes((n + 7) // 8 + 1, "little")), n)
    if route == "memview":
        return bits(memoryview(v.to_bytes((n + 7) // 8, "big")), n, byteorder="big")
    if route == "iter":
        return bits(iter([b * 6 for b in m]) if n else [])
    if route == "list":
        return bits([bool(b) for b in m])
    if route == "bits":
        return bits(bits(v, n))
    if route == "bitslen":
        return bits(bits(v, n + 3), n)
    if route == "auto":
        # length defaults to the bit length of the integer
        return bits(v)
    raise KeyError(route)


ROUTES = ["int", "from_int", "negint", "bigint", "str", "str_", "bytes", "bytesbig", "bytearray",
          "memview", "iter", "list", "bits", "bitslen"]


def same(bits, b, m, what):
    n = len(m)
    v = model_int(m)
    expect(isinstance(b, bits), "{}: not a bits value", what)
    expect_eq(len(b), n, what + ": len")
    expect_eq(list(b), list(m), what + ": iteration")
    expect_eq(int(b), v, what + ": int()")
    expect_eq(b.to_int(), v, what + ": to_int()")
    s = "".join(str(x) for x in reversed(m))
    expect_eq(str(b), s, what + ": str()")
    expect_eq(b.to_str(), s, what + ": to_str()")
    nb = (n + 7) // 8
    expect_eq(bytes(b), v.to_bytes(nb, "little"), what + ": bytes()")
    expect_eq(b.to_bytes(), v.to_bytes(nb, "little"), what + ": to_bytes()")
    expect_eq(b.to_bytes(byteorder="big"), v.to_bytes(nb, "big"), what + ": to_bytes(big)")
    expect_eq(bool(b), n > 0, what + ": bool()")
    expect_eq(repr(b), "bits('{}')".format(s), what + ": repr()")
    for i in range(n):
        expect_eq(b[i], m[i], what + ": [{}]".format(i))
        expect_eq(b[i - n], m[i - n], what + ": [{}]".format(i - n))
    expect(b == bits(v, n), "{}: not equal to itself rebuilt", what)


def as_operand(bits, m, kind):
    if kind == "bits":
        return bits(model_int(m), len(m))
    if kind == "str":
        return "".join(str(b) for b in reversed(m))
    if kind == "tuple":
        return tuple(m)
    if kind == "list":
        return list(m)
    if kind == "int":
        return model_int(m)          # length = bit length
    raise KeyError(kind)


def kind_model(m, kind):
    if kind == "int":
        v = model_int(m)
        return [(v >> i) & 1 for i in range(v.bit_length())]
    return list(m)


def padded(a, b, op):
    n = max(len(a), len(b))
    a = a + [0] * (n - len(a))
    b = b + [0] * (n - len(b))
    return [op(x, y) for x, y in zip(a, b)]


def run(case, rec):
    from amlib.utils.bits import bits
    pool = []       # (bits value, model)
    for ent in case["pool"]:
        m = list(ent["m"])
        b = build(bits, m, ent["route"])
        same(bits, b, m, "build via " + ent["route"])
        pool.append((b, m))
        rec.label("route:" + ent["route"])
        rec.nontrivial(len(m) >= 2 and 0 in m and 1 in m)
        auto = bits(model_int(m))
        same(bits, auto, kind_model(m, "int"), "build from int without length")
    for op in case["ops"]:
        k = op["op"]
        rec.label("op:" + k)
        b, m = pool[op["a"] % len(pool)]
        c, mc = pool[op["b"] % len(pool)]
        kind = op["kind"]
        other = as_operand(bits, mc, kind)
        mo = kind_model(mc, kind)
        before = list(m)
        if k == "slice":
            lo, hi = op["lo"], op["hi"]
            r, mr = b[lo:hi], m[lo:hi]
        elif k == "slice1":
            lo, hi = op["lo"], op["hi"]
            r, mr = b[lo:hi:1], m[lo:hi:1]
        elif k == "add":
            r, mr = b + other, m + mo
        elif k == "radd":
            if kind in ("bits",):
                r, mr = other + b, mo + m
            else:
                r, mr = b.__radd__(other), mo + m
        elif k == "mul":
            n = op["lo"] % 5 if op["lo"] is not None else 3
            r, mr = (b * n if op["flip"] else n * b), m * n
        elif k in ("and", "or", "xor"):
            f = {"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}[k]
            if op["flip"]:
                r = f(other, b) if kind != "str" or k == "xor" or True else None
                mr = padded(mo, m, f)
            else:
                r = f(b, other)
                mr = padded(m, mo, f)
        elif k == "reversed":
            r, mr = b.reversed(), m[::-1]
        elif k == "resize":
            n = len(m) + (op["lo"] or 0) % 6
            r, mr = bits(b, n), m + [0] * (n - len(m))
        elif k == "trunc":
            n = max(0, len(m) - (op["lo"] or 0) % 6)
            r, mr = bits(b, n), m[:n]
        elif k == "eq":
            expect_eq(b == other, m == mo, "equality of {} and {} ({})".format(m, mc, kind))
            expect_eq(b != other, m != mo, "inequality of {} and {} ({})".format(m, mc, kind))
            expect(not (b == None) and b != None, "bits equals None")   # noqa: E711
            expect(b == str(b) and b == list(b) and b == tuple(b), "bits differs from its own conversion")
            r, mr = b, m
        same(bits, r, mr, k)
        same(bits, b, before, k + " modified its left operand")
        same(bits, c, mc, k + " modified its right operand")
        if len(mr) <= 400:
            pool.append((r, mr))


def model_strategy(maxlen):
    rnd = st.lists(st.integers(0, 1), max_size=maxlen)
    const = st.tuples(st.integers(0, 1), st.integers(0, maxlen)).map(lambda t: [t[0]] * t[1])
    long = st.tuples(wide(130), st.integers(60, 130)).map(lambda t: [t[0] >> i & 1 for i in range(t[1])])
    return st.one_of(rnd, rnd, rnd, const, long)


def strategy(tier):
    ent = st.fixed_dictionaries({"m": model_strategy(40 if tier == "quick" else 80),
                                 "route": st.sampled_from(ROUTES)})
    op = st.fixed_dictionaries({
        "op": st.sampled_from(["slice", "slice1", "add", "radd", "mul", "and", "or", "xor", "reversed",
                               "resize", "trunc", "eq"]),
        "a": st.integers(0, 30), "b": st.integers(0, 30),
        "kind": st.sampled_from(["bits", "str", "tuple", "list", "int"]),
        "lo": st.one_of(st.none(), st.integers(-45, 45)),
        "hi": st.one_of(st.none(), st.integers(-45, 45)),
        "flip": st.booleans()})
    return st.fixed_dictionaries({"pool": st.lists(ent, min_size=1, max_size=4),
                                  "ops": st.lists(op, max_size=8 if tier == "quick" else 14)})


def enum(tier):
    top = 6 if tier == "quick" else 9
    for n in range(top + 1):
        for v in range(1 << n):
            for r in ROUTES:
                yield {"pool": [{"m": [(v >> i) & 1 for i in range(n)], "route": r}],
                       "ops": [{"op": "reversed", "a": 0, "b": 0, "kind": "bits", "lo": 0, "hi": 0, "flip": False}]}


CHECKS = [Check("sequence_model", run, strategy, quick=24000, shards=6, enumerate=enum,
                rule="random programs of operations on 1-4 bit strings plus every bit string up to 6 bits (9 in thorough) by every route")]
