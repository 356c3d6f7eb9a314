"""The CRC reference model shipped for gateware tests."""

import binascii
import zlib

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import wide

ID = "T01"
TITLE = "The CRC model computes the defined polynomial remainder, in any pieces"
STATEMENT = (
    "For every width, polynomial (given as exponents or as a mask), seed, final mask and bit order, and every message given as words of any width or as characters, the CRC model returns the remainder of the defined polynomial division, whether fed at once, in pieces, or continued from an earlier result. "
    "Appending the checksum of an unmasked CRC leaves the remainder zero, reflection and reversal give the algorithm reading the bits in the opposite order and the inverse algorithm, and the predefined algorithms match their published definitions."
)
QUANTIFIER = {"over": ["inputs", "configurations"], "text": "widths 1-64, polynomials, seeds, masks, orders, messages and their splits"}
WHY = "It is the oracle other gateware tests rely on, and has itself no test besides unexecuted doctests."
ANCHORS = {"files": ["amlib/test/crc.py"],
           "mechanism": [{"name": "CrcAlgorithm, CrcRegister", "where": "amlib/test/crc.py"}],
           "observe_at": ["calcString", "calcWord", "takeBit, takeWord, takeString", "reflect, reverse"]}
TECHNIQUE = "differential property testing against big-integer polynomial division, zlib and binascii"
LEVEL_NOTE = "Widths up to 64 bits (256 for the predefined one), messages up to 40 words. The checks do not depend on any other part of the repository."


def rev(v, n):
    return int(format(v, "0{}b".format(n))[::-1], 2) if n else 0


def remainder(bits, w, poly, seed):
    """(seed * x^n + message) * x^w mod poly, most significant bit first; poly includes its leading term"""
    v = 0
    for b in bits:
        v = v << 1 | b
    v = (v << w) ^ (seed << len(bits))
    for i in range(v.bit_length() - 1, w - 1, -1):
        if v >> i & 1:
            v ^= poly << (i - w)
    return v


def model(bits, w, poly, seed, lsb, xor):
    if lsb:
        return rev(remainder(bits, w, poly, rev(seed, w)), w) ^ xor
    return remainder(bits, w, poly, seed) ^ xor


def word_bits(words, lsbdata):
    out = []
    for v, n in words:
        b = [v >> i & 1 for i in range(n)]
        out += b if lsbdata else b[::-1]
    return out


def run(case, rec):
    from amlib.test.crc import CrcAlgorithm, CrcRegister
    w = case["w"]
    m = (1 << w) - 1
    low = case["poly"] & m | 1
    poly = low | 1 << w
    seed, xor, lsb, lsbdata = case["seed"] & m, case["xor"] & m, bool(case["lsb"]), case["lsbdata"]
    eff = lsb if lsbdata is None else bool(lsbdata)
    exps = [i for i in range(w, -1, -1) if poly >> i & 1]
    kw = {}
    if seed:
        kw["seed"] = seed
    if xor:
        kw["xorMask"] = xor
    if lsb:
        kw["lsbFirst"] = True
    if lsbdata is not None:
        kw["lsbFirstData"] = eff
    # a mask is written in the register's own bit order
    form = {"exps": exps, "shuffled": sorted(exps, key=lambda e: (e * 7919) % 31), "mask": rev(low, w) if lsb else low}[case["form"]]
    a = CrcAlgorithm(w, form, name="x", **kw)
    words = [(v & ((1 << n) - 1), n) for n, v in case["words"]]
    bits = word_bits(words, eff)
    want = model(bits, w, poly, seed, lsb, xor)
    what = "CRC of {}".format(words)
    r = CrcRegister(a)
    for v, n in words:
        r.takeWord(v, n)
    expect_eq(r.getFinalValue(), want, what + " word by word")
    expect_eq(r.getValue(), want ^ xor, what + " without the final mask")
    expect_eq(str(r), format(want ^ xor, "0{}b".format(w)), "binary string")
    r.reset()
    for b in bits:
        r.takeBit(b)
    expect_eq(r.getFinalValue(), want, what + " bit by bit after a reset")
    k = case["split"] % (len(words) + 1)
    v1 = None
    if k:
        c = CrcRegister(a)
        for v, n in words[:k]:
            c.takeWord(v, n)
        v1 = c.getFinalValue()
    c = CrcRegister(a, v1)
    for v, n in words[k:]:
        c.takeWord(v, n)
    expect_eq(c.getFinalValue(), want, what + " continued after {} words".format(k))
    text = "".join(chr(v & 0xff) for v, n in words)
    expect_eq(a.calcString(text), model(word_bits([(ord(x), 8) for x in text], eff), w, poly, seed, lsb, xor), "CRC of {!r}".format(text))
    expect_eq(a.calcString(text[k:], a.calcString(text[:k])), a.calcString(text), "CRC of {!r} in two parts".format(text))
    if words:
        v, n = words[0]
        expect_eq(a.calcWord(v, n), model(word_bits(words[:1], eff), w, poly, seed, lsb, xor), "CRC of {:#x}".format(v))
        expect_eq(a.calcWord(v, n, 5 & m), model(word_bits(words[:1], eff), w, poly, (5 & m) ^ xor, lsb, xor), "CRC of {:#x} from 5".format(v))
    if not xor:
        # appending the checksum in transmission order gives zero
        crc = [want >> i & 1 for i in range(w)]
        c = CrcRegister(a)
        for b in bits + (crc if lsb else crc[::-1]):
            c.takeBit(b)
        expect_eq(c.getValue(), 0, "remainder with the checksum appended")
    # reflection: the same remainder in the opposite bit order
    f = a.reflect()
    g = CrcRegister(f, rev(seed ^ xor, w) ^ rev(xor, w) ^ f.xorMask)
    for b in bits:
        g.takeBit(b)
    expect_eq(g.getValue(), rev(want ^ xor, w), "register of the reflected algorithm")
    expect_eq((f.width, f.lsbFirst, f.name), (w, not lsb, "x reflected"), "reflected algorithm")
    expect_eq((a.lsbFirst, a.name), (lsb, "x"), "the original after reflect()")
    # reversal: undoes as many bits as the register has
    if not xor and low & 1:
        n0 = case["undo"] & m
        h = a.reverse().reflect()
        x = a.calcWord(n0, w, 0)
        if lsbdata is None or eff == lsb:
            expect_eq(h.calcWord(x, w, 0), n0, "inverse of CRC {:#x}".format(x))
    rec.nontrivial(len(bits) > w and len(words) > 1)
    rec.label("lsb" if lsb else "msb", case["form"], "{} bits".format("1" if w == 1 else "2-8" if w <= 8 else "more"))


PUBLISHED = {"CRC32": (32, 0x04C11DB7, 0xFFFFFFFF, True, 0xFFFFFFFF), "CRC16": (16, 0x8005, 0, True, 0), "CRC16_USB": (16, 0x8005, 0xFFFF, True, 0xFFFF),
             "CRC_CCITT": (16, 0x1021, 0xFFFF, False, 0), "CRC_HDLC": (16, 0x1021, 0xFFFF, True, 0xFFFF), "CRC8_SMBUS": (8, 0x07, 0, False, 0),
             "CRC24": (24, 0x864CFB, 0xB704CE, False, 0), "CRC15": (15, 0x4599, 0, False, 0), "CRC32C": (32, 0x1EDC6F41, 0xFFFFFFFF, True, 0xFFFFFFFF),
             "CRC5_USB": (5, 0x05, 0x1F, True, 0x1F), "CRC64": (64, 0x1B, 0, True, 0),
             "CRC256": (256, rev(0x82E2443E6320383A20B8A2A0A1EA91A3CCA99A30C5205038349C82AAA3A8FD27, 256), (1 << 128) - 1, True, 0)}


def run_known(case, rec):
    from amlib.test import crc
    name = case["name"]
    w, low, seed, lsb, xor = PUBLISHED[name]
    a = getattr(crc, name)
    if name == "CRC256":
        seed = a.seed       # not a published standard
    text = "".join(chr(x) for x in case["data"])
    want = model(word_bits([(x, 8) for x in case["data"]], lsb), w, low | 1 << w, seed, lsb, xor)
    expect_eq(a.calcString(text), want, "{} of {!r}".format(name, text))
    data = bytes(case["data"])
    if name == "CRC32":
        expect_eq(a.calcString(text), zlib.crc32(data), "zlib.crc32")
    if name == "CRC_CCITT":
        expect_eq(a.calcString(text), binascii.crc_hqx(data, 0xFFFF), "binascii.crc_hqx")
    rec.nontrivial(len(data) > 1)
    rec.label(name)


def strategy(tier):
    return st.fixed_dictionaries({
        "w": st.one_of(st.sampled_from([5, 8, 16, 32]), st.integers(1, 64)), "poly": wide(64), "seed": st.one_of(st.sampled_from([0, 2**64 - 1]), wide(64)),
        "xor": st.one_of(st.just(0), st.sampled_from([0, 2**64 - 1]), wide(64)), "lsb": st.integers(0, 1), "lsbdata": st.sampled_from([None, None, 0, 1]),
        "form": st.sampled_from(["exps", "shuffled", "mask"]), "words": st.lists(st.tuples(st.one_of(st.just(8), st.integers(1, 20)), wide(20)).map(list), max_size=40),
        "split": st.integers(0, 40), "undo": wide(64)})


def st_known(tier):
    return st.fixed_dictionaries({"name": st.sampled_from(sorted(PUBLISHED)), "data": st.lists(st.integers(0, 255), max_size=40)})


CHECKS = [Check("crc", run, strategy, quick=12500, shards=8, rule="several words, more bits than the register has"),
          Check("known", run_known, st_known, quick=6000, shards=4, rule="several bytes")]
