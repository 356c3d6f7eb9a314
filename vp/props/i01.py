"""AsyncSerialTX."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import Pat, bitpat, values

ID = "I01"
TITLE = "The asynchronous serial transmitter sends every accepted word as a frame"
STATEMENT = (
    "For every divisor, data width and parity mode, and every schedule of requests, each word accepted by the ready/acknowledge handshake appears on the line exactly once and in order as a low start bit, the data bits LSB first, the correct parity bit if any, and a high stop bit, each lasting exactly divisor cycles (the stop bit at least that). "
    "The line is high whenever no frame is in progress, words changing after acceptance have no effect, and the transmitter becomes ready again after every frame."
)
QUANTIFIER = {"over": ["inputs", "configurations", "schedules"],
              "text": "all divisors >= 1, widths, five parity modes, runtime divisor changes between frames, data and request schedules"}
WHY = "The serial transceiver has no tests at all."
ANCHORS = {"files": ["amlib/io/serial.py"],
           "mechanism": [{"name": "AsyncSerialTX, _compute_parity_bit", "where": "amlib/io/serial.py"}],
           "observe_at": ["o", "rdy", "pins.tx.o"]}
TECHNIQUE = "waveform decoding oracle over generated words and schedules"
LEVEL_NOTE = "Data widths 1-16, divisors 1-40 (mostly small). Trusts Amaranth's simulator."
RULE = "Non-trivial: two or more frames, one of which follows the previous one immediately."


def parity_bit(x, parity):
    ones = bin(x).count("1") & 1
    return {"none": [], "mark": [1], "space": [0], "even": [ones], "odd": [1 - ones]}[parity]


def frame(x, w, parity):
    return [0] + [x >> i & 1 for i in range(w)] + parity_bit(x, parity) + [1]


def run(case, rec):
    from amaranth import Record
    from amlib.io.serial import AsyncSerialTX
    from ..sim import cached_dut, Dut
    div0, bits, w, parity, pins = case["div"], case["divisor_bits"], case["w"], case["parity"], case["pins"]
    if bits is not None:
        bits = max(bits, div0.bit_length())

    def build():
        p = Record([("tx", [("o", 1)]), ("rx", [("i", 1)])]) if pins else None
        kw = dict(divisor=div0)
        if bits is not None:
            kw["divisor_bits"] = bits
        if w != 8:
            kw["data_bits"] = w
        if parity != "none":
            kw["parity"] = parity
        if pins:
            kw["pins"] = p
        u = AsyncSerialTX(**kw)
        d = Dut(u)
        d.u, d.p = u, p
        return d
    d = cached_dut(("i01", div0, bits, w, parity, pins), build)
    u = d.u
    mask = (1 << w) - 1
    maxdiv = (1 << (bits if bits is not None else max(1, div0.bit_length()))) - 1
    todo = [{"x": x["x"] & mask, "gap": x["gap"], "div": max(1, min(x["div"], maxdiv, 40)) if case["retune"] else div0}
            for x in case["words"][:2 if div0 > 100 else None]]
    line = []
    acc = []           # (cycle, word, divisor)
    i = wait = t = 0
    div = div0
    idle_for = 0
    back = False
    limit = 110 + sum((w + 7) * (x["div"] + 2) + x["gap"] for x in todo) + 2 * div0
    while idle_for < 2 * div + 4 or i < len(todo):
        rdy = d.get(u.rdy)
        gap = todo[i]["gap"] if i < len(todo) else 0
        if i < len(todo) and case["retune"] and todo[i]["div"] != div:
            gap = max(gap, div + 1)         # the stop bit in flight uses the old divisor
            if rdy and wait >= gap:
                div = todo[i]["div"]
        if case["retune"]:
            d.set(u.divisor, div)
        if i < len(todo) and wait >= gap:
            d.set(u.ack, 1)
            d.set(u.data, todo[i]["x"])
        else:
            d.set(u.ack, 0)
            d.set(u.data, ~todo[i - 1]["x"] if i else mask)
        rdy = d.get(u.rdy)
        o = d.get(u.o)
        if pins:
            expect_eq(d.get(d.p.tx.o), o, "pin in cycle {}".format(t))
        line.append(o)
        ack = i < len(todo) and wait >= gap
        if ack and rdy:
            back |= bool(acc) and idle_for <= 1
            acc.append((t, todo[i]["x"], div))
            i += 1
            wait = 0
            idle_for = 0
        else:
            wait += rdy
            idle_for = idle_for + 1 if rdy else 0
        d.tick()
        t += 1
        expect(t < limit, "transmitter did not become ready again ({} words accepted)", i)
    # decode: each frame must start after its word was accepted, and after the previous frame's stop bit
    pos = 0
    for k, (ta, x, dv) in enumerate(acc):
        start = pos
        while start < len(line) and line[start] == 1:
            start += 1
        expect(start < len(line), "word {} ({:#x}) was accepted but never sent", k, x)
        expect(start > ta, "line went low in cycle {}, before word {} was accepted", start, k)
        nxt = acc[k + 1][0] if k + 1 < len(acc) else None
        bits_ = frame(x, w, parity)
        for b, v in enumerate(bits_):
            seg = line[start + b * dv: start + (b + 1) * dv]
            if seg != [v] * dv:
                raise Violation("word {} ({:#x}, {} parity, divisor {}): bit {} of the frame is {} but should be {} for {} cycles".format(
                    k, x, parity, dv, b, seg, v, dv))
        pos = start + len(bits_) * dv
        expect(nxt is None or nxt >= start, "next word accepted before the frame started")
    expect(all(line[pos:]), "activity on the line after the last frame")
    rec.nontrivial(len(acc) > 1 and back)
    rec.label(parity, "w=8" if w == 8 else "w!=8", "retuned" if case["retune"] else "fixed divisor", "divisor 1" if div0 == 1 else "divisor>1")


def strategy(tier):
    word = st.fixed_dictionaries({"x": values(16), "gap": st.sampled_from([0, 0, 0, 1, 2, 7]), "div": st.integers(1, 40)})
    return st.fixed_dictionaries({
        "div": st.one_of(*[st.integers(1, 9)] * 12, *[st.sampled_from([16, 17, 25])] * 12, st.sampled_from([130, 257, 300, 521])), "divisor_bits": st.sampled_from([None, None, 4, 8]),
        "w": st.sampled_from([8, 8, 8, 1, 5, 7, 9, 16]), "parity": st.sampled_from(["none", "mark", "space", "even", "odd"]),
        "pins": st.booleans(), "retune": st.sampled_from([0, 0, 1]), "words": st.lists(word, min_size=1, max_size=5)})


CHECKS = [Check("serial_tx", run, strategy, quick=8000, shards=8, rule="random words/configurations, line decoded from the accepted words")]
