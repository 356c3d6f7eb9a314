"""WS2812."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation

ID = "I12"
TITLE = "The WS2812 driver sends every LED its stored colour with correct pulse timing"
STATEMENT = (
    "For every clock frequency, LED count and colours, each requested transmission sends, for every LED in order, exactly the colour last stored for it, green, red, blue, most significant bit first, between reset gaps of at least 50 us low, and reports completion once. "
    "Pulse widths and bit periods stay within the WS2812 tolerances, the line is low whenever nothing is sent, and requests during a transmission are ignored. "
    "Storing a colour affects only that LED."
)
QUANTIFIER = {"over": ["inputs", "histories", "configurations"], "text": "clock frequencies, LED counts, colours, writes before and during transmissions, request times"}
WHY = "The existing test transmits once and checks nothing."
ANCHORS = {"files": ["amlib/io/ws2812.py"], "mechanism": [{"name": "WS2812", "where": "amlib/io/ws2812.py"}], "observe_at": ["data_out", "done_out"]}
TECHNIQUE = "stateful property testing with an independent WS2812 line decoder"
LEVEL_NOTE = "Clocks of 8-30 MHz (and 200 MHz with one LED), 1-9 LEDs, up to 4 transmissions. Trusts Amaranth's simulator."
RULE = "Non-trivial: two or more LEDs with different colours, or two transmissions."


def run(case, rec):
    import contextlib, io
    from amlib.io.ws2812 import WS2812
    from ..sim import cached_dut, Dut
    n = case["leds"]
    freq = case["freq"] if n < 10 else 8000000
    if freq > 30000000:
        n = 1

    def build():
        with contextlib.redirect_stdout(io.StringIO()):
            u = WS2812(sys_clock_freq=freq, no_leds=n)
            d = Dut(u)
        d.u = u
        return d
    d = cached_dut(("i12", freq, n), build, limit=16)
    u = d.u
    us = freq / 1e6
    colours = [{(0, 0, 0)} for _ in range(n)]
    runs = []            # [level, length]
    st_ = {"done": 0}

    def cycle(start=0, write=None):
        d.set(u.start_in, start)
        d.set(u.write_enable_in, write is not None)
        if write is not None:
            d.set(u.led_address_in, write[0])
            for sig, v in zip((u.red_in, u.green_in, u.blue_in), write[1:]):
                d.set(sig, v)
        lvl = d.get(u.data_out)
        if runs and runs[-1][0] == lvl:
            runs[-1][1] += 1
        else:
            runs.append([lvl, 1])
        if d.get(u.done_out):
            st_["done"] += 1
        d.tick()

    def apply(w):
        return (w[0] % n, w[1], w[2], w[3])
    limit = int(n * 24 * 3 * us + 1000 * us) + 100
    for _ in range(case["settle"]):
        cycle()
    frames = 0
    for f in case["frames"]:
        for w in f["writes"]:
            w = apply(w)
            cycle(0, w)
            colours[w[0]] = {w[1:]}
        for _ in range(f["gap"]):
            cycle()
        expect(all(lvl == 0 for lvl, _ in runs[-1:]), "line is high although nothing is being sent")
        gap_before = 0
        del runs[:]
        done0 = st_["done"]
        w0 = apply(f["at_start"]) if f["at_start"] else None
        if w0:
            colours[w0[0]] = {w0[1:]}
        cycle(1, w0)
        t = 0
        during = {k: v for k, v in [(x[0], x[1]) for x in f["during"]]}
        touched = {}
        while st_["done"] == done0:
            t += 1
            expect(t < limit, "transmission does not finish")
            w = apply(during[t]) if t in during else None
            if w:
                touched.setdefault(w[0], set()).update(colours[w[0]] | {w[1:]})
                colours[w[0]] = {w[1:]}
            cycle(f["poke"] and t % f["poke"] == 0, w)
        frames += 1
        # decode
        expect(len(runs) >= 3 and runs[0][0] == 0 and runs[-1][0] == 0, "transmission does not start and end low: {}".format(runs[:3]))
        expect(runs[0][1] >= 50 * us - 1, "reset gap before the data is {:.1f} us".format(runs[0][1] / us))
        body = runs[1:]
        tail = body[-1][1]
        bits = []
        for i in range(0, len(body), 2):
            hi, lo = body[i][1], body[i + 1][1]
            if 0.2 <= hi / us <= 0.5:
                bits.append(0)
            elif 0.55 <= hi / us <= 0.95:
                bits.append(1)
            else:
                raise Violation("pulse of {:.3f} us at {} Hz is neither a 0 nor a 1".format(hi / us, freq))
            if i + 2 < len(body):
                period = (hi + lo) / us
                expect(0.65 <= period <= 1.85, "bit period of {:.3f} us at {} Hz".format(period, freq))
        expect_eq(len(bits), 24 * n, "bits sent to {} LEDs".format(n))
        expect(tail >= 50 * us - 1, "reset gap after the data is {:.1f} us".format(tail / us))
        for k in range(n):
            v = int("".join(map(str, bits[24 * k:24 * k + 24])), 2)
            rgb = (v >> 8 & 255, v >> 16 & 255, v & 255)
            allowed = touched.get(k, colours[k])
            if rgb not in allowed:
                raise Violation("LED {} of {} received (r, g, b) = {}, stored {}".format(k, n, rgb, sorted(allowed)))
        done = st_["done"]
        for _ in range(30):
            cycle()
        expect_eq(st_["done"], done, "completions of one transmission")
        expect_eq(runs[-1][0], 0, "line level after the transmission")
        expect(len(runs) == 1 + len(body), "the line moved after the transmission was complete")
    rec.nontrivial(frames > 1 or (n > 1 and len({tuple(sorted(c)) for c in colours}) > 1))
    rec.label("{} LEDs".format(n))


def strategy(tier):
    wr = st.tuples(st.one_of(st.integers(0, 8), st.integers(0, 200)), *[st.integers(0, 255)] * 3).map(list)
    return st.fixed_dictionaries({
        "freq": st.one_of(st.sampled_from([8000000, 12000000, 16000000]), st.integers(80, 300).map(lambda x: x * 100000), st.integers(80, 300).map(lambda x: x * 100000), st.sampled_from([30000000, 200000000])),
        "leds": st.one_of(*[st.integers(1, 9)] * 20, st.sampled_from([10, 16, 17, 32, 33, 64, 130])), "settle": st.integers(0, 5),
        "frames": st.lists(st.fixed_dictionaries({
            "writes": st.lists(wr, max_size=9), "at_start": st.one_of(st.none(), wr), "gap": st.sampled_from([0, 0, 1, 2, 40]), "poke": st.sampled_from([0, 0, 1, 97]),
            "during": st.lists(st.tuples(st.integers(1, 3000), wr).map(list), max_size=4)}), min_size=1, max_size=3)})


CHECKS = [Check("frames", run, strategy, quick=1600, shards=8, rule="different colours or two transmissions")]
