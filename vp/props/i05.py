"""I2STransmitter."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import Source, bitpat, values, wide, make
from ..i2sbus import wave, is_right

ID = "I05"
TITLE = "The I2S transmitter sends every sample once, in its own channel slot"
STATEMENT = (
    "For every sample width, slot length of at least the sample width, bit-clock phases of at least five system clocks, and every schedule of queued samples and enabling, each accepted sample is sent exactly once, in order, MSB first from the second bit clock of a slot of its channel (first flag set: left, word select low), followed by zero bits to the end of the slot. "
    "A slot for which no sample is queued sends zeros and strobes underflow, a slot for which a sample of the other channel is next sends zeros, strobes mismatch and keeps that sample; neither is strobed otherwise. "
    "Transmission starts at the first complete left slot after enabling, and the reported level is the number of queued samples."
)
QUANTIFIER = {"over": ["inputs", "schedules", "configurations", "histories"],
              "text": "all widths, slot lengths, clock phase lengths, sample sequences with any channel flags, offer schedules and enable/disable points"}
WHY = "The transmitter test has no assertion; the loopback test covers one width with slots much longer than the samples and one sequence."
ANCHORS = {"files": ["amlib/io/i2s.py"], "mechanism": [{"name": "I2STransmitter", "where": "amlib/io/i2s.py"}],
           "observe_at": ["serial_data_out at rising bit-clock edges", "underflow_out", "mismatch_out", "fifo_level_out"]}
TECHNIQUE = "property-based testing: generated clocks and sample schedules, slot-by-slot decoding against a queue model"
LEVEL_NOTE = "Widths 3-64, slots up to width+40, phases of 5-40 system clocks with jitter, word select up to 2 clocks after the falling edge. STANDARD format (the left-justified transmitter is a recorded finding). Trusts Amaranth's simulator."
RULE = "Non-trivial: at least two samples sent and an underflow, a mismatch or a restart."


def run(case, rec):
    from amlib.io.i2s import I2STransmitter
    from ..sim import cached_dut, Dut
    w, depth, fr = case["w"], case["depth"], case["first_right"]
    slot_len = w + case["extra"]

    def build():
        u = make(I2STransmitter, sample_width=w, fifo_depth=depth)
        d = Dut(u)
        d.u = u
        return d
    d = cached_dut(("i05", w, depth), build)
    u = d.u
    nslots = case["nslots"]
    words = [{"payload": v & ((1 << w) - 1), "first": f, "last": 1 - f} for v, f in case["words"]]
    src = Source(d, u.stream_in, words, case["valid"])
    toggles = {(t, 2 + b % (slot_len - 2)) for t, b in case["toggles"]}
    enabled = 1 if case["start_on"] else 0
    running = False            # transmitter is in slot-by-slot operation
    armed = False              # enabled, waiting for a left slot
    if enabled:
        armed = True
    d.set(u.enable_in, enabled)
    queue = []                 # (accept time, payload, first)
    stats = {"sent": 0, "under": 0, "mism": 0, "restart": 0}
    cur = None                 # slot being transmitted: dict
    done = []
    under = mism = 0
    level_seen = -1
    seen_enabled_slot = None
    prev_slot = -1
    t = 0

    def strobes_at(slot):
        return (under, mism)

    def decide(c):
        """The word for slot c has been fetched by now: match it with the strobes."""
        nonlocal under, mism
        c["decided"] = True
        want_first = 0 if c["right"] else 1
        expect(not (under and mism), "slot {}: underflow and mismatch strobed together", c["slot"])
        expect(under + mism <= 1, "slot {}: strobes last {} cycles", c["slot"], under + mism)
        old = [q for q in queue if q[0] <= c["t0"] - 4]
        if under:
            expect(not old, "slot {}: underflow strobed with {} samples queued", c["slot"], len(old))
            c["word"] = 0
            stats["under"] += 1
        elif mism:
            expect(queue and queue[0][2] != want_first, "slot {}: mismatch strobed but the next sample is for this channel", c["slot"])
            c["word"] = 0
            stats["mism"] += 1
        else:
            expect(queue, "slot {}: nothing queued, but underflow was not strobed", c["slot"])
            expect(queue[0][2] == want_first, "slot {}: the next sample is for the other channel, but no mismatch was strobed", c["slot"])
            c["word"] = queue.pop(0)[1]
            stats["sent"] += 1
        under = mism = 0

    toggle_i = 0
    for (bc, ws, rise, slot, bit, mid) in wave(case["low"], case["high"], slot_len, nslots, fr, 0, case["skew"]):
        d.set(u.serial_clock_in, bc)
        d.set(u.word_select_in, ws)
        src.pre(allow=int(slot >= case["feed_from"]))
        if src.post():
            x = src.words[src.i - 1]
            queue.append((t, x["payload"], x["first"]))
        if rise:
            out = d.get(u.serial_data_out)
            if bit == 0:
                if cur is not None:
                    cur["bits"].append(out)
                    done.append(cur)
                    cur = None
                right = is_right(slot, fr)
                if enabled and not running and armed == "ready" and not right:
                    running, armed = True, False
                if running:
                    cur = {"slot": slot, "right": right, "bits": [], "t0": t, "decided": False}
                    under = mism = 0
                elif armed is True and right:
                    armed = "ready"
            else:
                if cur is not None:
                    cur["bits"].append(out)
                if armed is True and is_right(slot, fr):
                    armed = "ready"
        if d.get(u.underflow_out):
            under += 1
            expect(running, "underflow strobed while not transmitting (cycle {})", t)
        if d.get(u.mismatch_out):
            mism += 1
            expect(running, "mismatch strobed while not transmitting (cycle {})", t)
        if cur is not None and not cur["decided"] and t == cur["t0"] + 4:
            decide(cur)
        if cur is not None and cur["decided"]:
            expect(not under and not mism, "slot {}: strobe in the middle of a slot", cur["slot"])
        if mid:
            lvl = d.get(u.fifo_level_out)
            stable = [q for q in queue if q[0] < t]
            expect_eq(lvl, len(stable), "queued samples reported in slot {}".format(slot))
            if lvl < depth:
                expect(d.get(u.stream_in.ready), "not ready with {} of {} samples queued", lvl, depth)
            if (slot, bit) in toggles:
                enabled ^= 1
                d.set(u.enable_in, enabled)
                if enabled:
                    armed = True
                else:
                    armed = False
                    if running:
                        stats["restart"] += 1
                    running = False
                    cur = None
                    under = mism = 0
        d.tick()
        t += 1
    for c in done:
        if not c["decided"]:
            continue
        bits = c["bits"]
        got = 0
        for b in bits[:w]:
            got = got << 1 | b
        expect_eq(got, c["word"], "slot {} ({}, width {} of {})".format(c["slot"], "right" if c["right"] else "left", w, slot_len))
        expect(not any(bits[w:]), "slot {}: bits after the sample are {}", c["slot"], bits[w:])
    rec.nontrivial(stats["sent"] >= 2 and (stats["under"] or stats["mism"] or stats["restart"]))
    for k, v in stats.items():
        if v:
            rec.label(k)
    rec.label("exact slot" if case["extra"] == 0 else "longer slot")


def clocks():
    phases = st.one_of(*[st.lists(st.integers(5, 9), min_size=1, max_size=4)] * 5, st.lists(st.sampled_from([5, 6, 8, 15, 16, 17, 33, 40]), min_size=1, max_size=3))
    return {"low": phases, "high": phases,
            "skew": st.integers(0, 2), "first_right": st.integers(0, 1)}


def strategy(tier):
    alternating = st.lists(wide(64), min_size=1, max_size=10).map(lambda l: [[v, 1 - i % 2] for i, v in enumerate(l)])
    anyflags = st.lists(st.tuples(wide(64), st.integers(0, 1)).map(list), min_size=1, max_size=10)
    return st.fixed_dictionaries(dict(clocks(), **{
        "w": st.one_of(st.sampled_from([4, 8, 12, 16, 20, 24, 32]), st.integers(3, 32), st.integers(33, 64)),
        "extra": st.one_of(st.just(0), st.just(0), st.just(1), st.integers(2, 9), st.integers(10, 40)),
        "depth": st.sampled_from([2, 3, 4, 5, 16]), "nslots": st.integers(3, 14), "valid": bitpat(8),
        "words": st.one_of(alternating, alternating, anyflags), "feed_from": st.integers(-1, 4),
        "start_on": st.sampled_from([1, 1, 0]),
        "toggles": st.lists(st.tuples(st.integers(0, 9), st.integers(0, 60)).map(list), max_size=3)}))


def lj(case, rec):
    """The left-justified format: the first bit is sampled at the first rising edge of the slot."""
    from amlib.io.i2s import I2STransmitter, I2S_FORMAT
    from ..sim import Dut
    w = case["w"]
    u = make(I2STransmitter, sample_width=w, frame_format=I2S_FORMAT.LEFT_JUSTIFIED)
    d = Dut(u)
    d.reset()
    words = [{"payload": v, "first": 1 - i % 2, "last": i % 2} for i, v in enumerate(case["words"])]
    src = Source(d, u.stream_in, words, [1])
    d.set(u.enable_in, 1)
    got = []
    for (bc, ws, rise, slot, bit, mid) in wave([6], [6], w + 2, len(words) + 1, 1, 1, 0, lead=40):
        d.set(u.serial_clock_in, bc)
        d.set(u.word_select_in, ws)
        src.pre()
        src.post()
        if rise and slot > 0 and bit < w:
            got.append(d.get(u.serial_data_out))
        d.tick()
    want = [x["payload"] >> (w - 1 - b) & 1 for x in words for b in range(w)]
    expect_eq(got, want, "left-justified bits (width {})".format(w))
    rec.nontrivial()


def lj_cases(tier):
    return [{"w": w, "words": [0xA5A5A5A5 >> (32 - w), 0x3C5A9617 & ((1 << w) - 1)]} for w in (16, 24)]


NOTES = ["The left-justified transmitter is decided by two fixed frames only, because the elaboration of every such transmitter fails (recorded as known findings); the generated search covers the standard format. The left-justified receiver is fully covered by I06."]

CHECKS = [Check("i2s_tx", run, strategy, quick=4000, shards=8, rule="random clocks, samples, schedules and enable points"),
          Check("left_justified", lj, None, quick=0, enumerate=lj_cases, rule="fixed frames")]
