"""I2SReceiver and the transmitter-receiver loop."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import Source, Pat, bitpat, values, wide, make
from ..i2sbus import wave, is_right
from .i05 import clocks

ID = "I06"
TITLE = "The I2S receiver delivers every sample of every slot, framed by channel"
STATEMENT = (
    "For both frame formats, every sample width, slot length of at least the sample width, bit-clock phases of at least five system clocks and every data, the receiver delivers exactly the MSB-first sample of each complete slot from the first left slot after enabling on, in order, with first marking left and last marking right samples, ignoring surplus bits. "
    "Samples are only lost while the reader has left as many samples unread as the FIFO holds, and a loss never affects the other samples or their channel marks. "
    "A transmitter and a receiver on the same clocks reproduce any sample sequence."
)
QUANTIFIER = {"over": ["inputs", "schedules", "configurations", "histories"],
              "text": "all formats, widths, slot lengths, clock phase lengths, sample values, reader stalls and enable/disable points"}
WHY = "The loopback test covers one width and one slot length, never the left-justified format, an overflow, a stalled reader or a restart."
ANCHORS = {"files": ["amlib/io/i2s.py"], "mechanism": [{"name": "I2SReceiver", "where": "amlib/io/i2s.py"}],
           "observe_at": ["stream_out", "fifo_level_out"]}
TECHNIQUE = "property-based testing: generated I2S waveforms decoded by an independent model; transmitter-receiver round trip"
LEVEL_NOTE = "Widths 3-64, slots up to width+40, phases of 5-40 system clocks with jitter. Trusts Amaranth's simulator."
RULE = "Non-trivial: at least four samples received, with surplus bits, an exact-length slot, an overflow or a restart."


def run(case, rec):
    from amlib.io.i2s import I2SReceiver, I2S_FORMAT
    from ..sim import cached_dut, Dut
    w, depth, fr, lj = case["w"], case["depth"], case["first_right"], case["lj"]
    slot_len = w + case["extra"]

    def build():
        u = make(I2SReceiver, sample_width=w, fifo_depth=depth, frame_format=I2S_FORMAT.LEFT_JUSTIFIED if lj else I2S_FORMAT.STANDARD)
        d = Dut(u)
        d.u = u
        return d
    d = cached_dut(("i06", w, depth, lj), build)
    u = d.u
    nslots = case["nslots"]
    vals = [case["words"][i % len(case["words"])] * (i + 1) % (1 << w) if i >= len(case["words"]) else case["words"][i] & ((1 << w) - 1)
            for i in range(nslots)]
    delay = 0 if lj else 1
    # the bit seen at rise k of slot s
    junk = Pat(case["junk"])
    bits = []
    for s in range(nslots):
        b = [vals[s] >> (w - 1 - i) & 1 for i in range(w)] + [junk.next() for _ in range(case["extra"])]
        bits += b
    bits = [junk.next() for _ in range(delay)] + bits
    toggles = {(t, 2 + b % (slot_len - 2)) for t, b in case["toggles"]}
    stalls = {(t, 2 + b % (slot_len - 2)) for t, b in case["stalls"]}
    enabled = int(bool(case["start_on"]))
    d.set(u.enable_in, enabled)
    armed, running = (True if enabled else False), False
    cur = None            # slot whose sample is being received
    pending = None        # complete sample, written at the start of the next one
    fifo = []             # samples accepted
    got = []
    dropped = restarts = 0
    ready, quiet = 1, 0
    offered = None
    t = 0
    for (bc, ws, rise, slot, bit, mid) in wave(case["low"], case["high"], slot_len, nslots, fr, 1 if lj else 0, case["skew"]):
        d.set(u.serial_clock_in, bc)
        d.set(u.word_select_in, ws)
        if slot >= 0:
            d.set(u.serial_data_in, bits[slot * slot_len + bit])
        d.set(u.stream_out.ready, ready)
        now = (d.get(u.stream_out.payload), d.get(u.stream_out.first), d.get(u.stream_out.last)) if d.get(u.stream_out.valid) else None
        if offered is not None:
            expect_eq(now, offered, "sample that was offered but not accepted yet")
        if now is not None and ready:
            got.append(now)
            now = None
        offered = now
        if rise:
            right = is_right(slot, fr)
            if bit == 0:
                if armed == "ready" and not right:
                    running, armed = True, False
                elif armed is True and right:
                    armed = "ready"
            elif armed is True and right:
                armed = "ready"
            if bit == delay and running:
                if cur is not None:
                    s = (vals[cur], 1 - is_right(cur, fr), is_right(cur, fr))
                    if len(fifo) - len(got) < depth:
                        fifo.append(s)
                    else:
                        dropped += 1
                cur = slot
        if mid:
            expect_eq(d.get(u.fifo_level_out), len(fifo) - len(got), "reported level in slot {}".format(slot))
            if (slot, bit) in stalls:
                ready ^= 1
            if (slot, bit) in toggles:
                enabled ^= 1
                d.set(u.enable_in, enabled)
                running, cur = False, None
                armed = bool(enabled)
                restarts += 1
        d.tick()
        t += 1
    d.set(u.stream_out.ready, 1)
    for _ in range(depth + 8):
        if d.get(u.stream_out.valid):
            got.append((d.get(u.stream_out.payload), d.get(u.stream_out.first), d.get(u.stream_out.last)))
        d.tick()
    for i, (g, x) in enumerate(zip(got, fifo)):
        expect_eq(g, x, "sample {} (payload, first, last), width {} in slots of {}{}".format(i, w, slot_len, ", left justified" if lj else ""))
    expect_eq(len(got), len(fifo), "number of samples received (width {} in slots of {})".format(w, slot_len))
    rec.nontrivial(len(got) >= 4)
    rec.label("left justified" if lj else "standard", "exact slot" if case["extra"] == 0 else "longer slot")
    if dropped:
        rec.label("overflow")
    if restarts:
        rec.label("restart")


def strategy(tier):
    return st.fixed_dictionaries(dict(clocks(), **{
        "w": st.one_of(st.sampled_from([4, 8, 12, 16, 20, 24, 32]), st.integers(3, 32), st.integers(33, 64)), "lj": st.integers(0, 1),
        "extra": st.one_of(st.just(0), st.just(0), st.just(1), st.integers(2, 9), st.integers(10, 40)),
        "depth": st.sampled_from([2, 3, 4, 5, 16]), "nslots": st.integers(4, 14),
        "words": st.lists(wide(64), min_size=1, max_size=12), "junk": st.lists(st.integers(0, 1), min_size=1, max_size=7),
        "start_on": st.sampled_from([1, 1, 0]), "stalls": st.lists(st.tuples(st.integers(0, 13), st.integers(0, 60)).map(list), max_size=3),
        "toggles": st.one_of(st.just([]), st.lists(st.tuples(st.integers(0, 9), st.integers(0, 60)).map(list), max_size=3))}))


def loop(case, rec):
    """Transmitter into receiver."""
    from amaranth import Module
    from amlib.io.i2s import I2SReceiver, I2STransmitter
    from ..sim import cached_dut, Dut
    w = case["w"]
    slot_len = w + case["extra"]

    def build():
        m = Module()
        m.submodules.tx = tx = make(I2STransmitter, sample_width=w)
        m.submodules.rx = rx = make(I2SReceiver, sample_width=w)
        m.d.comb += rx.serial_data_in.eq(tx.serial_data_out)
        d = Dut(m)
        d.tx, d.rx = tx, rx
        return d
    d = cached_dut(("i06l", w), build)
    tx, rx = d.tx, d.rx
    words = [{"payload": v & ((1 << w) - 1), "first": 1 - i % 2, "last": i % 2} for i, v in enumerate(case["words"])]
    src = Source(d, tx.stream_in, words, [1])
    d.set(tx.enable_in, 1)
    d.set(rx.enable_in, 1)
    d.set(rx.stream_out.ready, 1)
    got = []
    for (bc, ws, rise, slot, bit, mid) in wave(case["low"], case["high"], slot_len, len(words) + 5, case["first_right"], 0, case["skew"], lead=40):
        for x in (tx, rx):
            d.set(x.serial_clock_in, bc)
            d.set(x.word_select_in, ws)
        src.pre()
        src.post()
        if d.get(rx.stream_out.valid):
            got.append((d.get(rx.stream_out.payload), d.get(rx.stream_out.first), d.get(rx.stream_out.last)))
        d.tick()
    want = [(x["payload"], x["first"], x["last"]) for x in words]
    expect_eq(got[:len(want)], want, "samples after the loop (width {} in slots of {})".format(w, slot_len))
    for g in got[len(want):]:
        expect_eq(g[0], 0, "sample after the last one")
    rec.nontrivial(len(words) >= 2)


def loop_strategy(tier):
    c = clocks()
    return st.fixed_dictionaries(dict(c, **{
        "w": st.one_of(st.sampled_from([8, 16, 24, 32]), st.integers(3, 32), st.integers(33, 64)), "extra": st.one_of(st.just(0), st.integers(0, 9), st.integers(10, 40)),
        "words": st.lists(wide(64), min_size=1, max_size=12)}))


CHECKS = [Check("i2s_rx", run, strategy, quick=3600, shards=8, rule="random waveforms, stalls and enable points"),
          Check("loop", loop, loop_strategy, quick=900, shards=4, rule="two or more samples")]
