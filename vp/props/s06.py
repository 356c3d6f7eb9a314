"""I2CStreamTransmitter."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import Pat, bitpat, values, Source

ID = "S06"
TITLE = "The I2C stream transmitter turns every packet into one bus transaction"
STATEMENT = (
    "For every sequence of framed packets and every producer schedule, including stalls in the middle of a packet, each packet appears on the bus as one START, exactly its bytes in order, and one STOP, with nothing added, dropped or repeated. "
    "This holds for every FIFO depth and bus period, whether or not the device acknowledges or stretches the clock, and the input only applies back-pressure while the internal FIFO is full."
)
QUANTIFIER = {"over": ["inputs", "schedules", "configurations"],
              "text": "all packet lists, mid-packet stalls, FIFO depths, periods, device acknowledgements and stretches"}
WHY = "The only test feeds one burst without stalls and asserts nothing."
ANCHORS = {"files": ["amlib/stream/i2c.py", "amlib/io/i2c.py"],
           "mechanism": [{"name": "I2CStreamTransmitter FIFO and FSM", "where": "amlib/stream/i2c.py"}],
           "observe_at": ["SCL/SDA levels", "stream_in.ready"]}
TECHNIQUE = "property testing with an independent bus protocol monitor"
LEVEL_NOTE = "Packets of 1-6 bytes, FIFO depths 1-16, periods 4-16, ideal open-drain bus. Trusts Amaranth's simulator."
RULE = "Non-trivial: at least two bytes and a producer stall inside a packet, or FIFO back-pressure."


def run(case, rec):
    from amlib.stream.i2c import I2CStreamTransmitter
    from ..sim import cached_dut, Dut
    from ..i2cbus import Pads, Monitor, ScriptedSlave
    period, depth, stretch_en = case["period"], case["depth"], case["stretch_en"]

    def build():
        p = Pads(True)
        kw = {} if stretch_en else {"clk_stretch": False}
        if depth != 16:
            kw["fifo_depth"] = depth
        u = I2CStreamTransmitter(p, period, **kw)
        d = Dut(u)
        d.u, d.p = u, p
        return d
    d = cached_dut(("s06", period, depth, stretch_en), build)
    u, p = d.u, d.p
    mon = Monitor()
    slave = ScriptedSlave()
    slave.stretch = case["stretch"] if stretch_en else []
    words, segs, want = [], [], []
    ack = Pat(case["ack"])
    for pk in case["pkts"]:
        seg = []
        want.append("S")
        for i, b in enumerate(pk):
            words.append({"payload": b, "first": int(i == 0), "last": int(i == len(pk) - 1)})
            a = ack.next()
            seg.append(("rx", a))
            want.append(("B", b, 1 - a))
        segs.append(seg)
        want.append("P")
    slave.begin(segs)
    vp = case["valid"]
    if len(vp) == 2 and vp[1] >= 50:          # burst: on, off
        vp = [1] * vp[0] + [0] * vp[1]
    src = Source(d, u.stream_in, words, vp, idle=case["idle"])
    bytes_done = 0
    t = quiet = 0
    per_byte = 9 * (4 * (period // 4 + 4) + 12 + max(case["stretch"] + [0]))
    lim = 400 + (len(words) + 3 * len(segs)) * per_byte + len(words) * (len(vp) + 1)
    stalled = pressed = False
    level = 0
    while quiet < per_byte + 20:
        src.pre()
        ready = d.get(u.stream_in.ready)
        if not ready:
            pressed = True
            expect(src.i >= depth, "back-pressure with only {} words ever accepted (depth {})", src.i, depth)
        if not src.offered and 0 < src.i < len(words) and not words[src.i]["first"]:
            stalled = True
        scl = slave.scl & (1 - d.get(p._scl.oe) | d.get(p._scl.o))
        sda = slave.sda & (1 - d.get(p._sda.oe) | d.get(p._sda.o))
        d.set(p._scl.i, scl)
        d.set(p._sda.i, sda)
        mon.step(scl, sda)
        slave.step(scl, sda)
        n = len(mon.events)
        src.post()
        d.tick()
        t += 1
        expect(mon.events == want[:n], "bus events {} are not a prefix of {}", mon.events[-6:], want[:n])
        sent = sum(1 for e in mon.events if e not in ("S", "P"))
        expect(sent <= src.i, "more bytes on the bus than accepted from the stream")
        expect(ready or src.i - sent >= depth - 1, "back-pressure while the FIFO cannot be full ({} accepted, {} on the bus)", src.i, sent)
        expect(t < lim, "transmitter stalled: bus events {} of {}", len(mon.events), len(want))
        quiet = quiet + 1 if src.done and len(mon.events) == len(want) else 0
    expect_eq(mon.events, want, "bus events")
    rec.nontrivial(len(words) > 1 and (stalled or pressed))
    rec.label("stall inside packet" if stalled else "no stall", "back-pressure" if pressed else "no back-pressure", "stretching" if any(slave.stretch) else "no stretching")


def strategy(tier):
    return st.fixed_dictionaries({
        "period": st.sampled_from([4, 4, 5, 8, 16]), "depth": st.sampled_from([16, 16, 1, 2, 3, 4, 8]), "stretch_en": st.sampled_from([1, 0]),
        "stretch": st.one_of(st.just([]), st.lists(st.integers(0, 20), min_size=1, max_size=5)),
        "ack": bitpat(5, allow_zero=True), "valid": st.one_of(bitpat(), st.tuples(st.integers(1, 4), st.integers(50, 600)).map(list)),
        "idle": st.fixed_dictionaries({"payload": st.integers(0, 255), "first": st.integers(0, 1), "last": st.integers(0, 1)}),
        "pkts": st.lists(st.lists(values(8), min_size=1, max_size=6), min_size=1, max_size=4)})


CHECKS = [Check("packets", run, strategy, quick=5000, shards=8, rule="random packets and producer schedules")]
