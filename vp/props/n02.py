"""I2CInitiator or I2CStreamTransmitter and several I2CTargets on one bus."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import values

ID = "N02"
TITLE = "An I2C initiator reaches each of the library's targets on a shared bus"
STATEMENT = (
    "For every number of targets with different addresses on the bus of one initiator, each with a clock of its own that is fast enough for the bus, and for every sequence of transactions, every octet written reaches exactly the addressed target's application, once, every octet read is the one its application supplied, and either side sees the acknowledgements of the other. "
    "Addresses of nobody are not acknowledged, and no other target notices anything. Packets streamed through the stream transmitter arrive likewise."
)
QUANTIFIER = {"over": ["inputs", "histories", "configurations", "schedules"],
              "text": "1 to 3 targets, addresses, transactions with repeated starts, data, acknowledgements, bus periods, clock ratios and phases"}
WHY = "Initiator and target are only tested apart, each against a testbench in its own clock; nothing connects the two, nor two targets."
ANCHORS = {"files": ["amlib/io/i2c.py", "amlib/stream/i2c.py"], "mechanism": [{"name": n, "where": "amlib/io/i2c.py"} for n in ("I2CInitiator", "I2CTarget", "I2CBus")] + [{"name": "I2CStreamTransmitter", "where": "amlib/stream/i2c.py"}],
           "observe_at": ["data_o, ack_o of the initiator", "strobes and data_i of every target", "SCL/SDA levels"]}
TECHNIQUE = "stateful property testing of the cores connected to each other, in generated clock domains"
LEVEL_NOTE = "Up to 3 transactions of up to 3 segments of up to 3 octets, bus periods of 32-64 clocks, target clocks of which a quarter of the bus period contains at least six. Clock edges interleave freely, metastability is not modelled. Trusts Amaranth's simulator."

UNIT = 12


def run(case, rec):
    from amaranth import Module, DomainRenamer
    from amlib.io.i2c import I2CInitiator, I2CTarget
    from amlib.stream.i2c import I2CStreamTransmitter
    from ..sim import cached_dut, Dut, Clocks
    from ..i2cbus import Pads, Monitor
    period, count, stream = case["period"], len(case["targets"]), case["stream"]

    def build():
        m = Module()
        pads = [Pads(bool(i & 1)) for i in range(count + 1)]
        u = I2CStreamTransmitter(pads[0], period) if stream else I2CInitiator(pads[0], period)
        m.submodules.u = u
        ts = []
        for i in range(count):
            t = I2CTarget(pads[i + 1])
            m.submodules["t{}".format(i)] = DomainRenamer("t{}".format(i))(t)
            ts.append(t)
        d = Dut(m)
        d.u, d.ts, d.pads = u, ts, pads
        return d
    d = cached_dut(("n02", period, count, stream), build)
    u, ts, pads = d.u, d.ts, d.pads
    addrs = []
    for x in case["targets"]:
        a = x["addr"]
        while a in addrs:
            a = (a + 1) % 128
        addrs.append(a)
    most = UNIT * (period // 4) // 6
    periods = {"sync": UNIT}
    phases = {"sync": 0}
    for i, x in enumerate(case["targets"]):
        periods["t{}".format(i)] = max(2, min(x["clock"], most))
        phases["t{}".format(i)] = x["phase"]
        d.set(ts[i].address, addrs[i])
    clk = Clocks(d, periods, phases)
    mon = Monitor()

    # what is to happen
    ops, bus = [], []
    want = [[] for _ in ts]
    acks = [[] for _ in ts]
    supply = [[] for _ in ts]
    packets = []
    touched = set()
    wrote = read = 0
    for tr in case["trans"]:
        open_ = None
        for seg in tr["segs"][:1] if stream else tr["segs"]:
            k = seg["to"] % (count + 1) - 1
            if k >= 0:
                a = addrs[k]
                touched.add(k)
            else:
                a = seg["nobody"]
                while a in addrs:
                    a = (a + 1) % 128
            if open_ is not None:
                want[open_].append("restart")
                open_ = None
            rw = 0 if stream or not seg["data"] else seg["rw"]
            bus.append("S")
            ops.append(("start",))
            ops.append(("write", a << 1 | rw, int(k >= 0)))
            bus.append(("B", a << 1 | rw, int(k < 0)))
            packet = [a << 1 | rw]
            if k >= 0:
                want[k].append("start")
                open_ = k
            if rw and k >= 0:
                for j, (v, _) in enumerate(seg["data"]):
                    last = j == len(seg["data"]) - 1
                    want[k].append("read")
                    supply[k].append(v)
                    ops.append(("read", v, int(not last)))
                    bus.append(("B", v, int(last)))
                    read += 1
                want[k].append("stop")      # the target takes a NAK for the end
                open_ = None
            elif not rw:
                for v, ack in seg["data"]:
                    if k >= 0:
                        want[k].append(("write", v))
                        acks[k].append(ack)
                    got = int(k >= 0 and ack)
                    ops.append(("write", v, got))
                    bus.append(("B", v, 1 - got))
                    packet.append(v)
                    wrote += k >= 0
            packets.append(packet)
        if open_ is not None:
            want[open_].append("stop")
        ops.append(("stop",))
        bus.append("P")
    log = [[] for _ in ts]

    def initiator():
        """one step per clock of the initiator"""
        n = 0
        while d.get(u.busy):
            yield
        for k, o in enumerate(ops):
            for _ in range(case["gap"]):
                yield
            if o[0] == "read":
                d.set(u.ack_i, o[2])
            elif o[0] == "write":
                d.set(u.data_i, o[1])
            d.set(getattr(u, o[0]), 1)
            yield
            d.set(getattr(u, o[0]), 0)
            n = 0
            while d.get(u.busy):
                n += 1
                expect(n < 40 * period, "the initiator stays busy in operation {} of {}", k, ops)
                yield
            if o[0] == "write":
                expect_eq(d.get(u.ack_o), o[2], "acknowledge of octet {:#x} seen by the initiator (operation {} of {})".format(o[1], k, ops))
            elif o[0] == "read":
                expect_eq(d.get(u.data_o), o[1], "octet read by the initiator (operation {} of {})".format(k, ops))

    def streamer():
        s = u.stream_in
        for p in packets:
            for i, v in enumerate(p):
                for _ in range(case["gap"]):
                    yield
                d.set(s.valid, 1)
                d.set(s.payload, v)
                d.set(s.first, int(i == 0))
                d.set(s.last, int(i == len(p) - 1))
                while not d.get(s.ready):
                    yield
                yield
                d.set(s.valid, 0)
    main = streamer() if stream else initiator()
    running = True
    quiet = 0
    na, nr = [0] * count, [0] * count
    limit = 400 + len(bus) * 12 * (period + 24)
    n = 0
    while quiet < 3 * period:
        due = clk.step()
        scl = sda = 1
        for p in pads:
            scl &= 1 - d.get(p._scl.oe) | d.get(p._scl.o)
            sda &= 1 - d.get(p._sda.oe) | d.get(p._sda.o)
        for p in pads:
            d.set(p._scl.i, scl)
            d.set(p._sda.i, sda)
        mon.step(scl, sda)
        if "sync" in due:
            n += 1
            if running:
                try:
                    next(main)
                except StopIteration:
                    running = False
            elif len(mon.events) >= len(bus):
                quiet += 1
            expect(n < limit, "the bus stalls; events {} of {}", mon.events, bus)
        for k, t in enumerate(ts):
            if "t{}".format(k) in due:
                d.set(t.data_o, n * 91 & 0xFF)
                if d.get(t.write):
                    log[k].append(("write", d.get(t.data_i)))
                    d.set(t.ack_o, acks[k][na[k]] if na[k] < len(acks[k]) else 0)
                    na[k] += 1
                if d.get(t.read):
                    log[k].append("read")
                    if nr[k] < len(supply[k]):
                        d.set(t.data_o, supply[k][nr[k]])
                    nr[k] += 1
                for s in ("start", "restart", "stop"):
                    if d.get(getattr(t, s)):
                        log[k].append(s)
        clk.tick(due)
    expect_eq(mon.events, bus, "bus events (targets at {})".format(addrs))
    for k in range(count):
        expect_eq(log[k], want[k], "strobes seen by target {} of {} (clock {}/{}, bus period {})".format(k, addrs, periods["t{}".format(k)], UNIT, period))
    rec.nontrivial(len(touched) > 1 or wrote and read or stream and wrote > 1)
    rec.label("stream" if stream else "initiator", "{} targets".format(count))


def strategy(tier):
    seg = st.fixed_dictionaries({"to": st.integers(0, 11), "nobody": st.integers(0, 127), "rw": st.integers(0, 1),
                                 "data": st.lists(st.tuples(values(8), st.sampled_from([1, 1, 0])).map(list), max_size=3)})
    return st.fixed_dictionaries({
        "period": st.sampled_from([32, 33, 36, 40, 64]), "stream": st.sampled_from([0, 0, 1]), "gap": st.sampled_from([0, 0, 1, 7]),
        "targets": st.lists(st.fixed_dictionaries({"addr": st.integers(0, 127), "clock": st.integers(3, 32), "phase": st.integers(0, 31)}), min_size=1, max_size=3),
        "trans": st.lists(st.fixed_dictionaries({"segs": st.lists(seg, min_size=1, max_size=3)}), min_size=1, max_size=3)})


CHECKS = [Check("bus", run, strategy, quick=250, shards=8, rule="several targets are addressed, or octets are written and read")]
