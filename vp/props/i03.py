"""I2CInitiator."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import Pat, bitpat, values

ID = "I03"
TITLE = "The I2C initiator performs exactly the requested bus operations"
STATEMENT = (
    "For every legal sequence of start, write, read, repeated start and stop requests, every data, acknowledgement, bus period and amount of clock stretching by the addressed device (when enabled), the bus shows exactly the corresponding START, octet, acknowledge and STOP conditions in order and nothing else. "
    "Written octets appear MSB first, read octets and received acknowledge bits are returned unaltered, the data line only changes while the clock is low except for the START and STOP conditions requested, and the clock is never faster than the configured period. "
    "Requests made while the initiator is busy are ignored, and it becomes idle again after every operation."
)
QUANTIFIER = {"over": ["histories", "inputs", "schedules", "configurations"],
              "text": "all operation sequences, data, acks, stretch patterns, request gaps, spurious requests and periods"}
WHY = "The tests run a handful of fixed bytes at one period without any clock stretching and check internal states."
ANCHORS = {"files": ["amlib/io/i2c.py"],
           "mechanism": [{"name": "I2CBus, I2CInitiator", "where": "amlib/io/i2c.py"}],
           "observe_at": ["SCL/SDA levels", "busy", "ack_o", "data_o"]}
TECHNIQUE = "stateful property testing against a scripted bus device and an independent protocol monitor"
LEVEL_NOTE = "Ideal open-drain bus in the core's clock domain, one initiator, periods 4-40 cycles, up to 3 transactions of up to 4 segments. Trusts Amaranth's simulator."
RULE = "Non-trivial: at least one octet written and one read, or a repeated start, or clock stretching."


def run(case, rec):
    from amlib.io.i2c import I2CInitiator
    from ..sim import cached_dut, Dut
    from ..i2cbus import Pads, Monitor, ScriptedSlave
    period, stretch_en, suffix = case["period"], case["stretch_en"], case["suffix"]

    def build():
        p = Pads(suffix)
        kw = {} if stretch_en else {"clk_stretch": False}
        u = I2CInitiator(p, period, **kw)
        d = Dut(u)
        d.u, d.p = u, p
        return d
    d = cached_dut(("i03", period, stretch_en, suffix), build)
    u, p = d.u, d.p
    mon = Monitor()
    slave = ScriptedSlave(hold=1 + case["hold"] % max(1, period // 4))
    slave.stretch = case["stretch"] if stretch_en else []
    ops, script, want = [], [], []
    for tr in case["trans"]:
        for seg in tr:
            ops.append(("start",))
            script.append([])
            want.append("S")
            for o in seg:
                ops.append(tuple(o))
                if o[0] == "write":
                    script[-1].append(("rx", o[2]))
                    want.append(("B", o[1], 1 - o[2]))
                else:
                    script[-1].append(("tx", o[1]))
                    want.append(("B", o[1], 1 - o[2]))
        ops.append(("stop",))
        want.append("P")
    slave.begin(script)
    spur = Pat(case["spurious"])
    state = {"t": 0, "held": 0}

    def cycle(**req):
        for n in ("start", "stop", "write", "read"):
            d.set(getattr(u, n), req.get(n, 0))
        d.set(u.data_i, req.get("data_i", state["t"] * 37 & 0xFF))
        d.set(u.ack_i, req.get("ack_i", state["t"] & 1))
        scl = slave.scl & (state["held"] == 0) & (1 - d.get(p._scl.oe) | d.get(p._scl.o))
        sda = slave.sda & (1 - d.get(p._sda.oe) | d.get(p._sda.o))
        d.set(p._scl.i, scl)
        d.set(p._sda.i, sda)
        mon.step(scl, sda)
        slave.step(scl, sda)
        b = d.get(u.busy)
        d.tick()
        state["held"] -= state["held"] > 0
        state["t"] += 1
        return b

    lim = 100 + 14 * (4 * (period // 4 + 4) + 16 + max(case["stretch"] + [0]))

    def wait_idle():
        n = 0
        while d.get(u.busy):
            s = {}
            if spur.next():
                s[("start", "stop", "write", "read")[(state["t"] >> 1) & 3]] = 1
            cycle(**s)
            n += 1
            expect(n < lim, "initiator stays busy")
    wait_idle()
    gaps = Pat(case["gaps"])
    if stretch_en and case["held"]:
        # another device holds the clock low when the first start is requested
        state["held"] = case["held"]
        for _ in range(4):
            cycle()
        rec.label("clock held at start")
    for k, o in enumerate(ops):
        for _ in range(gaps.next()):
            b = cycle()
            expect(not b, "busy without a request")
        n0 = len(mon.events)
        if o[0] in ("start", "stop"):
            cycle(**{o[0]: 1})
        elif o[0] == "write":
            cycle(write=1, data_i=o[1])
        else:
            cycle(read=1, ack_i=o[2])
        expect(d.get(u.busy), "not busy after a {} request", o[0])
        wait_idle()
        if o[0] == "write":
            expect_eq(d.get(u.ack_o), o[2], "received acknowledge bit (operation {})".format(k))
        elif o[0] == "read":
            expect_eq(d.get(u.data_o), o[1], "received octet (operation {})".format(k))
    for _ in range(period + 8):
        expect(not cycle(), "busy without a request")
    expect_eq(mon.events, want, "bus events")
    expect(mon.scl and mon.sda, "bus not released after stop")
    if mon.min_period is not None:
        expect(mon.min_period >= period, "clock period {} is shorter than the configured {}", mon.min_period, period)
    if mon.min_period is not None and not any(slave.stretch) and not case["held"]:
        expect(mon.min_period <= period + 16, "clock period {} is much longer than the configured {}", mon.min_period, period)
    kinds = {o[0] for o in ops}
    rec.nontrivial({"read", "write"} <= kinds or any(len(t) > 1 for t in case["trans"]) or any(slave.stretch))
    rec.label("stretching" if any(slave.stretch) else "no stretching", "repeated start" if any(len(t) > 1 for t in case["trans"]) else "single",
              "spurious" if any(case["spurious"]) else "clean", *sorted(kinds))


def strategy(tier):
    op = st.tuples(st.sampled_from(["write", "read"]), values(8), st.integers(0, 1)).map(list)
    seg = st.lists(op, min_size=0, max_size=4)
    seg1 = st.lists(op, min_size=1, max_size=4)
    tr = st.one_of(st.lists(seg1, min_size=1, max_size=3), st.lists(seg1, min_size=1, max_size=3), st.lists(seg1, max_size=2).map(lambda l: l + [[]]))
    return st.fixed_dictionaries({
        "period": st.one_of(st.integers(4, 17), st.sampled_from([16, 20, 32, 40, 64, 100])), "stretch_en": st.sampled_from([1, 1, 0]), "suffix": st.booleans(),
        "hold": st.integers(0, 9), "held": st.sampled_from([0, 0, 0, 1, 4, 5, 9, 40]), "stretch": st.one_of(st.just([]), st.lists(st.integers(0, 40), min_size=1, max_size=6)),
        "gaps": st.lists(st.sampled_from([0, 0, 1, 2, 9]), min_size=1, max_size=4), "spurious": st.one_of(st.just([0]), bitpat(5)),
        "trans": st.lists(tr, min_size=1, max_size=2)})


CHECKS = [Check("initiator", run, strategy, quick=2400, shards=8, rule="random operation sequences against a scripted device")]
