"""I2CTarget."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import Pat, bitpat, values

ID = "I04"
TITLE = "The I2C target answers exactly its own transactions, bit for bit"
STATEMENT = (
    "For every sequence of bus transactions, the target acknowledges exactly the address octets matching its address, delivers every octet written to it with one write strobe, acknowledges it exactly if the application does, and sends exactly the octet the application supplies for each read. "
    "Traffic addressed to others, aborted transfers and unframed clocking produce no strobe, no acknowledgement and no driven data bit. "
    "Every transaction that addressed it is delimited by one start strobe and then one stop or restart strobe."
)
QUANTIFIER = {"over": ["histories", "inputs", "schedules", "configurations"],
              "text": "all transaction sequences, addresses, data, repeated starts, mid-octet aborts, bus timings and application response delays"}
WHY = "The tests use one address and a few bytes and end each transaction after at most two octets."
ANCHORS = {"files": ["amlib/io/i2c.py"],
           "mechanism": [{"name": "I2CBus, I2CTarget", "where": "amlib/io/i2c.py"}],
           "observe_at": ["SCL/SDA levels", "start/stop/restart/read/write strobes", "data_i"]}
TECHNIQUE = "stateful property testing with a generated bus master and an expected-event oracle"
LEVEL_NOTE = "Ideal open-drain bus, half-periods of 6-20 cycles (the documented 4-cycle response latency must fit), no clock stretching (documented as unsupported). Trusts Amaranth's simulator."
RULE = "Non-trivial: the target is addressed and there is also foreign traffic, a restart or an abort."


class Master:
    """Generator-driven bus master: each yielded pair is (scl, sda) for one cycle; receives bus levels back."""
    def __init__(self, half, hold):
        self.half, self.hold = half, hold
        self.scl = self.sda = 1

    def w(self, n):
        lv = None
        for _ in range(n):
            lv = yield (self.scl, self.sda)
        return lv

    def start(self):
        self.sda = 0
        yield from self.w(self.half)

    def restart(self):
        self.scl = 0
        yield from self.w(self.hold)
        self.sda = 1
        yield from self.w(self.half)
        self.scl = 1
        yield from self.w(self.half)
        self.sda = 0
        yield from self.w(self.half)

    def stop(self):
        self.scl = 0
        yield from self.w(self.hold)
        self.sda = 0
        yield from self.w(self.half)
        self.scl = 1
        yield from self.w(self.half)
        self.sda = 1
        yield from self.w(self.half)

    def bit(self, b):
        """Drives b (1 = release), returns the level seen while SCL is high."""
        self.scl = 0
        yield from self.w(self.hold)
        self.sda = b
        yield from self.w(self.half)
        self.scl = 1
        lv = yield from self.w(self.half)
        return lv[1]

    def octet(self, v):
        for i in range(8)[::-1]:
            yield from self.bit(v >> i & 1)

    def read(self):
        v = 0
        for _ in range(8):
            v = v << 1 | (yield from self.bit(1))
        return v


def run(case, rec):
    from amlib.io.i2c import I2CTarget
    from ..sim import cached_dut, Dut
    from ..i2cbus import Pads
    suffix = case["suffix"]

    def build():
        p = Pads(suffix)
        u = I2CTarget(p)
        d = Dut(u)
        d.u, d.p = u, p
        return d
    d = cached_dut(("i04", suffix), build)
    u, p = d.u, d.p
    half, hold = case["half"], case["hold"]
    ms = Master(half, hold)
    want, got = [], []
    st_ = {"open": False}
    seen = {"own": 0, "foreign": 0, "restart": 0, "abort": 0}
    addr = case["addr"]
    acks = []        # application's answer to each write
    supply = []      # octets for each read

    def driver():
        for _ in range(case["lead"]):
            yield from ms.w(1)
        for tr in case["trans"]:
            first = True
            for seg in tr["segs"]:
                if first:
                    yield from ms.start()
                else:
                    yield from ms.restart()
                    seen["restart"] += 1
                    if st_["open"]:
                        want.append("restart")
                        st_["open"] = False
                first = False
                a = addr if seg["own"] else (addr ^ (seg["xor"] or 1)) & 0x7F
                rw = seg["rw"]
                if seg["cut"] is not None and seg["cut"] < 8:
                    for i in range(seg["cut"]):
                        yield from ms.bit((a << 1 | rw) >> (7 - i) & 1)
                    seen["abort"] += 1
                    continue
                yield from ms.octet(a << 1 | rw)
                if seg["own"]:
                    seen["own"] += 1
                    want.append("start")
                    st_["open"] = True
                    if rw and seg["data"]:
                        pass
                else:
                    seen["foreign"] += 1
                if rw and seg["own"]:
                    want.append(("read",))
                    supply.append(seg["data"][0]["x"])
                lv = yield from ms.bit(1)
                expect_eq(lv, 0 if seg["own"] else 1, "acknowledge of address {:#x} by target {:#x}".format(a, addr))
                for k, o in enumerate(seg["data"]):
                    last = k == len(seg["data"]) - 1
                    if not seg["own"]:
                        if rw:
                            v = yield from ms.read()
                            expect_eq(v, 0xFF, "data line driven during foreign read")
                            yield from ms.bit(int(last))
                        else:
                            yield from ms.octet(o["x"])
                            lv = yield from ms.bit(1)
                            expect_eq(lv, 1, "acknowledge of foreign data")
                    elif rw:
                        left = (seg["cut"] or 0) - 8
                        if last and 0 <= left < 8 and o["x"] >> 7 - left & 1:
                            # the initiator gives up while the target releases the data line
                            for i in range(left):
                                v = yield from ms.bit(1)
                                expect_eq(v, o["x"] >> 7 - i & 1, "bit {} sent by the target".format(i))
                            seen["abort"] += 1
                            break
                        v = yield from ms.read()
                        expect_eq(v, o["x"], "octet {} sent by the target".format(k))
                        if last:
                            want.append("stop")     # documented: NAK ends the transaction
                            st_["open"] = False
                            yield from ms.bit(1)
                        else:
                            want.append(("read",))
                            supply.append(seg["data"][k + 1]["x"])
                            lv = yield from ms.bit(0)
                    else:
                        if last and seg["cut"] is not None:
                            for i in range(seg["cut"] - 8):
                                yield from ms.bit(o["x"] >> (7 - i) & 1)
                            seen["abort"] += 1
                            break
                        want.append(("write", o["x"]))
                        acks.append((o["ack"], o["delay"], o["keep"]))
                        yield from ms.octet(o["x"])
                        lv = yield from ms.bit(1)
                        expect_eq(lv, 0 if o["ack"] else 1, "acknowledge of written octet {} ({})".format(k, o["x"]))
            if tr["segs"][-1]["cut"] == 0 and tr["gap"] & 1:
                ms.sda = 1          # stop right after start, without a clock pulse
                yield from ms.w(half)
            else:
                yield from ms.stop()
            if st_["open"]:
                want.append("stop")
                st_["open"] = False
            for _ in range(tr["gap"]):
                yield from ms.w(1)
        yield from ms.w(6)

    g = driver()
    lv = None
    strobe_at = None
    na = nr = 0
    ack_sched = None
    ack_for = ack_len = 0
    t = 0
    nxt = g.send(None)
    d.set(u.address, addr)
    while True:
        scl = nxt[0] & (1 - d.get(p._scl.oe) | d.get(p._scl.o))
        sda = nxt[1] & (1 - d.get(p._sda.oe) | d.get(p._sda.o))
        expect(scl == nxt[0], "target drives the clock")
        d.set(p._scl.i, scl)
        d.set(p._sda.i, sda)
        # application side
        d.set(u.ack_o, 0)
        d.set(u.data_o, t * 91 & 0xFF)
        if d.get(u.write):
            got.append(("write", d.get(u.data_i)))
            if na < len(acks):
                a, delay, ack_len = acks[na]
                ack_for = 0
                na += 1
                ack_sched = t + min(delay, max(0, half + hold - 6)) if a else None
        if ack_sched is not None and ack_sched == t:
            ack_for = ack_len
        if ack_for:                 # may stay asserted until the next octet
            d.set(u.ack_o, 1)
            ack_for -= 1
        if d.get(u.read):
            got.append(("read",))
            if nr < len(supply):
                d.set(u.data_o, supply[nr])
                nr += 1
        for n in ("start", "restart", "stop"):
            if d.get(getattr(u, n)):
                got.append(n)
        d.tick()
        t += 1
        try:
            nxt = g.send((scl, sda))
        except StopIteration:
            break
    expect_eq(got, want, "strobes seen by the application (address {:#x})".format(addr))
    rec.nontrivial(seen["own"] > 0 and (seen["foreign"] or seen["restart"] or seen["abort"]))
    rec.label(*[k for k, v in seen.items() if v])


def strategy(tier):
    octet = st.fixed_dictionaries({"x": values(8), "ack": st.sampled_from([1, 1, 0]), "delay": st.integers(0, 10), "keep": st.sampled_from([1, 1, 2, 7, 50, 100000])})
    seg = st.fixed_dictionaries({
        "own": st.sampled_from([True, True, False]), "rw": st.integers(0, 1), "xor": st.one_of(st.sampled_from([1, 2, 4, 8, 16, 32, 64]), st.integers(1, 127)),
        "cut": st.sampled_from([None] * 5 + list(range(0, 16))), "data": st.lists(octet, min_size=1, max_size=3)})
    tr = st.fixed_dictionaries({"segs": st.lists(seg, min_size=1, max_size=3), "gap": st.integers(0, 12)})
    return st.fixed_dictionaries({"addr": st.one_of(st.integers(0, 127), st.sampled_from([0x28, 0x7F, 0])), "suffix": st.booleans(), "half": st.integers(7, 20), "hold": st.integers(1, 2),
                                  "lead": st.integers(0, 8), "trans": st.lists(tr, min_size=1, max_size=3)})


CHECKS = [Check("target", run, strategy, quick=4800, shards=8, rule="random transaction sequences from a generated master")]
