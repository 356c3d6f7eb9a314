"""AsyncSerialRX and the TX->RX loop."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import Pat, bitpat, values
from .i01 import frame, parity_bit

ID = "I02"
TITLE = "The asynchronous serial receiver recovers every frame and flags bad ones"
STATEMENT = (
    "For every divisor of at least 5, data width and parity mode, every sequence of frames on the line (back to back or spaced, with edges displaced by up to a quarter bit) is received in order with exactly the sent data and no error flag, and wrong parity, a missing stop bit or a start-bit glitch raise exactly the corresponding flag with that frame. "
    "A frame completed while the reader does not acknowledge is dropped and flagged as overflow, without corrupting the data still presented. "
    "Looping a transmitter into a receiver of the same settings reproduces the transmitted word sequence, also after the divisor is changed at run time."
)
QUANTIFIER = {"over": ["inputs", "configurations", "schedules", "fault_sequences"],
              "text": "all frames, gaps, edge jitter, line faults (glitches, breaks, bad parity/stop bits), reader stalls and runtime divisors"}
WHY = "The serial transceiver has no tests at all; parity, framing errors, overflow and runtime divisor changes are never exercised."
ANCHORS = {"files": ["amlib/io/serial.py"],
           "mechanism": [{"name": "AsyncSerialRX, AsyncSerial", "where": "amlib/io/serial.py"}],
           "observe_at": ["rx.data", "rx.rdy", "rx.err"]}
TECHNIQUE = "mid-bit sampling reference model and round-trip over generated line waveforms with faults"
LEVEL_NOTE = "Data widths 1-12, divisors 5-40. The line is synchronous to the clock except behind the optional pin synchroniser. Trusts Amaranth's simulator."
RULE = "Non-trivial: two or more frames with jitter, a fault or a stalled reader (line); two or more words (loop)."


class RxModel:
    """Waits for a low line, samples each bit in its middle, then reports the frame."""
    def __init__(self, w, parity):
        self.w, self.parity = w, parity
        self.n = 2 + w + (parity != "none")
        self.state = "idle"
        self.data = self.overflow = self.frame = self.perr = self.rdy = 0

    def step(self, line, ack, div):
        nrdy = self.rdy
        if ack:
            nrdy = int(self.state == "done")
        if self.state == "idle":
            if not line:
                self.state, self.bits, self.timer = "busy", [], div >> 1
        elif self.state == "busy":
            if self.timer:
                self.timer -= 1
            else:
                self.bits.append(line)
                self.timer = div - 1
                if len(self.bits) == self.n:
                    self.state = "done"
        else:
            if ack:
                self.data = sum(b << i for i, b in enumerate(self.bits[1:1 + self.w]))
                self.frame = int(not (self.bits[0] == 0 and self.bits[-1] == 1))
                p = parity_bit(self.data, self.parity)
                self.perr = int(bool(p) and p[0] != self.bits[1 + self.w])
            self.overflow = int(not ack)
            self.state = "idle"
        self.rdy = nrdy


def build_line(case, w, parity, div, mask):
    """Returns (line, clean words or None)."""
    line = [1] * case["lead"]
    words = []
    clean = True
    jm = div // 4
    for f in case["frames"]:
        x = f["x"] & mask
        bits = frame(x, w, parity)
        kind = f["fault"]
        if kind == "parity" and parity != "none":
            bits[-2] ^= 1
            clean = False
        elif kind == "stop":
            bits[-1] = 0
            clean = False
        elif kind == "glitch":
            line += [0] * max(1, min(f["len"], div // 2)) + [1] * (div * (len(bits) + 1))
            clean = False
            continue
        elif kind == "break":
            line += [0] * (f["len"] * 3) + [1] * (div * (len(bits) + 1))
            clean = False
            continue
        start = len(line)
        # edge k nominally at start + k*div, displaced by jitter
        pos = 0
        seg = []
        for k, b in enumerate(bits):
            if k + 1 == len(bits):
                end = (k + 1) * div
            else:
                j = f["jit"][k % len(f["jit"])] if f["jit"] else 0
                end = (k + 1) * div + max(-jm, min(jm, j))
            seg += [b] * (end - len(seg))
        line += seg + [1] * (f["gap"])
        if kind == "stop":
            line += [1] * (div * (len(bits) + 1))
        words.append(x)
    return line, (words if clean else None)


def run_rx(case, rec):
    from amaranth import Record
    from amlib.io.serial import AsyncSerialRX
    from ..sim import cached_dut, Dut
    div0, bits, w, parity, pins = case["div"], case["divisor_bits"], case["w"], case["parity"], case["pins"]
    if bits is not None:
        bits = max(bits, div0.bit_length())

    def build():
        p = Record([("tx", [("o", 1)]), ("rx", [("i", 1, )])]) if pins else None
        kw = dict(divisor=div0)
        if bits is not None:
            kw["divisor_bits"] = bits
        if w != 8:
            kw["data_bits"] = w
        if parity != "none":
            kw["parity"] = parity
        if pins:
            kw["pins"] = p
        u = AsyncSerialRX(**kw)
        d = Dut(u)
        d.u, d.p = u, p
        return d
    d = cached_dut(("i02", div0, bits, w, parity, pins), build)
    u = d.u
    mask = (1 << w) - 1
    div = div0
    if case["retune"] and bits is not None:
        div = max(5, min(case["retune"], (1 << bits) - 1, 40))
        d.set(u.divisor, div)
    if div > 100:
        case = dict(case, frames=case["frames"][:2])
    line, clean = build_line(case, w, parity, div, mask)
    line = line + [1] * (div * 2 + 8)
    m = RxModel(w, parity)
    ack = Pat(case["ack"])
    if pins:
        d.set(d.p.rx.i, 1)
        d.ticks(4)
    got = []
    stalled = False
    hold = reads = before = 0
    pipe = [1, 1]
    for t, b in enumerate(line):
        if pins:
            d.set(d.p.rx.i, b)
            seen = d.get(u.i)
            pipe.append(b)
            expect_eq(seen, pipe.pop(0), "synchronised pin")
        else:
            d.set(u.i, b)
            seen = b
        a = ack.next()
        if m.rdy and not before and case["react"]:
            # the reader lets the word wait, perhaps for several frames
            hold = case["react"][reads % len(case["react"])] * div * (w + 3) // 4
            reads += 1
        before = m.rdy
        if hold:
            hold -= 1
            a = 0
        stalled |= not a
        d.set(u.ack, a)
        for name, sig, want in (("rdy", u.rdy, m.rdy), ("err.overflow", u.err.overflow, m.overflow)):
            expect_eq(d.get(sig), want, "{} in cycle {}".format(name, t))
        if m.rdy:
            expect_eq(d.get(u.data), m.data, "received data in cycle {}".format(t))
            expect_eq((d.get(u.err.frame), d.get(u.err.parity)), (m.frame, m.perr), "frame/parity error flags for {:#x}".format(m.data))
            if a:
                got.append((d.get(u.data), m.frame, m.perr))
        m.step(seen, a, div)
        d.tick()
    if clean is not None and not stalled:
        expect_eq(got, [(x, 0, 0) for x in clean], "received frames")
    faults = {f["fault"] for f in case["frames"]} - {"none"}
    jit = any(any(f["jit"]) for f in case["frames"])
    rec.nontrivial(len(case["frames"]) > 1 and (bool(faults) or jit or stalled))
    rec.label(parity, "clean" if clean is not None else "faulty", "jitter" if jit else "no jitter", "stalled" if stalled else "always ack", *faults)


def st_rx(tier):
    fr = st.fixed_dictionaries({"x": values(12), "gap": st.sampled_from([0, 0, 0, 1, 2, 9]),
                                "fault": st.sampled_from(["none"] * 8 + ["parity", "stop", "glitch", "break"]),
                                "len": st.integers(1, 40), "jit": st.lists(st.integers(-10, 10), max_size=5)})
    ack = st.one_of(st.just([1]), st.just([1]), bitpat(60), st.tuples(st.integers(1, 120), st.integers(1, 120)).map(lambda t: [1] * t[0] + [0] * t[1]))
    return st.fixed_dictionaries({
        "div": st.one_of(*[st.integers(5, 9)] * 12, *[st.sampled_from([16, 17, 25])] * 12, st.sampled_from([130, 257, 300, 521])), "divisor_bits": st.sampled_from([None, None, 5, 8]),
        "w": st.sampled_from([8, 8, 8, 1, 5, 7, 9, 12]), "parity": st.sampled_from(["none", "mark", "space", "even", "odd"]),
        "pins": st.booleans(), "retune": st.sampled_from([0, 0, 5, 7, 12, 31]), "lead": st.integers(0, 3),
        "frames": st.lists(fr, min_size=1, max_size=5), "ack": ack, "react": st.one_of(st.just([]), st.lists(st.sampled_from([0, 0, 1, 4, 6, 9]), min_size=1, max_size=4))})


def run_loop(case, rec):
    from amaranth import Module, Record
    from amlib.io.serial import AsyncSerial
    from ..sim import cached_dut, Dut
    div0, w, parity, pins = case["div"], case["w"], case["parity"], case["pins"]

    def build():
        p = Record([("tx", [("o", 1)]), ("rx", [("i", 1)])]) if pins else None
        kw = dict(divisor=div0, divisor_bits=6)
        if w != 8:
            kw["data_bits"] = w
        if parity != "none":
            kw["parity"] = parity
        if pins:
            kw["pins"] = p
        u = AsyncSerial(**kw)
        m = Module()
        m.submodules.u = u
        m.d.comb += (p.rx.i.eq(p.tx.o) if pins else u.rx.i.eq(u.tx.o))
        d = Dut(m)
        d.u = u
        return d
    d = cached_dut(("i02l", div0, w, parity, pins), build)
    u = d.u
    mask = (1 << w) - 1
    d.set(u.rx.ack, 1)
    total = []
    got = []
    for phase in case["phases"]:
        if phase["div"]:
            d.set(u.divisor, phase["div"])
        div = phase["div"] or (div0 if phase is case["phases"][0] else div)
        i = wait = 0
        words = [x & mask for x in phase["words"]]
        quiet = t = 0
        while quiet < div * (w + 6) + 8:
            ask = i < len(words) and wait >= phase["gap"]
            d.set(u.tx.ack, ask)
            d.set(u.tx.data, words[i] if ask else t & mask)
            if d.get(u.rx.rdy):
                got.append((d.get(u.rx.data), d.get(u.rx.err.overflow) | d.get(u.rx.err.frame) << 1 | d.get(u.rx.err.parity) << 2))
            rdy = d.get(u.tx.rdy)
            if ask and rdy:
                i += 1
                wait = 0
                quiet = 0
            elif rdy:
                wait += 1
                quiet += i == len(words)
            d.tick()
            t += 1
            expect(t < 200 + (len(words) + 2) * (div + 2) * (w + 8), "transmitter stalled")
        total += words
        expect_eq(got, [(x, 0) for x in total], "words received over the loop (divisor {})".format(div))
    rec.nontrivial(len(total) > 1)
    rec.label(parity, "retuned" if len(case["phases"]) > 1 else "one divisor")


def st_loop(tier):
    ph = st.fixed_dictionaries({"div": st.sampled_from([0, 5, 6, 7, 8, 11, 16]), "gap": st.sampled_from([0, 0, 1, 3]), "words": st.lists(values(12), min_size=1, max_size=4)})
    return st.fixed_dictionaries({"div": st.integers(5, 12), "w": st.sampled_from([8, 8, 1, 5, 9]), "parity": st.sampled_from(["none", "mark", "space", "even", "odd"]),
                                  "pins": st.booleans(), "phases": st.lists(ph, min_size=1, max_size=2)})


CHECKS = [Check("line", run_rx, st_rx, quick=8000, shards=6, rule="random frame sequences with gaps, jitter and faults, against the sampling model"),
          Check("loopback", run_loop, st_loop, quick=1500, shards=2, rule="transmitter looped into receiver")]
