"""Stream-fed UART transmitters."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import Pat, bitpat, wide

ID = "S05"
TITLE = "Stream UART transmitters put every accepted word on the line, 8n1"
STATEMENT = (
    "For every divisor and every schedule of offered words, each accepted byte is sent as one start bit, eight data bits LSB first and one stop bit of exactly divisor cycles each, starting in the cycle after it was accepted; frames offered in time follow back to back, and the line is high and reported as not driven otherwise. "
    "The multi-byte variant sends each accepted word little-endian as consecutive contiguous frames, accepts the next word as soon as the last byte has been handed over, and never accepts, alters or drops a word in between. "
    "The bus-attached variant transmits exactly the written bytes it acknowledges."
)
QUANTIFIER = {"over": ["inputs", "schedules", "configurations"],
              "text": "all divisors, word widths, data and offer schedules, including data changing right after acceptance"}
WHY = "Both tests use divisor 10, one schedule and two fixed words, and cannot even be imported without amaranth-soc."
ANCHORS = {"files": ["amlib/stream/uart.py"],
           "mechanism": [{"name": "UARTTransmitter, UARTMultibyteTransmitter, UARTTransmitterPeripheral", "where": "amlib/stream/uart.py"}],
           "observe_at": ["tx", "driving", "idle", "stream.ready"]}
TECHNIQUE = "lock-step reference model over generated offer schedules"
LEVEL_NOTE = "Divisors 1-20, words of 1-8 bytes. amaranth-soc is not installed: only its bus record is replaced by a stand-in. Trusts Amaranth's simulator."
RULE = "Non-trivial: two frames, at least one of them back to back and one after an idle gap or stalled offer."


class UartModel:
    """8n1 transmitter; ready while idle and in the last cycle of the stop bit."""
    def __init__(self, div):
        self.div = div
        self.frame = None
        self.pos = 0

    @property
    def idle(self):
        return self.frame is None

    @property
    def ready(self):
        return self.frame is None or self.pos == 10 * self.div - 1

    @property
    def tx(self):
        return 1 if self.frame is None else self.frame[self.pos // self.div]

    def step(self, valid, payload):
        if self.ready:
            acc = valid
            self.frame = ([0] + [payload >> i & 1 for i in range(8)] + [1]) if valid else None
            self.pos = 0
            return acc
        self.pos += 1
        return False


class MultiModel:
    def __init__(self, n, div):
        self.u = UartModel(div)
        self.n = n
        self.queue = None    # bytes not yet handed to the UART

    @property
    def idle(self):
        return self.queue is None

    @property
    def ready(self):
        return self.queue is None or (self.u.ready and len(self.queue) == 1)

    def step(self, valid, payload):
        ready = self.ready
        q = self.queue
        if q is None:
            self.u.step(0, 0)
        elif self.u.ready:
            self.u.step(1, q[0])
            self.queue = q[1:] or None
        else:
            self.u.step(1, q[0])
        if ready:
            if valid:
                self.queue = [payload >> (8 * i) & 0xFF for i in range(self.n)]
            else:
                self.queue = None
        return ready and valid


def run(case, rec):
    from amlib.stream.uart import UARTTransmitter, UARTMultibyteTransmitter, UARTTransmitterPeripheral
    from ..sim import cached_dut, Dut
    kind, div, n = case["kind"], case["div"], case["n"]

    def build():
        if kind == "byte":
            u = UARTTransmitter(divisor=div)
        elif kind == "multi":
            u = UARTMultibyteTransmitter(byte_width=n, divisor=div)
        else:
            u = UARTTransmitterPeripheral(div)
        d = Dut(u)
        d.u = u
        return d
    d = cached_dut(("s05", kind, div, n if kind == "multi" else 0), build)
    u = d.u
    m = MultiModel(n, div) if kind == "multi" else UartModel(div)
    w = 8 * n if kind == "multi" else 8
    mask = (1 << w) - 1
    todo = [x & mask for x in case["words"]]
    pat = Pat(case["valid"])
    i, t, offered, back, gap, tail = 0, 0, False, 0, 0, 0
    while tail < 3:
        if i < len(todo) and (offered or pat.next()):
            offered = bool(case["hold"])
            v, p = 1, todo[i]
        else:
            v, p, offered = 0, (todo[i] ^ mask if i < len(todo) else t & mask), False
        if kind == "bus":
            d.set(u.bus.cyc, v)
            d.set(u.bus.stb, v)
            d.set(u.bus.we, v)
            if not v:      # an access that is not a write must not transmit anything
                d.set(u.bus.cyc, t & 1)
                d.set(u.bus.stb, t >> 1 & 1)
                d.set(u.bus.we, (t >> 2 & 1) & ~(t & t >> 1) & 1)
            d.set(u.bus.dat_w, p)
            if v:
                expect_eq(d.get(u.bus.ack), int(m.ready), "ack in cycle {}".format(t))
        else:
            d.set(u.stream.valid, v)
            d.set(u.stream.payload, p)
            d.set(u.stream.first, p >> 1 & 1 ^ t & 1 ^ v)      # framing does not matter to a UART
            d.set(u.stream.last, p & 1 ^ t >> 1 & 1)
            expect_eq(d.get(u.stream.ready), int(m.ready), "ready in cycle {}".format(t))
            expect_eq(d.get(u.idle), int(m.idle), "idle in cycle {}".format(t))
            if kind == "byte":
                expect_eq(d.get(u.driving), int(not m.idle), "driving in cycle {}".format(t))
        um = m.u if kind == "multi" else m
        expect_eq(d.get(u.tx), um.tx, "tx in cycle {} (divisor {}, {} words accepted)".format(t, div, i))
        was_idle = m.idle
        if m.step(v, p):
            i += 1
            offered = False
            back += not was_idle
            gap += was_idle
        d.tick()
        t += 1
        if i == len(todo) and m.idle and um.idle:
            tail += 1
    rec.nontrivial(back > 0 and len(todo) > 1)
    rec.label(kind, "back to back" if back else "isolated", "gaps" if gap > 1 else "no gaps")


def slow_strategy(tier):
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["byte", "multi", "bus"]), "div": st.sampled_from([64, 129, 255, 256, 434, 868, 1042, 2083]),
        "n": st.integers(1, 2), "words": st.lists(st.integers(0, 2 ** 16 - 1), min_size=1, max_size=2),
        "valid": bitpat(16), "hold": st.just(1)})


def strategy(tier):
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["byte", "byte", "multi", "multi", "bus"]), "div": st.one_of(st.integers(1, 6), st.sampled_from([8, 10, 16, 20])),
        "n": st.integers(1, 8), "words": st.lists(st.one_of(wide(64), st.sampled_from([0, 1, 0x80, 0x55])), min_size=1, max_size=4),
        "valid": bitpat(16), "hold": st.sampled_from([1, 1, 0])})


CHECKS = [Check("uart_tx", run, strategy, quick=17000, shards=8, rule="random words, divisors and offer schedules against the frame model"),
          Check("uart_tx_slow", run, slow_strategy, quick=64, shards=8, rule="two words at baud rates of realistic divisors, same frame model")]
