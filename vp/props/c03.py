"""UARTPeripheral."""

from collections import deque

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import values
from .i01 import frame

ID = "C03"
TITLE = "The UART peripheral transfers every byte between bus and line, in order"
STATEMENT = (
    "For every FIFO depth, divisor, word width and parity mode and every interleaving of bus accesses with line activity, each word written while enabled and ready is sent exactly once and in order, words written while disabled are not sent, and each received word is delivered by the data register exactly once and in order as long as it finds room in the FIFO; when it does not, what was received before stays intact and the overflow is flagged. "
    "The ready flags tell when a write will be accepted and a word can be read, the divisor register reads back and governs both directions, and the driving output is high whenever a frame is on the line. "
    "Its three events become pending on received data, receive error and an emptied transmit queue, and interrupt when enabled."
)
QUANTIFIER = {"over": ["histories", "inputs", "configurations", "schedules"], "text": "depths, divisors, widths, parities, bus operation sequences, frames with errors and overflows"}
WHY = "The peripheral has no test, and cannot even be imported by the existing suite here."
ANCHORS = {"files": ["amlib/soc/uart.py", "amlib/soc/peripheral.py", "amlib/soc/event.py", "amlib/io/serial.py"],
           "mechanism": [{"name": "UARTPeripheral", "where": "amlib/soc/uart.py"}],
           "observe_at": ["bus", "irq", "tx", "rx", "driving"]}
TECHNIQUE = "model-based stateful testing through the bus, with an independent line receiver and transmitter"
LEVEL_NOTE = "Depths 1-16, divisors 5-300. amaranth-soc and lambdasoc are not installed; functional stand-ins of the CSR bus, decoder and memory map replace them. Trusts Amaranth's simulator."


class Rx:
    """Independent receiver with parity; div may change while idle."""

    def __init__(self, div, w, parity):
        self.div, self.w, self.parity = div, w, parity
        self.n, self.words = None, []

    def step(self, level):
        if self.n is None and not level:
            self.n, self.bits = 0, []
        if self.n is not None:
            if self.n % self.div == self.div // 2:
                self.bits.append(level)
            self.n += 1
            total = 2 + self.w + (self.parity != "none")
            if len(self.bits) == total:
                x = sum(b << i for i, b in enumerate(self.bits[1:1 + self.w]))
                expect_eq(self.bits, frame(x, self.w, self.parity), "frame sent for {:#x}".format(x))
                self.words.append(x)
                self.bits = []
            if self.n == total * self.div:
                self.n = None


def run(case, rec):
    from ..sim import Dut, cached_dut
    from ..wb import Master
    from amlib.soc.uart import UARTPeripheral
    div, w, parity, rd, td = case["div"], case["w"], case["parity"], case["rx_depth"], case["tx_depth"]

    def build():
        kw = dict(divisor=div)
        if case["bits"]:
            kw["divisor_bits"] = case["bits"]
        if rd != 16:
            kw["rx_depth"] = rd
        if td != 16:
            kw["tx_depth"] = td
        if w != 8:
            kw["data_bits"] = w
        if parity != "none":
            kw["parity"] = parity
        uart = UARTPeripheral(**kw)
        d = Dut(uart)
        d.u = uart
        return d
    d = cached_dut(("c03", div, case["bits"], w, parity, rd, td), build, limit=24)
    u = d.u
    regs = {}
    for r in u.bus.memory_map.all_resources():
        regs[r.name[-1].split("_", 1)[1]] = (r.start, r.end - r.start, r.resource)
    want = {"enabled", "divisor", "rx_data", "rx_rdy", "rx_err", "tx_data", "tx_rdy", "ev_status", "ev_pending", "ev_enable"}
    expect_eq(set(regs), want, "registers")
    line = deque()          # what is still to come on rx
    rx = Rx(div, w, parity)
    low = [0]
    flen = 2 + w + (parity != "none")
    d.set(u.rx, 1)

    def tick():
        d.set(u.rx, line.popleft() if line else 1)
        t = d.get(u.tx)
        rx.step(t)
        expect(t or d.get(u.driving), "driving is low during a frame")
        d.tick()
    m = Master(d, u.bus, tick=tick, limit=60)

    def read(name):
        start, size, e = regs[name]
        sel = sum(1 << (start % 4 + i) for i in range(size))
        return m.access(start >> 2, 0, 0, sel if case["sel"] else 15) >> (start % 4 * 8) & ((1 << e.width) - 1)

    def write(name, v):
        start, size, e = regs[name]
        sel = sum(1 << (start % 4 + i) for i in range(size))
        m.access(start >> 2, 1, v << (start % 4 * 8), sel if case["sel"] else 15)

    mask = (1 << w) - 1
    maxdiv = (1 << regs["divisor"][2].width) - 1
    sent, got, incoming = [], [], []    # words accepted for sending; words read; words put on the rx line
    enabled = 0
    opt = set()
    cur = div
    n_over = n_bad = n_irq = 0
    expect_eq(read("divisor"), div, "divisor after reset")
    expect_eq(maxdiv, (1 << (case["bits"] or div.bit_length())) - 1, "largest value of the divisor register")

    def drained():
        """wait until both directions are at rest"""
        limit = (td + 3) * flen * cur + len(line) + 60
        while line or d.get(u.driving) or len(rx.words) < len(sent):
            tick()
            limit -= 1
            expect(limit > 0, "sending does not end: {} words of {} sent, driving={}".format(len(rx.words), len(sent), d.get(u.driving)))
        for _ in range(2 * cur + 6):
            tick()
        expect_eq(rx.words, sent, "words sent")

    def take(must=False):
        """read one word if there is any"""
        if read("rx_rdy"):
            expect(len(got) < len(incoming), "data is ready, but none was received")
            got.append(read("rx_data"))
            expect_eq(got[-1], incoming[len(got) - 1], "received word {}".format(len(got) - 1))
            return True
        expect(not must, "{} words received, {} read, but no data ready".format(len(incoming), len(got)))
        return False

    def take_all():
        drained()
        while len(got) < len(incoming):
            take(must=True)
        expect_eq(read("rx_rdy"), 0, "rx_rdy with everything read")

    for op in case["ops"]:
        kind, x, n = op["op"], op["x"] & mask, op["n"]
        if kind == "receive":
            for i in range(1 + n % 3):
                while len(incoming) - len(got) >= rd:
                    drained()
                    take(must=True)
                v = (x + i * 37) & mask
                line.extend(b for b in frame(v, w, parity) for _ in range(cur))
                line.extend([1] * (n % 5 * (n // 5 % 3)))
                incoming.append(v)
        elif kind == "take":
            take()
        elif kind == "take all":
            take_all()
        elif kind == "wait":
            for _ in range(n * 3):
                tick()
        elif kind == "send":
            if not enabled:
                write("enabled", 1)
                enabled = 1
            for i in range(1 + n % 4):
                if read("tx_rdy"):
                    v = (x + i * 59) & mask
                    sent.append(v)
                    write("tx_data", v)
                elif n & 8:
                    write("tx_data", x ^ mask)      # not ready: must not disturb anything
                    opt.add(len(sent))
                    # it may just have become ready; find out which
                    n_sent = len(sent)
                    limit = (td + 4) * flen * cur + 60
                    while d.get(u.driving) or len(rx.words) < n_sent:
                        tick()
                        limit -= 1
                        expect(limit > 0, "sending does not end")
                    for _ in range((flen + 2) * cur):
                        tick()
                    if len(rx.words) == n_sent + 1 and rx.words[-1] == x ^ mask:
                        sent.append(x ^ mask)
                    expect_eq(rx.words, sent, "words sent")
        elif kind == "disabled":
            write("enabled", 0)
            enabled = 0
            write("tx_data", x)
            if n & 1:
                drained()
        elif kind == "divisor":
            drained()
            wide_div = op["x"] * 4099 & maxdiv       # no traffic now: any value will do
            write("divisor", wide_div)
            expect_eq(read("divisor"), wide_div, "divisor read back")
            cur = rx.div = max(5, min(5 + n if n < 24 else 240 + n, maxdiv))
            write("divisor", cur)
            expect_eq(read("divisor"), cur, "divisor read back")
        elif kind == "overflow":
            take_all()
            vs = [(x + 11 * i) & mask for i in range(rd + 1 + n % 2)]
            write("ev_pending", 7)
            for v in vs:
                line.extend(b for b in frame(v, w, parity) for _ in range(cur))
            incoming.extend(vs[:rd])
            drained()
            expect_eq(read("rx_err") & 1, 1, "overflow flag")
            expect_eq(read("ev_pending") & 2, 2, "pending bit of the receive error")
            take_all()
            n_over += 1
        elif kind == "bad":
            take_all()
            # a good frame first, so that no error is left over from before
            line.extend(b for b in frame(x, w, parity) for _ in range(cur))
            incoming.append(x)
            take_all()
            expect_eq(read("rx_err"), 0, "error flags after a good frame")
            write("ev_pending", 7)
            expect_eq(read("ev_pending") & 2, 0, "pending bit of the receive error after clearing")
            bits = frame(x, w, parity)
            bad = 2
            if parity != "none" and n & 1:
                bits[-2] ^= 1
                bad = 4
            else:
                bits[-1] = 0
            line.extend(b for b in bits[:-1] for _ in range(cur))
            # a missing stop bit is low just long enough not to be taken for the next start bit
            line.extend([bits[-1]] * (cur // 2 + 2))
            line.extend([1] * (cur * flen * 2))
            drained()
            expect_eq(read("rx_err"), bad, "error flags after a frame with bad {}".format("parity" if bad == 4 else "stop bit"))
            expect_eq(read("ev_pending") & 2, 2, "pending bit of the receive error")
            # the word of a bad frame may or may not be delivered
            if read("rx_rdy"):
                expect_eq(read("rx_data"), x, "word of the bad frame")
            line.extend(b for b in frame(x, w, parity) for _ in range(cur))
            incoming.append(x)
            take_all()
            n_bad += 1
        elif kind == "irq":
            take_all()
            if not enabled:
                write("enabled", 1)
                enabled = 1
            write("ev_enable", 0)
            write("ev_pending", 7)
            expect_eq(d.get(u.irq), 0, "interrupt with all events disabled")
            expect_eq(read("ev_pending"), 0, "pending events at rest")
            expect_eq(read("ev_status"), 4 + 2 * bool(read("rx_err")), "event status at rest")
            en = 1 + n % 7
            write("ev_enable", en)
            expect_eq(read("ev_enable"), en, "enable register")
            expect_eq(d.get(u.irq), 0, "interrupt before any event")
            line.extend(b for b in frame(x, w, parity) for _ in range(cur))
            incoming.append(x)
            drained()
            expect_eq(read("ev_pending"), 1, "pending events after a reception")
            expect_eq(d.get(u.irq), en & 1, "interrupt after a reception, enabled {}".format(en))
            write("ev_pending", 1)
            expect_eq(read("ev_pending"), 1, "pending events while data is ready")
            take_all()
            write("ev_pending", 1)
            expect_eq(read("ev_pending"), 0, "pending events after reading and clearing")
            expect_eq(d.get(u.irq), 0, "interrupt after clearing")
            sent.append(x)
            write("tx_data", x)
            drained()
            expect_eq(read("ev_pending"), 4, "pending events after sending")
            expect_eq(d.get(u.irq), en >> 2 & 1, "interrupt after sending, enabled {}".format(en))
            n_irq += 1
    take_all()
    expect_eq(d.get(u.tx), 1, "line at rest")
    rec.nontrivial(len(sent) > 1 and len(got) > 1)
    rec.label(parity, *(n for n, c in (("overflow", n_over), ("bad frame", n_bad), ("events", n_irq), ("overfull write", opt)) if c))


def strategy(tier):
    op = st.fixed_dictionaries({"op": st.sampled_from(["receive", "receive", "take", "take", "take all", "wait", "send", "send", "send", "disabled", "divisor", "overflow", "bad", "irq"]),
                                "x": st.one_of(st.integers(0, 1023), st.sampled_from([0, 1023, 0x55])), "n": st.integers(0, 25)})
    return st.fixed_dictionaries({
        "div": st.sampled_from([5, 6, 7, 9, 16, 30, 5, 6, 7, 9, 16, 30, 300]), "bits": st.sampled_from([0, 9, 12, 16]), "w": st.sampled_from([8, 8, 8, 7, 5, 10]),
        "parity": st.sampled_from(["none", "none", "mark", "space", "even", "odd"]), "rx_depth": st.sampled_from([1, 2, 3, 4, 16]), "tx_depth": st.sampled_from([1, 2, 4, 16]),
        "sel": st.booleans(), "ops": st.lists(op, min_size=1, max_size=12)})


CHECKS = [Check("uart", run, strategy, quick=2500, shards=8, rule="several words sent and several received")]
