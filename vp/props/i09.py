"""SPICommandInterface, SPIRegisterInterface, SPIMultiplexer."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import Pat, wide, make

ID = "I09"
TITLE = "SPI register and command transactions read and write exactly what they address"
STATEMENT = (
    "For every address size, register size and register map, a complete SPI transaction returns the addressed register's current value (the default for unmapped or write-only ones, all ones for the size-negotiation register), and a write changes exactly the addressed writable register, once, with exactly its own strobe. "
    "Transactions cut short at any bit, surplus bits, and clocking while deselected write nothing, strobe nothing and leave no trace in later transactions. "
    "The bare command interface reports each command and word exactly once, and busses sharing lines through the multiplexer do not disturb each other."
)
QUANTIFIER = {"over": ["inputs", "histories", "configurations", "schedules"],
              "text": "all address and register sizes, register maps, sequences of transactions, cut-off points, surplus bits and clock timings"}
WHY = "Three transactions on one register map with one size are tested, with one abort point; strobes, read-only and narrow registers, surplus bits and the multiplexer are never checked."
ANCHORS = {"files": ["amlib/io/spi.py"],
           "mechanism": [{"name": n, "where": "amlib/io/spi.py"} for n in ("SPICommandInterface", "SPIRegisterInterface", "SPIMultiplexer")],
           "observe_at": ["sdo at the controller's sampling edges", "register signals", "read and write strobes", "command_ready", "word_complete", "idle", "stalled"]}
TECHNIQUE = "stateful (model-based) property testing against a dictionary of registers"
LEVEL_NOTE = "Address sizes 1-24, register sizes 1-72, up to 11 registers and 3 busses, up to 10 transactions, half-periods of 3-8 clocks. Trusts Amaranth's simulator."
RULE = "Non-trivial: at least one complete write and one further transaction, or an aborted transaction followed by a complete one."


class Host:
    """Mode 1 (data changes on the rising, is sampled at the falling edge of an idle-low clock)."""

    def __init__(self, d, lines, half, hook):
        self.d, self.l, self.h, self.hook = d, lines, Pat(half), hook

    def wait(self, n):
        for _ in range(n):
            self.hook()
            self.d.tick()

    def bit(self, b):
        d, l = self.d, self.l
        d.set(l.sck, 1)
        d.set(l.sdi, b)
        self.wait(self.h.next())
        out = d.get(l.sdo)
        d.set(l.sck, 0)
        self.hook()
        d.tick()
        d.set(l.sdi, 1 - b)      # hold time is over
        self.wait(self.h.next() - 1)
        return out

    def bits(self, value, n, width):
        """Send the first n bits (MSB first) of a value of that width; returns the bits read."""
        r = 0
        for i in range(n):
            r = r << 1 | self.bit(value >> (width - 1 - i) & 1)
        return r


# -- registers ------------------------------------------------------------------------------------------

def build_bus(spec, asize, rsize, default, auto):
    from amaranth import Signal, Module
    from amlib.io.spi import SPIRegisterInterface
    u = make(SPIRegisterInterface, address_size=asize, register_size=rsize, default_read_value=default, support_size_autonegotiation=bool(auto))
    regs = {}
    if auto:
        regs[0] = dict(kind="auto")
    for i, r in enumerate(spec):
        a = r["addr"] % (1 << asize)
        if a in regs:
            try:
                u.add_register(a)
            except ValueError:
                continue
            raise Violation("a second register at address {} was accepted".format(a))
        rs = Signal(name="rs{}".format(i)) if r["rs"] else None
        ws = Signal(name="ws{}".format(i)) if r["ws"] else None
        kind = r["kind"]
        e = dict(kind=kind, rs=rs, ws=ws)
        if kind == "reg":
            size = r["size"] if r["size"] and r["size"] <= rsize else None
            reset = r["init"] & ((1 << (size or rsize)) - 1)
            if r["own"]:
                sig = Signal(size or rsize, reset=reset, name="own{}".format(i))
                out = u.add_register(a, value_signal=sig, read_strobe=rs, write_strobe=ws)
                if out is not sig:
                    raise Violation("add_register did not use the signal it was given")
                e["sig"] = sig
            else:
                e["sig"] = u.add_register(a, size=size, read_strobe=rs, write_strobe=ws, reset=reset)
            expect_eq(len(e["sig"]), size or rsize, "register width")
            e["size"], e["reset"] = size or rsize, reset
        elif kind == "ro":
            e["sig"] = Signal(rsize, name="ro{}".format(i))
            u.add_read_only_register(a, read=e["sig"], read_strobe=rs)
            e["ws"] = None
        elif kind == "const":
            e["value"] = r["init"] & ((1 << rsize) - 1)
            u.add_read_only_register(a, read=e["value"], read_strobe=rs)
            e["ws"] = None
        else:        # write only
            e["sig"] = Signal(rsize, name="wo{}".format(i))
            if ws is None:
                e["ws"] = ws = Signal(name="wos{}".format(i))
            u.add_sfr(a, write_signal=e["sig"], write_strobe=ws, read_strobe=rs)
        regs[a] = e
    return u, regs


def run(case, rec):
    from amaranth import Module
    from amlib.io.spi import SPIMultiplexer
    from ..sim import Dut
    asize, rsize = case["asize"], case["rsize"]
    busses = []
    m = Module()
    mask = (1 << rsize) - 1
    default = case["default"] & mask
    for i, spec in enumerate(case["maps"]):
        auto = case["auto"] or not spec
        u, regs = build_bus(spec, asize, rsize, default, auto)
        m.submodules["u{}".format(i)] = u
        busses.append((u, regs))
    if len(busses) > 1:
        mux = SPIMultiplexer([u.spi for u, _ in busses])
        m.submodules.mux = mux
        lines = mux.shared_lines
    else:
        lines = busses[0][0].spi
    d = Dut(m)
    model, strobes, names = {}, [], []
    for b, (u, regs) in enumerate(busses):
        for a, e in regs.items():
            if e["kind"] == "reg":
                model[b, a] = e["reset"]
            if e["kind"] == "ro":
                model[b, a] = 0
            for k in ("rs", "ws"):
                if e.get(k) is not None:
                    names.append((b, a, k, e))
    events = []

    def hook():
        for b, a, k, e in names:
            if d.get(e[k]):
                v = None
                if k == "ws" and e["kind"] == "wo":
                    v = d.get(e["sig"])
                events.append((b, a, k, v))

    def check_regs(what):
        for b, (u, regs) in enumerate(busses):
            for a, e in regs.items():
                if e["kind"] == "reg":
                    expect_eq(d.get(e["sig"]), model[b, a], "register {} of bus {} ({})".format(a, b, what))
    host = Host(d, lines, [max(3, x) for x in case["half"]] if case["pause"] else [max(5, x) for x in case["half"]], hook)
    host.wait(3)
    wrote = further = aborted = after_abort = surplus = 0
    cmdlen = asize + 1
    for t in case["transactions"]:
        b = t["bus"] % len(busses)
        u, regs = busses[b]
        choices = sorted(regs)
        a = choices[t["sel"] % len(choices)]
        if t["raw"] == 1:
            a = t["addr"] % (1 << asize)
        elif t["raw"] == 2:          # one bit away from a register's address
            bit = t["addr"] % asize
            a ^= 1 << (bit if t["data"] & 1 else asize - 1 - bit)
        for x in range(t["foreign"]):
            host.bit(x & 1)
        # read-only inputs may have any value, which may change between transactions
        for bb, (uu, rr) in enumerate(busses):
            for aa, e in rr.items():
                if e["kind"] == "ro":
                    model[bb, aa] = t["inputs"] * (aa + 3) & mask
                    d.set(e["sig"], model[bb, aa])
        for uu, _ in busses:
            expect_eq((d.get(uu.idle), d.get(uu.stalled)), (1, 0), "idle, stalled while deselected")
        events.clear()
        d.set(u.spi.cs, 1)
        host.wait(4)
        expect_eq(d.get(u.idle), 0, "idle while selected")
        total = cmdlen + rsize
        n = total if not t["cut"] else t["cut"] % total
        data = t["data"] & mask
        host.bits(t["write"] << asize | a, min(n, cmdlen), cmdlen)
        if case["pause"]:
            host.wait(3)
        e = regs.get(a)
        what = "{} of address {} ({} address bits, {} data bits, {})".format("write" if t["write"] else "read", a, asize, rsize, e["kind"] if e else "unmapped")
        got = host.bits(data, max(0, n - cmdlen), rsize)
        if n > cmdlen:
            if e is None or e["kind"] == "wo":
                want = default
            elif e["kind"] == "auto":
                want = mask
            elif e["kind"] == "const":
                want = e["value"]
            else:
                want = model[b, a]
            k = n - cmdlen
            expect_eq(got, want >> (rsize - k), "first {} bits returned by {}".format(k, what))
        ev = []
        if n == total:
            host.wait(3)
            expect_eq(d.get(u.stalled), 1, "stalled after a complete transaction")
            if t["write"]:
                if e and e["kind"] == "reg":
                    model[b, a] = data & ((1 << e["size"]) - 1)
                if e and e.get("ws") is not None:
                    ev.append((b, a, "ws", data if e["kind"] == "wo" else None))
                wrote += bool(e and e["kind"] in ("reg", "wo"))
            elif e and e.get("rs") is not None:
                ev.append((b, a, "rs", None))
            after_abort += aborted > 0
            for x in range(t["surplus"]):
                host.bit(x * 5 >> 1 & 1)
                surplus += 1
            further += wrote > 1
        else:
            aborted += 1
        host.wait(4)
        d.set(u.spi.cs, 0)
        host.wait(4)
        expect_eq(events, ev, "strobes after {} ({} of {} bits)".format(what, n, total))
        check_regs("after {}, {} of {} bits".format(what, n, total))
        if wrote and n == total:
            further += 1
    rec.nontrivial((wrote and further > 1) or after_abort)
    for ok, name in ((wrote, "write"), (aborted, "aborted"), (surplus, "surplus bits"), (len(busses) > 1, "multiplexed")):
        if ok:
            rec.label(name)


def strategy(tier):
    reg = st.fixed_dictionaries({"addr": st.one_of(st.integers(0, 40), wide(24)), "kind": st.sampled_from(["reg", "reg", "reg", "ro", "const", "wo"]),
                                 "rs": st.integers(0, 1), "ws": st.integers(0, 1), "size": st.one_of(st.just(0), st.integers(1, 40), st.integers(1, 72)),
                                 "own": st.integers(0, 1), "init": wide(72)})
    tr = st.fixed_dictionaries({"bus": st.integers(0, 2), "sel": st.integers(0, 11), "raw": st.sampled_from([0, 0, 0, 0, 0, 1, 2, 2]), "addr": wide(24),
                                "write": st.integers(0, 1), "data": wide(72), "inputs": wide(72),
                                "cut": st.one_of(st.just(0), st.just(0), st.integers(1, 91)), "surplus": st.sampled_from([0, 0, 1, 9, 80]),
                                "foreign": st.sampled_from([0, 0, 0, 2, 9])})
    return st.fixed_dictionaries({
        "asize": st.one_of(st.sampled_from([7, 15]), st.integers(1, 15), st.integers(1, 24), st.integers(16, 24)), "rsize": st.one_of(st.sampled_from([8, 16, 32]), st.integers(1, 40), st.integers(1, 40), st.integers(41, 72)),
        "default": wide(72), "auto": st.integers(0, 1),
        "half": st.lists(st.integers(3, 8), min_size=1, max_size=4),
        "maps": st.lists(st.one_of(st.lists(reg, min_size=1, max_size=5), st.lists(reg, min_size=1, max_size=5), st.lists(reg, min_size=1, max_size=11)), min_size=1, max_size=3),
        "pause": st.integers(0, 1), "transactions": st.lists(tr, min_size=1, max_size=10)})


# -- command interface -------------------------------------------------------------------------------------

def run_command(case, rec):
    from amlib.io.spi import SPICommandInterface
    from ..sim import cached_dut, Dut
    c, w = case["c"], case["w"]

    def build():
        u = make(SPICommandInterface, command_size=c, word_size=w)
        d = Dut(u)
        d.u = u
        return d
    d = cached_dut(("i09c", c, w), build)
    u = d.u
    cmds, words = [], []

    def hook():
        if d.get(u.command_ready):
            cmds.append(d.get(u.command))
            # the response is chosen when the command is known
            d.set(u.word_to_send, respond(cmds[-1]))
        if d.get(u.word_complete):
            words.append(d.get(u.word_received))
    mask = (1 << w) - 1

    def respond(cmd):
        return (cmd * 0x9E3779B97F4A7C15 >> 7 ^ case["salt"]) & mask
    host = Host(d, u.spi, [max(3, x) for x in case["half"]] if case["pause"] else [max(5, x) for x in case["half"]], hook)
    if case["powerup"]:
        # selected while coming out of reset: ignore everything until deselected
        d.set(u.spi.cs, 1)
        for x in range(case["powerup"]):
            host.bit(x & 1)
        expect_eq((cmds, words), ([], []), "commands and words of a selection that started before reset")
        d.set(u.spi.cs, 0)
    host.wait(4)
    wc, ww = [], []
    complete = aborted = 0
    for t in case["transactions"]:
        for x in range(t["foreign"]):
            host.bit(x & 1)
        cmd, data = t["cmd"] & ((1 << c) - 1), t["data"] & mask
        total = c + w
        n = total if not t["cut"] else t["cut"] % total
        expect_eq((d.get(u.idle), d.get(u.stalled)), (1, 0), "idle, stalled while deselected")
        d.set(u.spi.cs, 1)
        host.wait(3)
        host.bits(cmd, min(n, c), c)
        if n >= c:
            wc.append(cmd)
        if case["pause"]:
            host.wait(3)
            expect_eq(cmds, wc, "commands")
        got = host.bits(data, max(0, n - c), w)
        if n > c:
            expect_eq(got, respond(cmd) >> (w - (n - c)), "response to command {} ({} of {} bits)".format(cmd, n - c, w))
        if n == total:
            ww.append(data)
            complete += 1
            host.wait(4)
            for x in range(t["surplus"]):
                host.bit(x & 1)
        else:
            aborted += 1
        host.wait(4)
        expect_eq(d.get(u.stalled), int(n == total), "stalled")
        d.set(u.spi.cs, 0)
        host.wait(4)
        expect_eq(cmds, wc, "commands after the transaction ({} of {} bits)".format(n, total))
        expect_eq(words, ww, "words after the transaction ({} of {} bits)".format(n, total))
    rec.nontrivial(complete > 1 or (complete and aborted))
    if aborted:
        rec.label("aborted")
    if case["powerup"]:
        rec.label("selected at reset")


def command_strategy(tier):
    tr = st.fixed_dictionaries({"cmd": wide(36), "data": wide(72),
                                "cut": st.one_of(st.just(0), st.just(0), st.integers(1, 100)), "surplus": st.sampled_from([0, 0, 1, 9, 40, 120]),
                                "foreign": st.sampled_from([0, 0, 0, 2, 9])})
    return st.fixed_dictionaries({"c": st.one_of(st.just(8), st.integers(1, 20), st.integers(1, 36)), "w": st.one_of(st.just(32), st.integers(1, 40), st.integers(1, 72)),
                                  "salt": wide(72), "powerup": st.sampled_from([0, 0, 1, 20]),
                                  "half": st.lists(st.integers(3, 8), min_size=1, max_size=4),
                                  "pause": st.integers(0, 1), "transactions": st.lists(tr, min_size=1, max_size=8)})


CHECKS = [Check("registers", run, strategy, quick=3200, shards=8, rule="random register maps and transactions"),
          Check("command", run_command, command_strategy, quick=3200, shards=8, rule="random sizes and transactions")]
