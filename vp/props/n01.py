"""SPIControllerInterface connected to SPIDeviceInterface and SPIRegisterInterface."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import wide, make

ID = "N01"
TITLE = "An SPI controller and an SPI device of the library exchange every word"
STATEMENT = (
    "For every word size, SPI mode, bit order, chip-select polarity and any two clocks of which the device's is fast enough, each transfer of the library's SPI controller with the library's SPI device connected to it pin by pin delivers to either side exactly the word which the other one offered, once. "
    "With the register interface instead of the device, in the same or a slower clock, every transfer of one command word reads or writes exactly the register it addresses."
)
QUANTIFIER = {"over": ["inputs", "histories", "configurations", "schedules"],
              "text": "all modes, word sizes, bit orders, words, request gaps, clock ratios and phases of the two sides; register addresses and sizes"}
WHY = "The controller is only ever tested with its data output connected to its own input, the device only against a testbench; nothing connects the two."
ANCHORS = {"files": ["amlib/io/spi.py"], "mechanism": [{"name": n, "where": "amlib/io/spi.py"} for n in ("SPIControllerInterface", "SPIDeviceInterface", "SPIRegisterInterface")],
           "observe_at": ["word_in and word_complete of both sides", "register values"]}
TECHNIQUE = "property testing of the two cores connected to each other, in two generated clock domains"
LEVEL_NOTE = "Word sizes 1-33, divisors 12-40, device clock periods such that half an SPI clock is at least 7 of them (5 for the register interface, which has no input synchronisers and moves its output on shortly after the sampling edge, so that its clock must not be faster than the controller's). Clock edges interleave freely, metastability is not modelled. Trusts Amaranth's simulator."

UNIT = 12       # time units per clock of the controller


def connect(a, b):
    """pins of a controller bus to those of a device bus"""
    return [b.sck.eq(a.sck), b.sdi.eq(a.sdo), b.cs.eq(a.cs), a.sdi.eq(b.sdo)]


def periods(case, div, need, least=2):
    # half a bit must cover `need` device clocks
    most = UNIT * (div // 2) // need
    return {"sync": UNIT, "dev": max(least, min(case["clock"], most))}


def run(case, rec):
    from amaranth import Module, DomainRenamer
    from amlib.io.spi import SPIControllerInterface, SPIDeviceInterface
    from ..sim import cached_dut, Dut, Clocks
    w, cpol, cpha, msb, csh = (case[k] for k in ("w", "cpol", "cpha", "msb", "cs_high"))
    div = 2 * case["div"]

    def build():
        kw = dict(word_size=w, clock_polarity=cpol, clock_phase=cpha, msb_first=bool(msb), cs_idles_high=bool(csh))
        m = Module()
        m.submodules.c = c = make(SPIControllerInterface, divisor=div, **kw)
        u = SPIDeviceInterface(**kw)
        m.submodules.u = DomainRenamer("dev")(u)
        m.d.comb += connect(c.spi, u.spi)
        d = Dut(m)
        d.c, d.u = c, u
        return d
    d = cached_dut(("n01", w, cpol, cpha, msb, csh, div), build)
    c, u = d.c, d.u
    mask = (1 << w) - 1
    clk = Clocks(d, periods(case, div, 7), {"sync": case["phase"][0], "dev": case["phase"][1]})
    gotc, gotu = [], []
    boot = [True]

    def cycle(**req):
        """one clock of the controller and whatever the device does until then"""
        d.set(c.start_transfer, req.get("start", 0))
        while True:
            due = clk.step()
            if not boot[0]:
                if "sync" in due and d.get(c.word_complete):
                    gotc.append(d.get(c.word_in))
                if "dev" in due and d.get(u.word_complete):
                    gotu.append(d.get(u.word_in))
            clk.tick(due)
            if "sync" in due:
                return
    for _ in range(40):
        cycle()
    boot[0] = False
    limit = div * (w + 8) + 60
    for n, x in enumerate(case["transfers"]):
        a, b = x["a"] & mask, x["b"] & mask
        d.set(c.word_out, a)
        d.set(u.word_out, b)
        for _ in range(x["gap"] + div):
            cycle()
        cycle(start=1)
        for t in range(limit):
            cycle()
            if len(gotc) > n and len(gotu) > n:
                break
        for _ in range(2 * div):
            cycle()
        what = "transfer {} ({} bits, mode {}{}, {} first, divisor {}, device clock {}/{})".format(
            n, w, cpol, cpha, "msb" if msb else "lsb", div, clk.period["dev"], UNIT)
        expect_eq(gotc[n:], [b], "words received by the controller in " + what)
        expect_eq(gotu[n:], [a], "words received by the device in " + what)
    rec.nontrivial(len(case["transfers"]) > 1 and w > 1)
    rec.label("mode {}{}".format(cpol, cpha), "msb" if msb else "lsb")


def strategy(tier):
    return st.fixed_dictionaries({
        "w": st.one_of(st.sampled_from([8, 16, 32]), st.integers(1, 33)), "cpol": st.integers(0, 1), "cpha": st.integers(0, 1), "msb": st.integers(0, 1), "cs_high": st.integers(0, 1),
        "div": st.one_of(st.integers(6, 9), st.integers(6, 20)), "clock": st.integers(2, 40), "phase": st.lists(st.integers(0, 40), min_size=2, max_size=2),
        "transfers": st.lists(st.fixed_dictionaries({"a": wide(33), "b": wide(33), "gap": st.integers(0, 50)}), min_size=2, max_size=4)})


def registers(case, rec):
    from amaranth import Module, DomainRenamer
    from amlib.io.spi import SPIControllerInterface, SPIRegisterInterface
    from ..sim import cached_dut, Dut, Clocks
    asize, rsize = case["asize"], case["rsize"]
    w = 1 + asize + rsize
    div = 2 * case["div"]
    mask = (1 << rsize) - 1
    default = case["default"] & mask
    addrs = sorted(set(a % (1 << asize) for a in case["addrs"]))

    def build():
        m = Module()
        m.submodules.c = c = make(SPIControllerInterface, divisor=div, word_size=w, clock_phase=1)
        u = make(SPIRegisterInterface, address_size=asize, register_size=rsize, default_read_value=default, support_size_autonegotiation=False)
        regs = {a: u.add_register(a, reset=a * 3 & mask) for a in addrs}
        m.submodules.u = DomainRenamer("dev")(u)
        m.d.comb += connect(c.spi, u.spi)
        d = Dut(m)
        d.c, d.u, d.regs = c, u, regs
        return d
    d = cached_dut(("n01r", asize, rsize, default, tuple(addrs), div), build)
    c, u = d.c, d.u
    clk = Clocks(d, periods(case, div, 5, UNIT), {"sync": case["phase"][0], "dev": case["phase"][1]})
    got = []
    boot = [True]

    def cycle(start=0):
        d.set(c.start_transfer, start)
        while True:
            due = clk.step()
            if "sync" in due and d.get(c.word_complete) and not boot[0]:
                got.append(d.get(c.word_in))
            clk.tick(due)
            if "sync" in due:
                return
    for _ in range(40):
        cycle()
    boot[0] = False
    model = {a: a * 3 & mask for a in addrs}
    wrote = read = 0
    for n, (sel, write, data, gap) in enumerate(case["ops"]):
        a = addrs[sel % len(addrs)] if sel < 12 else sel * 7 % (1 << asize)
        data &= mask
        d.set(c.word_out, (write << asize | a) << rsize | data)
        for _ in range(gap + div):
            cycle()
        cycle(1)
        for t in range(div * (w + 8) + 60):
            cycle()
            if len(got) > n:
                break
        for _ in range(2 * div):
            cycle()
        what = "{} of register {} ({} address bits, {} data bits)".format("write" if write else "read", a, asize, rsize)
        expect_eq(len(got), n + 1, "words received by the controller after " + what)
        expect_eq(got[n] & mask, model.get(a, default), "value returned by " + what)
        if write and a in model:
            model[a] = data
            wrote += 1
        read += not write
        expect_eq({k: d.get(s) for k, s in d.regs.items()}, model, "registers after " + what)
    rec.nontrivial(wrote and read)
    rec.label("registers")


def registers_strategy(tier):
    return st.fixed_dictionaries({
        "asize": st.one_of(st.just(7), st.integers(1, 15)), "rsize": st.one_of(st.sampled_from([8, 16, 32]), st.integers(1, 33)), "default": wide(33),
        "addrs": st.lists(st.integers(0, 2 ** 15 - 1), min_size=1, max_size=4), "div": st.one_of(st.integers(6, 9), st.integers(6, 20)), "clock": st.integers(12, 48),
        "phase": st.lists(st.integers(0, 40), min_size=2, max_size=2),
        "ops": st.lists(st.tuples(st.integers(0, 15), st.integers(0, 1), wide(33), st.integers(0, 50)).map(list), min_size=2, max_size=6)})


CHECKS = [Check("words", run, strategy, quick=900, shards=8, rule="several transfers of several bits"),
          Check("registers", registers, registers_strategy, quick=200, shards=8, rule="a register is written and one is read")]
