"""SerialLEDArray (MAX7219 chain)."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation

ID = "I11"
TITLE = "The LED array driver initialises every module, then shows the latched digits"
STATEMENT = (
    "For every chain length, clock divisor and initialisation sequence, after the initial delay the driver sends each initialisation command once, in order, to every module, and from then on refreshes all eight digit registers of every module in turn, forever. "
    "What a module is sent is the digit last latched for it, and nothing not latched is ever shown; a newly latched picture is completely shown within one refresh round. "
    "Before the delay has passed nothing is transmitted."
)
QUANTIFIER = {"over": ["inputs", "histories", "configurations", "schedules"], "text": "chain lengths, divisors, init sequences, delays, pictures and latch times"}
WHY = "The existing test only runs the clock without checking anything."
ANCHORS = {"files": ["amlib/io/max7219.py", "amlib/io/spi.py"], "mechanism": [{"name": "SerialLEDArray", "where": "amlib/io/max7219.py"}],
           "observe_at": ["spi_bus_out pins at a model of a chain of MAX7219 chips"]}
TECHNIQUE = "stateful property testing with an independent MAX7219 chain model"
LEVEL_NOTE = "1-9 modules, init sequences of 1-40 commands, divisors 10-24, up to 3 pictures. Trusts Amaranth's simulator."
RULE = "Non-trivial: at least one picture was latched and completely shown."


class Chain:
    """Shift registers clocked on the rising edge, latched when load (cs) rises; chip 0 is next to the controller."""

    def __init__(self, n):
        self.n, self.shift, self.prev, self.bits, self.words = n, 0, (1, 0), 0, []

    def step(self, cs, sck, sdo):
        pcs, psck = self.prev
        if sck and not psck:
            if not cs:
                self.shift = (self.shift << 1 | sdo) & ((1 << 16 * self.n) - 1)
                self.bits += 1
            else:
                raise Violation("clock pulse while no chip is selected")
        new = None
        if cs and not pcs:
            expect_eq(self.bits, 16 * self.n, "clock pulses in one load")
            new = [self.shift >> 16 * i & 0xffff for i in range(self.n)]
            self.words.append(new)
        if pcs and not cs:
            self.bits = 0
        self.prev = (cs, sck)
        return new


def run(case, rec):
    from amlib.io import max7219
    from ..sim import cached_dut, Dut
    n, div, delay = case["modules"], 2 * case["div"], case["delay"]
    init = [list(x) for x in case["init"]]

    def build():
        kw = {} if not init else {"init_sequence": init}
        u = max7219.SerialLEDArray(divisor=div, init_delay=delay, no_modules=n, **kw)
        d = Dut(u)
        d.u = u
        return d
    d = cached_dut(("i11", n, div, delay, tuple(map(tuple, init))), build, limit=8)
    u = d.u
    if not init:
        init = [[0x0f, 0], [0x09, 0], [0x0a, 0x0f], [0x0b, 7], [0x0c, 1]]
    chain = Chain(n)
    word = 16 * n * div + 4 * div + 30        # generous duration of one load
    current = [0] * (8 * n)
    valid_sets = [[{0} for _ in range(8)] for _ in range(n)]    # values that may legitimately be sent
    state = {"t": 0, "digit": 0, "picture_words": 0}
    shown = [[None] * 8 for _ in range(n)]

    after = [1]

    def cycle(pic=None, noise=0):
        latch = pic is not None
        for i in range(8 * n) if latch or after[0] or (state["t"] % 4 == 0 and state["t"] > delay) else ():
            v = pic[i % len(pic)] + 7 * i & 0xff if latch else (noise * 31 + i * 17 + state["t"]) & 0xff
            d.set(u.digits_in[i], v)
            if latch:
                current[i] = v
                valid_sets[i // 8][i % 8].add(v)
        after[0] = latch
        d.set(u.valid_in, latch)
        cs, sck, sdo = d.get(u.spi_bus_out.cs), d.get(u.spi_bus_out.sck), d.get(u.spi_bus_out.sdo)
        if state["t"] < delay and state["t"] > 2:
            expect_eq((cs, sck), (1, 0), "chip select and clock before the initial delay is over")
        new = chain.step(cs, sck, sdo)
        if new is not None:
            k = len(chain.words) - 1
            if k < len(init):
                want = init[k][0] << 8 | init[k][1]
                expect_eq([hex(x) for x in new], [hex(want)] * n, "initialisation command {} as received by the chips".format(k))
            else:
                digit = (k - len(init)) % 8
                for mod in range(n):
                    expect_eq(new[mod] >> 8, digit + 1, "digit register addressed in module {} of {}".format(mod, n))
                    v = new[mod] & 0xff
                    if v not in valid_sets[mod][digit]:
                        raise Violation("module {} digit {} was sent {:#x}; latched values {}".format(mod, digit, v, sorted(valid_sets[mod][digit])))
                    shown[mod][digit] = v
        d.tick()
        state["t"] += 1

    def until(count, limit, noise=0):
        t = 0
        while len(chain.words) < count:
            t += 1
            expect(t < limit, "only {} of {} expected loads happened".format(len(chain.words), count))
            cycle(None, noise)
    until(1, delay + word + 20)
    until(len(init), word * len(init))
    for p in case["pictures"]:
        for _ in range(p["wait"]):
            cycle(None, 3)
        if p["edge"] is not None:        # latch around the end of a load
            until(len(chain.words) + 1, 2 * word)
            t0 = state["t"]
            until(len(chain.words) + 1, 2 * word)
            for _ in range(state["t"] - t0 - 1 + p["edge"]):
                cycle(None, 5)
        cycle(p["digits"])
        # anything loaded more than one load later shows the new picture
        until(len(chain.words) + 1, 2 * word)
        for mod in range(n):
            for dig in range(8):
                valid_sets[mod][dig] = {valid_now(current, mod, dig)} | ({shown[mod][dig]} if shown[mod][dig] is not None else {0})
        k0 = len(chain.words)
        until(k0 + 1, 2 * word)
        for mod in range(n):
            for dig in range(8):
                valid_sets[mod][dig] = {valid_now(current, mod, dig)}
        until(k0 + 9, 12 * word)
        expect_eq(shown, [[current[8 * m_ + x] for x in range(8)] for m_ in range(n)], "picture shown after one round")
    rec.nontrivial(len(case["pictures"]) > 0)
    rec.label("{} modules".format(n))


def valid_now(current, mod, dig):
    return current[8 * mod + dig]


def strategy(tier):
    cmd = st.tuples(st.integers(1, 15), st.integers(0, 255)).map(list)
    return st.fixed_dictionaries({
        "modules": st.one_of(st.integers(1, 4), st.integers(1, 9)), "div": st.integers(5, 12), "delay": st.one_of(*[st.integers(3, 60)] * 12, st.sampled_from([1000, 1000, 3000, 70000])),
        "init": st.one_of(st.just([]), st.lists(cmd, min_size=1, max_size=12), st.lists(cmd, min_size=1, max_size=12), st.lists(cmd, min_size=13, max_size=40)),
        "pictures": st.lists(st.fixed_dictionaries({"wait": st.one_of(st.just(0), st.integers(1, 3000)), "edge": st.one_of(st.none(), st.integers(-10, 6)),
                                                    "digits": st.lists(st.integers(0, 255), min_size=1, max_size=33)}), min_size=1, max_size=3)})


def resource(case, rec):
    from amaranth import Module, Signal
    from amlib.io.max7219 import SerialLEDArray
    from ..sim import Dut
    u = SerialLEDArray(divisor=2 * case["div"], init_delay=case["delay"], no_modules=1)

    class R:
        copi, clk, cs = Signal(name="copi"), Signal(name="clk"), Signal(name="cs")
    m = Module()
    m.submodules.u = u
    m.d.comb += u.connect_to_resource(R)
    d = Dut(m)
    seen = set()
    for t in range(900):
        a = (d.get(R.copi), d.get(R.clk), d.get(R.cs))
        b = (d.get(u.spi_bus_out.sdo), d.get(u.spi_bus_out.sck), 1 - d.get(u.spi_bus_out.cs))
        expect_eq(a, b, "copi, clk, cs of the resource")
        seen.add(a)
        d.tick()
    rec.nontrivial(len(seen) > 3)


def resource_strategy(tier):
    return st.fixed_dictionaries({"div": st.integers(5, 12), "delay": st.integers(3, 60)})


CHECKS = [Check("chain", run, strategy, quick=160, shards=8, rule="a latched picture"),
          Check("resource", resource, resource_strategy, quick=6, shards=1, rule="pins moved")]
