"""Every component after a reset."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from . import x01

ID = "X02"
TITLE = "Every component starts afresh after a reset"
STATEMENT = (
    "For every component without a sample memory, every configuration and every input history before and after, a reset of its clock domain at any moment makes the component behave from then on, in every cycle, exactly as after power-up. "
    "Nothing of what happened before the reset shows on any output again, except for data lines not declared valid."
)
QUANTIFIER = {"over": ["configurations", "inputs", "histories", "faults"], "text": "random histories before and after a reset at a random moment, random configurations"}
WHY = "No test ever resets a design after it has been used."
ANCHORS = {"files": ["amlib/io/spi.py", "amlib/io/i2c.py", "amlib/io/i2s.py", "amlib/io/serial.py", "amlib/stream/generator.py", "amlib/stream/uart.py", "amlib/utils/fifo.py", "amlib/utils/timer.py"],
           "mechanism": [{"name": "reset values of all registers", "where": "amlib"}], "observe_at": ["all public outputs"]}
TECHNIQUE = "metamorphic (differential) testing of a reset against a fresh design with random stimulus"
LEVEL_NOTE = "Up to 500 cycles before and 300 after the reset, which lasts six cycles with inputs at rest, so that Amaranth's own reset-less synchronisers have settled. Components keeping samples in memories (FIR and half-band MAC loop, FFT, convolver, analyzer, LED colours) are left out. Trusts Amaranth's simulator."

# with a memory whose contents survive a reset in hardware (not in simulation)
MEMORY = ["StereoMAC", "FFT", "HB", "FIR", "ILA", "SyncSerialILA", "WishboneRAM", "WS2812", "UARTPeripheral"]
NAMES = [n for n in x01.NAMES if n not in MEMORY + ["Debouncer"]]      # 65536 cycles until the debouncer does anything


def run(case, rec):
    from ..sim import cached_dut
    name, ps = case["component"], case["params"]
    a = cached_dut(("x02", name, ps), lambda: x01.instance(name, ps, "sync", None), limit=40)
    b = cached_dut(("x02f", name, ps), lambda: x01.instance(name, ps, "sync", None), limit=40)
    before = x01.Stimulus(a.ins, case["seed"])
    active = 0
    rest = [a.get(s) for _, s in a.outs]
    for t in range(case["before"]):
        for (n, s), v in zip(a.ins, before.next()):
            a.set(s, v)
        a.tick()
    active = [a.get(s) for _, s in a.outs] != rest
    for d in (a, b):
        rst = d.domains["sync"].rst
        for _, s in d.ins:
            d.set(s, 0)
        d.set(rst, 1)
        d.ticks(6)
        d.set(rst, 0)
    stim = x01.Stimulus(a.ins, case["seed2"])
    fields = {"payload": "valid", "first": "valid", "last": "valid"}
    index = {n: i for i, (n, _) in enumerate(a.outs)}
    act = set()
    last = None
    for t in range(case["after"]):
        for (n, s), (_, s2), v in zip(a.ins, b.ins, stim.next()):
            a.set(s, v)
            b.set(s2, v)
        oa = [a.get(s) for _, s in a.outs]
        ob = [b.get(s) for _, s in b.outs]
        if oa != ob:
            for i in range(len(oa)):
                n = a.outs[i][0]
                stem, _, f = n.rpartition(".")
                v = index.get(stem + ".valid")
                if oa[i] != ob[i] and not (f in fields and v is not None and not oa[v] and not ob[v]):
                    raise Violation("{}: {} cycles after a reset, {} = {}, but {} after power-up".format(name, t, n, oa[i], ob[i]))
        if last is not None:
            act.update(i for i in range(len(oa)) if oa[i] != last[i])
        last = oa
        a.tick()
        b.tick()
    rec.nontrivial(active and act)
    rec.label(name)


def _case(name):
    return st.fixed_dictionaries({"component": st.just(name), "params": st.integers(0, 5), "seed": st.integers(0, 10**6), "seed2": st.integers(0, 10**6),
                                  "before": st.integers(1, 500), "after": st.integers(60, 300)})


def strategy(tier):
    return st.sampled_from(NAMES).flatmap(_case)


CHECKS = [Check("reset", run, strategy, quick=12000, shards=8, rule="outputs differ from power-up when the reset comes, and change after it")]
