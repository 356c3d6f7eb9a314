"""InterruptSource."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import wide

ID = "C02"
TITLE = "Interrupt sources lose no event and interrupt exactly when enabled"
STATEMENT = (
    "For every set of level, rising and falling events and every interleaving of strobes with register accesses, an event makes its own pending bit read one in the next cycle, also if the bit is being cleared in that very cycle, and the bit then stays until a one is written to it while the event is inactive; writes of zero and writes to other bits change nothing. "
    "The interrupt line is high exactly while some event is both pending and enabled, the enable register holds what was last written, and the status register shows every strobe level one cycle later."
)
QUANTIFIER = {"over": ["histories", "inputs", "configurations"], "text": "event sets and modes, strobe sequences, register writes at every relative time"}
WHY = "The interrupt logic has no test; the races between an event and its clearing need the exact cycle."
ANCHORS = {"files": ["amlib/soc/event.py"],
           "mechanism": [{"name": "InterruptSource, EventSource", "where": "amlib/soc/event.py"}],
           "observe_at": ["status", "pending", "enable", "irq"]}
TECHNIQUE = "model-based testing cycle by cycle"
LEVEL_NOTE = "1-40 events. amaranth-soc and lambdasoc are not installed; CSR elements and the IRQ line are replaced by stand-ins. Strobes are low in the cycle after reset. Trusts Amaranth's simulator."


def run(case, rec):
    from ..sim import Dut, cached_dut
    from amlib.soc.event import InterruptSource, EventSource
    modes = tuple(case["modes"])
    n = len(modes)

    def build():
        ev = [EventSource(mode=m, name="e{}".format(i)) if m != "default" else EventSource(name="e{}".format(i)) for i, m in enumerate(modes)]
        u = InterruptSource(tuple(ev) if case["tuple"] else ev, name="src")
        d = Dut(u)
        d.u, d.ev = u, ev
        return d
    d = cached_dut(("c02", modes, case["tuple"]), build, limit=64)
    u, ev = d.u, d.ev
    expect_eq([len(u.status.r_data), len(u.pending.r_data), len(u.pending.w_data), len(u.enable.r_data), len(u.enable.w_data)], [n] * 5, "register widths")
    mask = (1 << n) - 1
    status = pending = enable = last = 0
    fired = held = race = 0
    for t, step in enumerate([{}] + case["steps"]):
        stb = step.get("stb", 0) & mask
        if step.get("keep"):
            stb = last
        p_stb, p = step.get("clear") is not None, (step.get("clear") or 0) & mask
        e_stb, e = step.get("enable") is not None, (step.get("enable") or 0) & mask
        for i, x in enumerate(ev):
            d.set(x.stb, stb >> i & 1)
        junk = step.get("junk", 0)
        d.set(u.pending.w_stb, p_stb)
        d.set(u.pending.w_data, p if p_stb else junk & mask)
        d.set(u.enable.w_stb, e_stb)
        d.set(u.enable.w_data, e if e_stb else ~junk & mask)
        for r in (u.status, u.pending, u.enable):
            d.set(r.r_stb, junk & 1)
        what = "cycle {} of {}".format(t, modes)
        expect_eq(d.get(u.pending.r_data), pending, "pending in " + what)
        expect_eq(d.get(u.enable.r_data), enable, "enable in " + what)
        expect_eq(d.get(u.irq), int(bool(pending & enable)), "irq in " + what)
        expect_eq(d.get(u.status.r_data), status, "status in " + what)
        fired += bool(pending & enable)
        d.tick()
        status = stb
        trig = 0
        for i, m in enumerate(modes):
            now, was = stb >> i & 1, last >> i & 1
            trig |= {"level": now, "default": now, "rise": now & ~was & 1, "fall": was & ~now & 1}[m] << i
        if p_stb:
            race += bool(p & trig & pending)
            held += bool(pending & ~p & ~trig)
            pending &= ~p
        pending |= trig
        if e_stb:
            enable = e
        last = stb
    rec.nontrivial(fired > 0 and race > 0)
    rec.label(*modes)
    if race:
        rec.label("cleared while it occurs again")
    if held:
        rec.label("another event cleared")


def strategy(tier):
    m = st.one_of(st.integers(0, 4095), wide(40), st.sampled_from([0, 4095, 1, 2, 2 ** 40 - 1]))
    mode = st.sampled_from(["level", "rise", "fall", "default"])
    step = st.fixed_dictionaries({"stb": m, "keep": st.integers(0, 2).map(lambda x: int(x == 0)), "clear": st.one_of(st.none(), m), "enable": st.one_of(st.none(), st.none(), m), "junk": m})
    return st.fixed_dictionaries({"modes": st.one_of(*[st.lists(mode, min_size=1, max_size=12)] * 12, st.lists(mode, min_size=13, max_size=40)),
                                  "tuple": st.booleans(), "steps": st.lists(step, min_size=4, max_size=60)})


CHECKS = [Check("events", run, strategy, quick=20000, shards=8, rule="an enabled event interrupts, and some event recurs in the cycle in which it is cleared")]
