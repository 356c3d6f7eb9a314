from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import wide

ID = "U03"
TITLE = "Timers, clock dividers and dividing counters keep exact counts"
STATEMENT = (
    "A timer that has been idle for at least one cycle and is started while holding a nonzero value N (the load value, or the reload value if load is zero) raises done "
    "exactly N cycles later for one cycle, raises it again every R cycles as long as the reload value R is nonzero, shows the remaining cycles on its counter while running, and otherwise returns to idle "
    "(or, if restart is disabled, stays done). "
    "The clock divider's output changes only on multiples of half the divisor since reset: it toggles at each one while enabled and sits at the idle polarity otherwise. "
    "The dividing counter counts active cycles modulo 2^width from its last reset, its divided counter is the number of multiples of the divisor passed within each pass of the main counter, "
    "accumulated, and the dividable flag tells for every nonzero count whether it is a multiple of the divisor."
)
QUANTIFIER = {"over": ["inputs", "histories", "configurations"],
              "text": "all load/reload/start, enable and reset/active histories and all divisors, widths and polarities"}
WHY = ("Tests run one load value, one divisor and one width each (the periodic timer test does not even run); boundary values such as a load or "
       "reload of one, counter wrap-around and changes while running are not reached.")
ANCHORS = {"files": ["amlib/utils/timer.py", "amlib/utils/clockdivider.py", "amlib/utils/dividingcounter.py"],
           "mechanism": [{"name": "Timer", "where": "amlib/utils/timer.py"},
                         {"name": "SimpleClockDivider", "where": "amlib/utils/clockdivider.py"},
                         {"name": "DividingCounter", "where": "amlib/utils/dividingcounter.py"}],
           "observe_at": ["done", "counter_out", "clock_out", "divided_counter_out", "dividable_out"]}
TECHNIQUE = "stateful property-based testing: random input histories in lock-step with reference models"
LEVEL_NOTE = ("Random histories of up to ~400 cycles, widths 1-11 (timer 2-40), divisors 1-300; counts are compared every cycle. "
              "The dividable flag is not claimed while the count is zero. Trusts Amaranth's simulator.")
RULE = "Non-trivial: the timer fired / the divider was enabled and disabled / the counter wrapped or was reset while non-zero."


def _dut(m):
    from ..sim import Dut
    return Dut(m)


# ---- Timer -----------------------------------------------------------------------------------------
def run_timer(case, rec):
    from amlib.utils import Timer
    from amaranth import Signal
    w = case["width"]
    kw = {}
    if case["own"]:
        kw = {"load": Signal(w, name="l"), "reload": Signal(w, name="r")}
    if not case["restart"]:
        kw["allow_restart"] = False
    tm = Timer(width=w, **kw)
    d = _dut(tm)
    # reference: state idle(held)/run(remaining)/done
    state, held = "idle", 0
    fired = 0
    mask = (1 << w) - 1
    rows = []
    for seg in case["segments"]:
        rows += [(seg["load"] & mask, seg["reload"] & mask, int(i in seg["starts"])) for i in range(seg["len"])]
    rows += [(rows[-1][0], rows[-1][1], 0)] * case["tail"]
    for t, (load, reload, start) in enumerate(rows):
        d.set(tm.load_in, load)
        d.set(tm.reload_in, reload)
        d.set(tm.start, start)
        ctx = "cycle {} load={} reload={} start={} state={}".format(t, load, reload, start, state)
        expect_eq(d.get(tm.done), int(state == "done"), "done at " + ctx)
        expect_eq(d.get(tm.counter_out), 0 if state == "done" else held, "counter at " + ctx)
        if state == "done":
            fired += 1
            if reload > 0:
                held = reload - 1
                state = "run" if held else "done"
                rec.label("reload=1" if reload == 1 else "reload")
            elif case["restart"]:
                state, held = "idle", 0
            else:
                rec.label("stays done")
        elif state == "run":
            held -= 1
            if held == 0:
                state = "done"
        else:
            if start and held > 0:
                rec.label("started N=1" if held == 1 else "started")
                held -= 1
                state = "run" if held else "done"
            else:
                held = load if load > 0 else reload
        d.tick()
    rec.label("fired {}".format(min(fired, 3)))
    rec.nontrivial(fired >= 1)


def st_timer(tier):
    val = st.one_of(st.integers(0, 4), st.integers(0, 30), st.just(0), wide(48))
    seg = st.fixed_dictionaries({"load": val, "reload": val, "len": st.integers(2, 60),
                                 "starts": st.lists(st.integers(0, 40), max_size=3)})
    return st.fixed_dictionaries({"width": st.sampled_from([2, 3, 5, 6, 8, 16, 24, 32, 32, 40]), "own": st.booleans(),
                                  "restart": st.sampled_from([True, True, False]),
                                  "segments": st.lists(seg, min_size=1, max_size=4 if tier == "quick" else 8),
                                  "tail": st.integers(0, 60)})


# ---- SimpleClockDivider ------------------------------------------------------------------------------
def run_div(case, rec):
    from amlib.utils import SimpleClockDivider
    dv, pol = case["divisor"], case["polarity"]
    c = SimpleClockDivider(dv, clock_polarity=pol) if pol else SimpleClockDivider(dv)
    d = _dut(c)
    half = dv // 2
    out = pol
    t = 0
    changes = 0
    for en, n in case["runs"]:
        for _ in range(n):
            d.set(c.clock_enable_in, en)
            expect_eq(d.get(c.clock_out), out, "divisor {} polarity {} cycle {} of {}".format(dv, pol, t, case["runs"]))
            if (t + 1) % half == 0:
                new = 1 - out if en else pol
                changes += new != out
                out = new
            t += 1
            d.tick()
    rec.label("div{}".format(dv if dv <= 4 else ">4"), "changes{}".format(min(changes, 4)))
    rec.nontrivial(changes >= 2 and len({e for e, _ in case["runs"]}) == 2)


def st_div(tier):
    return st.fixed_dictionaries({"divisor": st.one_of(st.integers(1, 6), st.integers(1, 24)).map(lambda x: 2 * x),
                                  "polarity": st.integers(0, 1),
                                  "runs": st.lists(st.tuples(st.integers(0, 1), st.integers(1, 60)).map(list),
                                                   min_size=1, max_size=8)})


# ---- DividingCounter ---------------------------------------------------------------------------------
def run_cnt(case, rec):
    from amlib.utils import DividingCounter
    dv, w = case["divisor"], case["width"]
    c = DividingCounter(dv, w)
    d = _dut(c)
    size = 1 << w
    total = 0
    wrapped = False
    resets = 0
    for act, rst, n in case["runs"]:
        for _ in range(n):
            d.set(c.active_in, act)
            d.set(c.reset_in, rst)
            cnt = total % size
            ctx = "divisor {} width {} after {} active cycles".format(dv, w, total)
            expect_eq(d.get(c.counter_out), cnt, "counter, " + ctx)
            expect_eq(d.get(c.divided_counter_out), ((total // size) * (size // dv) + cnt // dv) % size,
                      "divided counter, " + ctx)
            if cnt:
                expect_eq(d.get(c.dividable_out), int(cnt % dv == 0), "dividable, " + ctx)
            if rst:
                resets += total > 0
                total = 0
            elif act:
                total += 1
                wrapped |= total >= size
            d.tick()
    if wrapped:
        rec.label("wrapped")
    if resets:
        rec.label("reset while nonzero")
    rec.label("divides 2^w" if size % dv == 0 else "does not divide 2^w")
    rec.nontrivial(wrapped or resets > 0)


def st_cnt(tier):
    run = st.one_of(st.tuples(st.just(1), st.just(0), st.integers(1, 120)),
                    st.tuples(st.integers(0, 1), st.sampled_from([0, 0, 1]), st.integers(1, 12))).map(list)
    short = st.fixed_dictionaries({"divisor": st.one_of(st.integers(1, 9), st.integers(1, 40)),
                                   "width": st.integers(1, 7), "runs": st.lists(run, min_size=1, max_size=8)})
    # wide counters are run until they have wrapped
    wide = st.integers(8, 11).flatmap(lambda w: st.fixed_dictionaries({
        "divisor": st.integers(1, 300), "width": st.just(w),
        "runs": st.tuples(st.lists(run, max_size=2), st.integers(-20, 300)).map(lambda t: t[0] + [[1, 0, (1 << w) + t[1]]])}))
    return st.one_of(*[short] * 24, wide)


CHECKS = [
    Check("timer", run_timer, st_timer, quick=10000, shards=4, rule="random load/reload/start histories"),
    Check("clock_divider", run_div, st_div, quick=4000, shards=2, rule="random enable histories, even divisors 2-48"),
    Check("dividing_counter", run_cnt, st_cnt, quick=4000, shards=2, rule="random active/reset histories"),
]
