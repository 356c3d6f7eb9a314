from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import lockstep, values, wide

ID = "U02"
TITLE = "Edge, past-value, synchronizer and strobe-stretch helpers are cycle exact"
STATEMENT = (
    "For every input waveform, clock domain and width: the edge helpers pulse in exactly the cycles where the signal's level differs from the previous "
    "cycle in the requested direction (any-edge: any bit of a wide signal changed; the edge-to-pulse converter: one pulse per rising edge), and the past-value helper returns the full previous-cycle value. "
    "Synchronizing a signal or a nested record delivers every input field unchanged after the requested number of stages and passes output-direction fields "
    "straight back. A stretched strobe is high in exactly the requested number of cycles starting with each strobe cycle "
    "(delayed by one cycle when delay is allowed and more than one cycle is requested), with overlapping strobes merging."
)
QUANTIFIER = {"over": ["inputs", "histories", "configurations"],
              "text": "all waveforms, widths, domains, stage counts, stretch lengths and record shapes"}
WHY = ("Only a single two-cycle stretch and one rising edge are exercised; past_value_of, the edge detectors and "
       "the data path of synchronize have no behavioural test at all.")
ANCHORS = {"files": ["amlib/utils/__init__.py", "amlib/utils/cdc.py", "amlib/utils/edgetopulse.py"],
           "mechanism": [{"name": "edge helpers", "where": "amlib/utils/__init__.py"},
                         {"name": "synchronize, stretch_strobe_signal", "where": "amlib/utils/cdc.py"},
                         {"name": "EdgeToPulse", "where": "amlib/utils/edgetopulse.py"}],
           "observe_at": ["returned signals in simulation"]}
TECHNIQUE = "stateful property-based testing: random waveforms in lock-step with reference models"
LEVEL_NOTE = ("Random waveforms up to 60 cycles on the simulated hardware; widths 1-12, stretch lengths 1-70, 2-5 stages, sync and a renamed domain. "
              "Rising/falling helpers are only claimed for one-bit signals. Trusts Amaranth's simulator.")
RULE = "A case is non-trivial when the waveform changes level at least twice (edges/past/sync) or contains two strobes (stretch)."


def _dut(m):
    from ..sim import Dut
    return Dut(m)


# ---- edges -----------------------------------------------------------------------------------------
def run_edges(case, rec):
    from amaranth import Module, Signal, Shape, ClockDomain
    from amlib import utils
    dom, w = case["domain"], case["width"]
    m = Module()
    if dom != "sync":
        m.domains += ClockDomain("sync")
        m.domains += ClockDomain(dom)
        keep = Signal()
        m.d.sync += keep.eq(~keep)
    sig, one = Signal(Shape(w, signed=bool(case["signed"]))), Signal()
    m.d.comb += one.eq(sig[0])
    outs = {}
    kw = {} if dom == "sync" else {"domain": dom}
    outs["past"] = utils.past_value_of(m, sig, domain=dom)
    outs["past1"] = utils.past_value_of(m, one, domain=dom)
    outs["rise"] = utils.rising_edge_detected(m, one, **kw)
    outs["fall"] = utils.falling_edge_detected(m, one, **kw)
    outs["any1"] = utils.any_edge_detected(m, one, **kw)
    outs["any"] = utils.any_edge_detected(m, sig, **kw)
    far = Signal(Shape(w + 3, signed=True))
    m.d.comb += far.eq(outs["past"])
    outs["past in a wider signal"] = far
    d = _dut(m)
    prev = 0
    for t, v in enumerate(case["wave"]):
        v &= (1 << w) - 1
        if case["signed"] and v >> w - 1:
            v -= 1 << w
        d.set(sig, v)
        b, pb = v & 1, prev & 1
        want = {"past": prev, "past in a wider signal": prev, "past1": pb, "rise": int(b and not pb), "fall": int(pb and not b),
                "any1": int(b != pb), "any": int(v != prev)}
        for n in want:
            expect_eq(d.get(outs[n]), want[n], "cycle {} of {}: {} (width {}, domain {})".format(t, case["wave"], n, w, dom))
        if dom != "sync":
            d.tick("sync")       # the other domain's clock must not matter
            for n in want:
                expect_eq(d.get(outs[n]), want[n], "after a foreign clock edge: {}".format(n))
        d.tick(dom)
        if v != prev:
            rec.label("changed")
        prev = v
    rec.label("w{}".format(min(w, 3)), dom)
    rec.nontrivial(sum(a != b for a, b in zip(case["wave"], case["wave"][1:])) >= 2)


def st_edges(tier):
    return st.integers(1, 12).flatmap(lambda w: st.fixed_dictionaries({
        "width": st.just(w), "domain": st.sampled_from(["sync", "sync", "fast"]), "signed": st.sampled_from([0, 0, 1]),
        "wave": st.lists(st.one_of(st.integers(0, (1 << w) - 1), st.sampled_from([0, 1, (1 << w) - 1])),
                         min_size=1, max_size=40)}))


# ---- EdgeToPulse -----------------------------------------------------------------------------------
def run_e2p(case, rec):
    from amlib.utils import EdgeToPulse
    e = EdgeToPulse()
    d = _dut(e)
    prev = 0
    for t, v in enumerate(case["wave"]):
        d.set(e.edge_in, v)
        expect_eq(d.get(e.pulse_out), int(v and not prev), "cycle {} of {}".format(t, case["wave"]))
        prev = v
        d.tick()
    rec.nontrivial(sum(a != b for a, b in zip(case["wave"], case["wave"][1:])) >= 2)


def st_e2p(tier):
    return st.fixed_dictionaries({"wave": st.lists(st.integers(0, 1), min_size=1, max_size=60)})


# ---- stretch ---------------------------------------------------------------------------------------
def run_stretch(case, rec):
    from amaranth import Module, Signal, ClockDomain
    from amlib.utils import stretch_strobe_signal
    n, delay = case["n"], case["delay"]
    m = Module()
    strobe = Signal()
    kw = {}
    dom = "sync"
    if case["domain"]:
        dom = "slow"
        m.domains += ClockDomain("slow")
        kw["domain"] = m.d.slow
    if case["output"]:
        kw["output"] = Signal()
    if delay:
        kw["allow_delay"] = True
    out = stretch_strobe_signal(m, strobe, to_cycles=n, **kw)
    if case["output"]:
        expect(out is kw["output"], "the given output signal is not the one returned")
    if n == 1 and dom == "slow":
        x = Signal()
        m.d.slow += x.eq(~x)
    elif n == 1:
        x = Signal()
        m.d.sync += x.eq(~x)
    d = _dut(m)
    lat = 1 if (delay and n > 1) else 0
    wave = case["wave"] + [0] * (n + 3)
    for t, v in enumerate(wave):
        d.set(strobe, v)
        lo = t - lat - (n - 1)
        want = int(any(wave[max(0, lo):max(0, t - lat + 1)]))
        expect_eq(d.get(out), want, "stretch to {} (delay={}) cycle {} of {}".format(n, delay, t, wave))
        d.tick(dom)
    rec.label("n={}".format(min(n, 6)), "delay" if delay else "nodelay")
    rec.nontrivial(sum(case["wave"]) >= 2)


def st_stretch(tier):
    return st.fixed_dictionaries({"n": st.one_of(st.integers(1, 20), st.integers(1, 70)), "delay": st.booleans(), "domain": st.booleans(),
                                  "output": st.booleans(),
                                  "wave": st.lists(st.sampled_from([0, 0, 0, 1]), min_size=1, max_size=50)})


# ---- synchronize -----------------------------------------------------------------------------------
def run_sync(case, rec):
    from amaranth import Module, Signal, Record, ClockDomain
    from amaranth.hdl.rec import DIR_FANIN, DIR_FANOUT, DIR_NONE
    from amlib.utils import synchronize
    dirs = {"in": DIR_FANIN, "out": DIR_FANOUT, "none": DIR_NONE}

    def layout(t):
        return [(n, layout(x), ) if isinstance(x, list) else (n, x["w"], dirs[x["d"]]) for n, x in t]
    m = Module()
    dom = case["domain"]
    if dom != "sync":
        m.domains += ClockDomain(dom)
    kw = {}
    stages = case["stages"]
    if stages != 2:
        kw["stages"] = stages
    if dom != "sync":
        kw["o_domain"] = dom
    if case["shape"] is None:
        src = Signal(case["w"])
        if case["output"]:
            kw["output"] = Signal(case["w"])
        dst = synchronize(m, src, **kw)
        leaves_in, leaves_out = [(src, dst, case["w"])], []
    else:
        src = Record(layout(case["shape"]), name="src")
        if case["output"]:
            kw["output"] = Record(layout(case["shape"]), name="dst")
        dst = synchronize(m, src, **kw)
        leaves_in, leaves_out = [], []

        def walk(t, a, b):
            for n, x in t:
                if isinstance(x, list):
                    walk(x, a[n], b[n])
                elif x["d"] == "out":
                    leaves_out.append((b[n], a[n], x["w"]))
                else:
                    leaves_in.append((a[n], b[n], x["w"]))
        walk(case["shape"], src, dst)
    if case["output"]:
        expect(dst is kw["output"], "the given output is not the one returned")
    if not leaves_in:
        x = Signal()
        m.d[dom] += x.eq(~x)
    d = _dut(m)
    hist = {i: [0] * stages for i in range(len(leaves_in))}
    for t, seedv in enumerate(case["data"]):
        for i, (s, o, w) in enumerate(leaves_in):
            d.set(s, (seedv >> (i * 5)) ^ (seedv * (i + 1)))
        for i, (s, o, w) in enumerate(leaves_out):
            d.set(s, (seedv >> (i * 3)) ^ (seedv * (i + 3)))
        for i, (s, o, w) in enumerate(leaves_in):
            v = ((seedv >> (i * 5)) ^ (seedv * (i + 1))) & ((1 << w) - 1)
            expect_eq(d.get(o), hist[i][-stages], "input leaf {} cycle {} after {} stages".format(i, t, stages))
            hist[i].append(v)
        for i, (s, o, w) in enumerate(leaves_out):
            v = ((seedv >> (i * 3)) ^ (seedv * (i + 3))) & ((1 << w) - 1)
            expect_eq(d.get(o), v, "output leaf {} cycle {}".format(i, t))
        d.tick(dom)
    rec.label("record" if case["shape"] is not None else "signal", "stages{}".format(stages))
    if leaves_out:
        rec.label("has output fields")
    rec.nontrivial(len(set(case["data"])) >= 3 and bool(leaves_in))


def st_sync(tier):
    leaf = st.fixed_dictionaries({"w": st.integers(1, 9), "d": st.sampled_from(["in", "out", "none"])})

    def named(children):
        return st.lists(children, min_size=1, max_size=3).map(
            lambda l: [["f{}".format(i), x] for i, x in enumerate(l)])
    shape = named(st.one_of(leaf, leaf, named(st.one_of(leaf, named(leaf)))))
    return st.fixed_dictionaries({
        "shape": st.one_of(st.none(), shape, shape), "w": st.integers(1, 16),
        "domain": st.sampled_from(["sync", "usb"]), "stages": st.integers(2, 5), "output": st.booleans(),
        "data": st.lists(wide(30), min_size=3, max_size=20)})


CHECKS = [
    Check("edges", run_edges, st_edges, quick=8000, shards=3, rule="random waveforms of width 1-12 in two domains, all helpers at once"),
    Check("edge_to_pulse", run_e2p, st_e2p, quick=3200, shards=1, rule="random one-bit waveforms"),
    Check("stretch", run_stretch, st_stretch, quick=8000, shards=3, rule="random strobe trains, 1-70 cycles, with and without delay"),
    Check("synchronize", run_sync, st_sync, quick=6000, shards=3, rule="signals and nested directional records with random data"),
]
