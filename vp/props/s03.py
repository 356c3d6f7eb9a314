"""Stream arbiter and multiplexer."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import Pat, bitpat

ID = "S03"
TITLE = "Stream arbitration loses nothing and never interrupts a burst"
STATEMENT = (
    "For every number of input streams, stream type and schedule of producers and consumer, every word accepted from an arbiter input appears at the arbiter output in the same cycle with identical payload, framing, valid bits and extra fields, and at most one input is ever accepted at a time. "
    "A stream that keeps valid asserted is never interrupted; when the active stream goes idle the valid stream with the highest priority is selected for the next cycle, and idle is asserted exactly while no stream has data to send. "
    "The unscheduled multiplexer forwards the first-added valid input, with back-pressure, and is silent when none is valid."
)
QUANTIFIER = {"over": ["schedules", "inputs", "configurations"],
              "text": "all interleavings of producers' bursts and stalls with consumer back-pressure, 1 to 6 streams, narrow and wide valid"}
WHY = "Neither the arbiter nor the multiplexer has any test."
ANCHORS = {"files": ["amlib/stream/arbiter.py", "amlib/stream/__init__.py"],
           "mechanism": [{"name": "StreamArbiter active stream selection", "where": "amlib/stream/arbiter.py"},
                         {"name": "StreamInterface.attach/stream_eq", "where": "amlib/stream/__init__.py"}],
           "observe_at": ["source", "idle", "ready of each input", "output"]}
TECHNIQUE = "lock-step model comparison over generated schedules"
LEVEL_NOTE = "Up to 6 streams, up to 60 cycles per schedule, valid widths 1 and 4. Trusts Amaranth's simulator."
RULE = "Non-trivial: two streams valid at once and an active stream changes."

FIELDS = ("valid", "first", "last", "payload")


def make(kind):
    from amlib.stream import StreamInterface
    if kind == "plain":
        return StreamInterface

    class Wide(StreamInterface):
        def __init__(self):
            super().__init__(payload_width=32, valid_width=4)
    return Wide


def build(kind, n, domain, arb):
    from amlib.stream.arbiter import StreamArbiter, StreamMultiplexer
    from ..sim import Dut
    T = make(kind)
    kw = {}
    if kind != "plain":
        kw["stream_type"] = T
    if arb and domain != "sync":
        kw["domain"] = domain
    a = StreamArbiter(**kw) if arb else StreamMultiplexer(**kw)
    sinks = [T() for _ in range(n)]
    for s in sinks:
        (a.add_stream if arb else a.add_input)(s)
    if arb:
        d = Dut(a)
    else:
        from amaranth import Module, Signal
        m = Module()
        m.submodules.mux = a
        x = Signal()
        m.d.sync += x.eq(~x)
        d = Dut(m)
    d.a, d.sinks = a, sinks
    return d


def gen_words(case, wide):
    """Per stream, per cycle: a dict of driven fields. Streams hold a word until accepted when `hold`."""
    return [Pat(p) for p in case["valid"]]


def run(case, rec):
    from ..sim import cached_dut
    kind, n, arb = case["kind"], len(case["valid"]), case["arb"]
    dom = case["domain"] if arb else "sync"
    d = cached_dut(("s03", kind, n, dom, arb), lambda: build(kind, n, dom, arb))
    out = d.a.source if arb else d.a.output
    wide = kind != "plain"
    pats = [Pat(p) for p in case["valid"]]
    ready = Pat(case["ready"])
    seq = [0] * n
    holding = [None] * n
    active = 0
    changes = contention = 0
    for t in range(case["cycles"]):
        for i, s in enumerate(d.sinks):
            if holding[i] is None:
                v = pats[i].next()
                if v:
                    k = case["salt"] + 97 * i + 31 * seq[i]
                    vv = ([15, 15, 7, 3, 1, 15, 12][k % 7]) if wide else 1
                    holding[i] = {"valid": vv, "first": k >> 1 & 1, "last": k >> 2 & 1,
                                  "payload": (k * 2654435761 >> 3) & (0xFFFFFFFF if wide else 0xFF)}
            w = holding[i]
            if w is None:
                # an idle stream may present anything on its other fields
                w = {"valid": 0, "first": t & 1, "last": t >> 1 & 1, "payload": (t * 77 + i) & 0xFF}
            for f in FIELDS:
                d.set(getattr(s, f), w[f])
            d.cur = w
            if i == 0:
                words = []
            words.append(w)
        r = ready.next()
        d.set(out.ready, r)
        got = {f: d.get(getattr(out, f)) for f in FIELDS}
        valid_idx = [i for i in range(n) if words[i]["valid"]]
        if arb:
            expect_eq(got, words[active], "arbiter output in cycle {} (stream {} active)".format(t, active))
            sel = active
            expect_eq(d.get(d.a.idle), int(not valid_idx), "idle in cycle {}".format(t))
        else:
            sel = valid_idx[0] if valid_idx else None
            want = words[sel] if sel is not None else {f: 0 for f in FIELDS}
            expect_eq(got, want, "multiplexer output in cycle {}".format(t))
        for i, s in enumerate(d.sinks):
            rd = d.get(s.ready)
            expect_eq(rd, int(bool(r and i == sel)), "ready of input {} in cycle {}".format(i, t))
            if rd and words[i]["valid"]:
                seq[i] += 1
                holding[i] = None
        contention += len(valid_idx) > 1
        if arb and not words[active]["valid"] and valid_idx:
            changes += 1
            active = valid_idx[0]
        d.tick(dom)
    if case["arb"]:
        rec.nontrivial(contention > 0 and changes > 0)
    else:
        rec.nontrivial(contention > 0)
    rec.label("n={}".format(n), kind, "arbiter" if arb else "mux")


def strategy(tier):
    def mk(n):
        return st.fixed_dictionaries({
            "arb": st.sampled_from([True, True, False]), "kind": st.sampled_from(["plain", "wide"]),
            "domain": st.sampled_from(["sync", "sync", "usb"]),
            "valid": st.lists(bitpat(10, allow_zero=True), min_size=n, max_size=n),
            "ready": bitpat(6), "salt": st.integers(0, 1000), "cycles": st.integers(5, 60)})
    return st.integers(1, 6).flatmap(mk)


CHECKS = [Check("arbitration", run, strategy, quick=30000, shards=8, rule="random bursts per stream against random back-pressure")]
