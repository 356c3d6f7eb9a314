from hypothesis import strategies as st
from ..core import Check, expect_eq

ID = "U05"
TITLE = "The one-hot multiplexer routes exactly the valid interface"
STATEMENT = (
    "For every number of interfaces, every choice of multiplexed, OR-ed and passed-back signals (by name or by accessor function) and every set of field values with at most one interface valid: "
    "each multiplexed output equals the valid interface's signal whenever one is valid, each OR-ed output equals the OR of that signal over all interfaces, "
    "and each passed-back signal reaches every interface unchanged from the output."
)
QUANTIFIER = {"over": ["inputs", "configurations"], "text": "all interface counts, signal choices and field values with a one-hot (or empty) valid vector"}
WHY = "The multiplexer has no test at all."
ANCHORS = {"files": ["amlib/utils/bus.py"], "mechanism": [{"name": "OneHotMultiplexer", "where": "amlib/utils/bus.py"}],
           "observe_at": ["output interface", "pass-back fields of the inputs"]}
TECHNIQUE = "property-based testing: random interfaces and values against a direct routing oracle"
LEVEL_NOTE = "1-9 interfaces, random field subsets and widths, all one-hot positions. Muxed outputs are not claimed when no interface is valid. Trusts Amaranth's simulator."
RULE = "Non-trivial: at least two interfaces, one of them valid with a value different from another interface's value."


def run(case, rec):
    from amaranth import Module, Signal, Record
    from amlib.utils import OneHotMultiplexer
    from ..sim import Dut
    vf = case["valid_field"]
    widths = case["widths"]

    class Iface:
        def __init__(self):
            for i, w in enumerate(widths):
                setattr(self, "s{}".format(i), Signal(w, name="s{}".format(i)))
            if case["decoy"]:
                self.valid = Signal(name="valid")
                self.ready = Signal(name="ready")
            setattr(self, vf, Signal(name=vf))

    def ident(i, fn):
        name = "s{}".format(i)
        return (lambda x: getattr(x, name)) if fn else name
    kinds = case["kinds"]
    mux = [ident(i, f) for i, (k, f) in enumerate(kinds) if k == "mux"]
    ors = [ident(i, f) for i, (k, f) in enumerate(kinds) if k == "or"]
    psg = [ident(i, f) for i, (k, f) in enumerate(kinds) if k == "pass"]
    if case["valid_or"]:
        ors.append(vf)
    mx = OneHotMultiplexer(interface_type=Iface, mux_signals=mux, or_signals=ors, pass_signals=psg,
                           **({} if vf == "valid" else {"valid_field": vf}))
    ifs = [Iface() for _ in range(case["n"])]
    k = case["split"] % (case["n"] + 1)
    mx.add_interfaces(ifs[:k])
    for j, x in enumerate(ifs[k:]):
        (mx.add_input if j % 2 else mx.add_interface)(x)
    d = Dut(mx)
    for step in case["steps"]:
        sel = step["sel"] if step["sel"] is not None and step["sel"] < case["n"] else None
        vals = step["vals"]

        def v(j, i):
            x = vals[(j * len(widths) + i) % len(vals)] * (j + 3) + (vals[(i + j) % len(vals)] >> (j % 5)) + i
            return x & ((1 << widths[i]) - 1)
        for j, x in enumerate(ifs):
            if case["decoy"]:
                # fields that are of no concern to the multiplexer
                d.set(x.valid, v(j, 0) >> 1 & 1)
                d.set(x.ready, v(j, 0) & 1)
            d.set(getattr(x, vf), int(j == sel))
            for i, (kind, _) in enumerate(kinds):
                if kind in ("mux", "or"):
                    d.set(getattr(x, "s{}".format(i)), v(j, i))
        for i, (kind, _) in enumerate(kinds):
            if kind == "pass":
                d.set(getattr(mx.output, "s{}".format(i)), v(case["n"], i))
        for i, (kind, _) in enumerate(kinds):
            ctx = " signal {} with {} of {} valid".format(i, sel, case["n"])
            o = getattr(mx.output, "s{}".format(i))
            if kind == "mux" and sel is not None:
                expect_eq(d.get(o), v(sel, i), "muxed" + ctx)
                if len({v(j, i) for j in range(case["n"])}) > 1:
                    rec.nontrivial()
            elif kind == "or":
                want = 0
                for j in range(case["n"]):
                    want |= v(j, i)
                expect_eq(d.get(o), want, "or-ed" + ctx)
            elif kind == "pass":
                for j, x in enumerate(ifs):
                    expect_eq(d.get(getattr(x, "s{}".format(i))), v(case["n"], i), "passed back to {}".format(j) + ctx)
        if case["valid_or"]:
            expect_eq(d.get(getattr(mx.output, vf)), int(sel is not None), "or-ed valid")
        rec.label("sel none" if sel is None else "sel")


def strategy(tier):
    return st.integers(1, 9).flatmap(lambda n: st.integers(1, 5).flatmap(lambda nf: st.fixed_dictionaries({
        "n": st.just(n), "split": st.integers(0, 9), "valid_field": st.sampled_from(["valid", "tx_valid"]),
        "valid_or": st.booleans(), "decoy": st.booleans(),
        "widths": st.lists(st.integers(1, 16), min_size=nf, max_size=nf),
        "kinds": st.lists(st.tuples(st.sampled_from(["mux", "mux", "or", "pass"]), st.booleans()).map(list), min_size=nf, max_size=nf),
        "steps": st.lists(st.fixed_dictionaries({
            "sel": st.one_of(st.integers(0, n - 1), st.integers(0, n - 1), st.none()),
            "vals": st.lists(st.integers(0, 65535), min_size=1, max_size=8)}), min_size=1, max_size=12)})))


CHECKS = [Check("routing", run, strategy, quick=9000, shards=6, rule="random interface sets, kinds and values")]
