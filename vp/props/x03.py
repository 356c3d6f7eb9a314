"""Several components in one design."""

import contextlib
import io
import random

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from . import x01

ID = "X03"
TITLE = "Components in one design do not influence one another"
STATEMENT = (
    "For every set of components, alike or different, placed unconnected into one design or built one after another, and for every input history of each, every output of each has in every cycle exactly the value which it has in a design of its own."
)
QUANTIFIER = {"over": ["configurations", "inputs", "histories"], "text": "sets of 2 to 4 of the components of utils, io, stream, dsp, debug and soc, alike in half of the cases, random configurations and histories of up to 300 cycles"}
WHY = "Every test builds one instance of one component."
ANCHORS = {"files": ["amlib/stream/__init__.py", "amlib/stream/arbiter.py", "amlib/stream/generator.py", "amlib/io/spi.py", "amlib/io/i2c.py", "amlib/io/max7219.py", "amlib/debug/ila.py", "amlib/dsp/filterbank.py"],
           "mechanism": [{"name": "constructors and elaborate() of all components: class attributes, default arguments, module-level objects", "where": "amlib"}],
           "observe_at": ["all public outputs"]}
TECHNIQUE = "metamorphic (differential) testing of a joint against separate designs with random stimulus"
LEVEL_NOTE = "Random stimulus of up to 300 cycles. Trusts Amaranth's simulator."

NAMES = x01.NAMES + x01.MORE


def build(name, pseed):
    import importlib
    module, cls, f, _ = x01.catalogue()[name]
    c = getattr(importlib.import_module(module), cls)
    return f(c, random.Random(pseed), {})


class Side:
    """inputs and outputs of one component within a Dut"""

    def __init__(self, dut, u, extra, driven):
        self.d = dut
        ps = x01.ports(u, extra)
        self.ins = [(n, s) for n, s in ps if s not in driven]
        self.outs = [(n, s) for n, s in ps if s in driven]

    def put(self, values):
        for (_, s), v in zip(self.ins, values):
            self.d.set(s, v)

    def look(self):
        return [self.d.get(s) for _, s in self.outs]


def run(case, rec):
    from amaranth import Module
    from ..sim import Dut
    specs = case["parts"]
    with contextlib.redirect_stdout(io.StringIO()):
        solo = []
        for name, ps in specs:
            u, e = build(name, ps)
            d = Dut(u)
            solo.append(Side(d, u, e, x01.drivers(d.frag)))
        built = [build(name, ps) for name, ps in specs]
        m = Module()
        for i, (u, _) in enumerate(built):
            if case["names"]:
                m.submodules["part{}".format(i)] = u
            else:
                m.submodules += u
        joint = Dut(m)
    driven = x01.drivers(joint.frag)
    both = [Side(joint, u, e, driven) for u, e in built]
    for (name, _), a, b in zip(specs, solo, both):
        expect_eq([n for n, _ in b.ins], [n for n, _ in a.ins], "inputs of {} in a joint design".format(name))
        expect_eq([n for n, _ in b.outs], [n for n, _ in a.outs], "outputs of {} in a joint design".format(name))
    stims = [x01.Stimulus(a.ins, case["seed"] + i * case["apart"]) for i, a in enumerate(solo)]
    active = [set() for _ in specs]
    last = [None] * len(specs)
    for t in range(case["cycles"]):
        for a, b, s in zip(solo, both, stims):
            v = list(s.next())
            a.put(v)
            b.put(v)
        for i, (a, b) in enumerate(zip(solo, both)):
            oa, ob = a.look(), b.look()
            if oa != ob:
                k = next(k for k in range(len(oa)) if oa[k] != ob[k])
                raise Violation("cycle {}: {} of {} (number {} of {}) = {}, but {} in a design of its own".format(
                    t, a.outs[k][0], specs[i][0], i + 1, [n for n, _ in specs], ob[k], oa[k]))
            if last[i] is not None:
                active[i].update(k for k in range(len(oa)) if oa[k] != last[i][k])
            last[i] = oa
            if a.d.domains:
                a.d.tick()
        if joint.domains:
            joint.tick()
    rec.nontrivial(sum(map(bool, active)) >= 2)
    rec.label("alike" if len(set(n for n, _ in specs)) == 1 else "different")


def _case(tier):
    one = st.tuples(st.sampled_from(NAMES), st.integers(0, 400))
    alike = st.tuples(st.sampled_from(NAMES), st.lists(st.integers(0, 400), min_size=2, max_size=3), st.booleans()).map(
        lambda x: [[x[0], p if x[2] else x[1][0]] for p in x[1]])
    return st.fixed_dictionaries({"parts": st.one_of(alike, st.lists(one.map(list), min_size=2, max_size=4)), "names": st.booleans(),
                                  "seed": st.integers(0, 10**6), "apart": st.sampled_from([1, 1, 1, 0]), "cycles": st.integers(60, 300)})


def strategy(tier):
    return _case(tier)


def every(tier):
    """every component three times in one design"""
    for name in NAMES:
        for p in range(2 if tier == "quick" else 9):
            yield {"parts": [[name, p], [name, p], [name, p + 1]], "names": bool(p & 1), "seed": p, "apart": 1, "cycles": 250}


CHECKS = [Check("joint", run, strategy, quick=800, shards=8, enumerate=every, rule="outputs of at least two parts change")]
