"""The helpers for gateware tests."""

import contextlib
import io
import math
import os
import shutil
import tempfile
import unittest

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq

ID = "T02"
TITLE = "A gateware test passes exactly if all its checks hold in the cycles it names"
STATEMENT = (
    "For every test program made of the provided helpers, with or without waveform output, the program's steps run in order once after the given initialisation, a pulse is high for exactly one cycle, waiting takes exactly the stated number of cycles or the fewest that cover the stated time, and wait_until ends in the first cycle in which the strobe is true or fails once more cycles than the timeout have passed. "
    "The test passes if and only if every check in it holds."
)
QUANTIFIER = {"over": ["inputs", "histories"], "text": "programs of up to 12 helper calls on a design with generated strobes, clock frequencies, both decorators"}
WHY = "Every gateware test relies on them; a helper which skips a check lets all of them pass."
ANCHORS = {"files": ["amlib/test/utils.py", "amlib/test/__init__.py"],
           "mechanism": [{"name": "GatewareTestCase, sync_test_case", "where": "amlib/test/utils.py"}, {"name": "simulation_test", "where": "amlib/test/__init__.py"}],
           "observe_at": ["outcome of the test", "the design's cycle counter", "values seen by the design"]}
TECHNIQUE = "property testing of generated test programs against a model of their outcome"
LEVEL_NOTE = "Programs of up to 12 steps and 60 cycles each. Trusts Amaranth's simulator and unittest."


def design(strobes):
    from amaranth import Elaboratable, Module, Signal, Const

    class Probe(Elaboratable):
        def __init__(self):
            self.a = Signal()
            self.v = Signal(4)
            self.strobe = Signal()
            self.cycle = Signal(16)
            self.high = Signal(16)
            self.edges = Signal(16)

        def elaborate(self, platform):
            m = Module()
            last = Signal()
            pattern = Const(sum(1 << c for c in strobes), 512)
            m.d.sync += [self.cycle.eq(self.cycle + 1), last.eq(self.a), self.high.eq(self.high + self.a), self.edges.eq(self.edges + (self.a & ~last))]
            m.d.comb += self.strobe.eq(pattern.bit_select(self.cycle[:9], 1))
            return m
    return Probe()


def model(case):
    """(fails at step or None, [(cycle, high cycles, rising edges) after each step])"""
    strobes = set(case["strobes"])
    t = case["init"]
    pulsed = set()
    v = 0
    out = []
    for i, (op, x) in enumerate(case["steps"]):
        if op == "pulse":
            pulsed.add(t)
            t += 2 if x else 1
        elif op == "advance":
            t += x
        elif op == "wait":
            t += math.ceil(x)
        elif op == "until":
            k = 0
            while (t + k) % 512 not in strobes:
                k += 1
                if (x and k > x) or k > 600:
                    return i, out
            t += k
        elif op == "set":
            v = x
            t += 1
        elif (op == "low" or op == "zero") and v != 0 or op == "high" and v != 1 or op == "nonzero" and v == 0:
            return i, out
        elif op == "fail" and x:
            return i, out
        # a test process sees every register as it was before the latest clock edge
        out.append((t, sum(c < t - 1 for c in pulsed), sum(c < t - 1 and c - 1 not in pulsed for c in pulsed)))
    return None, out


def program(self, dut, case, log):
    for op, x in case["steps"]:
        if op == "pulse":
            yield from self.pulse(dut.a, step_after=bool(x))
        elif op == "advance":
            yield from self.advance_cycles(x)
        elif op == "wait":
            yield from self.wait(x / case["freq"])
        elif op == "until":
            yield from self.wait_until(dut.strobe, **({"timeout": x} if x else {}))
        elif op == "set":
            yield dut.v.eq(x)
            yield
        elif op == "low":
            yield from self.shouldBeLow(dut.v)
        elif op == "zero":
            yield from self.shouldBeZero(dut.v)
        elif op == "high":
            yield from self.shouldBeHigh(dut.v)
        elif op == "nonzero":
            yield from self.shouldBeNonZero(dut.v)
        elif op == "fail":
            self.assertEqual(x, 0)
        log.append(((yield dut.cycle), (yield dut.high), (yield dut.edges)))
    log.append("end")


def run(case, rec):
    from amlib.test import GatewareTestCase, sync_test_case, simulation_test
    fails, want = model(case)
    log, order = [], []
    kind = case["kind"]

    if kind == "gateware":
        class T(GatewareTestCase):
            FRAGMENT_UNDER_TEST = staticmethod(design)
            FRAGMENT_ARGUMENTS = {"strobes": case["strobes"]}
            SYNC_CLOCK_FREQUENCY = case["freq"]

            def initialize_signals(self):
                order.append("init")
                for _ in range(case["init"]):
                    yield
                if not case["init"]:
                    yield self.dut.v.eq(0)

            def traces_of_interest(self):
                return [self.dut.a]

            @sync_test_case
            def test_it(self):
                order.append("case")
                yield from program(self, self.dut, case, log)
    else:
        class T(unittest.TestCase):
            def setUp(self):
                self.tb = design(case["strobes"])
                self.domain = "sync"
                self.SYNC_CLOCK_FREQUENCY = case["freq"]

            def configure(self, tb, **kw):
                expect(tb is self.tb, "configure() gets another design")
                order.append(("configure", kw))

            def simulationSetUp(self, tb):
                order.append("init")
                for _ in range(case["init"]):
                    yield
                if not case["init"]:
                    yield tb.v.eq(0)

            if case["args"]:
                @simulation_test(width=case["args"])
                def test_it(self, tb):
                    order.append("case")
                    yield from program(self, tb, case, log)
            else:
                @simulation_test
                def test_it(self, tb):
                    order.append("case")
                    yield from program(self, tb, case, log)
        for n in ("pulse", "advance_cycles", "wait_until", "wait", "shouldBeLow", "shouldBeHigh", "shouldBeZero", "shouldBeNonZero"):
            setattr(T, n, GatewareTestCase.__dict__[n])

    cwd = os.getcwd()
    scratch = tempfile.mkdtemp()
    old = os.environ.pop("GENERATE_VCDS", None)
    try:
        os.chdir(scratch)
        if case["vcd"]:
            os.environ["GENERATE_VCDS"] = "1"
        with contextlib.redirect_stdout(io.StringIO()):
            r = unittest.TestResult()
            T("test_it").run(r)
        files = sorted(os.listdir("."))
    finally:
        os.chdir(cwd)
        os.environ.pop("GENERATE_VCDS", None)
        if old is not None:
            os.environ["GENERATE_VCDS"] = old
        shutil.rmtree(scratch)
    if kind == "gateware":
        expect_eq(order, ["init", "case"], "order of execution")
        if case["vcd"]:
            expect(any(f.endswith(".vcd") for f in files), "no waveform among {}".format(files))
    else:
        expect_eq(order, [("configure", {"width": case["args"]} if case["args"] else {}), "init", "case"], "order of execution")
    expect_eq(r.testsRun, 1, "tests run")
    trouble = [x[1].strip().splitlines()[-1] for x in r.failures + r.errors]
    if fails is None:
        expect(not trouble, "the test fails, although all checks hold: {}".format(trouble))
        expect_eq(log, want + ["end"], "(cycle, cycles with the pulsed signal high, its rising edges) after each step of {}".format(case["steps"]))
    else:
        expect_eq(log, want, "(cycle, cycles with the pulsed signal high, its rising edges) after each step of {} before the failing one".format(case["steps"]))
        expect(trouble, "the test passes, although step {} of {} does not hold".format(fails, case["steps"]))
    rec.nontrivial(len(want) >= 3)
    rec.label("passes" if fails is None else "fails")


def strategy(tier):
    step = st.one_of(
        st.tuples(st.just("pulse"), st.integers(0, 1)), st.tuples(st.just("advance"), st.integers(0, 40)),
        st.tuples(st.just("wait"), st.integers(0, 40).map(lambda n: n + .5)), st.tuples(st.just("until"), st.one_of(st.just(0), st.integers(1, 40))),
        st.tuples(st.just("set"), st.integers(0, 3)), st.sampled_from([("low", 0), ("zero", 0), ("high", 0), ("nonzero", 0)]),
        st.tuples(st.just("fail"), st.sampled_from([0, 0, 0, 1])))
    return st.fixed_dictionaries({"kind": st.sampled_from(["gateware", "gateware", "simulation"]), "strobes": st.lists(st.integers(0, 300), min_size=1, max_size=12, unique=True),
                                  "freq": st.sampled_from([1e6, 12e6, 60e6, 100e6]), "init": st.integers(0, 5), "args": st.integers(0, 9), "vcd": st.booleans(),
                                  "steps": st.lists(step.map(list), min_size=1, max_size=12)})


CHECKS = [Check("programs", run, strategy, quick=2000, shards=8, rule="three steps before the end or the failing one")]
