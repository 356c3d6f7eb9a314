"""Conversion of every component to a netlist."""

import contextlib
import hashlib
import io
import json
import os
import subprocess
import sys

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import wide
from . import x01

ID = "X04"
TITLE = "Every component converts to a netlist, the same one in every run"
STATEMENT = (
    "For every component in every supported configuration, conversion to Amaranth's netlist format succeeds. "
    "Building the same configuration again, in the same process or in another one, gives the identical netlist."
)
QUANTIFIER = {"over": ["configurations", "runs"], "text": "all components of utils, io, stream, dsp, debug and soc in random configurations; repeated builds and processes with different hash seeds"}
WHY = "The tests only simulate, and simulate each configuration once in one process."
ANCHORS = {"files": ["amlib/io/spi.py", "amlib/io/i2c.py", "amlib/stream/generator.py", "amlib/stream/arbiter.py", "amlib/debug/ila.py", "amlib/soc/uart.py", "amlib/utils/lfsr.py"],
           "mechanism": [{"name": "constructors and elaborate() of all components", "where": "amlib"}],
           "observe_at": ["amaranth.back.rtlil.convert"]}
TECHNIQUE = "metamorphic testing: repeated conversion of generated configurations, within and across processes"
LEVEL_NOTE = "Compares the netlist text of Amaranth's own back end; no synthesis tool is installed to judge the netlist itself. Trusts Amaranth's back end."

NAMES = x01.NAMES + x01.MORE


def netlist(name, pseed):
    import importlib
    import random
    from amaranth.back import rtlil
    module, cls, f, _ = x01.catalogue()[name]
    c = getattr(importlib.import_module(module), cls)
    with contextlib.redirect_stdout(io.StringIO()):
        u, extra = f(c, random.Random(pseed), {})
        ports = [s for _, s in x01.ports(u, extra) if len(s)]
        text = rtlil.convert(u, ports=ports, name="top")
    return text


def digest(name, pseed):
    return hashlib.sha256(netlist(name, pseed).encode()).hexdigest()


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a.splitlines(), b.splitlines())):
        if x != y:
            return "line {}: {!r} against {!r}".format(i + 1, x.strip(), y.strip())
    return "different lengths"


def run(case, rec):
    name, ps = case["component"], case["params"]
    a = netlist(name, ps)
    for other in case["between"]:
        netlist(other, ps)
    b = netlist(name, ps)
    expect(a == b, "two netlists of {} differ in {}".format(name, first_difference(a, b)))
    expect(len(a) > 100, "netlist of {} is empty".format(name))
    rec.nontrivial("cell " in a or "process " in a)
    rec.label(name)


def processes(case, rec):
    """all components in a process of its own, per hash seed"""
    names = case["names"]
    out = []
    for h in case["hash"]:
        env = dict(os.environ, PYTHONHASHSEED=str(h))
        here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        r = subprocess.run([sys.executable, "-B", "-c",
                            "import sys, json; sys.path.insert(0, {!r})\nfrom vp import env; env.setup()\nfrom vp.props import x04\n"
                            "print(json.dumps([x04.digest(n, {}) for n in {!r}]))".format(here, case["params"], names)],
                           capture_output=True, text=True, env=env, timeout=600)
        expect_eq(r.returncode, 0, "exit status of a process converting {}: {}".format(names, r.stderr.strip().splitlines()[-1:]))
        out.append(json.loads(r.stdout.strip().splitlines()[-1]))
    for h, o in zip(case["hash"][1:], out[1:]):
        for n, x, y in zip(names, out[0], o):
            expect(x == y, "netlist of {} depends on the hash seed ({} against {})".format(n, case["hash"][0], h))
    rec.nontrivial(len(set(out[0])) > 1)
    rec.label("processes")


def strategy(tier):
    return st.fixed_dictionaries({"component": st.sampled_from(NAMES), "params": st.integers(0, 10**6), "between": st.lists(st.sampled_from(NAMES), max_size=2)})


def every(tier):
    for name in NAMES:
        for p in range(3 if tier == "quick" else 12):
            yield {"component": name, "params": p, "between": []}


def hashes(tier):
    for p in range(2 if tier == "quick" else 12):
        yield {"names": NAMES, "params": p, "hash": [0, 1 + p, 1000 + p]}


def few(tier):
    return st.fixed_dictionaries({"names": st.lists(st.sampled_from(NAMES), min_size=2, max_size=30, unique=True), "params": st.integers(0, 10**6),
                                  "hash": st.lists(wide(32), min_size=2, max_size=3, unique=True)})


CHECKS = [Check("netlist", run, strategy, quick=600, shards=8, enumerate=every, rule="the netlist contains cells or processes"),
          Check("processes", processes, few, quick=10, shards=4, enumerate=hashes, rule="netlists of different components")]
