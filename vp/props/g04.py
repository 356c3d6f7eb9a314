"""Host side of the logic analyzer: decoding, VCD and GTKWave files, stored parameters."""

import contextlib
import io
import os
import re
import sys
import tempfile
import types

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import wide
from . import g01, g03

ID = "G04"
TITLE = "The analyzer's host tools show exactly the values that were captured"
STATEMENT = (
    "For every signal set and every capture, the host frontend returns, sample by sample and under the right names, exactly the values the signals had, at times one sample period apart, whether it decodes raw samples or the bytes sent by the UART analyzer, with the analyzer itself or with its parameters restored from a file. "
    "The VCD file, or standard output, contains the same values at the same times, and a sample clock exactly if asked for; the GTKWave file lists exactly these signals in order."
)
QUANTIFIER = {"over": ["inputs", "configurations"], "text": "signal sets, values, sample rates, depths, with and without clock, file and standard output"}
WHY = "Nothing on the host side has any test."
ANCHORS = {"files": ["amlib/debug/ila.py", "amlib/utils/bits.py"],
           "mechanism": [{"name": "ILAFrontend, AsyncSerialILAFrontend, ILACoreParameters", "where": "amlib/debug/ila.py"}],
           "observe_at": ["refresh", "samples", "enumerate_samples", "emit_vcd", "pickle/unpickle"]}
TECHNIQUE = "round-trip property testing from gateware or raw samples through the host tools, with an independent VCD reader"
LEVEL_NOTE = "1-4 signals, up to 40 samples, sample rates 1 MHz-250 MHz. pyserial and GTKWave are replaced by stand-ins. VCD times are compared to within one nanosecond."


def signals(case):
    from amaranth import Signal, Shape
    return [Signal(Shape(w, bool(sg)), name=n) for w, sg, n in case["signals"]]


def vcd(text):
    """Minimal VCD reader: ({name: width}, [(time, name, value)])"""
    names, widths, changes, t, seen = {}, {}, [], 0, False
    it = iter(text.split("\n"))
    unit = None
    for line in it:
        line = line.strip()
        if not line:
            continue
        if not seen:
            expect(line.startswith("$"), "line {!r} in the header of the VCD".format(line))
            if line.startswith("$timescale"):
                unit = re.sub(r"\s", "", line.split("$timescale")[1].split("$end")[0])
            m = re.match(r"\$var\s+(\S+)\s+(\d+)\s+(\S+)\s+(\S+)\s+\$end", line)
            if m:
                names[m.group(3)] = m.group(4)
                widths[m.group(4)] = int(m.group(2))
            if line.startswith("$enddefinitions"):
                seen = True
        elif line.startswith("#"):
            n = int(line[1:])
            expect(n >= t, "time runs backwards in the VCD")
            t = n
        elif line.startswith("$"):
            continue
        elif line[0] in "bB":
            v, i = line[1:].split()
            changes.append((t, names[i], v))
        else:
            changes.append((t, names[line[1:]], line[0]))
    expect(seen, "the VCD has no definitions")
    expect_eq(unit, "1ns", "timescale")
    return widths, changes


def check_vcd(text, sigs, values, period, add_clock, rec):
    widths, changes = vcd(text)
    want = {s.name: len(s) for s in sigs}
    clock = {k: v for k, v in widths.items() if k not in want}
    expect_eq({k: v for k, v in widths.items() if k in want}, want, "variables in the VCD")
    expect_eq(list(clock.values()), [1] if add_clock else [], "additional variables {}".format(list(clock)))
    now = {}
    i = 0
    for k, row in enumerate(values):
        at = k * period * 1e9
        while i < len(changes) and changes[i][0] <= at + .5 and (k + 1 == len(values) or changes[i][0] < at + period * 1e9 / 2 - 1.5 or changes[i][0] <= at):
            t, n, v = changes[i]
            if n in want:
                expect(abs(t - at) <= 1.01, "{} changes at {} ns, but sample {} is at {:.1f} ns".format(n, t, k, at))
            now[n] = v
            i += 1
        for s, v in zip(sigs, row):
            expect(s.name in now, "no value of {} at sample {}".format(s.name, k))
            bits = now[s.name]
            expect(set(bits) <= set("01"), "value {} of {}".format(bits, s.name))
            expect_eq(int(bits, 2), v, "value of {} in sample {} of the VCD".format(s.name, k))
    rest = [c for c in changes[i:] if c[1] in want]
    expect(not rest, "changes after the last sample: {}".format(rest[:3]))
    if add_clock and len(values) > 1:
        edges = [(t, v) for t, n, v in changes if n in clock]
        edges = [e for k, e in enumerate(edges) if k == 0 or e[1] != edges[k - 1][1]]
        total = (len(values) - 1) * period * 1e9
        rising = [t for t, v in edges if v == "1"]
        # one rising edge per sample period
        expect(abs(len(rising) - (len(values) - 1)) <= 1, "{} rising clock edges in {} sample periods".format(len(rising), len(values) - 1))
        for a, b in zip(rising, rising[1:]):
            expect(abs(b - a - period * 1e9) <= 1.01, "clock period {} ns instead of {:.1f}".format(b - a, period * 1e9))


def split(sigs, word):
    out = []
    for s in sigs:
        out.append(word & ((1 << len(s)) - 1))
        word >>= len(s)
    return out


def check_frontend(front, sigs, words, period, case, rec, directory):
    """All the outputs of a frontend whose transport delivers the given samples."""
    values = [split(sigs, w) for w in words]
    names = [s.name for s in sigs]
    if case["refresh"]:
        front.refresh()
        expect_eq(len(front.samples), len(words), "samples")
    got = list(front.enumerate_samples())
    expect_eq(len(got), len(words), "enumerated samples")
    for k, (t, sample) in enumerate(got):
        expect(abs(t - k * period) < period * 1e-6 * (k + 1), "sample {} at {} s instead of {}".format(k, t, k * period))
        expect_eq(list(sample), names, "names in sample {}".format(k))
        for s, v in zip(sigs, values[k]):
            expect_eq((len(sample[s.name]), int(sample[s.name])), (len(s), v), "width and value of {} in sample {}".format(s.name, k))
    kind, clk = case["output"], bool(case["clock"])
    quiet = contextlib.redirect_stdout(io.StringIO())
    if kind == "stdout":
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            front.emit_vcd("-", add_clock=clk)
        check_vcd(buf.getvalue(), sigs, values, period, clk, rec)
        return
    gtkw = None
    if kind == "interactive":
        from amlib.debug import ila as module
        seen = []

        class Sub:
            @staticmethod
            def run(args, *a, **k):
                args = [str(x) for x in args]
                files = [x for x in args if os.path.exists(x)]
                seen.append({os.path.splitext(x)[1]: (x, open(x).read()) for x in files})

            def __getattr__(self, n):
                raise Violation("interactive_display uses subprocess." + n)
        old = module.subprocess, tempfile.tempdir
        module.subprocess, tempfile.tempdir = Sub(), directory
        try:
            with quiet:
                front.interactive_display(add_clock=clk)
        finally:
            module.subprocess, tempfile.tempdir = old
        expect_eq(len(seen), 1, "viewers started")
        name, text = seen[0][".vcd"]
        gtkw = seen[0][".gtkw"][1]
        expect_eq(os.listdir(directory), [], "files left behind")
    else:
        name = os.path.join(directory, "x.vcd")
        gname = os.path.join(directory, "x.gtkw") if kind == "gtkw" else None
        with quiet:
            front.emit_vcd(name, add_clock=clk, gtkw_filename=gname)
        text = open(name).read()
        if gname:
            gtkw = open(gname).read()
    check_vcd(text, sigs, values, period, clk, rec)
    if gtkw is not None:
        dump = re.findall(r'^\[dumpfile\] "(.*)"', gtkw, re.M)
        expect_eq(dump, [name], "dump file named in the GTKWave file")
        shown = [l.strip().split(".")[-1].split("[")[0] for l in gtkw.split("\n") if re.match(r"^[A-Za-z_]\w*\.", l.strip())]
        extra = shown[:len(shown) - len(names)]
        expect_eq(shown[len(extra):], names, "signals in the GTKWave file")
        expect_eq(len(extra), int(clk), "further signals {} in the GTKWave file".format(extra))


def raw(case, rec):
    """from raw samples"""
    from amlib.debug.ila import ILAFrontend, IntegratedLogicAnalyzer, ILACoreParameters
    from amlib.utils.bits import bits
    sigs = signals(case)
    width = sum(len(s) for s in sigs)
    words = [w & ((1 << width) - 1) for w in case["words"]]
    rate = case["rate"] * 1e6
    ila = IntegratedLogicAnalyzer(signals=sigs, sample_depth=len(words), sample_rate=rate)
    with tempfile.TemporaryDirectory() as directory:
        if case["stored"]:
            ila.bits_per_sample, ila.bytes_per_sample = 32, 4
            f = os.path.join(directory, "core")
            ILACoreParameters(ila).pickle(f)
            core = ILACoreParameters.unpickle(f)
            os.remove(f)
            for a in ("sample_width", "sample_depth", "sample_rate", "sample_period", "bits_per_sample", "bytes_per_sample"):
                expect_eq(getattr(core, a), getattr(ila, a), a + " after restoring")
            expect_eq([(s.name, len(s), s.shape().signed) for s in core.signals], [(s.name, len(s), s.shape().signed) for s in sigs], "signals after restoring")
        else:
            core = ila

        class Front(ILAFrontend):
            def _read_samples(self):
                return [bits.from_int(w, width) for w in words]
        check_frontend(Front(core), sigs, words, 1 / rate, case, rec, directory)
    rec.nontrivial(len(set(words)) > 1 and len(sigs) > 1)
    rec.label(case["output"], "clock" if case["clock"] else "no clock", "stored" if case["stored"] else "direct")


def uart(case, rec):
    """from the bytes which the real UART analyzer sends"""
    from ..sim import Dut, cached_dut
    from amlib.debug.ila import AsyncSerialILA, AsyncSerialILAFrontend, ILACoreParameters
    shapes = tuple((w, sg, n) for w, sg, n in case["signals"])
    depth, k = case["depth"], case["pre"]
    rate = case["rate"] * 1e6

    def build():
        sigs = signals(case)
        u = AsyncSerialILA(signals=sigs, sample_depth=depth, samples_pretrigger=k, divisor=1, sample_rate=rate)
        d = Dut(u)
        d.u, d.sigs = u, sigs
        return d
    d = cached_dut(("g04", shapes, depth, k, rate), build, limit=8)
    u, sigs = d.u, d.sigs
    hist = g01.History(d, u, sigs, [(w, sg) for w, sg, _ in shapes], k, 0, [1], case["seed"])
    rx = g03.Uart(1)
    for _ in range(case["idle"] + 3):
        hist.drive(0)
        d.tick()
    t0 = hist.t
    total = depth * u.bytes_per_sample
    for t in range(depth + 40 + total * 12 + depth * 8):
        hist.drive(t == 0)
        rx.step(d.get(u.tx))
        d.tick()
        if len(rx.bytes) >= total:
            break
    expect_eq(len(rx.bytes), total, "bytes sent")
    sent = bytes(rx.bytes)
    opened = []

    class Serial:
        def __init__(self, *a, **kw):
            opened.append((a, kw))
            self.data = b"noise"

        def reset_input_buffer(self):
            self.data = sent

        def read(self, n=1):
            out, self.data = self.data[:n], self.data[n:]
            return out
    fake = types.ModuleType("serial")
    fake.Serial = Serial
    old = sys.modules.get("serial")
    sys.modules["serial"] = fake
    with tempfile.TemporaryDirectory() as directory:
        try:
            core = u
            if case["stored"]:
                f = os.path.join(directory, "core")
                ILACoreParameters(u).pickle(f)
                core = ILACoreParameters.unpickle(f)
                os.remove(f)
            front = AsyncSerialILAFrontend("/dev/null", 115200, ila=core)
            expect_eq(opened, [(("/dev/null", 115200), {})], "serial port opened")
            start = next(i for i, s in enumerate(hist.stamp) if s >= t0 - k)
            check_frontend(front, sigs, hist.seq[start:start + depth], 1 / rate, case, rec, directory)
        finally:
            if old is None:
                del sys.modules["serial"]
            else:
                sys.modules["serial"] = old
    rec.nontrivial(depth > 1)
    rec.label("{} bytes".format(u.bytes_per_sample))


def sigset():
    return st.lists(st.tuples(st.one_of(st.sampled_from([1, 1, 2, 8]), st.integers(1, 20), st.sampled_from([31, 32, 33, 63, 64, 65, 100])), st.integers(0, 1), st.sampled_from(["a", "valid", "data", "state", "x_1", "payload"])).map(list),
                    min_size=1, max_size=4, unique_by=lambda t: t[2])


def common():
    return {"signals": sigset(), "rate": st.sampled_from([1, 12, 48, 60, 100, 125, 250]), "clock": st.integers(0, 1), "stored": st.integers(0, 1), "refresh": st.integers(0, 1),
            "output": st.sampled_from(["file", "gtkw", "stdout", "interactive"])}


def raw_strategy(tier):
    return st.fixed_dictionaries(dict(common(), words=st.lists(st.one_of(wide(80), wide(400), st.sampled_from([0, 2**400 - 1])), min_size=1, max_size=40)))


def uart_strategy(tier):
    return st.fixed_dictionaries(dict(common(), depth=st.integers(1, 8), pre=st.sampled_from([0, 1, 2]), idle=st.integers(0, 5), seed=st.integers(0, 10**6)))


CHECKS = [Check("raw", raw, raw_strategy, quick=8000, shards=8, rule="two signals, samples differ"),
          Check("uart", uart, uart_strategy, quick=2400, shards=8, rule="several samples")]
