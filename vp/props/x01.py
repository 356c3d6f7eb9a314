"""Every component in a renamed clock domain, and after a reset."""

import contextlib
import io
import random

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation

ID = "X01"
TITLE = "Every component works alike in any clock domain"
STATEMENT = (
    "For every component, configuration and input history, the component placed in another clock domain, through Amaranth's DomainRenamer or its own domain parameter, has in every cycle of that domain exactly the outputs which it has in the default domain, and needs no clock but that one."
)
QUANTIFIER = {"over": ["configurations", "inputs", "histories"], "text": "all components of utils, io, stream, dsp, debug and soc, random configurations and random input histories of up to 400 cycles"}
WHY = "All tests run in the sync domain."
ANCHORS = {"files": ["amlib/io/spi.py", "amlib/debug/ila.py", "amlib/stream/generator.py", "amlib/stream/arbiter.py", "amlib/utils/fifo.py", "amlib/utils/cdc.py"],
           "mechanism": [{"name": "use of clock domains in every elaborate()", "where": "amlib"}],
           "observe_at": ["all public outputs"]}
TECHNIQUE = "metamorphic (differential) testing of renamed against default designs with random stimulus"
LEVEL_NOTE = "Random stimulus of up to 400 cycles; the absence of any other clock is checked for the whole design. Trusts Amaranth's simulator and DomainRenamer."


# ---- catalogue: name -> f(r, kw) -> (elaboratable, extra input signals); kw carries domain= where supported --------------
def _sigs(r):
    from amaranth import Signal
    return [Signal(r.randint(1, 9), name="probe{}".format(i)) for i in range(r.randint(1, 3))]


def _pins(*names):
    from amaranth import Record
    return Record([(n, 1) for n in names], name="pins")


def _pads():
    from ..i2cbus import Pads
    return Pads(True)


def catalogue():
    from amaranth import Signal
    C = {}

    def add(name, module, cls, f, domain=False):
        C[name] = (module, cls, f, domain)
    U, S, I, D, G = "amlib.utils.", "amlib.stream.", "amlib.io.", "amlib.dsp.", "amlib.debug."
    add("EdgeToPulse", U + "edgetopulse", "EdgeToPulse", lambda c, r, k: (c(), []))
    add("NRZIEncoder", U + "nrziencoder", "NRZIEncoder", lambda c, r, k: (c(), []))
    add("SimpleClockDivider", U + "clockdivider", "SimpleClockDivider", lambda c, r, k: (c(2 * r.randint(1, 9), r.randint(0, 1)), []))
    add("InputShiftRegister", U + "shiftregister", "InputShiftRegister", lambda c, r, k: (c(r.randint(1, 12)), []))
    add("OutputShiftRegister", U + "shiftregister", "OutputShiftRegister", lambda c, r, k: (c(r.randint(2, 12), rotate=bool(r.randint(0, 1))), []))
    add("Timer", U + "timer", "Timer", lambda c, r, k: (c(width=r.randint(2, 6)), []))
    add("TransactionalizedFIFO", U + "fifo", "TransactionalizedFIFO", lambda c, r, k: (c(width=r.randint(1, 9), depth=r.randint(2, 9), **k), []), True)
    add("LFSR", U + "lfsr", "LinearFeedbackShiftRegister", lambda c, r, k: (c(8, [8, 6, 5, 4], r.randint(1, 255)), []))
    add("DividingCounter", U + "dividingcounter", "DividingCounter", lambda c, r, k: (c(divisor=r.randint(1, 9), width=r.randint(1, 5)), []))

    def arb(c, r, k):
        from amlib.stream import StreamInterface
        a, ins = c(**k), []
        for i in range(r.randint(1, 4)):
            s = StreamInterface()
            a.add_stream(s)
            ins += [s.valid, s.payload, s.first, s.last]
        return a, ins
    add("StreamArbiter", S + "arbiter", "StreamArbiter", arb, True)
    add("UARTTransmitter", S + "uart", "UARTTransmitter", lambda c, r, k: (c(divisor=r.randint(1, 5)), []))
    add("UARTMultibyteTransmitter", S + "uart", "UARTMultibyteTransmitter", lambda c, r, k: (c(divisor=r.randint(1, 4), byte_width=r.randint(1, 4)), []))
    add("ConstantStreamGenerator", S + "generator", "ConstantStreamGenerator",
        lambda c, r, k: (c(bytes(r.randrange(256) for _ in range(r.randint(1, 12))), max_length_width=r.choice([None, 4]), **k), []), True)

    def ser(c, r, k):
        n = r.randint(1, 8)
        s = c(n, max_length_width=4, **k)
        return s, []
    add("StreamSerializer", S + "generator", "StreamSerializer", ser, True)
    add("PacketListStreamer", S + "generator", "PacketListStreamer",
        lambda c, r, k: (c([[r.randrange(256) for _ in range(r.randint(1, 5))] for _ in range(r.randint(1, 3))]), []))

    def i2cs(c, r, k):
        p = _pads()
        return c(p, r.choice([4, 8, 12]), r.random() < .5, 4), [p.scl_t.i, p.sda_t.i, p.scl_t.o, p.sda_t.o, p.scl_t.oe, p.sda_t.oe]
    add("I2CStreamTransmitter", S + "i2c", "I2CStreamTransmitter", i2cs)

    def i2ci(c, r, k):
        p = _pads()
        return c(p, r.choice([4, 8, 12]), r.random() < .5), [p.scl_t.i, p.sda_t.i, p.scl_t.o, p.sda_t.o, p.scl_t.oe, p.sda_t.oe]
    add("I2CInitiator", I + "i2c", "I2CInitiator", i2ci)

    def i2ct(c, r, k):
        p = _pads()
        return c(p), [p.scl_t.i, p.sda_t.i, p.scl_t.o, p.sda_t.o, p.scl_t.oe, p.sda_t.oe]
    add("I2CTarget", I + "i2c", "I2CTarget", i2ct)
    add("I2STransmitter", I + "i2s", "I2STransmitter", lambda c, r, k: (c(sample_width=r.choice([8, 16, 24]), fifo_depth=4), []))
    add("I2SReceiver", I + "i2s", "I2SReceiver", lambda c, r, k: (c(sample_width=r.choice([8, 16, 24]), fifo_depth=4), []))
    add("SerialLEDArray", I + "max7219", "SerialLEDArray", lambda c, r, k: (c(divisor=12, init_delay=4, no_modules=r.randint(1, 2), **({} if r.random() < .5 else {"init_sequence": [[r.randrange(16), r.randrange(256)]]})), []))
    add("SPIController", I + "spi", "SPIControllerInterface", lambda c, r, k: (c(word_size=r.randint(2, 9), divisor=r.choice([12, 16]), clock_polarity=r.randint(0, 1),
        clock_phase=r.randint(0, 1), msb_first=r.random() < .5, cs_idles_high=r.random() < .5, skip_input_cdc=r.random() < .5), []))
    add("SPIDevice", I + "spi", "SPIDeviceInterface", lambda c, r, k: (c(word_size=r.randint(2, 9), clock_polarity=r.randint(0, 1),
        clock_phase=r.randint(0, 1), msb_first=r.random() < .5, cs_idles_high=r.random() < .5, skip_input_cdc=r.random() < .5), []))
    add("SPICommand", I + "spi", "SPICommandInterface", lambda c, r, k: (c(r.randint(2, 5), r.randint(2, 6)), []))

    def spireg(c, r, k):
        u = c(address_size=3, register_size=8, default_read_value=r.randrange(256))
        u.add_register(1, reset=r.randrange(256))
        inp = Signal(8, name="status")
        u.add_read_only_register(2, read=inp)
        return u, [inp]
    add("SPIRegisters", I + "spi", "SPIRegisterInterface", spireg)
    add("Debouncer", I + "debouncer", "Debouncer", lambda c, r, k: (c(), []))
    add("SevenSegment", I + "led", "NumberToSevenSegmentHex", lambda c, r, k: (c(width=4 * r.randint(1, 4), register=True), []))
    add("BitBar", I + "led", "NumberToBitBar", lambda c, r, k: (c(0, r.randint(20, 90), r.randint(3, 6)), []))
    add("WS2812", I + "ws2812", "WS2812", lambda c, r, k: (c(sys_clock_freq=r.choice([4e6, 5e6]), no_leds=r.randint(1, 3)), []))

    def srx(c, r, k):
        return c(divisor=r.randint(5, 9), data_bits=r.randint(5, 8), parity=r.choice(["none", "even", "odd"])), []
    add("AsyncSerialRX", I + "serial", "AsyncSerialRX", srx)
    add("AsyncSerialTX", I + "serial", "AsyncSerialTX", srx)
    add("AsyncSerial", I + "serial", "AsyncSerial", srx)
    import numpy
    add("StereoMAC", D + "convolution.mac", "StereoConvolutionMAC", lambda c, r, k: (c(
        taps=numpy.array([[r.randint(-999, 999), r.randint(-999, 999)] for _ in range(8)]), samplerate=48000, clockfrequency=48000 * 8, bitwidth=16), []))
    add("CIC", D + "fixedpointcicfilter", "FixedPointCICFilter", lambda c, r, k: (c(bitwidth=10, filter_stage=r.randint(1, 3), decimation=r.randint(2, 6), verbose=False), []))
    add("Resampler", D + "resampler", "FractionalResampler", lambda c, r, k: (c(input_samplerate=48000, upsample_factor=r.randint(1, 4), downsample_factor=r.randint(1, 4), filter_order=8, verbose=False), []))
    add("FFT", D + "fixedpointfft", "FixedPointFFT", lambda c, r, k: (c(bitwidth=10, pts=8, verbose=False), []))
    add("Filterbank", D + "filterbank", "Filterbank", lambda c, r, k: (c(r.randint(1, 2), 48000, filter_structure=r.choice(["fir", "iir"]), filter_order=3, cutoff_freq=9000, verbose=False), []))
    add("HB", D + "fixedpointhbfilter", "FixedPointHBFilter", lambda c, r, k: (c(filter_order=7, mac_loop=r.random() < .5, verbose=False), []))
    add("FIR", D + "fixedpointfirfilter", "FixedPointFIRFilter", lambda c, r, k: (c(48000, filter_order=6, mac_loop=r.random() < .5, verbose=False), []))
    add("IIR", D + "fixedpointiirfilter", "FixedPointIIRFilter", lambda c, r, k: (c(48000, filter_order=2, verbose=False), []))

    def ila(**extra):
        def f(c, r, k):
            s = _sigs(r)
            kw = dict(extra)
            if "divisor" in kw:
                kw["divisor"] = r.randint(1, 3)
            return c(signals=s, sample_depth=r.randint(1, 9), samples_pretrigger=r.randint(0, 4), with_enable=r.random() < .5, **kw, **k), s
        return f
    add("ILA", G + "ila", "IntegratedLogicAnalyzer", ila(), True)
    add("StreamILA", G + "ila", "StreamILA", ila(), True)
    add("SyncSerialILA", G + "ila", "SyncSerialILA", ila(), True)
    add("AsyncSerialILA", G + "ila", "AsyncSerialILA", ila(divisor=1), True)
    add("WishboneRAM", "amlib.soc.memory", "WishboneRAM", lambda c, r, k: (c(addr_width=4, data_width=16, granularity=8), []))

    def smux(c, r, k):
        from amlib.stream import StreamInterface
        a, ins = c(), []
        for i in range(r.randint(1, 4)):
            b = StreamInterface()
            a.add_input(b)
            ins.append(b)
        return a, ins
    add("StreamMultiplexer", S + "arbiter", "StreamMultiplexer", smux)

    def omux(c, r, k):
        from amlib.stream import StreamInterface
        a, ins = c(interface_type=StreamInterface, mux_signals=["payload"], or_signals=["valid", "last"], pass_signals=["ready"]), []
        for i in range(r.randint(1, 4)):
            b = StreamInterface()
            a.add_input(b)
            ins.append(b)
        return a, ins
    add("OneHotMultiplexer", U + "bus", "OneHotMultiplexer", omux)

    def spimux(c, r, k):
        from amlib.io.spi import SPIDeviceBus
        b = [SPIDeviceBus() for _ in range(r.randint(1, 4))]
        return c(b), b
    add("SPIMultiplexer", I + "spi", "SPIMultiplexer", spimux)

    def isrc(c, r, k):
        from amlib.soc.event import EventSource
        e = [EventSource(mode=r.choice(["level", "rise", "fall"]), name="e{}".format(i)) for i in range(r.randint(1, 5))]
        u = c(e, name="src")
        return u, [x.stb for x in e]
    add("InterruptSource", "amlib.soc.event", "InterruptSource", isrc)

    def uper(c, r, k):
        u = c(rx_depth=r.randint(1, 4), tx_depth=r.randint(1, 4), divisor=r.randint(5, 9), data_bits=r.randint(5, 8), parity=r.choice(["none", "even"]))
        return u, [u.bus, u.irq]
    add("UARTPeripheral", "amlib.soc.uart", "UARTPeripheral", uper)

    def utx(c, r, k):
        u = c(divisor=r.randint(1, 5))
        return u, []
    add("UARTTransmitterPeripheral", S + "uart", "UARTTransmitterPeripheral", utx)
    return C


NAMES = ["EdgeToPulse", "NRZIEncoder", "SimpleClockDivider", "InputShiftRegister", "OutputShiftRegister", "Timer", "TransactionalizedFIFO", "LFSR", "DividingCounter",
         "StreamArbiter", "UARTTransmitter", "UARTMultibyteTransmitter", "ConstantStreamGenerator", "StreamSerializer", "PacketListStreamer", "I2CStreamTransmitter",
         "I2CInitiator", "I2CTarget", "I2STransmitter", "I2SReceiver", "SerialLEDArray", "SPIController", "SPIDevice", "SPICommand", "SPIRegisters", "Debouncer",
         "SevenSegment", "BitBar", "WS2812", "AsyncSerialRX", "AsyncSerialTX", "AsyncSerial", "StereoMAC", "CIC", "Resampler", "FFT", "Filterbank", "HB", "FIR", "IIR",
         "ILA", "StreamILA", "SyncSerialILA", "AsyncSerialILA", "WishboneRAM"]
MORE = ["StreamMultiplexer", "OneHotMultiplexer", "SPIMultiplexer"]        # purely combinational
NAMES += ["InterruptSource", "UARTPeripheral", "UARTTransmitterPeripheral"]
WITH_DOMAIN = {"TransactionalizedFIFO", "StreamArbiter", "ConstantStreamGenerator", "StreamSerializer", "ILA", "StreamILA", "SyncSerialILA", "AsyncSerialILA"}


def ports(u, extra):
    """All public signals of a component: [(name, Signal)], found by walking its attributes."""
    from amaranth import Signal, Record
    out, seen = [], set()

    def walk(name, v):
        if isinstance(v, Signal):
            if id(v) not in seen:
                seen.add(id(v))
                out.append((name, v))
        elif isinstance(v, Record):
            for f in v.fields:
                walk(name + "." + f, v.fields[f])
        elif isinstance(v, (list, tuple)):
            for i, x in enumerate(v):
                walk("{}[{}]".format(name, i), x)
    for a, v in sorted(vars(u).items()):
        if not a.startswith("_"):
            walk(a, v)
            if type(u).__name__ == "AsyncSerial" and a in ("rx", "tx"):
                for b, x in sorted(vars(v).items()):
                    walk(a + "." + b, x)
    for i, s in enumerate(extra):
        walk("extra{}".format(i), s)
    return out


def drivers(frag):
    from amaranth.hdl.ast import SignalSet
    s = SignalSet()
    for dom, sigs in frag.drivers.items():
        s.update(sigs)
    for sub, _ in frag.subfragments:
        s.update(drivers(sub))
    return s


def instance(name, pseed, domain, how):
    """Build a component; returns a Dut with .ins and .outs"""
    import importlib
    from amaranth import DomainRenamer
    from ..sim import Dut
    module, cls, f, has_domain = catalogue()[name]
    c = getattr(importlib.import_module(module), cls)
    kw = {"domain": domain} if how == "parameter" and has_domain and domain != "sync" else {}
    with contextlib.redirect_stdout(io.StringIO()):
        u, extra = f(c, random.Random(pseed), kw)
        d = Dut(DomainRenamer(domain)(u) if domain != "sync" and not kw else u)
    driven = drivers(d.frag)
    ps = ports(u, extra)
    d.ins = [(n, s) for n, s in ps if s not in driven]
    d.outs = [(n, s) for n, s in ps if s in driven]
    d.u = u
    return d


class Stimulus:
    """Random input histories: every input changes at its own rate, toggles regularly, or rests."""

    def __init__(self, ins, seed):
        r = self.r = random.Random(seed)
        self.width = [len(s) for _, s in ins]
        self.rate = [r.choice([1, 1, .5, .2, .05, .02]) for _ in ins]
        self.period = [r.choice([1, 2, 2, 3, 4, 4, 8, 16, 32, 64]) if w == 1 and r.random() < .4 else 0 for w in self.width]
        self.fixed = [w > 1 and r.random() < .2 for w in self.width]
        self.val = [self.new(w) for w in self.width]
        self.t = 0
        self.index = {n: i for i, (n, _) in enumerate(ins)}
        self.special = None
        if "word_select_in" in self.index:
            self.special = self.i2s(r.choice([2, 2, 3]), r.choice([8, 16, 24, 32]))
        elif "extra1" in self.index and ("address" in self.index or "start" in self.index or "stream_in.valid" in self.index):
            self.special = self.i2c(r.choice([3, 4, 6]))

    def new(self, w):
        r = self.r
        return r.choice([r.getrandbits(w), r.getrandbits(w), 0, (1 << w) - 1, r.getrandbits(w) & 3]) if w else 0

    def i2s(self, half, slot):
        """a bit clock and a word select that goes with it"""
        t = self.r.randint(0, 99)
        while True:
            yield {"serial_clock_in": t // half & 1, "word_select_in": (t + half) // (2 * half * slot) & 1, "enable_in": int(self.r.random() < .995)}
            t += 1

    def i2c(self, q):
        """an I2C master: clock and data lines, sometimes well-formed"""
        r = self.r
        addr = r.randrange(128)

        def lines(scl, sda):
            for _ in range(q):
                d = {"extra0": scl, "extra1": sda}
                if "address" in self.index:
                    d["address"] = addr
                yield d
        while True:
            yield from lines(1, 1)
            yield from lines(1, 0)
            for b in [addr << 1 | r.getrandbits(1) if r.random() < .8 else r.getrandbits(8)] + [r.getrandbits(8) for _ in range(r.randint(0, 2))]:
                for bit in [b >> i & 1 for i in range(7, -1, -1)] + [1]:
                    yield from lines(0, bit)
                    yield from lines(1, bit)
                    if r.random() < .003:
                        break
            yield from lines(0, 0)
            yield from lines(1, 0)

    def next(self):
        r = self.r
        for i, p in enumerate(self.rate):
            if self.period[i]:
                self.val[i] = self.t // self.period[i] & 1
            elif not self.fixed[i] and (p == 1 or r.random() < p):
                self.val[i] = self.new(self.width[i])
        if self.special:
            for n, v in next(self.special).items():
                if n in self.index:
                    self.val[self.index[n]] = v
        self.t += 1
        return self.val


def run(case, rec):
    from ..sim import cached_dut
    name, ps = case["component"], case["params"]
    a = cached_dut(("x01", name, ps), lambda: instance(name, ps, "sync", None), limit=40)
    b = cached_dut(("x01r", name, ps, case["how"]), lambda: instance(name, ps, "other", case["how"]), limit=40)
    extra = [x for x in b.domains if x != "other"]
    expect(not extra, "{} in domain 'other' also uses clock domain {}".format(name, extra))
    expect_eq([n for n, _ in b.ins], [n for n, _ in a.ins], "inputs of {}".format(name))
    stim = Stimulus(a.ins, case["seed"])
    act = set()
    last = None
    for t in range(case["cycles"]):
        for (n, s), (_, s2), v in zip(a.ins, b.ins, stim.next()):
            a.set(s, v)
            b.set(s2, v)
        oa = [a.get(s) for _, s in a.outs]
        ob = [b.get(s) for _, s in b.outs]
        if oa != ob:
            i = next(i for i in range(len(oa)) if oa[i] != ob[i])
            raise Violation("{}: cycle {}: {} = {} in another clock domain ({}), but {} in sync".format(name, t, a.outs[i][0], ob[i], case["how"], oa[i]))
        if last is not None:
            act.update(i for i in range(len(oa)) if oa[i] != last[i])
        last = oa
        if a.domains:
            a.tick()
        if b.domains:
            b.tick("other")
    rec.nontrivial(len(act) >= 1)
    rec.label(name)


def _case(name):
    return st.fixed_dictionaries({"component": st.just(name), "params": st.integers(0, 5), "how": st.sampled_from(["renamer", "parameter"] if name in WITH_DOMAIN else ["renamer"]),
                                  "seed": st.integers(0, 10**6), "cycles": st.integers(100, 400)})


def strategy(tier):
    return st.sampled_from(NAMES).flatmap(_case)


def every(tier):
    """every component in every manner at least once"""
    for name in NAMES:
        for how in (["renamer", "parameter"] if name in WITH_DOMAIN else ["renamer"]):
            for p in range(2 if tier == "quick" else 6):
                yield {"component": name, "params": p, "how": how, "seed": p, "cycles": 300}


CHECKS = [Check("domains", run, strategy, quick=2000, shards=8, enumerate=every, rule="at least one output changes")]
