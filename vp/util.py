"""Small helpers shared by the property modules."""

from hypothesis import strategies as st
from .core import Violation, expect, expect_eq


def bitpat(max_len=12, allow_zero=False):
    """A cyclic on/off pattern: list of 0/1 with at least one 1 (unless allow_zero)."""
    base = st.lists(st.integers(0, 1), min_size=1, max_size=max_len)
    if allow_zero:
        return base
    always = st.just([1])
    rand = base.map(lambda l: l if any(l) else l + [1])
    rare = st.integers(1, max_len).map(lambda n: [0] * n + [1])
    burst = st.tuples(st.integers(1, max_len), st.integers(1, max_len)).map(lambda t: [1] * t[0] + [0] * t[1])
    return st.one_of(always, rand, rand, rare, burst)


class Pat:
    """Iterates a cyclic pattern."""
    def __init__(self, pat):
        self.pat = pat
        self.i = 0

    def next(self):
        v = self.pat[self.i]
        self.i += 1
        if self.i == len(self.pat):
            self.i = 0
        return v


def _expand(seed, width):
    """A fixed pseudo-random width-bit number for every seed (0 stays 0)."""
    out, x, got = 0, seed, 0
    while got < width and seed:
        x = (x + 0x9E3779B97F4A7C15) & (2 ** 64 - 1)
        z = x
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & (2 ** 64 - 1)
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & (2 ** 64 - 1)
        out |= (z ^ (z >> 31)) << got
        got += 64
    return out & ((1 << width) - 1)


def wide(width):
    """Integers of up to `width` bits.  Hypothesis draws most members of a long integer range from its low
    16 bits, so that the upper bits are nearly always zero; half of these have all their bits at random."""
    full = st.integers(0, (1 << width) - 1)
    if width <= 16:
        return full
    return st.one_of(full, st.integers(1, 2 ** 16 - 1).map(lambda n: _expand(n, width)))


def values(width, signed=False):
    """Values of a given width, biased to corner cases."""
    if signed:
        lo, hi = -(1 << (width - 1)), (1 << (width - 1)) - 1
    else:
        lo, hi = 0, (1 << width) - 1
    corners = sorted({lo, hi, max(lo, min(hi, 0)), max(lo, min(hi, 1)), max(lo, -1) if signed else lo,
                      hi >> 1, (hi >> 1) + 1 if (hi >> 1) + 1 <= hi else hi})
    spread = wide(width).map(lambda n: n + lo)
    return st.one_of(st.integers(lo, hi), spread, st.sampled_from(corners))


def lockstep(d, inputs, outputs, stim, model, what, domain="sync"):
    """Drive `inputs` (name -> Signal) from every stimulus dict, compare `outputs` (name -> Signal)
    with model.out(inputs) in the same cycle, then clock both."""
    hist = []
    for t, row in enumerate(stim):
        for n, sig in inputs.items():
            d.set(sig, row.get(n, 0))
        want = model.out(row)
        for n, sig in outputs.items():
            if n in want and want[n] is not None:
                got = d.get(sig)
                if got != want[n]:
                    raise Violation("{}: cycle {}: {} = {} but should be {} (inputs {})".format(
                        what, t, n, got, want[n], row))
        model.step(row)
        d.tick(domain)
        hist.append(row)


def get_fields(d, rec, names):
    return tuple(d.get(getattr(rec, n)) for n in names)


class Sink:
    """Consumes a valid/ready stream with a cyclic ready pattern.

    Call pre() before the settle of each cycle, post() after all inputs are driven and before the tick.
    Checks the handshake: while valid and not accepted, the offered word must stay offered, unchanged."""

    def __init__(self, d, stream, pattern, fields=("payload", "first", "last"), what="stream", strict=True,
                 valid=None):
        self.d, self.s, self.pat, self.fields, self.what = d, stream, Pat(pattern), fields, what
        self.strict = strict
        self.valid = valid if valid is not None else stream.valid
        self.words = []          # accepted: dict
        self.pending = None
        self.ready = 0
        self.just = None

    def pre(self, force=None):
        self.ready = self.pat.next() if force is None else force
        self.d.set(self.s.ready, self.ready)

    def post(self):
        d, s = self.d, self.s
        v = d.get(self.valid)
        cur = None
        self.just = None
        if v:
            cur = {f: d.get(getattr(s, f)) for f in self.fields}
            cur["valid"] = v
        if self.strict and self.pending is not None and cur != self.pending:
            raise Violation("{}: word {} was offered but not accepted, then changed to {} (cycle {})".format(
                self.what, self.pending, cur, d.cycle))
        if v and self.ready:
            cur["t"] = d.cycle
            self.words.append(cur)
            self.just = cur
            self.pending = None
        else:
            self.pending = cur
        return v


class Source:
    """Feeds a list of words (dicts) into a valid/ready stream with a cyclic valid pattern."""

    def __init__(self, d, stream, words, pattern, fields=("payload", "first", "last"), idle=None, hold=True):
        self.d, self.s, self.words, self.pat, self.fields = d, stream, words, Pat(pattern), fields
        self.i = 0
        self.hold = hold
        self.offered = False
        self.idle = idle or {}
        self.transfers = []

    def pre(self, allow=1):
        d, s = self.d, self.s
        if self.i < len(self.words) and ((self.offered and self.hold) or (allow and self.pat.next())):
            self.offered = True
            d.set(s.valid, 1)
            for f in self.fields:
                d.set(getattr(s, f), self.words[self.i][f])
        else:
            self.offered = False
            d.set(s.valid, 0)
            for f in self.fields:
                d.set(getattr(s, f), self.idle.get(f, 0))

    def post(self):
        if self.offered and self.d.get(self.s.ready):
            self.i += 1
            self.transfers.append(self.d.cycle)
            self.offered = False
            return True
        return False

    @property
    def done(self):
        return self.i >= len(self.words)


def packetize(words):
    """Split a list of accepted words into packets on `last`; checks `first` placement."""
    pkts, cur = [], []
    for w in words:
        if w["first"] != (0 if cur else 1):
            raise Violation("first flag is {} on word {} of a packet".format(w["first"], len(cur)))
        cur.append(w)
        if w["last"]:
            pkts.append(cur)
            cur = []
    return pkts, cur


# the documented defaults of constructor arguments
DEFAULTS = {
    "IntegratedLogicAnalyzer": {"samples_pretrigger": 1, "with_enable": False},
    "StreamILA": {"samples_pretrigger": 1, "with_enable": False},
    "SyncSerialILA": {"samples_pretrigger": 1, "with_enable": False, "clock_polarity": 0, "clock_phase": 1, "cs_idles_high": False},
    "AsyncSerialILA": {"samples_pretrigger": 1, "with_enable": False},
    "StereoConvolutionMAC": {"bitwidth": 24},
    "Filterbank": {"bitwidth": 18, "fraction_width": 18, "cutoff_freq": 20000, "filter_order": 2, "filter_structure": "fir", "filter_type": "lowpass", "verbose": True},
    "FixedPointCICFilter": {"bitwidth": 18, "filter_stage": 4, "decimation": 12, "verbose": True},
    "FixedPointFFT": {"bitwidth": 16, "verbose": True},
    "FixedPointFIRFilter": {"bitwidth": 18, "fraction_width": 18, "cutoff_freq": 20000, "filter_order": 24, "filter_type": "lowpass", "weight": None, "mac_loop": False, "verbose": True},
    "FixedPointHBFilter": {"bitwidth": 18, "fraction_width": 18, "filter_order": 19, "mac_loop": False, "verbose": True},
    "FixedPointIIRFilter": {"bitwidth": 18, "fraction_width": 18, "cutoff_freq": 20000, "filter_order": 2, "filter_type": "lowpass", "verbose": False},
    "FractionalResampler": {"filter_structure": "fir", "filter_instances": 1, "filter_order": 24, "filter_cutoff": 20000, "bitwidth": 16, "prescale": None, "verbose": True},
    "I2STransmitter": {"fifo_depth": 16},
    "I2SReceiver": {"fifo_depth": 16},
    "NumberToSevenSegmentHex": {"width": 32, "register": False},
    "SPIControllerInterface": {"word_size": 8, "clock_polarity": 0, "clock_phase": 0, "msb_first": True, "cs_idles_high": False},
    "SPIDeviceInterface": {"word_size": 8, "clock_polarity": 0, "clock_phase": 0, "msb_first": True, "cs_idles_high": False},
    "SPICommandInterface": {"command_size": 8, "word_size": 32},
    "SPIRegisterInterface": {"address_size": 15, "register_size": 32, "default_read_value": 0, "support_size_autonegotiation": True},
    "StreamInterface": {"payload_width": 8},
}


def make(cls, *args, **kw):
    """cls(*args, **kw), leaving every argument that has its default value to the default."""
    known = DEFAULTS[cls.__name__]
    return cls(*args, **{k: v for k, v in kw.items() if k not in known or known[k] is not v and known[k] != v})
