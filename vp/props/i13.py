"""Debouncer."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation

ID = "I13"
TITLE = "The debouncer reports each real press and release once, and no bounce"
STATEMENT = (
    "For every history of the (active low) button input, the reported state changes only after the input has disagreed with it without interruption for 2^15 clock cycles, and does so promptly then. "
    "Every change of state to pressed is accompanied by exactly one down strobe, every change to released by exactly one up strobe, and there are no other strobes."
)
QUANTIFIER = {"over": ["histories", "schedules"], "text": "all input waveforms: bounces of any length and number, before, during and after presses"}
WHY = "There is no test of the debouncer."
ANCHORS = {"files": ["amlib/io/debouncer.py"], "mechanism": [{"name": "Debouncer", "where": "amlib/io/debouncer.py"}],
           "observe_at": ["btn_state_out", "btn_down_out", "btn_up_out"]}
TECHNIQUE = "history invariant over generated bounce waveforms"
LEVEL_NOTE = "Up to 12 edges and 270 000 cycles per waveform; interruptions generated around the threshold. Trusts Amaranth's simulator."
RULE = "Non-trivial: a state change and an interruption shorter than the threshold."
N = 1 << 15


def run(case, rec):
    from amlib.io.debouncer import Debouncer
    from ..sim import cached_dut, Dut

    def build():
        u = Debouncer()
        d = Dut(u)
        d.u = u
        return d
    d = cached_dut("i13", build)
    u = d.u
    level = case["start"]
    edges = 0
    # latency of the input synchroniser plus the comparison: two or three cycles
    LAT = 3
    state, t, last_edge = 0, 0, 0
    downs = ups = changes = short = 0
    stable_since = 0                     # cycle at which the input took its present level
    prev_strobe = (0, 0)
    levels = []                          # (from cycle, level)
    for seg in case["segments"]:
        length = {"glitch": seg[1] % 40 + 1, "near": N - 6 + seg[1] % 13, "part": 1 + seg[1] * 37 % (N - 10), "long": N + 8 + seg[1] % 300}[seg[0]]
        d.set(u.btn_in, level)
        levels.append((t, t + length, level))
        for i in range(length):
            s, down, up = d.get(u.btn_state_out), d.get(u.btn_down_out), d.get(u.btn_up_out)
            if s != state:
                changes += 1
                expect_eq(prev_strobe, (1, 0) if s else (0, 1), "(down, up) strobes with a change to {}".format("pressed" if s else "released"))
                # the input must have held the new state for (nearly) the whole debounce time, apart from the pipeline
                want = 0 if s else 1
                a, b = t - N - 1, t - LAT
                for lo, hi, l in levels:
                    if l != want and lo < b and hi > a:
                        raise Violation("state became {} at cycle {} although the input was {} until cycle {} ({} cycles before)".format(
                            s, t, l, min(hi, t), t - min(hi, t)))
                state = s
            else:
                expect_eq(prev_strobe, (0, 0), "(down, up) strobes although the state stays {}".format(s))
            prev_strobe = (down, up)
            if i >= N + 6:
                expect_eq(s, 1 - level, "state after the input has been {} for {} cycles".format(level, i))
            d.tick()
            t += 1
        if seg[0] in ("glitch", "part"):
            short += 1
        level = 1 - level
    rec.nontrivial(changes and short)
    rec.label("{} changes".format(changes))


def strategy(tier):
    seg = st.tuples(st.sampled_from(["glitch", "glitch", "glitch", "near", "part", "long"]), st.integers(0, 1000)).map(list)
    big = 8 if tier == "thorough" else 5
    return st.fixed_dictionaries({"start": st.integers(0, 1), "segments": st.lists(seg, min_size=1, max_size=12).map(
        lambda l: [s for i, s in enumerate(l) if s[0] == "glitch" or sum(x[0] != "glitch" for x in l[:i]) < big])})


CHECKS = [Check("waveforms", run, strategy, quick=320, shards=8, rule="a change and an interruption")]
