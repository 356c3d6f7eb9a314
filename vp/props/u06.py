from hypothesis import strategies as st
from ..core import Check, expect_eq

ID = "U06"
TITLE = "The transactional FIFO is a queue with exact commit and rollback"
STATEMENT = (
    "For every sequence of reads, writes, commits and discards (commit and discard of one side not in the same cycle), the FIFO's read side presents exactly the committed written items, in order, without loss, duplication or "
    "corruption: a write commit publishes precisely the writes of earlier cycles, a write discard removes precisely the writes since the last commit, "
    "a read commit frees precisely the reads of earlier cycles, and a read discard makes precisely the reads since the last commit readable again from the next cycle on. "
    "The head item is valid in every cycle in which the FIFO is not empty, and empty, full and space-available always equal the values implied by that history; "
    "reading while empty and writing while full change nothing."
)
QUANTIFIER = {"over": ["histories", "configurations"],
              "text": "all operation histories (including simultaneous read- and write-side operations), widths, depths (power of two or not) and domains"}
WHY = ("One scripted fill/drain sequence on a depth-16 FIFO; no simultaneous operations, no back-to-back discard and read, no pointer wrap of odd depths.")
ANCHORS = {"files": ["amlib/utils/fifo.py"],
           "mechanism": [{"name": "TransactionalizedFIFO", "where": "amlib/utils/fifo.py"}],
           "observe_at": ["read_data", "empty", "full", "space_available"]}
TECHNIQUE = "model-based stateful property testing against a counter/list queue model"
LEVEL_NOTE = ("Random operation histories up to ~200 cycles with phases (fill, drain, mixed, discard storms), depth 1-20, width 1-16, compared every cycle. "
              "Simultaneous commit+discard on one side is outside the domain. Trusts Amaranth's simulator.")
RULE = "Non-trivial: an actual rollback (discard of at least one pending operation) and at least one successful read afterwards."


def run(case, rec):
    from amlib.utils import TransactionalizedFIFO
    from ..sim import cached_dut, Dut
    w, depth, dom = case["width"], case["depth"], case["domain"]

    class D(Dut):
        pass

    def build():
        kw = {} if dom == "sync" else {"domain": dom}
        f = TransactionalizedFIFO(width=w, depth=depth, **kw)
        d = D(f)
        d.f = f
        return d
    d = cached_dut(("u06", w, depth, dom), build)
    f = d.f
    items = []
    W = Wc = R = Rc = 0
    rolled = reads_after = 0
    t = 0
    mask = (1 << w) - 1
    val = case["start"]
    for ops in case["ops"]:
        op, n = ops
        for _ in range(n):
            we, wc, wd = op & 1, (op >> 1) & 3 == 1, (op >> 1) & 3 == 2
            re, rc, rd = (op >> 3) & 1, (op >> 4) & 3 == 1, (op >> 4) & 3 == 2
            val = (val * 5 + 3 + t) & 0xffff
            data = (val ^ (val >> 7)) & mask
            for s, v in ((f.write_en, we), (f.write_commit, wc), (f.write_discard, wd), (f.read_en, re),
                         (f.read_commit, rc), (f.read_discard, rd), (f.write_data, data)):
                d.set(s, v)
            empty, full, space = R == Wc, W - Rc == depth, depth - (W - Rc)
            ctx = " at cycle {} (depth {})".format(t, depth)
            expect_eq(d.get(f.empty), int(empty), "empty" + ctx)
            expect_eq(d.get(f.full), int(full), "full" + ctx)
            expect_eq(d.get(f.space_available), space, "space_available" + ctx)
            if not empty:
                expect_eq(d.get(f.read_data), items[R], "head item" + ctx)
            # next state
            nW, nWc, nR, nRc = W, Wc, R, Rc
            if we and not full:
                items[W:] = [data]
                nW = W + 1
            if wc:
                nWc = W
            if wd:
                rolled += W > Wc
                nW = Wc
            if re and not empty:
                nR = R + 1
                reads_after += rolled > 0
            if rc:
                nRc = R
            if rd:
                rolled += R > Rc
                nR = Rc
            W, Wc, R, Rc = nW, nWc, nR, nRc
            if full:
                rec.label("full")
            d.tick(dom)
            t += 1
    if W > depth + 1:
        rec.label("pointer wrapped")
    rec.label("depth pow2-1" if (depth & (depth + 1)) == 0 else "depth odd")
    rec.nontrivial(rolled > 0 and reads_after > 0)


def strategy(tier):
    # op code: bit0 write_en, bits1-2 write none/commit/discard, bit3 read_en, bits4-5 read none/commit/discard
    side = st.sampled_from([0, 0, 1, 1, 2, 3, 3, 4, 5])     # en | (none/commit/discard) << 1
    anyop = st.tuples(side, side).map(lambda t: t[0] | t[1] << 3)
    step = st.one_of(
        st.tuples(anyop, st.integers(1, 2)),
        st.tuples(st.sampled_from([1, 3, 1 | 8 | 2, 1 | 8 | 16 | 2, 8, 8 | 16]), st.integers(1, 24)),
        st.tuples(st.sampled_from([2, 4, 16, 32, 4 | 8, 32 | 1]), st.just(1)),
    ).map(list)
    return st.fixed_dictionaries({
        "width": st.sampled_from([1, 4, 8, 16]), "depth": st.sampled_from([1, 2, 3, 4, 5, 7, 8, 12, 16, 20]),
        "domain": st.sampled_from(["sync", "sync", "usb"]), "start": st.integers(0, 65535),
        "ops": st.lists(step, min_size=1, max_size=40 if tier == "quick" else 90)})


CHECKS = [Check("queue_model", run, strategy, quick=36000, shards=8, rule="random phased operation histories")]
