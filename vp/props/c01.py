"""WishboneRAM, WishboneROM."""

import os
import tempfile

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import wide

ID = "C01"
TITLE = "Wishbone memories hold exactly what was initialised and written"
STATEMENT = (
    "For every size, data width and granularity, every read of a Wishbone RAM or ROM returns, in each byte lane, the value last written to that lane, or else its initial value; every access is acknowledged exactly once, only selected lanes of the addressed word are written, and a read-only memory ignores writes. "
    "Initial contents given as words, bytes of any kind or a file, read only at elaboration, appear at their addresses in the requested byte order, followed by zeros. "
    "A ROM honours its data width and granularity like a RAM does."
)
QUANTIFIER = {"over": ["histories", "inputs", "configurations"], "text": "widths, granularities, sizes, initialisers, access sequences with idle cycles and unrelated bus activity"}
WHY = "The memories have no test, and cannot even be imported by the existing suite here."
ANCHORS = {"files": ["amlib/soc/memory.py"],
           "mechanism": [{"name": "WishboneRAM, WishboneROM", "where": "amlib/soc/memory.py"}],
           "observe_at": ["bus"]}
TECHNIQUE = "model-based stateful testing over the bus, against a byte-array model"
LEVEL_NOTE = "Up to 64 words of 8-64 bits. amaranth-soc is not installed; its bus record and memory map are replaced by a stand-in. Trusts Amaranth's simulator."


def contents(case, n, width, lanes):
    """(initialiser kind, python value, expected words)"""
    kind, data = case["init"], case["data"]
    size = width // 8
    if kind == "none":
        return None, [0] * n
    if kind == "words":
        words = [x & ((1 << width) - 1) for x in data][:n]
        return words, words + [0] * (n - len(words))
    raw = b"".join((x & ((1 << 64) - 1)).to_bytes(8, "little") for x in data)
    raw = raw[:min(len(raw) - case["cut"] % 8 if len(raw) else 0, n * size)]
    if case["ends"] and raw:         # bytes that text processing would not leave alone
        raw = (bytes(case["ends"][:1]) + raw[1:-1] + bytes(case["ends"][1:]))[:len(raw)]
    full = raw.ljust(n * size, b"\0")
    words = [int.from_bytes(full[i * size:(i + 1) * size], case["order"]) for i in range(n)]
    return raw, words


def run(case, rec):
    from ..sim import Dut
    from ..wb import Master
    from amlib.soc.memory import WishboneRAM, WishboneROM
    width = case["width"]
    gran = min(case["gran"], width)
    lanes = width // gran
    local = case["local"]
    addr_width = local + (lanes - 1).bit_length()
    n = 1 << local
    value, words = contents(case, n, width, lanes)
    kind = case["kind"]
    expectations = dict(order=case["order"])
    with tempfile.TemporaryDirectory() as tmp:
        init = value
        if case["init"] == "bytearray":
            init = bytearray(value)
        elif case["init"] == "memoryview":
            init = memoryview(value)
        elif case["init"] == "file":
            init = os.path.join(tmp, "image.bin")
        kw = {}
        if width != 32 or case["explicit"]:
            kw["data_width"] = width
        if gran != 8 or case["explicit"]:
            kw["granularity"] = gran
        if kind == "rom":
            if case["order"] == "big" and isinstance(value, bytes):
                # the ROM has no byte order parameter: little-endian is the default everywhere
                words = contents(dict(case, order="little"), n, width, lanes)[1]
            u = WishboneROM(init if value is not None else [], addr_width=addr_width, **kw)
        else:
            if value is not None:
                kw["init"] = init
            if case["order"] == "big" or case["explicit"]:
                kw["byteorder"] = case["order"]
            if kind == "readonly":
                kw["read_only"] = True
            u = WishboneRAM(addr_width=addr_width, **kw)
        if case["init"] == "file":
            # only read at elaboration
            with open(init, "wb") as f:
                f.write(value)
        d = Dut(u)
    b = u.bus
    expect_eq((len(b.dat_r), len(b.dat_w), len(b.sel), len(b.adr)), (width, width, lanes, local), "widths of dat_r, dat_w, sel and adr")
    sizes = [(a, z) for r, name, (a, z) in b.memory_map.resources()]
    expect_eq(sizes, [(0, 1 << addr_width)], "address range in the memory map")
    expect_eq(b.memory_map.data_width, gran, "data width of the memory map")
    m = Master(d, b, what=kind)
    model = list(words)
    wrote = set()
    rereads = 0
    for op in case["ops"]:
        a = op["a"] % n
        if op["op"] == "idle":
            m.idle(1 + op["d"] % 4, junk=op["s"] % 3, adr=a, dat=op["d"])
        elif op["op"] == "read":
            v = m.access(a, 0, op["d"], op["s"] % (1 << lanes))
            for i in range(lanes):
                if op["s"] >> i & 1:
                    g = (1 << gran) - 1
                    expect_eq(v >> (i * gran) & g, model[a] >> (i * gran) & g, "{}: word {} lane {}".format(kind, a, i))
            rereads += a in wrote
        else:
            s = op["s"] % (1 << lanes)
            m.access(a, 1, op["d"] & ((1 << width) - 1), s)
            if kind == "ram":
                for i in range(lanes):
                    if s >> i & 1:
                        g = ((1 << gran) - 1) << (i * gran)
                        model[a] = model[a] & ~g | op["d"] & g
            wrote.add(a)
    m.idle(2)
    for a in (list(range(n)) if case["full"] or n <= 8 else sorted(wrote)):
        expect_eq(m.access(a, 0, 0, (1 << lanes) - 1), model[a], "{}: final contents of word {}".format(kind, a))
        rereads += a in wrote
    rec.nontrivial(rereads > 0 or (kind != "ram" and any(words)))
    rec.label(kind, "init " + case["init"], "{}/{}".format(width, gran))


def strategy(tier):
    op = st.fixed_dictionaries({"op": st.sampled_from(["write", "write", "read", "read", "idle"]), "a": st.one_of(st.integers(0, 63), st.integers(0, 3)),
                                "d": st.one_of(wide(64), st.sampled_from([0, 2**64 - 1])), "s": st.one_of(st.just(255), st.integers(0, 255))})
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["ram", "ram", "readonly", "rom"]), "width": st.sampled_from([32, 32, 8, 16, 64]), "gran": st.sampled_from([8, 8, 16, 32, 64]), "local": st.integers(1, 6),
        "init": st.sampled_from(["none", "words", "bytes", "bytearray", "memoryview", "file"]), "order": st.sampled_from(["little", "little", "big"]),
        "data": st.lists(wide(64), max_size=16), "cut": st.integers(0, 7), "ends": st.one_of(st.just([]), st.lists(st.sampled_from([0, 10, 13, 26, 32, 255]), min_size=2, max_size=2)), "explicit": st.booleans(), "full": st.booleans(), "ops": st.lists(op, max_size=24)})


CHECKS = [Check("memory", run, strategy, quick=9600, shards=8, rule="a written word is read back, or a non-zero read-only memory is read")]
