"""Peripheral, CSRBank, PeripheralBridge."""

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import wide

ID = "C04"
TITLE = "A peripheral's bridge makes every register, window and event reachable"
STATEMENT = (
    "For every peripheral - any banks of registers, windows and events, with any requested addresses and alignments - each register lies in the bus's memory map exactly once, at the requested address and alignment and else after the preceding ones, under the peripheral's name, and a bus access to it reads or writes exactly that register, with its full width, and no other. "
    "Accesses to a window appear on that window with their offset, and its answers return to the bus. "
    "If there are events, their status, pending and enable registers are on the bus as well and the interrupt line follows them."
)
QUANTIFIER = {"over": ["configurations", "inputs", "histories"], "text": "register widths, access modes, addresses, alignments, bank and window counts, event modes, access sequences"}
WHY = "The bridge has no test, and cannot even be imported by the existing suite here."
ANCHORS = {"files": ["amlib/soc/peripheral.py", "amlib/soc/event.py"],
           "mechanism": [{"name": "Peripheral, CSRBank, PeripheralBridge", "where": "amlib/soc/peripheral.py"}],
           "observe_at": ["bus", "irq", "memory map", "register elements", "windows"]}
TECHNIQUE = "property-based testing of generated peripherals through the bus"
LEVEL_NOTE = "Up to 3 banks of 4 registers of 1-40 bits, 2 windows, 4 events; bus widths 8-32 with byte granularity. amaranth-soc and lambdasoc are not installed; functional stand-ins replace them, so the library's own decoding is assumed correct. Trusts Amaranth's simulator."


def run(case, rec):
    from amaranth import Module, Signal
    from ..sim import Dut
    from ..wb import Master
    from amlib.soc.peripheral import Peripheral
    from amaranth_soc import wishbone
    width, align = case["width"], case["align"]
    lanes = width // 8
    lbits = (lanes - 1).bit_length()
    p = Peripheral(name="dev") if case["named"] else type("P", (Peripheral,), {})(name="dev")
    for attr in ("bus", "irq"):
        try:
            getattr(p, attr)
        except NotImplementedError:
            pass
        else:
            raise Violation("a peripheral has a {} before it gets one".format(attr))
    regs = []            # (element, bank, width, access, addr, alignment)
    base = 0
    for i, b in enumerate(case["banks"]):
        kw = {}
        if b["addr"] and i:
            base += 0x400
            kw["addr"] = base
        if b["align"] is not None:
            kw["alignment"] = b["align"]
        bank = p.csr_bank(**kw)
        at = 0
        for j, (w, acc, addr, al) in enumerate(b["regs"]):
            kr = {}
            if addr and j:
                at += 0x20
                kr["addr"] = at
            if al is not None:
                kr["alignment"] = al
            e = bank.csr(w, acc, name="r{}_{}".format(i, j), **kr)
            regs.append((e, i, w, acc, kr.get("addr"), max(al if al is not None else align, b["align"] if b["align"] is not None else align)))
    windows = []
    for i, (aw, addr) in enumerate(case["windows"]):
        kw = {}
        if addr:
            base += 0x1000
            base = -(-base // 0x1000) * 0x1000
            kw["addr"] = base
        windows.append((p.window(addr_width=aw, data_width=width, granularity=8, **kw), aw, kw.get("addr")))
    events = [p.event(mode=m, name="ev{}".format(i)) for i, m in enumerate(case["events"])]
    bridge = p.bridge(data_width=width, granularity=8, alignment=align)
    p.bus = bridge.bus
    if events:
        p.irq = bridge.irq
        expect(p.irq is bridge.irq, "irq of the peripheral")
    else:
        expect_eq(bridge.irq, None, "interrupt line without events")
    expect(p.bus is bridge.bus, "bus of the peripheral")
    expect(isinstance(p.bus, wishbone.Interface), "bus is no Wishbone interface")
    expect_eq((len(p.bus.dat_r), len(p.bus.sel)), (width, lanes), "bus width")
    expect_eq([x for x in p.iter_events()], events, "iter_events")
    top = Module()
    top.submodules.bridge = bridge
    top.d.sync += Signal(name="unused").eq(1)
    d = Dut(top)

    # windows of every shape, of a peripheral without a bridge
    other = Peripheral(name="other")
    for aw, dw, gr, al in case["shapes"]:
        gr = min(gr, dw) if gr else None
        kw = {} if al is None else {"alignment": al}
        w = other.window(addr_width=aw, data_width=dw, **kw, **({"granularity": gr} if gr else {}))
        gr = gr or dw
        expect_eq((len(w.adr), len(w.dat_r), len(w.sel)), (aw, dw, dw // gr), "address, data and select width of a window")
        mm = w.memory_map
        expect_eq((1 << mm.addr_width, mm.data_width), ((1 << aw) * (dw // gr), gr), "size and unit of the memory map of a window of {} words of {} bits, granularity {}".format(1 << aw, dw, gr))
        expect_eq(mm.alignment, al or 0, "alignment of the memory map of a window")

    # address map
    found = {}
    used = []
    for r in p.bus.memory_map.all_resources():
        expect(id(r.resource) not in found, "{} is mapped twice", r.name)
        found[id(r.resource)] = r
        used.append((r.start, r.end, r.name))
    used.sort()
    for (a, b, n), (a2, b2, n2) in zip(used, used[1:]):
        expect(b <= a2, "{} and {} overlap".format(n, n2))
    starts = {}
    prev = {}
    for k, (e, i, w, acc, addr, al) in enumerate(regs):
        expect(id(e) in found, "register {} is not in the memory map".format(k))
        r = found[id(e)]
        expect_eq(r.name[-1], "dev_r{}_{}".format(i, sum(x[1] == i for x in regs[:k])), "register name")
        starts.setdefault(i, r.start)
        expect_eq(r.start % (1 << al), 0, "address {:#x} modulo alignment {}".format(r.start, 1 << al))
        expect(r.end - r.start >= -(-w // 8), "size of register {}".format(k))
        if addr is not None:
            expect_eq(r.start - starts[i], addr, "requested address of register {} in its bank".format(k))
        elif i in prev:
            expect(prev[i] <= r.start < prev[i] + (1 << al), "register {} at {:#x} does not follow the one before, which ends at {:#x}".format(k, r.start, prev[i]))
        prev[i] = r.end
    bases = 0
    for i, b in enumerate(case["banks"]):
        if b["addr"] and i:
            bases += 0x400
            if i in starts:
                expect_eq(starts[i], bases, "requested address of bank {}".format(i))
    src = {}
    if events:
        for r in p.bus.memory_map.all_resources():
            for name in ("status", "pending", "enable"):
                if r.name[-1] == "dev_ev_" + name:
                    src[name] = r
        expect_eq(set(src), {"status", "pending", "enable"}, "event registers on the bus")
        for n in src:
            expect_eq(src[n].resource.width, len(events), "width of " + n)
    expect_eq(len(found), len(regs) + len(src), "registers in the memory map")
    wins = {id(w): (a, b) for sub, (a, b, ratio) in p.bus.memory_map.windows() for w, aw, addr in windows if w.memory_map is sub}
    for k, (w, aw, addr) in enumerate(windows):
        expect(id(w) in wins, "window {} is not on the bus".format(k))
        a, b = wins[id(w)]
        expect(0 <= b - a - (1 << (aw + lbits)) < 1 << align, "window {} has {} addresses".format(k, b - a))
        if addr is not None:
            expect_eq(a, addr, "requested address of window {}".format(k))

    # behaviour
    strobes = []
    answer = [0]
    everything = [(("reg", k), e) for k, (e, *_) in enumerate(regs)] + [((n,), src[n].resource) for n in src]

    def tick():
        for k, e in everything:
            for s in ("r_stb", "w_stb"):
                if s in e.fields and d.get(e[s]):
                    strobes.append((k, s[0], d.get(e.w_data) if s == "w_stb" else None))
        seen = 0
        for k, (w, aw, addr) in enumerate(windows):
            d.set(w.dat_r, 0)
            d.set(w.ack, 0)
        for k, (w, aw, addr) in enumerate(windows):
            if d.get(w.cyc) and d.get(w.stb):
                seen += 1
                if answer[0] is not None:
                    strobes.append((("window", k), d.get(w.adr), d.get(w.we), d.get(w.dat_w), d.get(w.sel)))
                    answer[0] = None
        d.tick()
    m = Master(d, p.bus, tick=tick, limit=60)
    word = (1 << width) - 1

    def access(start, nbytes, we, v):
        """little-endian access to consecutive byte addresses, in bus words from the lowest"""
        out, i = 0, 0
        while i < nbytes:
            off = (start + i) % lanes
            n = min(lanes - off, nbytes - i)
            x = m.access((start + i) >> lbits, we, (v >> (8 * i) << (8 * off)) & word, ((1 << n) - 1) << off)
            out |= (x >> (8 * off) & ((1 << 8 * n) - 1)) << (8 * i)
            i += n
        return out
    values = {}
    n_ev = 0
    pend = 0
    for op in case["ops"]:
        kind, x = op["op"], op["x"]
        if kind == "reg" and regs:
            k = op["k"] % len(regs)
            e, i, w, acc, addr, al = regs[k]
            r = found[id(e)]
            nb = -(-w // 8)
            strobes.clear()
            if op["we"] and "w" in acc:
                v = x & ((1 << w) - 1)
                access(r.start, nb, 1, v)
                m.idle(2)
                expect_eq(strobes, [(("reg", k), "w", v)], "effect of writing {:#x} to register {}".format(v, k))
            elif not op["we"] and "r" in acc:
                v = x >> 3 & ((1 << w) - 1)
                d.set(e.r_data, v)
                expect_eq(access(r.start, nb, 0, 0), v, "value read from register {}".format(k))
                m.idle(1)
                expect_eq(strobes, [(("reg", k), "r", None)], "effect of reading register {}".format(k))
        elif kind == "window" and windows:
            k = op["k"] % len(windows)
            w, aw, addr = windows[k]
            a, b = wins[id(w)]
            off = x % (1 << aw)
            strobes.clear()
            answer[0] = 0
            we, dat, sel = op["we"], x >> 2 & word, 1 + (x >> 7) % ((1 << lanes) - 1)
            bus = p.bus
            d.set(bus.cyc, 1)
            d.set(bus.stb, 1)
            d.set(bus.we, we)
            d.set(bus.adr, (a >> lbits) + off)
            d.set(bus.dat_w, dat)
            d.set(bus.sel, sel)
            tick()
            expect_eq(strobes, [(("window", k), off, we, dat, sel)], "access to window {}".format(k))
            for i in range(op["k"] % 3):
                expect_eq(d.get(bus.ack), 0, "acknowledge before the window's")
                tick()
            d.set(w.ack, 1)
            d.set(w.dat_r, x >> 5 & word)
            for j, (o, _, _) in enumerate(windows):
                if j != k:
                    d.set(o.dat_r, ~x & word)
            expect_eq((d.get(bus.ack), d.get(bus.dat_r)), (1, x >> 5 & word), "acknowledge and data of window {}".format(k))
            d.tick()
            d.set(bus.cyc, 0)
            d.set(bus.stb, 0)
            tick()
        elif kind == "event" and events:
            n = len(events)
            en = x & ((1 << n) - 1)
            nb = -(-n // 8)
            for e in events:
                d.set(e.stb, 0)
            m.idle(2)
            access(src["enable"].start, nb, 1, en)
            access(src["pending"].start, nb, 1, (1 << n) - 1)
            m.idle(2)
            expect_eq(access(src["pending"].start, nb, 0, 0), 0, "pending after clearing")
            expect_eq(access(src["enable"].start, nb, 0, 0), en, "enable register")
            expect_eq(d.get(bridge.irq), 0, "interrupt with nothing pending")
            k = op["k"] % n
            d.set(events[k].stb, 1)
            m.idle(2)
            on = access(src["status"].start, nb, 0, 0)
            expect_eq(on, 1 << k, "status with event {} active".format(k))
            d.set(events[k].stb, 0)
            m.idle(2)
            expect_eq(access(src["pending"].start, nb, 0, 0), 1 << k, "pending after event {}".format(k))
            expect_eq(d.get(bridge.irq), en >> k & 1, "interrupt after event {}, enabled {:#x}".format(k, en))
            n_ev += 1
    rec.nontrivial(len(regs) > 1 and len(case["ops"]) > 2)
    rec.label("{} bit".format(width), *(x for x, c in (("windows", windows), ("events", n_ev), ("several banks", len(case["banks"]) > 1)) if c))


def strategy(tier):
    reg = st.tuples(st.one_of(st.integers(1, 8), st.integers(1, 40)), st.sampled_from(["r", "w", "rw"]), st.booleans(), st.sampled_from([None, None, 0, 1, 3])).map(list)
    bank = st.fixed_dictionaries({"addr": st.booleans(), "align": st.sampled_from([None, None, 0, 1, 2, 3]), "regs": st.lists(reg, min_size=1, max_size=4)})
    op = st.fixed_dictionaries({"op": st.sampled_from(["reg", "reg", "reg", "window", "event"]), "k": st.integers(0, 20), "we": st.integers(0, 1), "x": wide(64)})
    return st.fixed_dictionaries({"width": st.sampled_from([32, 32, 16, 8]), "align": st.sampled_from([0, 1, 2, 2, 3]), "named": st.booleans(), "banks": st.lists(bank, max_size=3),
                                  "shapes": st.lists(st.tuples(st.integers(1, 12), st.sampled_from([8, 16, 32, 64]), st.sampled_from([None, 8, 16, 32, 64]), st.sampled_from([None, 0, 1, 2])).map(list), max_size=2),
                                  "windows": st.lists(st.tuples(st.integers(1, 6), st.booleans()).map(list), max_size=2),
                                  "events": st.lists(st.sampled_from(["level", "rise", "fall"]), max_size=4), "ops": st.lists(op, min_size=1, max_size=16)})


CHECKS = [Check("bridge", run, strategy, quick=4000, shards=8, rule="several registers, several accesses")]
