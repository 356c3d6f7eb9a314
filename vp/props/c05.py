"""SimpleSoC."""

import io
import os
import re
import subprocess
import tempfile

from hypothesis import strategies as st
from ..core import Check, expect, expect_eq, Violation
from ..util import wide

ID = "C05"
TITLE = "The SoC's C header and linker script describe the hardware that is built"
STATEMENT = (
    "For every set of memories and peripherals added to a SoC, the generated C header and linker script and the resource listing name every register and memory exactly once, with the address and size at which the processor's data bus really reaches it. "
    "The header compiles, its read and write functions access exactly that register and exist exactly for readable and writable ones of a size that C can access, and its interrupt functions use the bit at which that peripheral's interrupt reaches the processor. "
    "Both processor buses reach the memories, and the linker script's main ROM and RAM are the main memories of the SoC."
)
QUANTIFIER = {"over": ["configurations", "inputs"], "text": "memories, sizes, peripherals, registers, access modes, explicit and implicit addresses, interrupts"}
WHY = "The SoC helper has no test, and cannot even be imported by the existing suite here."
ANCHORS = {"files": ["amlib/soc/simplesoc.py", "amlib/soc/peripheral.py", "amlib/soc/memory.py"],
           "mechanism": [{"name": "SimpleSoC", "where": "amlib/soc/simplesoc.py"}],
           "observe_at": ["generate_c_header", "generate_ld_script", "resources", "processor buses", "interrupt lines"]}
TECHNIQUE = "differential property testing: the compiled header's behaviour against the simulated hardware's"
LEVEL_NOTE = "Up to 4 peripherals with up to 4 registers of 1-100 bits, aligned to 1-8 bytes. amaranth-soc, lambdasoc and Minerva are not installed; functional stand-ins replace them (the processor is replaced by bus accesses), so the BIOS, the debug port and the processor itself are not covered. The header is compiled with gcc."

C = r"""
#include <stdio.h>
#include <sys/mman.h>
#include <string.h>
#include <stdint.h>
static uint32_t csr_330, csr_360, csr_mstatus;
static uint32_t *csr_of(const char *n) { return !strcmp(n, "0x330") ? &csr_330 : !strcmp(n, "0x360") ? &csr_360 : &csr_mstatus; }
#define read_csr(reg) (*csr_of(#reg))
#define write_csr(reg, val) (*csr_of(#reg) = (val))
#define set_csr(reg, bit) (*csr_of(#reg) |= (bit))
#define clear_csr(reg, bit) (*csr_of(#reg) &= ~(bit))
#include "soc.h"
#include "soc.h"
static unsigned char *mem = (unsigned char *)BASE;
static void clear(void) { memset(mem, 0, SIZE); }
static void show(const char *n) { printf("w %s", n); for (uint32_t i = 0; i < SIZE; i++) if (mem[i]) printf(" %x:%x", BASE + i, mem[i]); printf("\n"); clear(); }
int main(void) {
    if (mmap(mem, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != mem) { printf("no memory\n"); return 3; }
@BODY@
    return 0;
}
"""
BASE, SPACE = 0x40000000, 0x100000


def run(case, rec):
    from amaranth import Module, Elaboratable, Signal
    from ..sim import Dut
    from ..wb import Master
    from amlib.soc.simplesoc import SimpleSoC
    from amlib.soc.peripheral import Peripheral
    from amlib.soc.memory import WishboneRAM

    class Dev(Peripheral, Elaboratable):
        def __init__(self, name, regs, event, align):
            super().__init__(name=name)
            bank = self.csr_bank()
            self.regs = [(bank.csr(w, acc, name="r{}".format(i)), w, acc, "{}_r{}".format(name, i)) for i, (w, acc) in enumerate(regs)]
            self.ev = self.event(mode="level", name="e") if event else None
            self._bridge = self.bridge(data_width=32, granularity=8, alignment=align)
            self.bus = self._bridge.bus
            if event:
                self.irq = self._bridge.irq

        def elaborate(self, platform):
            m = Module()
            m.submodules.bridge = self._bridge
            return m

    soc = SimpleSoC(**({"clock_frequency": 50000000} if case["freq"] else {}))
    mems = {}           # name -> (size, initial words, writable)
    rom = ram = None
    if case["rom"]:
        data = bytes(case["data"])
        rom = soc.add_rom(data, case["rom"])
        mems["rom"] = (1 << (case["rom"] - 1).bit_length(), data)
    nextaddr = BASE
    if case["ram"]:
        a = 0x20000000 if case["ram_addr"] else None
        ram = soc.add_ram(case["ram"], **({"addr": a} if a is not None else {}))
        mems["ram"] = (1 << (case["ram"] - 1).bit_length(), None)
    if case["extra"]:
        x = WishboneRAM(addr_width=6, name="extra")
        expect(soc.add_peripheral(x, addr=0x30000000) is x, "add_peripheral returns something else")
        mems["extra"] = (64, None)
    devs = []
    tail = []
    for i, dv in enumerate(case["devs"]):
        p = Dev("dev{}".format(i), dv["regs"], dv["event"], dv["align"])
        kw = {}
        if dv["addr"] or i == 0:
            kw["addr"] = nextaddr = nextaddr + 0x10000
        if not dv["sub"]:
            kw["as_submodule"] = False
            tail.append(p)
        expect(soc.add_peripheral(p, **kw) is p, "add_peripheral returns something else")
        devs.append(p)
    header, script = io.StringIO(), io.StringIO()
    kw = {"macro_name": "MY_SOC"} if case["freq"] else {}
    soc.generate_c_header(file=header, platform_name="test", **kw)
    soc.generate_ld_script(file=script)
    header, script = header.getvalue(), script.getvalue()
    defs = re.findall(r"^\s*#\s*define\s+(\w+)_(ADDRESS|SIZE)\s+\(?\s*(0x[0-9a-fA-F]+|\d+)[uUlL]*\s*\)?\s*$", header, re.M)
    expect_eq(len(defs), len({(n, k) for n, k, v in defs}), "definitions of addresses and sizes, and different names among them")
    addr = {n.lower(): int(v, 0) for n, k, v in defs if k == "ADDRESS"}
    size = {n.lower(): int(v, 0) for n, k, v in defs if k == "SIZE"}
    regs = {}           # name -> (element, width, access)
    for p in devs:
        for e, w, acc, name in p.regs:
            regs[name] = (e, w, acc)
        if p.ev is not None:
            n = 1
            for r, acc in (("status", "r"), ("pending", "rw"), ("enable", "rw")):
                regs["{}_ev_{}".format(p.name, r)] = (None, 1, acc)
    expect_eq(set(addr), set(regs) | set(mems), "names with an address in the header")
    expect_eq(set(size), set(addr), "names with a size in the header")
    expect_eq("#ifndef __{}_H__".format(kw.get("macro_name", "SOC_RESOURCES")) in header, True, "include guard")
    spans = sorted((addr[n], addr[n] + size[n], n) for n in addr)
    for (a, b, n), (a2, b2, n2) in zip(spans, spans[1:]):
        expect(b <= a2, "{} and {} overlap".format(n, n2))
    for n in regs:
        expect(size[n] * 8 >= regs[n][1], "size {} of the {} bit register {}".format(size[n], regs[n][1], n))
        expect(BASE <= addr[n] < BASE + SPACE, "address {:#x} of {}".format(addr[n], n))
    for n, (z, _) in mems.items():
        expect_eq(size[n], z, "size of " + n)
    listing = {}
    for r, a, z in soc.resources():
        listing["_".join(r.name)] = (a, z)
    expect_eq(listing, {n: (addr[n], size[n]) for n in addr}, "resource listing")
    got = {n: (int(o, 0), int(z, 0)) for n, o, z in re.findall(r"(\w+)\s*:\s*ORIGIN\s*=\s*(\w+)\s*,\s*LENGTH\s*=\s*(\w+)", script)}
    expect_eq(got, {n: (addr[n], size[n]) for n, o in (("rom", rom), ("ram", ram)) if o is not None}, "memories in the linker script")
    if ram is not None:
        expect_eq(soc.main_ram_address(), addr["ram"], "main RAM address")

    # the header's functions, executed on plain memory
    body, want = [], []
    vals = case["values"]
    funcs = set(re.findall(r"\b(\w+)_(?:read|write)\s*\(", header))
    typed = {n for n in regs if size[n] in (1, 2, 4, 8)}
    expect_eq(funcs, typed, "registers with access functions")
    def value(i, w):
        v = vals[i % len(vals)] & 0xffffffff
        return (v | vals[(i + 2) % len(vals)] << 32 | v << 61) & ((1 << w) - 1)
    for i, n in enumerate(sorted(typed)):
        e, w, acc = regs[n]
        v = value(i, w)
        bytes_ = v.to_bytes(8, "little")[:size[n]]
        expect_eq(bool(re.search(r"\b{}_read\s*\(".format(n), header)), "r" in acc, "read function of {}".format(n))
        expect_eq(bool(re.search(r"\b{}_write\s*\(".format(n), header)), "w" in acc, "write function of {}".format(n))
        if "w" in acc:
            body.append('    {0}_write(0x{1:x}ull); show("{0}");'.format(n, v))
            want.append("w {}".format(n) + "".join(" {:x}:{:x}".format(addr[n] + j, b) for j, b in enumerate(bytes_) if b))
        if "r" in acc:
            body.append("    " + "".join("mem[0x{:x}] = 0x{:x}; ".format(addr[n] - BASE + j, b) for j, b in enumerate(bytes_)) +
                        'printf("r {0} %llx\\n", (unsigned long long){0}_read()); clear();'.format(n))
            want.append("r {} {:x}".format(n, v))
    body.append('    irq_setmask(0); csr_330 = 0;')
    irqs = [p for p in devs if p.ev is not None]
    for p in irqs:
        body.append('    {0}_interrupt_enable(); printf("e {0} %x\\n", csr_330); csr_330 = ~0u; {0}_interrupt_disable(); printf("d {0} %x\\n", ~csr_330); '
                    '{0}_interrupt_disable(); printf("d {0} %x\\n", ~csr_330); {0}_interrupt_enable(); printf("E {0} %x\\n", ~csr_330); {0}_interrupt_enable(); printf("E {0} %x\\n", ~csr_330); csr_330 = 0;'.format(p.name))
        body.append('    for (int i = 0; i < 32; i++) {{ csr_360 = 1u << i; if ({0}_interrupt_pending()) printf("p {0} %d\\n", i); }}'.format(p.name))
    body.append('    csr_mstatus = 0xffffffff; irq_setie(0); printf("m %x %x\\n", csr_mstatus, irq_getie()); irq_setie(1); printf("m %x %x\\n", csr_mstatus, irq_getie());')
    body.append('    irq_setmask(0x1234); printf("k %x %x\\n", csr_330, irq_getmask()); csr_360 = 0x55; printf("k %x\\n", pending_irqs());')
    with tempfile.TemporaryDirectory() as tmp:
        with open(os.path.join(tmp, "soc.h"), "w") as f:
            f.write(header)
        with open(os.path.join(tmp, "t.c"), "w") as f:
            f.write("#define BASE 0x{:x}u\n#define SIZE 0x{:x}u\n".format(BASE, SPACE) + C.replace("@BODY@", "\n".join(body)))
        r = subprocess.run(["gcc", "-w", "-O0", "-o", "t", "t.c"], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        expect_eq(r.returncode, 0, "the header does not compile: " + r.stdout[:600])
        r = subprocess.run([os.path.join(tmp, "t")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
        lines = r.stdout.strip().split("\n")
        if r.returncode == 3:
            raise RuntimeError("cannot map the test memory")
        expect_eq(r.returncode, 0, "running the header's functions: " + r.stdout[-300:])
    head = lines[:len(want)]
    for g, x in zip(head, want):
        expect_eq(g, x, "effect of the header's function")
    rest = lines[len(want):]
    index = {}
    for p in irqs:
        mine = [l for l in rest if l.split()[0] in "edpE" and l.split()[1] == p.name]
        pend = [int(l.split()[2]) for l in mine if l[0] == "p"]
        expect_eq(len(pend), 1, "interrupt bits tested by {}_interrupt_pending".format(p.name))
        index[p.name] = pend[0]
        expect_eq([l for l in mine if l[0] != "p"], ["{} {} {:x}".format(k, p.name, 0 if k == "E" else 1 << pend[0]) for k in "eddEE"], "bits set and cleared by {}_interrupt_enable and _disable".format(p.name))
    expect_eq(len(set(index.values())), len(index), "different interrupt bits")
    expect_eq(rest[-4:], ["m fffffff7 0", "m ffffffff 1", "k 1234 1234", "k 55"], "interrupt mask functions")

    # the hardware
    top = Module()
    top.submodules.soc = soc
    for i, p in enumerate(tail):
        top.submodules["p{}".format(i)] = p
    top.d.sync += Signal(name="unused").eq(1)
    d = Dut(top)
    strobes = []

    def tick():
        for n, (e, w, acc) in regs.items():
            if e is not None:
                if "r" in acc and d.get(e.r_stb):
                    strobes.append(("r", n))
                if "w" in acc and d.get(e.w_stb):
                    strobes.append(("w", n, d.get(e.w_data)))
        d.tick()
    data, inst = Master(d, soc.cpu.dbus, tick=tick, limit=80), Master(d, soc.cpu.ibus, tick=tick, limit=80)

    def chunks(a, z):
        while z:
            k = min(z, 4 - a % 4)
            yield a, k
            a, z = a + k, z - k

    def rd(a, z=4, m=data):
        return sum(rd1(b, k, m) << 8 * (b - a) for b, k in chunks(a, z))

    def wr(a, v, z=4):
        for b, k in chunks(a, z):
            wr1(b, v >> 8 * (b - a) & (1 << 8 * k) - 1, k)

    def rd1(a, z, m):
        sh = 8 * (a % 4)
        return m.access(a >> 2, 0, 0, ((1 << z) - 1) << (a % 4)) >> sh & ((1 << 8 * z) - 1)

    def wr1(a, v, z):
        data.access(a >> 2, 1, v << 8 * (a % 4), ((1 << z) - 1) << (a % 4))
    for i, n in enumerate(sorted(regs)):
        e, w, acc = regs[n]
        v = value(i + 1, w)
        if e is None:
            continue
        strobes.clear()
        if "w" in acc:
            wr(addr[n], v, size[n])
            data.idle(2)
            expect_eq(strobes, [("w", n, v)], "effect of a write to {} at {:#x}".format(n, addr[n]))
            strobes.clear()
        if "r" in acc:
            d.set(e.r_data, v)
            expect_eq(rd(addr[n], size[n]), v, "{} read at {:#x}".format(n, addr[n]))
            expect_eq(strobes, [("r", n)], "effect of a read of {} at {:#x}".format(n, addr[n]))
    for n, (z, init) in mems.items():
        last = (z - 1) & ~3
        if init is not None:
            full = init.ljust(z, b"\0")
            for m in (data, inst):
                for a in {0, last, (len(init) - 1) & ~3 if init else 0}:
                    expect_eq(rd(addr[n] + a, m=m), int.from_bytes(full[a:a + 4], "little"), "{} at {:#x}".format(n, addr[n] + a))
        else:
            for k, a in enumerate(sorted({0, last})):
                wr(addr[n] + a, vals[k % len(vals)] ^ 0x5a5a + k)
            for k, a in enumerate(sorted({0, last})):
                for m in (data, inst):
                    expect_eq(rd(addr[n] + a, m=m), vals[k % len(vals)] ^ 0x5a5a + k, "{} at {:#x}".format(n, addr[n] + a))
    for p in irqs:
        wr(addr[p.name + "_ev_enable"], 1, size[p.name + "_ev_enable"])
        data.idle(1)
        expect_eq(d.get(soc.cpu.ip), 0, "interrupts before any event")
        d.set(p.ev.stb, 1)
        data.idle(2)
        expect_eq(d.get(soc.cpu.ip), 1 << index[p.name], "interrupts at the processor with {} active".format(p.name))
        expect_eq(rd(addr[p.name + "_ev_status"], size[p.name + "_ev_status"]) & 1, 1, "event status of {}".format(p.name))
        d.set(p.ev.stb, 0)
        data.idle(1)
        wr(addr[p.name + "_ev_pending"], 1, size[p.name + "_ev_pending"])
        data.idle(2)
        expect_eq(d.get(soc.cpu.ip), 0, "interrupts after clearing")
    rec.nontrivial(len(devs) > 1 and bool(mems))
    rec.label("{} peripherals".format(len(devs)), "{} interrupts".format(len(irqs)), *mems)


def strategy(tier):
    reg = st.tuples(st.one_of(st.sampled_from([1, 8, 32, 64]), st.integers(1, 32), st.integers(1, 32), st.integers(33, 100)), st.sampled_from(["r", "w", "rw"])).map(list)
    dev = st.fixed_dictionaries({"regs": st.lists(reg, min_size=1, max_size=4), "event": st.booleans(), "addr": st.booleans(), "align": st.sampled_from([0, 1, 2, 2, 2, 3]), "sub": st.sampled_from([True, True, True, False])})
    return st.fixed_dictionaries({"rom": st.sampled_from([0, 64, 100, 256]), "ram": st.sampled_from([0, 8, 64, 100, 1024]), "ram_addr": st.booleans(), "extra": st.booleans(), "freq": st.booleans(),
                                  "data": st.lists(st.integers(0, 255), max_size=64), "devs": st.one_of(*[st.lists(dev, max_size=4)] * 5, st.lists(dev, min_size=3, max_size=7), st.integers(17, 32).map(
                                      lambda n: [{"regs": [[8, "rw"]], "event": True, "addr": False, "align": 2, "sub": True}] * n)), "values": st.lists(wide(32), min_size=1, max_size=8)})


def run_main(case, rec):
    """several memories, of which the first of each kind declared main is the main one"""
    from ..sim import Dut
    from ..wb import Master
    from amaranth import Module, Signal
    from amlib.soc.simplesoc import SimpleSoC
    soc = SimpleSoC()
    addr, main, parts = 0, {"rom": None, "ram": None}, []
    for i, (kind, is_main, size) in enumerate(case["mems"]):
        kw = {} if is_main == 2 else {"is_main_rom" if kind == "rom" else "is_main_mem": bool(is_main)}
        if kind == "rom":
            p = soc.add_rom(bytes([i + 1, 2, 3, 4]), size, addr=addr, **kw)
        else:
            p = soc.add_ram(size, addr, **kw)
        total = 1 << (size - 1).bit_length()
        if is_main and main[kind] is None:
            main[kind] = (addr, total)
        parts.append((kind, addr, total))
        addr += 0x1000 * (1 + i % 2)
    script = io.StringIO()
    soc.generate_ld_script(file=script)
    got = {n: (int(o, 0), int(z, 0)) for n, o, z in re.findall(r"(\w+)\s*:\s*ORIGIN\s*=\s*(\w+)\s*,\s*LENGTH\s*=\s*(\w+)", script.getvalue())}
    expect_eq(got, {k: v for k, v in main.items() if v}, "main memories in the linker script")
    expect_eq(soc.main_ram_address(), main["ram"] and main["ram"][0], "address of the main RAM")
    expect_eq(sorted((a, z) for _, a, z in soc.resources()), sorted((a, z) for _, a, z in parts), "resource listing")
    top = Module()
    top.submodules.soc = soc
    top.d.sync += Signal(name="unused").eq(1)
    d = Dut(top)
    m = Master(d, soc.cpu.dbus, tick=d.tick, limit=80)
    for i, (kind, a, z) in enumerate(parts):
        if kind == "ram":
            m.access(a + z - 4 >> 2, 1, 0x1000 + i, 15)
    for i, (kind, a, z) in enumerate(parts):
        want = 0x04030201 + i if kind == "rom" else 0x1000 + i
        expect_eq(m.access((a if kind == "rom" else a + z - 4) >> 2, 0, 0, 15), want, "contents of memory {}".format(i))
    rec.nontrivial(len(parts) > 1)
    rec.label(*{k for k, v in main.items() if v})


def main_strategy(tier):
    mem = st.tuples(st.sampled_from(["rom", "ram"]), st.sampled_from([0, 1, 2]), st.sampled_from([8, 16, 60, 100, 256, 1024])).map(list)
    return st.fixed_dictionaries({"mems": st.lists(mem, min_size=1, max_size=6)})


CHECKS = [Check("main", run_main, main_strategy, quick=400, shards=4, rule="several memories"),
          Check("soc", run, strategy, quick=240, shards=8, rule="several peripherals and a memory")]
