"""Tiny stand-alone test bench for sentinel.top.Top in Amaranth's own simulator.

A Wishbone slave with per-access acknowledge delays, a scripted irq/reset/clock
enable, and junk on the bus outside acknowledged reads.
"""
import sys, types, os
sys.dont_write_bytecode = True
try:
    import amaranth_soc  # noqa: F401
except ImportError:                       # minimal stand-in: the real one is not installed here
    from amaranth.lib import wiring
    from amaranth.lib.wiring import In, Out

    class Signature(wiring.Signature):
        def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset()):
            g = granularity or data_width
            self.a = (addr_width, data_width, g)
            super().__init__({"adr": Out(addr_width), "dat_w": Out(data_width), "dat_r": In(data_width),
                              "sel": Out(data_width // g), "cyc": Out(1), "stb": Out(1), "we": Out(1), "ack": In(1)})

        def create(self, *, path=None, src_loc_at=0):
            return wiring.PureInterface(self, path=path)

        def __eq__(self, o):
            return isinstance(o, Signature) and self.a == o.a
    soc, wb = types.ModuleType("amaranth_soc"), types.ModuleType("amaranth_soc.wishbone")
    wb.Signature = Signature
    soc.wishbone = wb
    sys.modules.update({"amaranth_soc": soc, "amaranth_soc.wishbone": wb})

import warnings
warnings.simplefilter("ignore")
from amaranth.hdl import EnableInserter, Module, ResetInserter, Signal  # noqa: E402
from amaranth.lib.wiring import Component, In, connect, flipped  # noqa: E402
from amaranth.sim import Simulator  # noqa: E402
from sentinel.top import Top  # noqa: E402

NOP = 0x13
MSTATUS, MIE, MTVEC, MSCRATCH, MEPC, MCAUSE, MIP = 0x300, 0x304, 0x305, 0x340, 0x341, 0x342, 0x344


def R(f7, f3, rd, rs1, rs2, op=0x33): return f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op
def I(f3, rd, rs1, imm, op=0x13): return (imm & 0xfff) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op
def addi(rd, rs1, imm): return I(0, rd, rs1, imm)
def add(rd, a, b): return R(0, 0, rd, a, b)
def sub(rd, a, b): return R(0x20, 0, rd, a, b)
def lui(rd, v): return (v & 0xfffff) << 12 | rd << 7 | 0x37
def load(f3, rd, rs1, imm): return I(f3, rd, rs1, imm, 0x03)
def lw(rd, rs1, imm): return load(2, rd, rs1, imm)
def store(f3, rs2, rs1, imm): return (imm >> 5 & 0x7f) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (imm & 31) << 7 | 0x23
def sw(rs2, rs1, imm): return store(2, rs2, rs1, imm)
def csr(f3, rd, adr, src): return adr << 20 | src << 15 | f3 << 12 | rd << 7 | 0x73
def csrw(adr, rs): return csr(1, 0, adr, rs)
def csrr(rd, adr): return csr(2, rd, adr, 0)
def jal(rd, off): return (off >> 20 & 1) << 31 | (off >> 1 & 0x3ff) << 21 | (off >> 11 & 1) << 20 | (off >> 12 & 0xff) << 12 | rd << 7 | 0x6f
def jalr(rd, rs1, imm): return I(0, rd, rs1, imm, 0x67)
ECALL, EBREAK, MRET = 0x73, 0x100073, 0x30200073
SPIN = jal(0, 0)


class Acc:
    """One acknowledged bus access."""
    def __init__(s, t, t0, adr, we, sel, dat): s.t, s.t0, s.adr, s.we, s.sel, s.dat = t, t0, adr, we, sel, dat
    def __repr__(s): return f"{'W' if s.we else 'R'}@{s.adr:x}/{s.sel:x}={s.dat:x} t={s.t0}..{s.t}"


class Run:
    """mem: {byte address: word}; delay(n, adr, we) -> acknowledge delay in cycles (>= 1);
    irq/rst/en(run, t) -> level in cycle t (run.acc holds the accesses so far);
    junk(run, t) -> DAT_R outside acknowledged reads; spur(run, t) -> ACK while idle."""
    def __init__(s, mem, cycles, delay=lambda n, a, w: 1, irq=None, rst=None, en=None, junk=None, spur=None,
                 make=Top, each=None, mask_lanes=False):
        s.mem = dict(mem); s.acc = []; s.trace = []; s.t = 0; s.dut = None
        inner = make(); s.dut = inner
        rs, e = Signal(), Signal(init=1)
        m = Module()
        m.submodules.dut = ResetInserter({"sync": rs})(EnableInserter({"sync": e})(inner))
        hold = Signal()
        m.d.sync += hold.eq(~hold)
        bus = inner.bus

        async def tb(ctx):
            n = wait = 0; t0 = None
            for t in range(cycles):
                s.t = t
                r = int(bool(rst and rst(s, t))); ee = int(en(s, t)) if en else 1
                ctx.set(rs, r); ctx.set(e, ee)
                ctx.set(inner.irq, int(bool(irq and irq(s, t))))
                stb, cyc = ctx.get(bus.stb), ctx.get(bus.cyc)
                adr, we, sel, dw = ctx.get(bus.adr) * 4, ctx.get(bus.we), ctx.get(bus.sel), ctx.get(bus.dat_w)
                ack = 0
                data = junk(s, t) if junk else 0
                if r:
                    wait = 0; t0 = None
                elif stb and ee:
                    if t0 is None:
                        t0 = t; wait = delay(n, adr, we); n += 1
                    if wait == 0:
                        ack = 1
                        if not we:
                            data = s.mem.get(adr, NOP)
                            if mask_lanes:
                                lanes = sum(0xff << 8 * i for i in range(4) if sel >> i & 1)
                                data = data & lanes | (junk(s, t) if junk else 0xffffffff) & ~lanes & 0xffffffff
                    wait -= 1
                elif ee:
                    t0 = None
                    ack = int(bool(spur and spur(s, t)))
                ctx.set(bus.dat_r, data); ctx.set(bus.ack, ack)
                s.trace.append((t, cyc, stb, adr, we, sel, dw, ack, r, ee))
                if ack and stb:
                    s.acc.append(Acc(t, t0, adr, we, sel, dw if we else data))
                    if we:
                        old = s.mem.get(adr, 0)
                        lanes = sum(0xff << 8 * i for i in range(4) if sel >> i & 1)
                        s.mem[adr] = old & ~lanes | dw & lanes
                    t0 = None
                if each:
                    each(s, ctx, t)
                await ctx.tick()
        sim = Simulator(m)
        sim.add_clock(1e-6)
        sim.add_testbench(tb)
        sim.run()

    @property
    def fetches(s): return [a.adr for a in s.acc if a.sel == 15 and not a.we and a.adr < 0x10000]
    @property
    def data(s): return [a for a in s.acc if a.adr >= 0x10000]
    @property
    def writes(s): return [(a.adr, a.sel, a.dat) for a in s.acc if a.we]


def prog(words, base=0): return {base + 4 * i: w for i, w in enumerate(words)}


def check(ok, what):
    if not ok:
        print("FAIL:", what)
        sys.exit(1)
