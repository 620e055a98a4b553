T = "src/sentinel/top.py"
A = "src/sentinel/align.py"
D = "src/sentinel/datapath.py"
X = "src/sentinel/exception.py"
DEC = "src/sentinel/decode.py"
CT = "src/sentinel/control.py"
F = "src/sentinel/formal.py"
AL = "src/sentinel/alu.py"
G = "src/sentinel/gen.py"
U = "src/sentinel/ucoderom.py"
INS = "src/sentinel/insn.py"

bug("bus-timeout", "C02", [(T,
"            mem_ack.eq(self.bus.ack),\n",
"            # Don't wait for ever for a slave which isn't there.\n"
"            mem_ack.eq(self.bus.ack | (bus_timer == 0x1fff)),\n"),
(T, "        mem_ack = Signal()\n",
"""        mem_ack = Signal()
        bus_timer = Signal(13)
        with m.If(self.bus.stb & ~self.bus.ack):
            m.d.sync += bus_timer.eq(bus_timer + 1)
        with m.Else():
            m.d.sync += bus_timer.eq(0)
""")],
r'''
from h import *
p = [lui(1, 0x10), lw(2, 1, 0), sw(2, 1, 4), SPIN]
m = prog(p); m[0x10000] = 0xcafe1234
r = Run(m, 10000, delay=lambda n, a, w: 9000 if a == 0x10000 else 1)
prev = None
for (t, cyc, stb, adr, we, sel, dw, ack, _, _) in r.trace:
    if prev and prev[0] and not prev[1]:
        check(stb and adr == prev[2], f"request dropped at cycle {t} without an acknowledge")
    prev = (stb, ack, adr)
check(r.writes == [(0x10004, 15, 0xcafe1234)], f"{r.writes}")
''', "a slave that takes more than 8192 cycles to acknowledge",
"a request is dropped unacknowledged after 8192 wait cycles and garbage is used as its answer")

bug("store-combining", "C13", [(T,
"            mem_ack.eq(self.bus.ack),\n",
"            mem_ack.eq(self.bus.ack | same_store),\n"),
(T, "            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),\n",
"            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard & ~same_store),\n"),
(T, "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),\n",
"            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard & ~same_store),\n"),
(T, "        mem_ack = Signal()\n",
"""        mem_ack = Signal()
        # A store that repeats the previous access need not go to the bus again.
        same_store = Signal()
        last_adr = Signal(32)
        last_data = Signal(32)
        last_sel = Signal(4)
        m.d.comb += same_store.eq(
            self.control.mem.req & self.control.mem.write &
            (last_adr == data_adr) & (last_data == write_data) &
            (last_sel == self.addr_align.wb_sel))
        with m.If(self.bus.stb & self.bus.ack & ~self.control.mem.insn_fetch):
            m.d.sync += [
                last_adr.eq(data_adr),
                last_data.eq(write_data),
                last_sel.eq(Mux(self.bus.we, self.bus.sel, 0)),
            ]
"""),
(T, "from amaranth import Signal, Module", "from amaranth import Module, Mux, Signal")],
r'''
from h import *
for st in (lambda: store(2, 2, 1, 0), lambda: store(0, 2, 1, 3), lambda: store(1, 2, 1, 2)):
    p = [lui(1, 0x10), addi(2, 0, 0x41), st(), st(), NOP, st(), SPIN]
    for d in (1, 3):
        r = Run(prog(p), 200, delay=lambda n, a, w: d)
        check(len(r.writes) == 3, f"three stores executed, bus saw {r.writes}")
''', "the same store executed twice with no other data access between",
"a store that repeats the previous one never reaches the bus; a device register written twice sees one write")

bug("ack-remembered", "C03", [(T,
"            mem_ack.eq(self.bus.ack),\n",
"            mem_ack.eq(self.bus.ack | early_ack),\n"),
(T, "        mem_ack = Signal()\n",
"""        mem_ack = Signal()
        # Tolerate slaves whose acknowledge comes just before a store's request is seen.
        early_ack = Signal()
        m.d.sync += early_ack.eq(self.bus.ack & ~self.control.mem.req &
                                 self.control.mem.latch_data)
""")],
r'''
from h import *
p = [lui(1, 0x10), addi(2, 0, 0x41), store(0, 2, 1, 0), sw(2, 1, 4), store(1, 2, 1, 8), SPIN]
for d in (1, 4):
    a = Run(prog(p), 200, delay=lambda n, a, w: d)
    b = Run(prog(p), 200, delay=lambda n, a, w: d, spur=lambda r, t: 1)
    c = Run(prog(p), 200, delay=lambda n, a, w: d, spur=lambda r, t: t % 2)
    for x in (b, c):
        check([y[1:7] for y in x.trace] == [y[1:7] for y in a.trace], "ACK outside a request changes the execution")
''', "an ACK pulse in the one idle cycle before a store's request",
"an acknowledge that belongs to no request completes the next store without the slave's consent")

bug("irq-edge-latched", "C04", [(T,
"            irq.eq(self.irq)\n",
"            irq.eq(self.irq & ~irq_done)\n"),
(T, "        irq = Signal()\n",
"""        irq = Signal()
        # Don't take the same request again after the handler has returned.
        irq_done = Signal()
        irq_taken = Signal()
        with m.If(~self.irq):
            m.d.sync += [irq_taken.eq(0), irq_done.eq(0)]
        with m.Elif(self.control.csr.ctrl.exception == ExceptCtl.ENTER_INT):
            m.d.sync += irq_taken.eq(self.exception_router.out.mcause.interrupt)
        with m.Elif(self.control.csr.ctrl.exception == ExceptCtl.LEAVE_INT):
            m.d.sync += irq_done.eq(irq_taken)
"""),
(T, "from .ucodefields import RegRSel, RegWSel, CSRSel", "from .ucodefields import RegRSel, RegWSel, CSRSel, ExceptCtl")],
r'''
from h import *
# handler at 0x100: store a mark, mret; the line stays high throughout
p = prog([addi(1, 0, 0x100), csrw(MTVEC, 1), addi(2, 0, 1), lui(3, 1), addi(3, 3, -0x800), csrw(MIE, 3),
          addi(4, 0, 8), lui(6, 0x10), csrw(MSTATUS, 4), addi(5, 5, 1), addi(5, 5, 1), addi(5, 5, 1), SPIN])
p.update(prog([sw(5, 6, 0), MRET], 0x100))
r = Run(p, 700, irq=lambda r, t: t > 60)
n = len([w for w in r.writes if w[0] == 0x10000])
check(n >= 5, f"line held high for 640 cycles, handler entered {n} times")
''', "the line stays high after the handler returns",
"a level-triggered request still asserted after MRET is ignored until the line has been low")

bug("mret-sets-mie-sticky", "C05", [(D,
"                mstatus.mie.eq(mstatus.mpie),\n",
"                mstatus.mie.eq(mstatus.mie | mstatus.mpie),\n")],
r'''
from h import *
for mie in (0, 1):
    for mpie in (0, 1):
        p = [addi(1, 0, 0x40), csrw(MEPC, 1), addi(2, 0, mie * 8 | mpie * 0x80), csrw(MSTATUS, 2), MRET]
        m = prog(p); m.update(prog([csrr(3, MSTATUS), lui(4, 0x10), sw(3, 4, 0), SPIN], 0x40))
        r = Run(m, 250)
        check(r.writes == [(0x10000, 15, 0x1880 | mpie * 8)], f"mie={mie} mpie={mpie}: {r.writes}")
''', "MRET executed with MIE=1 and MPIE=0 (a handler that re-enabled interrupts, or software that wrote mstatus)",
"MRET leaves MIE set although MPIE is zero")

bug("ebreak-any-rd", "C06", [(DEC,
"                    with m.Elif(insn.raw == Insn.EBREAK):",
"                    with m.Elif(insn.raw[12:] == (Insn.EBREAK >> 12)):")],
r'''
from h import *
for w, cause in ((EBREAK, 3), (EBREAK | 1 << 7, 2), (EBREAK | 31 << 7, 2), (ECALL, 11), (EBREAK | 1 << 15, 2)):
    p = prog([addi(1, 0, 0x100), csrw(MTVEC, 1), w, SPIN])
    p.update(prog([csrr(2, MCAUSE), lui(3, 0x10), sw(2, 3, 0), csrr(2, MEPC), sw(2, 3, 4), SPIN], 0x100))
    r = Run(p, 250)
    check(r.writes == [(0x10000, 15, cause), (0x10004, 15, 8)], f"{w:08x}: {r.writes}")
''', "the EBREAK encoding with a non-zero rd field, an illegal instruction",
"reported as breakpoint (3) instead of illegal instruction (2)")

bug("custom-0-passes", "C06", [(DEC,
"""                with m.Case(OpcodeType.CUSTOM_0):
                    m.d.sync += self.exception.valid.eq(1)
""",
"""                with m.Case(OpcodeType.CUSTOM_0):
                    m.d.sync += self.exception.valid.eq(insn.funct3 != 7)
""")],
r'''
from h import *
for f3 in range(8):
    w = f3 << 12 | 5 << 7 | 0x0b
    p = prog([addi(1, 0, 0x100), csrw(MTVEC, 1), addi(5, 0, 1), w, SPIN])
    p.update(prog([csrr(2, MCAUSE), lui(3, 0x10), sw(2, 3, 0), csrr(2, MEPC), sw(2, 3, 4), sw(5, 3, 8), SPIN], 0x100))
    r = Run(p, 300)
    check(r.writes == [(0x10000, 15, 2), (0x10004, 15, 12), (0x10008, 15, 1)], f"{w:08x}: {r.writes}")
''', "a custom-0 word with funct3 = 7",
"the word is executed as whatever the previous instruction was instead of trapping")

bug("reset-runs-stale-word", "C07", [(CT,
"        self.ice40_rst_guard = Signal(init=1)",
"        self.ice40_rst_guard = Signal()")],
r'''
from h import *
p = prog([csrr(7, MCAUSE), lui(1, 0x10), sw(7, 1, 0), addi(4, 0, 3), csrw(MTVEC, 0), addi(4, 4, 1), ECALL, SPIN])
for t0 in range(60, 130):
    for d in (1, 3):
        r = Run(p, t0 + 60, rst=lambda r, t: t == t0, delay=lambda n, a, w: d)
        w = [x for x in r.acc if x.we and x.t > t0]
        check(not w or w[0].dat == 0, f"reset at {t0}: the program reads mcause = {w}")
''', "reset in the middle of an instruction (not at power-on)",
"the first cycle after reset follows the jump of the interrupted microinstruction, so the initialisation sequence is skipped")

bug("irq-sync-ungated", "C08", [(T,
"            irq.eq(self.irq)\n",
"            irq.eq(irq_sync)\n"),
(T, "        irq = Signal()\n",
"""        irq = Signal()
        # The synchroniser must run even while the core's clock is gated.
        m.domains.free = ClockDomain(local=True, reset_less=True)
        m.d.comb += ClockSignal("free").eq(ClockSignal())
        irq_sync = Signal()
        m.d.free += irq_sync.eq(self.irq)
"""),
(T, "from amaranth import Signal, Module", "from amaranth import ClockDomain, ClockSignal, Module, Signal")],
r'''
from h import *
# read mip; the line as seen in enabled cycles is the same with and without stalls
p = prog([lui(1, 0x10), csrr(2, MIP), sw(2, 1, 0), csrr(2, MIP), sw(2, 1, 4), csrr(2, MIP), sw(2, 1, 8), SPIN])
def run(stall, hi, seed):
    import random
    g = random.Random(seed)
    en = [not (stall and g.random() < .5) for _ in range(600)]
    k = 0; lev = []
    for e in en:
        lev.append(hi(k) if e else g.random() < .5); k += e
    r = Run(p, 600, irq=lambda r, t: lev[t], en=lambda r, t: en[t])
    return r, en
for s in range(6):
    hi = lambda k: (k * 7 + s) % 11 < 5
    a, _ = run(False, hi, s); b, en = run(True, hi, s)
    ta = [x[1:7] for x in a.trace]; tb = [x[1:7] for x in b.trace if x[9]]
    n = min(len(ta), len(tb))
    # the first enabled cycle may differ only if the synchroniser saw a gated cycle
    check(ta[:n] == tb[:n], "stalling the clock changes the execution")
''', "the interrupt line changing during a clock-enable stall",
"the interrupt synchroniser runs on the ungated clock, so a stalled run samples a different level than the unstalled one")

bug("sel-from-offset", "C12", [(T,
"            self.addr_align.latched_adr.eq(data_adr),\n",
"            # Bases are word-aligned, so the lane is known from the offset.\n"
"            self.addr_align.latched_adr.eq(Cat(self.decode.imm[0:2],\n"
"                                               data_adr[2:])),\n"),
(T, "from amaranth import Signal, Module", "from amaranth import Cat, Module, Signal")],
r'''
from h import *
for base in (0, 1, 2, 3):
    for off in (0, 1, 2, 3, 5):
        p = [lui(1, 0x10), addi(1, 1, base), addi(2, 0, 0x7e), store(0, 2, 1, off), load(4, 3, 1, off), lui(4, 0x20), sw(3, 4, 0), SPIN]
        r = Run(prog(p), 220, mask_lanes=True, junk=lambda r, t: 0x55aa55aa)
        a = 0x10000 + base + off
        w = [x for x in r.data if x.we and x.adr < 0x20000]
        check(len(w) == 1 and w[0].adr == a & ~3 and w[0].sel == 1 << (a & 3), f"sb {a:x}: {w}")
        check(r.writes[-1] == (0x20000, 15, 0x7e), f"lbu {a:x}: {r.writes[-1]}")
''', "a sub-word access whose base register is not word-aligned",
"SEL is derived from the offset alone, so the wrong lane is selected")

bug("csr-imm-signed", "C09", [(AL,
"                    m.d.sync += self.data.eq(self.csr_imm)",
"                    m.d.sync += self.data.eq(self.csr_imm.as_signed())")],
r'''
from h import *
for z in range(32):
    p = [lui(1, 0x10), csr(5, 0, MSCRATCH, z), csrr(2, MSCRATCH), sw(2, 1, 0), csr(6, 0, MSCRATCH, 31 - z), csrr(2, MSCRATCH), sw(2, 1, 4), SPIN]
    r = Run(prog(p), 250)
    check([w[2] for w in r.writes] == [z, z | 31 - z], f"zimm {z}: {r.writes}")
''', "a CSR immediate of 16 or more",
"the 5-bit immediate is sign-extended")

bug("mtvec-keeps-mode", "C09", [(D,
"""        with m.If((self.pub.adr == CSRFile.MTVEC) |
                  (self.pub.adr == CSRFile.MEPC)):
            m.d.comb += self.priv.dat_w[0:2].eq(0)
""",
"""        with m.If(self.pub.adr == CSRFile.MEPC):
            m.d.comb += self.priv.dat_w[0:2].eq(0)
        with m.Elif(self.pub.adr == CSRFile.MTVEC):
            # Mode 1 is reserved for vectored interrupts.
            m.d.comb += self.priv.dat_w[1].eq(0)
""")],
r'''
from h import *
for v in range(4):
    p = [lui(1, 0x10), addi(2, 0, 0x100 + v), csrw(MTVEC, 2), csrr(3, MTVEC), sw(3, 1, 0), SPIN]
    r = Run(prog(p), 200)
    check(r.writes == [(0x10000, 15, 0x100)], f"mtvec <- {0x100 + v:x}: reads {r.writes}")
''', "software writes mtvec with bit 0 set (asking for vectored mode)",
"mtvec reads back with a mode the core does not implement")

bug("no-overlap-for-x0", "C14", [(T,
"            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),\n            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),\n",
"            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard & ~drop),\n            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard & ~drop),\n"),
(T, "            mem_ack.eq(self.bus.ack),\n", "            mem_ack.eq(self.bus.ack & ~drop),\n"),
(T, "        mem_ack = Signal()\n",
"""        mem_ack = Signal()
        # Give the register file's write port a quiet cycle when x0 is the
        # destination.
        drop = Signal()
        m.d.comb += drop.eq(self.control.mem.insn_fetch &
                            (self.control.pc.action == PcAction.HOLD) &
                            ~self.control.gp.ctrl.reg_read &
                            (self.decode.dst == 0))
"""),
(T, "from .ucodefields import RegRSel, RegWSel, CSRSel", "from .ucodefields import RegRSel, RegWSel, CSRSel, PcAction")],
r'''
from h import *
for rd in (0, 1, 5):
    p = [addi(rd, 0, 5)] * 8 + [SPIN]
    r = Run(prog(p), 80)
    t = [a.t for a in r.acc if a.adr <= 0x20]
    gaps = [b - a for a, b in zip(t, t[1:])][2:7]
    check(all(g <= 4 for g in gaps), f"addi x{rd}: {gaps} cycles per instruction")
''', "a simple ALU instruction whose destination is x0 (a NOP)",
"the overlapped fetch is held back one cycle, so a NOP takes five cycles instead of four")

bug("rvfi-mepc-not-held", "C15", [(F,
"""                        mepc_hold_rd.eq(1)
                    ]
                    m.d.comb += mepc_port.en.eq(0)
""",
"""                        mepc_hold_rd.eq(1)
                    ]
""")],
r'''
from h import *
from sentinel.formal import FormalTop
recs = []
def each(r, ctx, t):
    v = r.dut.rvfi
    if ctx.get(v.valid):
        recs.append((ctx.get(v.insn), ctx.get(v.trap), ctx.get(v.csr.mepc.rdata), ctx.get(v.csr.mepc.wdata)))
def go(p, n=300):
    recs.clear()
    Run(p, n, make=FormalTop, each=each)
    return list(recs)
w1, w2 = csrw(MEPC, 1), csrw(MEPC, 2)
got = go(prog([addi(1, 0, 0x40), addi(2, 0, 0x80), w1, w2, NOP, SPIN]))
byi = {i: (r, w) for i, _, r, w in got}
check(byi[w1][1] == 0x40 and byi[w2] == (0x40, 0x80), f"{got}")
''', "an instruction that writes mepc (a CSR write or any trap)",
"the RVFI record shows the new mepc as the value before the instruction")

bug("rvfi-csr-trap-keeps-rd", "C15", [(F,
"""                with m.If(self.cpu.rvfi.exception):
                    m.d.sync += self.rvfi.rd_addr.eq(0)
""",
"""                with m.If(self.cpu.rvfi.exception & (csr_op_shadow >= 4)):
                    m.d.sync += self.rvfi.rd_addr.eq(0)
""")],
r'''
from h import *
from sentinel.formal import FormalTop
recs = []
def each(r, ctx, t):
    v = r.dut.rvfi
    if ctx.get(v.valid):
        recs.append((ctx.get(v.insn), ctx.get(v.trap), ctx.get(v.rd_addr), ctx.get(v.rd_wdata)))
for f3 in (1, 2, 3, 5, 6, 7):
    bad = csr(f3, 7, 0xF11 if f3 in (1, 5) else 0x7c0, 3)
    m = prog([addi(7, 0, 9), addi(3, 0, 1), addi(1, 0, 0x100), csrw(MTVEC, 1), bad, NOP, SPIN])
    m.update(prog([NOP, NOP, SPIN], 0x100))
    recs.clear()
    Run(m, 300, make=FormalTop, each=each)
    x = [r for r in recs if r[0] == bad]
    check(len(x) == 1 and x[0][1] == 1 and x[0][2:] == (0, 0), f"{bad:08x}: {x}")
''', "an illegal CSR access in register form with a destination register",
"the RVFI record of a trapping CSR instruction names a destination register and a value that was never written")

bug("formal-irq-registered", "C16", [(T,
"            irq.eq(self.irq)\n            # self",
"            # self"),
(T, "        # ALU conns\n        connect(m, self.alu.ctrl",
"""        # RVFI needs the interrupt line stable over a whole cycle.
        if self.formal:
            m.d.sync += irq.eq(self.irq)
        else:
            m.d.comb += irq.eq(self.irq)

        # ALU conns
        connect(m, self.alu.ctrl""")],
r'''
from h import *
from sentinel.formal import FormalTop
p = prog([lui(1, 0x10), csrr(2, MIP), sw(2, 1, 0), csrr(2, MIP), sw(2, 1, 4), csrr(2, MIP), sw(2, 1, 8), SPIN])
for s in range(8):
    irq = lambda r, t: (t * 5 + s) % 9 < 4
    a = Run(p, 250, irq=irq); b = Run(p, 250, irq=irq, make=FormalTop)
    check([x[1:7] for x in a.trace] == [x[1:7] for x in b.trace], "the core with RVFI behaves differently on the bus")
''', "the interrupt line changing in the very cycle it is sampled",
"the core built with the formal option sees the interrupt line one cycle later than the plain core")

bug("zero-test-31-bits", "C01", [(AL,
"        m.d.comb += self.ctrl.zero.eq(self.o == 0)\n",
"        m.d.comb += self.ctrl.zero.eq(self.o[0:31] == 0)\n")],
r'''
from h import *
def b(f3, rs1, rs2, off):
    return (off >> 12 & 1) << 31 | (off >> 5 & 63) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (off >> 1 & 15) << 8 | (off >> 11 & 1) << 7 | 0x63
for f3, want in ((0, 2), (1, 1)):
    p = [lui(6, 0x10), lui(1, 0x80000), addi(2, 0, 0), b(f3, 1, 2, 12), addi(3, 0, 2), jal(0, 8), addi(3, 0, 1), sw(3, 6, 0), SPIN]
    r = Run(prog(p), 250)
    check(r.writes == [(0x10000, 15, want)], f"{r.writes}")
''', "BEQ/BNE operands that differ only in bit 31",
"0x80000000 compares equal to 0")

bug("pc-carry-cut", "C01", [(D,
"                m.d.sync += self.dat_r.eq(self.dat_r + 1)\n",
"                # Straight-line code stays inside a 16 MiB window.\n"
"                m.d.sync += self.dat_r[:22].eq(self.dat_r[:22] + 1)\n")],
r'''
from h import *
for top in (0x1000000, 0x2000000, 0x80000000):
    m = prog([lui(1, top >> 12), jalr(0, 1, -8)])
    m.update({top - 8: NOP, top - 4: NOP, top: SPIN})
    r = Run(m, 120)
    a = [x.adr for x in r.acc]
    check(a[:6] == [0, 4, top - 8, top - 4, top, top], f"{[hex(x) for x in a[:6]]}")
''', "straight-line code crossing a 16 MiB boundary",
"the program counter wraps inside the 16 MiB window")

bug("jal-imm-bit11", "C01", [(INS,
"            return Cat(C(0), self.raw[21:25], self.raw[25:31], self.raw[20],\n                       self.raw[12:20], Value.replicate(self.sign, 12))",
"            return Cat(C(0), self.raw[21:25], self.raw[25:31], self.raw[20],\n                       self.raw[12:19], Value.replicate(self.sign, 13))")],
r'''
from h import *
for off in (0x800, 0x1000, 0x40000, 0x80000, 0xff800, -0x80000, -0x100000):
    base = 0x400000
    m = prog([lui(1, base >> 12), jalr(0, 1, 0)])
    m[base] = jal(2, off); m[base + off] = SPIN
    r = Run(m, 100)
    a = [x.adr for x in r.acc]
    check(a[2:4] == [base, base + off], f"jal {off:x}: {[hex(x) for x in a[:5]]}")
''', "a JAL whose offset needs bit 19",
"offset bit 19 is taken from the sign")

bug("gen-swallows-flush-error", "C18", [(G,
"""    finally:
        if not is_stdout:
            fp.close()
""",
"""    finally:
        if not is_stdout:
            # Nothing useful can be done about errors at this point.
            with suppress(OSError):
                fp.close()
"""),
(G, "from contextlib import contextmanager\n", "from contextlib import contextmanager, suppress\n")],
r'''
from h import *
import tempfile, resource, runpy, shutil, signal, io, contextlib
from amaranth.back import verilog
real = verilog.convert
limit = None
hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
def convert(*a, **k):
    v = real(*a, **k)
    if limit is not None:
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
    return v
verilog.convert = convert
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
d = tempfile.mkdtemp()
def gen(fn, lim):
    global limit
    limit = lim
    sys.argv = ["gen", "-o", fn, "-n", "top"]
    try:
        runpy.run_module("sentinel.gen", run_name="__main__")
        err = None
    except OSError as e:
        err = e
    resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
    return err, os.path.getsize(fn)
try:
    err, size = gen(d + "/ok.v", None)
    check(err is None and size > 10000, "plain generation failed")
    for lim in (size - 10, size - 4000, size // 2, 100):
        err, n = gen(d + "/x.v", lim)
        check(err is not None or n == size, f"file limited to {lim} bytes: {n} of {size} bytes written and no error")
finally:
    import shutil; shutil.rmtree(d)
''', "the disk fills up (or the file-size limit is hit) within the last buffered block",
"the generator reports success although the Verilog file is incomplete")

bug("fdef-not-closed", "C18", [(U,
"""            with open(self.field_defs, 'w') as f:
                space.write_fdef(f)
""",
"""            space.write_fdef(open(self.field_defs, 'w'))
""")],
r'''
from h import *
import tempfile, gc, resource, signal, warnings, pathlib
from sentinel.ucoderom import UCodeROM
d = pathlib.Path(tempfile.mkdtemp())
try:
    UCodeROM(field_defs=d / "a.fdef")
    gc.collect()
    size = (d / "a.fdef").stat().st_size
    check(size > 1000, "no listing")
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    for lim in (10, size // 2, size - 5):
        resource.setrlimit(resource.RLIMIT_FSIZE, (lim, hard))
        err = None
        try:
            UCodeROM(field_defs=d / "b.fdef"); gc.collect()
        except OSError as e:
            err = e
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        n = (d / "b.fdef").stat().st_size
        check(err is not None or n == size, f"limit {lim}: {n} of {size} bytes written and no error")
finally:
    import shutil; shutil.rmtree(d)
''', "the disk fills up while the field-definition listing is written",
"the error surfaces only when the file object is finalised and is lost: an incomplete listing and success")

bug("stdout-closed", "C18", [(G,
"    is_stdout = not fn or fn == \"-\"\n", "    is_stdout = fn == \"-\"\n"),
(G, "    if not is_stdout:\n        fp = open(fn, \"w\")\n", "    if fn and not is_stdout:\n        fp = open(fn, \"w\")\n")],
r'''
from h import *
import subprocess
src = """
import sys; sys.path.insert(0, %r); import h
sys.argv = ["gen", %s]
import sentinel.gen
sentinel.gen.generate()
print("still open")
"""
for a in ("'-n', 'cpu'", "'-o', '-'", "'-f'"):
    r = subprocess.run([sys.executable, "-c", src % (os.path.dirname(os.path.abspath(__file__)), a)], capture_output=True, text=True)
    check(r.returncode == 0 and r.stdout.endswith("still open\n"), f"{a}: exit {r.returncode} {r.stderr[-200:]}")
''', "generation to standard output chosen by leaving -o away (not by -o -)",
"standard output is closed behind the caller's back")
