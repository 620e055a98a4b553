T = "src/sentinel/top.py"
A = "src/sentinel/align.py"
M = "src/sentinel/microcode.asm"
D = "src/sentinel/datapath.py"
X = "src/sentinel/exception.py"
DEC = "src/sentinel/decode.py"
CT = "src/sentinel/control.py"
F = "src/sentinel/formal.py"

bug("load-address-live", "C02", [(T,
"            self.addr_align.latched_adr.eq(data_adr),\n            self.addr_align.pc",
"""            # The ALU still presents the effective address when a load starts;
            # only stores need the holding register.
            self.addr_align.latched_adr.eq(
                Mux(self.control.mem.write, data_adr, self.alu.o)),
            self.addr_align.pc"""),
(T, "from amaranth import Signal, Module", "from amaranth import Module, Mux, Signal")],
r'''
from h import *
def go(delay):
    p = [lui(1, 0x10), addi(1, 1, 0x124), lw(2, 1, 0), lui(3, 0x20), sw(2, 3, 0), SPIN]
    m = prog(p); m[0x10124] = 0x12345678
    r = Run(m, 160, delay=lambda n, a, w: delay if a >= 0x10000 else 1)
    prev = None
    for (t, cyc, stb, adr, we, sel, dw, ack, _, _) in r.trace:
        if prev and prev[0] and stb and not prev[4]:
            check((adr, we, sel) == prev[1:4], f"request changed while waiting, cycle {t}: {adr:x} was {prev[1]:x}")
        prev = (stb, adr, we, sel, ack)
    check(r.writes == [(0x20000, 15, 0x12345678)], f"delay {delay}: {r.writes}")
for d in (1, 2, 3, 4, 9):
    go(d)
''', "a load acknowledged three or more cycles after its request starts",
"ADR/SEL of a load change while the request is outstanding: the slave that is slow to answer sees a different address")

bug("store-no-idle-cycle", "C02", [(M,
"""              mem_sel => word, write_mem => 1, jmp_type => direct, target => sw_wait;
          STOP_MEMREQ_THEN_JUMP_TO_ZERO;
""",
"""              mem_sel => word, write_mem => 1, jmp_type => direct_zero, target => sw_wait;
""")],
r'''
from h import *
m = prog([lui(1, 0x10), addi(2, 0, 7), sw(2, 1, 0), store(0, 2, 1, 4), store(1, 2, 1, 8), lw(3, 1, 0), sw(3, 1, 12), SPIN])
for d in (1, 2, 5):
    r = Run(m, 250, delay=lambda n, a, w: d)
    check(len(r.writes) == 4, f"stores seen: {r.writes}")
    for a, b in zip(r.trace, r.trace[1:]):
        check(not (a[2] and a[7] and b[2]), f"STB still high in the cycle after the acknowledge (cycle {b[0]})")
''', "any word store; harmless unless the slave holds ACK for a second cycle or needs an idle cycle",
"STB/CYC stay asserted from an acknowledged word store straight into the next fetch")

bug("quadrant-from-live-bus", "C03", [(DEC,
"            csr_quadrant.eq(insn.csr.quadrant),\n", ""),
(DEC, "        src_a = Signal.like(insn.rs1)\n        forward_csr = Signal()\n        csr_quadrant = Signal(Quadrant)\n",
"        src_a = Signal.like(insn.rs1)\n        forward_csr = Signal()\n        csr_quadrant = Signal(Quadrant)\n        m.d.comb += csr_quadrant.eq(insn.csr.quadrant)\n")],
r'''
from h import *
p = [addi(1, 0, 0x55), csrw(MSCRATCH, 1), csrr(2, MSCRATCH), lui(3, 0x10), sw(2, 3, 0), SPIN]
for junk in (0, 0xffffffff, 0x00000013, 0x30000000, 0x12345678):
    for hold in (False, True):
        r = Run(prog(p), 140, junk=lambda s, t: s.acc[-1].dat if hold and s.acc else junk)
        check(r.writes == [(0x10000, 15, 0x55)], f"idle bus value {junk:08x} hold={hold}: {r.writes} {r.fetches}")
''', "a CSR instruction fetched from a slave that does not keep DAT_R stable after its acknowledge",
"the privilege field of a CSR address is taken from DAT_R one cycle after the acknowledge")

bug("irq-after-decode-errors", "C04", [(X,
"            with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &",
"            with m.Elif(self.src.csr.mstatus.mie & self.src.csr.mip.meip &"),
(X, "                      self.src.csr.mie.meie):", "                        self.src.csr.mie.meie):")],
r'''
from h import *
H = 0x200
m = prog([addi(1, 0, H), csrw(MTVEC, 1), lui(2, 1), I(5, 2, 2, 1), csrw(MIE, 2), csr(6, 0, MSTATUS, 8), addi(5, 5, 1), ECALL, addi(6, 6, 1), SPIN])
m.update(prog([csrr(7, MCAUSE), csrr(8, MEPC), lui(9, 0x10), sw(7, 9, 0), sw(8, 9, 4), SPIN], H))
ecall_at = 7 * 4
def first_irq(s, t):      # the line rises in the cycle after the fetch of the ECALL
    return any(a.adr == ecall_at for a in s.acc)
r = Run(m, 300, irq=first_irq)
check(r.writes[:2] == [(0x10000, 15, 0x8000000b), (0x10004, 15, ecall_at)], f"{[(hex(a), hex(d)) for a, _, d in r.writes]}")
''', "the interrupt line goes high so that its sampling point falls on an instruction that raises a decode exception",
"a pending enabled interrupt is not taken in front of an ECALL/illegal instruction: the synchronous trap wins")

bug("irq-sampled-late", "C04", [(T,
"            irq.eq(self.irq)\n            # self.insn_fetch",
"            # self.insn_fetch"),
(T, "        m.d.sync += mem_reset_guard.eq(0)\n", "        m.d.sync += mem_reset_guard.eq(0)\n        irq = Signal()\n        m.d.sync += irq.eq(self.irq)\n"),
(T, "        mem_ack = Signal()\n        irq = Signal()\n", "        mem_ack = Signal()\n")],
r'''
from h import *
H = 0x200
base = [addi(1, 0, H), csrw(MTVEC, 1), lui(2, 1), I(5, 2, 2, 1), csrw(MIE, 2), csr(6, 0, MSTATUS, 8)] + [addi(5, 5, 1)] * 6 + [SPIN]
m = prog(base); m.update(prog([SPIN], H))
for at in range(7, 11):
    # one-cycle pulse in the cycle after the acknowledge of the fetch of base[at]: the sampling point
    r = Run(m, 250, irq=lambda s, t: s.acc and s.acc[-1].adr == 4 * at and t == s.acc[-1].t + 1 and not s.acc[-1].we)
    check(H in r.fetches and 4 * at + 4 not in r.fetches, f"pulse at the sampling point of {4*at:x}: {[hex(f) for f in r.fetches]}")
    # low again at the sampling point: must not be taken
    r = Run(m, 250, irq=lambda s, t: s.acc and s.acc[-1].adr == 4 * at - 4 and t - s.acc[-1].t in (2, 3, 4))
    check(H not in r.fetches, "a line that was low at every sampling point was taken")
''', "the line changes within one cycle of the sampling point",
"interrupts are decided on the level of the previous cycle: a line withdrawn in time is still taken, a pulse at the sampling point lost")

bug("mpie-kept-when-disabled", "C05", [(D,
"""            m.d.sync += [
                mstatus.mpie.eq(mstatus.mie),
                mstatus.mie.eq(0)
            ]
""",
"""            with m.If(mstatus.mie):
                m.d.sync += [
                    mstatus.mpie.eq(1),
                    mstatus.mie.eq(0)
                ]
""")],
r'''
from h import *
H = 0x200
# MPIE=1, MIE=0 by software, then ECALL: MPIE must become 0
m = prog([addi(1, 0, H), csrw(MTVEC, 1), addi(2, 0, 0x80), csrw(MSTATUS, 2), ECALL, SPIN])
m.update(prog([csrr(3, MSTATUS), lui(4, 0x10), sw(3, 4, 0), SPIN], H))
r = Run(m, 300)
check(r.writes == [(0x10000, 15, 0x1800)], f"mstatus in the handler: {r.writes}")
''', "a trap taken while MIE is already clear and MPIE set, e.g. an exception inside a handler",
"MPIE keeps its old value on such a trap, so the MRET of the inner handler re-enables interrupts inside the outer one")

bug("mret-keeps-mpie", "C05", [(D,
"""                mstatus.mie.eq(mstatus.mpie),
                mstatus.mpie.eq(1)
""",
"""                mstatus.mie.eq(mstatus.mpie)
""")],
r'''
from h import *
m = prog([csrw(MSTATUS, 0), addi(1, 0, 0x20), csrw(MEPC, 1), MRET]); 
m.update(prog([csrr(3, MSTATUS), lui(4, 0x10), sw(3, 4, 0), SPIN], 0x20))
r = Run(m, 300)
check(r.writes == [(0x10000, 15, 0x1880)], f"mstatus after MRET: {r.writes}")
''', "MRET with MPIE clear, followed by a second MRET or a read of mstatus",
"MRET does not set MPIE, so a later MRET without a trap in between leaves interrupts disabled")

bug("store-word-bit0", "C06", [(X,
"""        with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_STORE_ADR):
            with m.If((((self.src.ctrl.mem_sel == MemSel.HWORD) &
                        self.src.alu_lo[0] == 1)) |
                      ((self.src.ctrl.mem_sel == MemSel.WORD) &
                      ((self.src.alu_lo[0] == 1) |
                       (self.src.alu_lo[1] == 1)))):""",
"""        with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_STORE_ADR):
            with m.If(Mux(self.src.ctrl.mem_sel == MemSel.HWORD,
                          self.src.alu_lo[0], self.src.alu_lo[1])):"""),
(X, "from amaranth import Signal, Module, unsigned", "from amaranth import Module, Mux, Signal, unsigned")],
r'''
from h import *
H = 0x200
for off in (1, 2, 3):
    m = prog([addi(1, 0, H), csrw(MTVEC, 1), lui(2, 0x10), sw(2, 2, off), SPIN])
    m.update(prog([csrr(3, MCAUSE), lui(4, 0x20), sw(3, 4, 0), SPIN], H))
    r = Run(m, 300)
    check(r.writes == [(0x20000, 15, 6)], f"sw at offset {off}: {r.writes}")
''', "a word store whose address is congruent to 1 modulo 4",
"such a store reaches the bus instead of raising store-address-misaligned")

bug("ro-csr-write-immediate", "C06", [(DEC,
"                                        (csr_op == Insn.CSR.RWI) |\n", "")],
r'''
from h import *
H = 0x200
for rd in (0, 5):
    for z in (0, 3):
        m = prog([addi(1, 0, H), csrw(MTVEC, 1), csr(5, rd, 0xF11, z), SPIN])
        m.update(prog([csrr(3, MCAUSE), lui(4, 0x20), sw(3, 4, 0), SPIN], H))
        r = Run(m, 300)
        check(r.writes == [(0x20000, 15, 2)], f"csrrwi x{rd}, mvendorid, {z}: {r.writes}")
''', "CSRRWI with a zero immediate on a CSR in read-only space",
"the write to a read-only CSR is not reported as an illegal instruction")

bug("request-survives-reset", "C07", [(T,
"mem_reset_guard = Signal(init=1)", "mem_reset_guard = Signal()")],
r'''
from h import *
m = prog([lui(1, 0x10), addi(2, 0, 1), sw(2, 1, 0), lw(3, 1, 0), addi(4, 3, 1), jal(0, -8)])
for at in range(10, 60):
    for n in (1, 2, 3):
        r = Run(m, at + n + 20, delay=lambda k, a, w: 2, rst=lambda s, t: at <= t < at + n)
        for (t, cyc, stb, *_rest) in r.trace:
            if at < t < at + n + 1:
                check(not stb and not cyc, f"reset from {at} for {n}: request in cycle {t}")
        first = [a for a in r.acc if a.t0 >= at + n]
        check(first and first[0].adr == 0 and first[0].sel == 15 and not first[0].we, f"first access after reset: {first[:1]}")
''', "a short reset that starts while the microinstruction about to execute asserts a bus request",
"the CPU keeps CYC/STB asserted during (and just after) reset")

bug("reset-keeps-mcause", "C07", [(M,
"""reset: latch_a => 1, latch_b => 1, b_src => one, a_src => zero;
       alu_op => and;
       alu_op => and, reg_write => 1, reg_w_sel => zero;
       jmp_type => direct_zero, pc_action => load_alu_o, csr_op => write_csr, \\
            csr_sel => trg_csr, invert_test => 1, cond_test => true, \\
            target => MCAUSE;
""",
"""reset: latch_a => 1, latch_b => 1, b_src => one, a_src => zero;
       alu_op => and;
       alu_op => and, reg_write => 1, reg_w_sel => zero;
       jmp_type => direct_zero, pc_action => load_alu_o, \\
            invert_test => 1, cond_test => true;
""")],
r'''
from h import *
H = 0x200
m = prog([csrr(1, MCAUSE), lui(2, 0x10), sw(1, 2, 0), addi(1, 0, H), csrw(MTVEC, 1), ECALL]); m.update(prog([SPIN], H))
for at in (90, 100, 111, 120):
    r = Run(m, 260, rst=lambda s, t: at <= t < at + 2)
    w = [a.dat for a in r.acc if a.we]
    check(w == [0, 0], f"mcause read at each start, reset at {at}: {w}")
''', "a warm reset after at least one trap was taken", "mcause reads its pre-reset value after the reset")

bug("mstatus-not-reset", "C07", [(D,
'mstatus = Signal(MStatus, init={"mpp": 0b11})', 'mstatus = Signal(MStatus, init={"mpp": 0b11}, reset_less=True)')],
r'''
from h import *
m = prog([csrr(1, MSTATUS), lui(2, 0x10), sw(1, 2, 0), csr(6, 0, MSTATUS, 8), SPIN])
for at in (80, 90, 97):
    r = Run(m, 200, rst=lambda s, t: at <= t < at + 3)
    w = [a.dat & 8 for a in r.acc if a.we]
    check(w == [0, 0], f"MIE after reset at {at}: {w}")
''', "a warm reset while interrupts are enabled", "interrupts stay enabled after reset")

bug("reset-guard-free-running", "C08", [(T,
"        m.d.sync += mem_reset_guard.eq(0)\n",
"""        # The guard only has to cover the first clock after reset; keep it
        # out of the (possibly gated) core clock enable.
        m.domains.guard = ClockDomain(local=True)
        m.d.comb += [
            ClockSignal("guard").eq(ClockSignal()),
            ResetSignal("guard").eq(ResetSignal())
        ]
        m.d.guard += mem_reset_guard.eq(0)
"""),
(T, "from amaranth import Signal, Module", "from amaranth import ClockDomain, ClockSignal, Module, ResetSignal, Signal")],
r'''
from h import *
# After a reset that hits the CPU while it is requesting, stall it before its first enabled cycle.
from amaranth.hdl import ClockDomain
m = prog([lui(1, 0x10), addi(2, 0, 1), sw(2, 1, 0), lw(3, 1, 0), addi(4, 3, 1), jal(0, -8)])
def view(tr): return [(c, s, a, w, sel) for (_, c, s, a, w, sel, *_r) in tr]
def go(at, gap):
    inner = Top()
    mod = Module(); mod.domains.sync = cd = ClockDomain()
    e = Signal(init=1); mod.submodules.dut = EnableInserter({"sync": e})(inner)
    hold = Signal(); mod.d.sync += hold.eq(~hold)
    out = []
    async def tb(ctx):
        for t in range(at + 1 + gap + 25):
            ctx.set(cd.rst, int(t == at)); en = not (at < t <= at + gap); ctx.set(e, int(en))
            stb, adr = ctx.get(inner.bus.stb), ctx.get(inner.bus.adr) * 4
            we = ctx.get(inner.bus.we)
            ack = int(bool(stb and en and t % 3 == 0 and t < at))
            ctx.set(inner.bus.ack, ack); ctx.set(inner.bus.dat_r, m.get(adr, NOP))
            if en and t > at: out.append((stb, adr if stb else 0, we))
            await ctx.tick()
    s = Simulator(mod); s.add_clock(1e-6); s.add_testbench(tb); s.run()
    return out
for at in range(20, 60):
    a, b, c = go(at, 0), go(at, 1), go(at, 4)
    n = 12
    check(a[:n] == b[:n] == c[:n], f"reset at {at}: enabled cycles differ with the number of stalled cycles {a[:n]} {b[:n]} {c[:n]}")
''', "a reset that hits the CPU while it is requesting, followed by stalled cycles before the first enabled one",
"with a gated clock enable the stale request that the guard suppresses shows up on the bus after reset")

bug("mepc-low-bits", "C09", [(D,
"""        with m.If((self.pub.adr == CSRFile.MTVEC) |
                  (self.pub.adr == CSRFile.MEPC)):
""",
"""        with m.If(self.pub.adr == CSRFile.MTVEC):
""")],
r'''
from h import *
for v in (1, 2, 3, 0x7ff):
    m = prog([addi(1, 0, v), csrw(MEPC, 1), csrr(2, MEPC), csrw(MTVEC, 1), csrr(3, MTVEC), lui(4, 0x10), sw(2, 4, 0), sw(3, 4, 4), SPIN])
    r = Run(m, 200)
    check([d for _, _, d in r.writes] == [v & ~3, v & ~3], f"{v}: {r.writes}")
''', "software writes mepc with one of its two low bits set and reads it back", "mepc bits 1:0 become writable")

bug("last-hpm-counter-traps", "C09", [(DEC,
"        for i in range(CSRM.MHPMCOUNTER3H, CSRM.MHPMCOUNTER31H + 1):", "        for i in range(CSRM.MHPMCOUNTER3H, CSRM.MHPMCOUNTER31H):")],
r'''
from h import *
H = 0x200
for a in (0xB83, 0xB9E, 0xB9F, 0xB1F, 0x33F):
    m = prog([addi(1, 0, H), csrw(MTVEC, 1), addi(2, 0, 9), csrr(2, a), lui(3, 0x10), sw(2, 3, 0), SPIN]); m.update(prog([SPIN], H))
    r = Run(m, 200)
    check(r.writes == [(0x10000, 15, 0)], f"csr {a:x}: {r.writes}")
''', "an access to CSR 0xB9F (mhpmcounter31h), one of 4096 addresses", "a documented read-only-zero CSR raises an illegal instruction")

bug("mip-from-ram", "C09", [(D,
"""        with m.If(~((prev_csr_adr == CSRFile.MSTATUS) |
                  (prev_csr_adr == CSRFile.MIP) |
                  (prev_csr_adr == CSRFile.MIE))):
""",
"""        with m.If(prev_csr_adr[3] | prev_csr_adr[0]):
"""),
(D, "    MIP = 0xC\n", "    MIP = 0xC\n"),
][:1],
r'''
from h import *
for level in (0, 1):
    m = prog([addi(1, 0, -1), csrw(MIP, 1), csrr(2, MIP), csr(3, 3, MIP, 1), csrr(3, MIP), lui(4, 0x10), sw(2, 4, 0), sw(3, 4, 4), SPIN])
    r = Run(m, 200, irq=lambda s, t: level)
    check([d for _, _, d in r.writes] == [0x800 * level] * 2, f"mip with the line {level}: {r.writes}")
''', "a write to mip followed by a read of it (or a read while the line is high)",
"mip reads return the last written value from RAM instead of the live line")

bug("srli-zero-never-ends", "C10", [(M,
"""              READ_RS1, a_src => imm, b_src => one, latch_a => 1, latch_b => 1, alu_op => srl,
                  jmp_type => direct, cond_test => cmp_alu_o_zero, target => shift_zero;
srl_loop:
""",
"""              READ_RS1, a_src => imm, b_src => one, latch_a => 1, latch_b => 1, alu_op => srl;
srl_loop:
""")],
r'''
from h import *
for sh in (0, 1, 31):
    m = prog([addi(1, 0, -1), I(5, 2, 1, sh), lui(3, 0x10), sw(2, 3, 0), SPIN])
    r = Run(m, 400)
    check(r.writes == [(0x10000, 15, 0xffffffff >> sh)], f"srli {sh}: {r.writes}")
''', "a logical right shift by an immediate of zero", "the shift loop runs 2**32 times: no bus request for minutes")

bug("branch-funct3-011-panics", "C10", [(DEC,
"                    with m.If((insn.funct3 == 2) | (insn.funct3 == 3)):\n                        m.d.sync += self.exception.valid.eq(1)\n                with m.Case(OpcodeType.LOAD)",
"                    with m.If(insn.funct3 == 2):\n                        m.d.sync += self.exception.valid.eq(1)\n                with m.Case(OpcodeType.LOAD)")],
r'''
from h import *
H = 0x200
for f3 in (2, 3):
    m = prog([addi(1, 0, H), csrw(MTVEC, 1), R(0, f3, 4, 1, 2, 0x63), SPIN]); m.update(prog([SPIN], H))
    r = Run(m, 200)
    check(H in r.fetches, f"branch funct3 {f3}: {r.fetches[:6]}")
''', "a branch encoding with funct3 = 3", "the CPU enters the microcode panic loop and never issues another request")

bug("slli-zero-same-register", "C11", [(M,
"""              READ_RS1, a_src => imm, b_src => one, latch_a => 1, latch_b => 1, alu_op => sll, \\
                  jmp_type => direct, cond_test => cmp_alu_o_zero, target => shift_zero;
sll_loop:
""",
"""              READ_RS1, a_src => imm, b_src => one, latch_a => 1, latch_b => 1, alu_op => sll, \\
                  WRITE_RD, jmp_type => direct, cond_test => cmp_alu_o_zero, target => shift_zero;
sll_loop:
""")],
r'''
from h import *
for rd in (1, 2):
    for sh in (0, 1, 5):
        m = prog([addi(1, 0, 77), I(1, rd, 1, sh), lui(3, 0x10), sw(rd, 3, 0), SPIN])
        r = Run(m, 300)
        check(r.writes == [(0x10000, 15, 77 << sh)], f"slli x{rd}, x1, {sh}: {r.writes}")
''', "slli with a zero shift amount whose source and destination are the same register", "the register is cleared")

bug("lh-sign-of-low-half", "C12", [(A,
"                    m.d.comb += self.data.eq(selected_dat[0:16].as_signed())\n",
"                    m.d.comb += self.data.eq(Cat(\n                        selected_dat[0:16],\n                        self.wb_dat_r[15].replicate(16)))\n"),
(A, "from amaranth import Signal, Module", "from amaranth import Cat, Module, Signal")],
r'''
from h import *
for word, f3, off, want in ((0x80017fff, 1, 2, 0xffff8001), (0x7fff8001, 1, 2, 0x7fff), (0x7fff8001, 1, 0, 0xffff8001), (0x80017fff, 5, 2, 0x8001)):
    m = prog([lui(1, 0x10), load(f3, 2, 1, off), lui(3, 0x20), sw(2, 3, 0), SPIN]); m[0x10000] = word
    r = Run(m, 200)
    check(r.writes == [(0x20000, 15, want)], f"{word:x} f3={f3} off={off}: {r.writes}")
''', "a signed halfword load from the upper half of a word whose two halves have different sign bits", "the result is extended with the other half's sign")

bug("load-x0-skipped", "C13", [(CT,
"""                with m.Case(OpcodeType.LOAD):
                    op_map = Cat(insn.funct3, C(0x08 >> 3))
                    m.d.sync += self.requested_op.eq(op_map)
""",
"""                with m.Case(OpcodeType.LOAD):
                    op_map = Cat(insn.funct3, C(0x08 >> 3))
                    # Result is discarded, so there is nothing to wait for.
                    with m.If(insn.rd == 0):
                        m.d.sync += self.requested_op.eq(0x30)
                    with m.Else():
                        m.d.sync += self.requested_op.eq(op_map)
""")],
r'''
from h import *
for f3 in (0, 1, 2, 4, 5):
    for rd in (0, 6):
        m = prog([lui(1, 0x10), load(f3, rd, 1, 0), addi(2, 0, 1), SPIN])
        r = Run(m, 120)
        check(len(r.data) == 1, f"load f3={f3} rd=x{rd}: accesses {r.data}")
''', "a load whose destination is x0, used to acknowledge or drain a device register", "the access never reaches the bus")

bug("sub-not-overlapped", "C14", [(M,
"sub:          alu_op => sub, INSN_FETCH, JUMP_TO_OP_END(fast_epilog);", "sub:          alu_op => sub, JUMP_TO_OP_END(fast_epilog);")],
r'''
from h import *
for name, w in (("add", add(3, 1, 2)), ("sub", sub(3, 1, 2)), ("xor", R(0, 4, 3, 1, 2)), ("addi", addi(3, 1, 1))):
    r = Run(prog([addi(1, 0, 9), addi(2, 0, 4)] + [w] * 4 + [SPIN]), 120)
    ts = [a.t for a in r.acc]
    gaps = {b - a for a, b in zip(ts[2:6], ts[3:7])}
    check(gaps == {4}, f"{name}: {gaps} cycles per instruction")
''', "a SUB instruction timed from fetch to fetch", "SUB takes five cycles instead of the documented four")

bug("rvfi-rs2-not-forwarded", "C15", [(F,
"        rs2_port = self.cpu.datapath.regfile.mem.read_port(transparent_for=(w_port,))  # noqa: E501",
"        rs2_port = self.cpu.datapath.regfile.mem.read_port()")],
r'''
from h import *
from sentinel.formal import FormalTop
for d in (1, 3):
    rec = []
    def each(s, ctx, t):
        f = s.dut.rvfi
        if ctx.get(f.valid):
            rec.append((ctx.get(f.order), ctx.get(f.insn), ctx.get(f.rs1_rdata), ctx.get(f.rs2_rdata), ctx.get(f.rd_wdata)))
    p = [addi(1, 0, 5), addi(2, 0, 6), add(3, 1, 2), add(4, 3, 3), sub(5, 4, 4), SPIN]
    Run(prog(p), 120, delay=lambda n, a, w: d, make=FormalTop, each=each)
    by = {r[1]: r for r in rec}
    check(by[add(3, 1, 2)][2:] == (5, 6, 11), f"delay {d}: {by[add(3, 1, 2)]}")
    check(by[add(4, 3, 3)][2:] == (11, 11, 22), f"delay {d}: {by[add(4, 3, 3)]}")
''', "an instruction acknowledged without wait states that reads, as rs2, the register its predecessor is writing", "rvfi_rs2_rdata reports the value before that write")

bug("rvfi-irq-held-off", "C16", [(F,
"        m.d.comb += self.cpu.irq.eq(self.irq)\n", ""),
(F, "        m.d.sync += just_committed_to_insn.eq(committed_to_insn)\n",
"""        m.d.sync += just_committed_to_insn.eq(committed_to_insn)
        # Don't let an interrupt hit the insn right after one that trapped;
        # that would need two RVFI packets for the same PC.
        m.d.comb += self.cpu.irq.eq(self.irq & ~self.rvfi.intr)
""")],
r'''
from h import *
from sentinel.formal import FormalTop
H = 0x200
m = prog([addi(1, 0, H), csrw(MTVEC, 1), lui(2, 1), I(5, 2, 2, 1), csrw(MIE, 2), ECALL, SPIN])
m.update(prog([csrr(3, MIP), addi(4, 4, 1), lui(5, 0x10), sw(3, 5, 0), SPIN], H))
out = []
for make in (Top, FormalTop):
    for lvl in (0, 1):
        r = Run(m, 300, irq=lambda s, t: lvl, make=make)
        out.append([x[1:6] + ((x[6],) if x[4] else ()) for x in r.trace])
check(out[0] == out[2] and out[1] == out[3], "the RVFI build shows different bus behaviour")
''', "the interrupt line is high around the first instruction of a handler and that instruction looks at mip, or interrupts are re-enabled there", "the RVFI build takes interrupts (and reads mip) differently from the plain core")
