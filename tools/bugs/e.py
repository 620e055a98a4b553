T = "src/sentinel/top.py"
A = "src/sentinel/align.py"
AL = "src/sentinel/alu.py"
D = "src/sentinel/datapath.py"
X = "src/sentinel/exception.py"
DEC = "src/sentinel/decode.py"
CT = "src/sentinel/control.py"
F = "src/sentinel/formal.py"
G = "src/sentinel/gen.py"
U = "src/sentinel/ucoderom.py"

bug("alu-survives-reset", "C07", [(AL,
"""        m.d.sync += self.o.eq(self.o_mux)
        with m.If(self.ctrl.omod == ALUOMod.INV_LSB_O):
            m.d.sync += self.o[0].eq(~self.o_mux[0])
        with m.Elif(self.ctrl.omod == ALUOMod.CLEAR_LSB_O):
            m.d.sync += self.o[0].eq(0)
""",
"""        # Datapath registers don't need a reset.
        o_reg = Signal(self.width, reset_less=True)
        m.d.comb += self.o.eq(o_reg)
        m.d.sync += o_reg.eq(self.o_mux)
        with m.If(self.ctrl.omod == ALUOMod.INV_LSB_O):
            m.d.sync += o_reg[0].eq(~self.o_mux[0])
        with m.Elif(self.ctrl.omod == ALUOMod.CLEAR_LSB_O):
            m.d.sync += o_reg[0].eq(0)
""")],
r'''
from h import *
p = [lui(5, 0x10), addi(1, 0, -1), csrw(MSCRATCH, 1), csrw(MSCRATCH, 1), csrr(2, MSTATUS), sw(2, 5, 0), SPIN]
for at in range(10, 60):
    r = Run(prog(p), 160, rst=lambda s, t: t == at)
    w = [a for a in r.acc if a.we and a.t > at]
    check(w and w[-1].dat & 8 == 0, f"reset at {at}: interrupts enabled after reset: {w}")
''', "a one-cycle reset at the moment the write-back microinstruction of a CSR write is being fetched",
"a value computed before the reset is written to mstatus after it")

bug("mstatush-aliases-mstatus", "C09", [(DEC,
"        self._rom[CSRM.MSTATUSH] = CSRAttributes._Ro0\n",
"        self._rom[CSRM.MSTATUSH] = CSRAttributes._Implemented\n")],
r'''
from h import *
p = [lui(5, 0x10), addi(1, 0, 0x88), csrw(MSTATUS, 0), csrw(0x310, 1), csrr(2, MSTATUS), sw(2, 5, 0), csrr(3, 0x310), sw(3, 5, 4), SPIN]
r = Run(prog(p), 200)
check([d for _, _, d in r.writes] == [0x1800, 0], f"{r.writes}")
''', "software that writes or reads mstatush",
"mstatush is mstatus: it reads as non-zero and writing it changes the interrupt enable")

bug("forward-x0", "C11", [(D, "from amaranth import Cat, Module, Signal\n", "from amaranth import Cat, Module, Mux, Signal\n"), (D,
"        r_port = self.mem.read_port(transparent_for=(w_port,))\n",
"""        # Forward by hand, not every block RAM has write-first mode.
        r_port = self.mem.read_port()
        bypass = Signal()
        bypass_data = Signal(32)
        r_data = Signal(32)
        wr = Signal()
        m.d.comb += wr.eq((self.pub.ctrl.reg_write & (self.priv.op == CSROp.NONE)) |
                          (self.priv.op == CSROp.WRITE_CSR))
        with m.If(r_port.en):
            m.d.sync += [
                bypass.eq(wr & (w_port.addr == r_port.addr)),
                bypass_data.eq(w_port.data)
            ]
        m.d.comb += r_data.eq(Mux(bypass, bypass_data, r_port.data))
"""),
(D, "            self.priv.dat_r.eq(r_port.data),\n            self.pub.dat_r.eq(r_port.data),\n",
    "            self.priv.dat_r.eq(r_data),\n            self.pub.dat_r.eq(r_data),\n")],
r'''
from h import *
# shifts write rd while they are reading rs1
p = [lui(5, 0x10), addi(1, 0, 5), addi(0, 1, 7), add(2, 0, 1), sw(2, 5, 0), I(1, 0, 1, 3), add(3, 0, 0), sw(3, 5, 4), jal(0, 4), sw(0, 5, 8), SPIN]
for dl in (1, 2, 3):
    r = Run(prog(p), 250, delay=lambda n, a, w: dl)
    check([d for _, _, d in r.writes] == [5, 0, 0], f"{r.writes}")
    # rs1 of the next instruction (x0) on the bus while x0 is being "written"
    r = Run(prog(p), 250, delay=lambda n, a, w: dl, junk=lambda s, t: 0)
    check([d for _, _, d in r.writes] == [5, 0, 0], f"{r.writes}")
''', "an instruction with destination x0, immediately followed by one whose first source is x0, on a bus that has the next word (or a zero rs1 field) on DAT_R while the write-back happens",
"x0 reads as the discarded result")

bug("slli-alt-encoding", "C06", [(DEC,
"""                        with m.If(insn.funct3 == 1):
                            with m.If(insn.funct7 != 0):
                                m.d.sync += self.exception.valid.eq(1)
                        with m.Else():
                            with m.If((insn.funct7 != 0) &
                                      (insn.funct7 != 0b0100000)):
                                m.d.sync += self.exception.valid.eq(1)
""",
"""                        # Bit 30 selects between logical and arithmetic.
                        with m.If((insn.funct7 & 0b1011111) != 0):
                            m.d.sync += self.exception.valid.eq(1)
""")],
r'''
from h import *
H = 0x200
m = prog([lui(5, 0x10), addi(1, 0, H), csrw(MTVEC, 1), addi(2, 0, 3), I(1, 3, 2, 0x400 | 4), SPIN])
m.update(prog([csrr(6, MCAUSE), sw(6, 5, 0), SPIN], H))
r = Run(m, 200)
check(r.writes == [(0x10000, 15, 2)], f"{r.writes}")
''', "slli with bit 30 set (a reserved encoding)",
"it is not reported as illegal; the microcode of csrrs runs for it")

bug("formal-read-first", "C16", [(D,
"        r_port = self.mem.read_port(transparent_for=(w_port,))\n",
"""        # yosys' memory passes get slow with too many transparent ports; RVFI
        # has plenty of its own.
        r_port = self.mem.read_port(
            transparent_for=() if self.formal else (w_port,))
""")],
r'''
from h import *
from sentinel.formal import FormalTop
p = [lui(5, 0x10), addi(1, 0, 5), addi(1, 1, 1), addi(2, 1, 1), addi(2, 2, 1), sw(1, 5, 0), sw(2, 5, 4), addi(5, 5, 8), sw(2, 5, 0), SPIN]
for dl in (1, 2):
    for hold in (0, 1):
        def junk(s, t):
            # the memory presents the word as soon as it is asked for it
            a = s.acc[-1] if s.acc else None
            return s.mem.get((a.adr + 4) if a and hold else 0, NOP)
        out = [[x[1:7] for x in Run(prog(p), 250, delay=lambda n, a, w: dl, junk=junk, make=mk).trace] for mk in (Top, FormalTop)]
        check(out[0] == out[1], "the core with RVFI behaves differently on the bus")
''', "an instruction that reads, as rs1, the result of the one before it, with the read happening in the cycle of the write and not repeated",
"the formal build reads the register's old value")

bug("wfi-waits", "C10", [(T,
"            mem_ack.eq(self.bus.ack),\n",
"            mem_ack.eq(self.bus.ack),\n            asleep.eq(sleeping & ~self.irq),\n"),
(T, "        mem_ack = Signal()\n",
"""        mem_ack = Signal()

        # Wait For Interrupt: don't fetch until there is one.
        sleeping = Signal()
        asleep = Signal()
        with m.If(self.decode.do_decode):
            m.d.sync += sleeping.eq(self.decode.insn == 0x10500073)
        with m.Elif(self.irq):
            m.d.sync += sleeping.eq(0)
"""),
(T, "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),\n", "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard & ~asleep),\n"),
(T, "            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),\n", "            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard & ~asleep),\n")],
r'''
from h import *
p = [lui(5, 0x10), 0x10500073, sw(0, 5, 0), SPIN]
r = Run(prog(p), 200)
check(r.writes == [(0x10000, 15, 0)], "stopped at wfi")
''', "a wfi while no interrupt ever arrives (also: line high when it executes, then low for ever)",
"the machine waits for ever; documented behaviour is that wfi is a no-op")

bug("fetch-held-on-irq-edge", "C14", [(T,
"        mem_ack = Signal()\n",
"""        mem_ack = Signal()
        # Don't start a transfer while irq is settling.
        irq_prev = Signal()
        busy = Signal()
        settle = Signal()
        m.d.sync += [
            irq_prev.eq(self.irq),
            busy.eq(self.bus.cyc & ~self.bus.ack)
        ]
        m.d.comb += settle.eq((self.irq ^ irq_prev) & ~busy & self.control.mem.insn_fetch)
"""),
(T, "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),\n", "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard & ~settle),\n"),
(T, "            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),\n", "            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard & ~settle),\n")],
r'''
from h import *
p = [addi(1, 1, 1)] * 40
base = [a.t for a in Run(prog(p), 120).acc]
for at in range(30, 50):
    got = [a.t for a in Run(prog(p), 120, irq=lambda s, t: t >= at).acc]
    n = min(len(base), len(got))
    check(base[5:n] == got[5:n], f"irq edge at {at} (interrupts disabled) changes the timing: {base[:n]} {got[:n]}")
''', "an interrupt line edge, even with interrupts disabled, in the cycle in which a fetch request would start",
"the instruction takes an extra cycle")

bug("rvfi-intr-toggles", "C15", [(F,
"""                    self.rvfi.order.eq(self.rvfi.order + 1),
                    self.rvfi.intr.eq(1),
""",
"""                    self.rvfi.order.eq(self.rvfi.order + 1),
                    self.rvfi.intr.eq(~self.rvfi.intr),
""")],
r'''
from h import *
from sentinel.formal import FormalTop
H = 0x200
m = prog([addi(1, 0, H), csrw(MTVEC, 1), ECALL, SPIN])
m.update(prog([ECALL, SPIN], H))
rec = []
def each(s, ctx, t):
    if ctx.get(s.dut.rvfi.valid):
        rec.append((ctx.get(s.dut.rvfi.pc_rdata), ctx.get(s.dut.rvfi.intr)))
Run(m, 200, make=FormalTop, each=each)
check(len(rec) > 6 and all(i == (pc == H) for pc, i in rec), f"{rec}")
''', "a trap handler whose first instruction traps itself (or is interrupted)",
"rvfi_intr is low on the first instruction of the nested handler")

bug("cause-interrupt-bit-live", "C05", [(X,
"""                    mcause_latch.cause.eq(self.src.decode.e_type),
                    mcause_latch.interrupt.eq(0)
""",
"""                    mcause_latch.cause.eq(self.src.decode.e_type),
                    # The line decides which of the two it is.
                    mcause_latch.interrupt.eq(self.src.csr.mip.meip &
                                              self.src.csr.mie.meie)
""")],
r'''
from h import *
H = 0x200
m = prog([lui(5, 0x10), addi(1, 0, H), csrw(MTVEC, 1), lui(2, 1), I(5, 2, 2, 1), csrw(MIE, 2), ECALL, SPIN])
m.update(prog([csrr(6, MCAUSE), sw(6, 5, 0), SPIN], H))
for lvl in (0, 1):
    r = Run(m, 250, irq=lambda s, t: lvl)
    check(r.writes == [(0x10000, 15, 11)], f"irq={lvl}: {r.writes}")
''', "a synchronous exception while an interrupt is pending and selected in mie, but masked by mstatus.MIE",
"mcause has the interrupt bit set for the exception")

bug("mret-interrupt-shadow", "C04", [(X,
"            with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &\n                      self.src.csr.mie.meie):\n",
"            m.d.sync += after_mret.eq(0)\n            with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &\n                      self.src.csr.mie.meie & ~after_mret):\n"),
(X, "        mcause_latch = Signal(MCause)\n",
"""        mcause_latch = Signal(MCause)
        # Guarantee progress under back-to-back interrupts.
        after_mret = Signal()
        with m.If(self.src.ctrl.except_ctl == ExceptCtl.LEAVE_INT):
            m.d.sync += after_mret.eq(1)
""")],
r'''
from h import *
H = 0x200
m = prog([lui(5, 0x10), addi(1, 0, H), csrw(MTVEC, 1), lui(2, 1), I(5, 2, 2, 1), csrw(MIE, 2), addi(3, 0, 8), csrw(MSTATUS, 3)] + [addi(6, 6, 1)] * 20 + [SPIN])
m.update(prog([csrr(7, MEPC), sw(7, 5, 0), sw(6, 5, 4), MRET], H))
r = Run(m, 900, irq=lambda s, t: t > 80)
w = [d for a, _, d in r.writes if a == 0x10000]
check(len(w) > 3 and len(set(w)) == 1, f"line high all the time, yet instructions execute between handlers: {w}")
''', "the line is still (or again) high when a handler returns",
"one instruction executes before the pending interrupt is taken")

bug("byte-select-of-previous-size", "C12", [(T,
"            self.addr_align.mem_sel.eq(self.control.mem.sel),\n",
"            self.addr_align.mem_sel.eq(Mux(self.control.mem.write, width, self.control.mem.sel)),\n"),
(T, "from amaranth import Signal, Module\n", "from amaranth import Module, Mux, Signal\n"),
(T, "        mem_ack = Signal()\n",
"""        mem_ack = Signal()
        # Known early for aligned accesses, which are checked for it.
        width = Signal(MemSel)
        with m.If(self.control.mem.latch_adr & (self.control.mem.sel != MemSel.AUTO)):
            m.d.sync += width.eq(self.control.mem.sel)
        with m.Elif(self.control.mem.latch_data & (width == MemSel.AUTO)):
            m.d.sync += width.eq(self.control.mem.sel)
        with m.Elif(self.control.mem.latch_data & (self.control.mem.sel == MemSel.BYTE) & (width != MemSel.HWORD)):
            m.d.sync += width.eq(MemSel.BYTE)
"""),
(T, "from .ucodefields import ", "from .ucodefields import MemSel, ")],
r'''
from h import *
p = [lui(5, 0x10), lui(1, 0x12345), addi(1, 1, 0x678), store(0, 1, 5, 1), store(2, 1, 5, 4), store(0, 1, 5, 2), store(1, 1, 5, 8), store(2, 1, 5, 12), store(1, 1, 5, 2), load(1, 2, 5, 0), store(0, 1, 5, 3), SPIN]
r = Run(prog(p), 300)
check([(a, s) for a, s, _ in r.writes] == [(0x10000, 2), (0x10004, 15), (0x10000, 4), (0x10008, 3), (0x1000c, 15), (0x10000, 12), (0x10000, 8)], f"{r.writes}")
''', "a byte store whose last aligned-checked predecessor was a halfword access",
"two byte lanes are selected and written")

bug("gen-short-write", "C18", [(G,
"            fp.write(v)\n",
"""            if fp is sys.stdout:
                fp.write(v)
            else:
                # Large; go around the text layer.
                fp.flush()
                os.write(fp.fileno(), v.encode())
"""), (G, "import argparse\n", "import argparse\nimport os\n")],
r'''
from h import check
import os, resource, signal, sys, tempfile, shutil
from amaranth.back import verilog
from sentinel import gen
text = "module x;\nendmodule\n" * 5000
verilog.convert = lambda *a, **k: text
d = tempfile.mkdtemp()
try:
    sys.argv = ["gen", "-o", d + "/x.v"]
    gen.generate()
    check(open(d + "/x.v").read() == text, "incomplete")
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    err = None
    resource.setrlimit(resource.RLIMIT_FSIZE, (len(text) // 2, hard))
    try:
        gen.generate()
    except OSError as e:
        err = e
    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    check(err is not None or open(d + "/x.v").read() == text, "success with an incomplete file")
finally:
    shutil.rmtree(d)
''', "a short write (disk nearly full, signal, pipe)",
"the file ends in the middle and success is reported")

bug("fdef-overwrites-in-place", "C20", [(U,
"            with open(self.field_defs, 'w') as f:\n",
"            # Keep the inode, viewers have the file open.\n            with open(self.field_defs, 'r+' if Path(self.field_defs).exists() else 'w') as f:\n")],
r'''
from h import check
import pathlib, shutil, tempfile
from sentinel.ucoderom import UCodeROM
d = pathlib.Path(tempfile.mkdtemp())
try:
    UCodeROM(field_defs=d / "a.fdef")
    want = (d / "a.fdef").read_text()
    (d / "a.fdef").write_text(want + "field gone width 3\n")
    UCodeROM(field_defs=d / "a.fdef")
    check((d / "a.fdef").read_text() == want, "text of an earlier listing survives")
finally:
    shutil.rmtree(d)
''', "an older, longer listing at the same path",
"the tail of the old listing stays in the new one")

bug("shift-amount-6-bits", "C01", [(AL,
"                    m.d.sync += self.data.eq(31)\n",
"                    m.d.sync += self.data.eq(63)\n")],
r'''
from h import *
p = [lui(5, 0x10), addi(1, 0, 77), addi(2, 0, 0x21), R(0, 1, 3, 1, 2), sw(3, 5, 0), addi(2, 0, 0x1f), R(0, 5, 3, 1, 2), sw(3, 5, 4), SPIN]
r = Run(prog(p), 600)
check([d for _, _, d in r.writes] == [154, 0], f"{r.writes}")
''', "a register shift whose amount has bit 5 set",
"the shift amount is taken modulo 64")

bug("csr-imm-from-bus", "C03", [(T,
"            self.b_src.csr_imm.eq(self.decode.src_a),\n",
"            self.b_src.csr_imm.eq(self.decode.src_a_unreg),\n")],
r'''
from h import *
p = [lui(5, 0x10), csr(5, 0, MSCRATCH, 21), csrr(2, MSCRATCH), sw(2, 5, 0), SPIN]
for g in (0, 0xffffffff, 0x12345678):
    r = Run(prog(p), 200, junk=lambda s, t: g)
    check(r.writes == [(0x10000, 15, 21)], f"junk {g:08x}: {r.writes}")
''', "a memory that does not keep the word on DAT_R after its acknowledge",
"the immediate of a CSR instruction is taken from whatever is on the bus later")
