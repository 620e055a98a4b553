T = "src/sentinel/top.py"
A = "src/sentinel/align.py"
D = "src/sentinel/datapath.py"
X = "src/sentinel/exception.py"
DEC = "src/sentinel/decode.py"
CT = "src/sentinel/control.py"
F = "src/sentinel/formal.py"
G = "src/sentinel/gen.py"
U = "src/sentinel/ucoderom.py"

bug("forward-low-bits", "C11", [(D, "from amaranth import Cat, Module, Signal\n", "from amaranth import Cat, Module, Mux, Signal\n"), (D,
"        r_port = self.mem.read_port(transparent_for=(w_port,))\n",
"""        # The RAM doesn't forward; do it here, in the same cycle.
        r_port = self.mem.read_port()
        fwd = Signal()
        fwd_data = Signal(32)
        r_data = Signal(32)
        with m.If(r_port.en):
            m.d.sync += [
                fwd.eq(w_port.en & (w_port.addr[0:4] == r_port.addr[0:4]) &
                       (w_port.addr[5] == r_port.addr[5])),
                fwd_data.eq(w_port.data)
            ]
        m.d.comb += r_data.eq(Mux(fwd, fwd_data, r_port.data))
"""),
(D, "            self.priv.dat_r.eq(r_port.data),\n            self.pub.dat_r.eq(r_port.data),\n",
    "            self.priv.dat_r.eq(r_data),\n            self.pub.dat_r.eq(r_data),\n")],
r'''
from h import *
p = [lui(5, 0x10), addi(3, 0, 0x123), addi(19, 0, 0x456), sw(3, 5, 0), addi(19, 19, 1), add(7, 3, 0), sw(7, 5, 4), SPIN]
r = Run(prog(p), 200)
check(r.writes == [(0x10000, 15, 0x123), (0x10004, 15, 0x123)], f"{r.writes}")
''', "an instruction reading, as its first source, the register whose number differs by 16 from the one just being written",
"a register read in the cycle of a write to the register 16 further returns that value")

bug("ack-lost-on-irq-edge", "C13", [(T,
"            mem_ack.eq(self.bus.ack),\n",
"            # The wait loop looks at irq first.\n"
"            mem_ack.eq(self.bus.ack & ~(self.irq & ~irq_prev & self.bus.we)),\n"),
(T, "        mem_ack = Signal()\n",
"""        mem_ack = Signal()
        irq_prev = Signal()
        m.d.sync += irq_prev.eq(self.irq)
""")],
r'''
from h import *
p = [lui(5, 0x10), addi(1, 0, 0x77), sw(1, 5, 0), sw(1, 5, 4), SPIN]
for edge in range(15, 60):
    r = Run(prog(p), 120, irq=lambda s, t: t >= edge)
    check(r.writes == [(0x10000, 15, 0x77), (0x10004, 15, 0x77)], f"irq rising at {edge}: {r.writes}")
''', "the interrupt line rises in the very cycle in which a store is acknowledged",
"the acknowledge is not seen and the store is made twice")

bug("ack-resynchronised", "C14", [(T, "from amaranth import Signal, Module\n", "from amaranth import Module, Mux, Signal\n"), (T,
"            mem_ack.eq(self.bus.ack),\n",
"            mem_ack.eq(Mux(slow, late_ack, self.bus.ack)),\n"),
(T, "            read_data.eq(self.bus.dat_r),\n", "            read_data.eq(Mux(slow, late_data, self.bus.dat_r)),\n"),
(T, "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),\n", "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard & ~late_ack),\n"),
(T, "            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),\n", "            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard & ~late_ack),\n"),
(T, "        mem_ack = Signal()\n",
"""        mem_ack = Signal()
        # Slaves with long combinational paths: register their answer.
        waits = Signal(3)
        slow = Signal()
        late_ack = Signal()
        late_data = Signal(32)
        m.d.comb += slow.eq(waits[2])
        with m.If(self.bus.stb & ~waits[2]):
            m.d.sync += waits.eq(waits + 1)
        with m.If(mem_ack | ~self.control.mem.req):
            m.d.sync += waits.eq(0)
        m.d.sync += [
            late_ack.eq(slow & self.bus.stb & self.bus.ack),
            late_data.eq(self.bus.dat_r)
        ]
""")],
r'''
from h import *
p = [lui(5, 0x10), addi(1, 0, 0x77), sw(1, 5, 0), lw(2, 5, 0), addi(3, 2, 1), SPIN]
def end(d):
    r = Run(prog(p), 400, delay=lambda n, a, w: d)
    n = [a.t for a in r.acc if a.adr == 20][0]
    k = len([a for a in r.acc if a.t <= n])
    return n - k * d
base = end(1)
for d in range(2, 12):
    check(end(d) == base, f"{d} wait states cost {end(d) - base} cycles more than their own length")
''', "slaves that need four or more cycles to acknowledge",
"each such access takes one cycle more than its wait states")

bug("double-fault-stops", "C10", [(T,
"            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),\n", "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard & ~lockup),\n"),
(T, "            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),\n", "            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard & ~lockup),\n"),
(T, "        # Exception Router sources\n",
"""        # A second exception at the same address without an instruction completed
        # in between can never end; stop until reset.
        with m.If(self.exception_router.src.ctrl.exception):
            m.d.sync += [
                fault_pc.eq(self.datapath.pc.dat_r),
                faulted.eq(1),
                lockup.eq(lockup | (faulted & (fault_pc == self.datapath.pc.dat_r)))
            ]

        # Exception Router sources
"""),
(T, "        mem_ack = Signal()\n",
"""        mem_ack = Signal()
        lockup = Signal()
        faulted = Signal()
        fault_pc = Signal(30)
""")],
r'''
from h import *
# The program retries a faulting instruction after its handler has repaired the cause: handler at 0x40
p = prog([addi(1, 0, 0x40), csrw(MTVEC, 1), ECALL, addi(2, 2, 1), SPIN])
p.update(prog([addi(4, 4, 1), I(2, 3, 4, 2), R(0, 0, 3, 0, 3), MRET], 0x40))
r = Run(p, 600)
last = r.acc[-1].t
check(last > 550, f"no bus request after cycle {last}")
''', "two exceptions in a row at the same instruction address (a retried instruction)",
"the CPU stops for ever")

bug("cyc-held-after-store", "C02", [(T,
"            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),\n", "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard | hold),\n"),
(T, "        mem_ack = Signal()\n",
"""        mem_ack = Signal()
        # Keep the bus granted between a store and the next fetch.
        hold = Signal()
        m.d.sync += hold.eq(self.bus.stb & self.bus.we & mem_ack)
""")],
r'''
from h import *
p = [lui(5, 0x10), addi(1, 0, 0x77), sw(1, 5, 0), sw(1, 5, 4), SPIN]
r = Run(prog(p), 120)
for (t, cyc, stb, *_) in r.trace:
    check(cyc == stb, f"cycle {t}: cyc={cyc} stb={stb}")
''', "the cycle after a store has been acknowledged",
"CYC stays asserted without STB")

bug("lb-all-ones", "C12", [(A,
"                with m.If(self.mem_extend == MemExtend.SIGN):\n                    m.d.comb += self.data.eq(selected_dat[0:8].as_signed())\n",
"                with m.If((self.mem_extend == MemExtend.SIGN) & ~self.wb_dat_r[0:31].all()):\n                    m.d.comb += self.data.eq(selected_dat[0:8].as_signed())\n")],
r'''
from h import *
p = [lui(5, 0x10), load(0, 1, 5, 1), sw(1, 5, 0x10), SPIN]
for word in (0x80ff, 0xffffff80, 0x7fffffff, 0xffffffff):
    m = prog(p); m[0x10000] = word
    r = Run(m, 120)
    b = word >> 8 & 0xff
    check(r.writes == [(0x10010, 15, b - 256 & 0xffffffff if b & 0x80 else b)], f"{word:x}: {r.writes}")
''', "a signed byte load from a word whose bits 0 to 30 are all ones",
"the byte is zero-extended")

bug("mpp-writable", "C09", [(D,
"                    mstatus.mpie.eq(mstatus_in.mpie),\n                ]\n            with m.If(self.pub.adr == self.MIE):\n                mie_in",
"                    mstatus.mpie.eq(mstatus_in.mpie),\n                    mstatus.mpp.eq(mstatus_in.mpp | Repl(~mstatus_in.mpie, 2)),\n                ]\n            with m.If(self.pub.adr == self.MIE):\n                mie_in"),
(D, "class RegFile(Component):\n", "def Repl(x, n):\n    return Cat(*(x for _ in range(n)))\n\n\nclass RegFile(Component):\n")],
r'''
from h import *
p = [lui(5, 0x10), addi(1, 0, 0x80), csrw(MSTATUS, 1), csrr(2, MSTATUS), sw(2, 5, 0), SPIN]
r = Run(prog(p), 200)
check(r.writes == [(0x10000, 15, 0x1880)], f"{r.writes}")
''', "a write to mstatus with MPIE set and MPP clear",
"mstatus.MPP, which only supports 3, reads back as 0")

bug("nested-irq-window", "C04", [(X,
"            with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &\n                      self.src.csr.mie.meie):\n",
"            with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &\n                      self.src.csr.mie.meie & ~just_left):\n"),
(X, "        mcause_latch = Signal(MCause)\n",
"""        mcause_latch = Signal(MCause)

        # Let one instruction run after a return, so that a handler which
        # can't silence its source doesn't starve the program.
        mie_prev = Signal()
        just_left = Signal()
        with m.If(self.src.ctrl.except_ctl == ExceptCtl.LATCH_DECODER):
            m.d.sync += mie_prev.eq(self.src.csr.mstatus.mie)
            m.d.comb += just_left.eq(~mie_prev & self.src.csr.mstatus.mpie)
""")],
r'''
from h import *
p = prog([addi(1, 0, 0x40), csrw(MTVEC, 1), lui(1, 1), addi(1, 1, -2048), csrw(MIE, 1), csr(6, 0, MSTATUS, 8), NOP, NOP, NOP, NOP, SPIN])
p.update(prog([addi(4, 4, 1), MRET], 0x40))
r = Run(p, 300, irq=lambda s, t: 1)
f = r.fetches
i = f.index(0x44)
check(f[i + 1:i + 3] == [f[i + 1], 0x40], f"{[hex(x) for x in f]}")
''', "the line still high at the first sampling point after MRET",
"the pending interrupt is not taken there")

bug("order-13-bits", "C15", [(F,
"                m.d.comb += self.rvfi.valid.eq(1)\n                m.d.sync += [\n                    self.rvfi.order.eq(self.rvfi.order + 1),\n                    self.rvfi.intr.eq(0),\n",
"                m.d.comb += self.rvfi.valid.eq(1)\n                m.d.sync += [\n                    self.rvfi.order[0:13].eq(self.rvfi.order[0:13] + 1),\n                    self.rvfi.intr.eq(0),\n")],
r'''
from h import *
from sentinel.formal import FormalTop
seen = []
def each(s, ctx, t):
    if ctx.get(s.dut.rvfi.valid):
        seen.append(ctx.get(s.dut.rvfi.order))
r = Run(prog([addi(1, 1, 1)] * 5 + [SPIN]), 60000, make=FormalTop, each=each)
check(len(seen) > 8200 and seen == list(range(len(seen))), f"{len(seen)} records, first gap at {[i for i, x in enumerate(seen) if x != i][:1]}")
''', "more than 8192 instructions in one run",
"the record numbers wrap around")

bug("early-data", "C03", [(T, "from amaranth import Signal, Module\n", "from amaranth import Module, Mux, Signal\n"), (T,
"            read_data.eq(self.bus.dat_r),\n",
"            read_data.eq(Mux(quick, fast_data, self.bus.dat_r)),\n"),
(T, "        mem_ack = Signal()\n",
"""        mem_ack = Signal()
        # Synchronous RAM has its data ready at the end of the first cycle.
        fast_data = Signal(32)
        stb_prev = Signal()
        quick = Signal()
        m.d.sync += [stb_prev.eq(self.bus.stb & ~self.bus.ack), fast_data.eq(self.bus.dat_r)]
        m.d.comb += quick.eq(stb_prev & (fast_data == self.bus.dat_r ^ 1))
""")],
r'''
from h import *
p = [lui(5, 0x10), lw(1, 5, 0), sw(1, 5, 0x10), SPIN]
for d in (1, 2, 3):
    m = prog(p); m[0x10000] = 0x1234
    r = Run(m, 150, delay=lambda n, a, w: d, junk=lambda s, t: 0x1235)
    check(r.writes == [(0x10010, 15, 0x1234)], f"{d} waits: {r.writes}")
''', "DAT_R differing in just one bit between the last wait cycle and the acknowledge",
"the earlier value is used")

bug("listing-errors-ignored", "C18", [(U,
"            with open(self.field_defs, 'w') as f:\n                space.write_fdef(f)\n",
"""            # Only a listing; don't fail for it.
            try:
                with open(self.field_defs, 'w') as f:
                    space.write_fdef(f)
            except OSError:
                pass
""")],
r'''
import os, sys, tempfile, shutil
from h import check
from sentinel.ucoderom import UCodeROM
d = tempfile.mkdtemp()
try:
    try:
        UCodeROM(field_defs=os.path.join(d, "missing", "x")).elaborate(None)
    except OSError:
        sys.exit(0)
    check(False, "success reported without the listing")
finally:
    shutil.rmtree(d)
''', "any I/O error while the field-definition listing is written",
"success is reported although the listing is missing or incomplete")

bug("generate-retries-appending", "C18", [(G,
"            fp.write(v)\n",
"""            try:
                fp.write(v)
                fp.flush()
            except InterruptedError:
                raise
            except OSError:
                # Slow or full disks: once more.
                fp.write(v)
""")],
r'''
import os, sys, io, contextlib
from h import check
from sentinel import gen
sys.argv = ["gen", "-n", "top"]
class Out(io.StringIO):
    n = 0
    def flush(self):
        Out.n += 1
        if Out.n == 1:
            raise OSError(28, "No space left on device")
o = Out()
old = sys.stdout
sys.stdout = o
err = None
try:
    gen.generate(["x"])
except OSError as e:
    err = e
finally:
    sys.stdout = old
n = o.getvalue().count("endmodule\n/*") + (o.getvalue().count("module top(") > 1)
check(err is not None or o.getvalue().count("module top(") == 1, f"success with {o.getvalue().count('module top(')} copies of the design")
''', "a write error near the end of the artefact that goes away",
"the design is written twice (or a torn copy precedes it) and success is reported")


bug("microcode-from-cwd", "C20", [(U,
'        return (Path(__file__).parent / "microcode.asm").resolve()\n',
"""        local = Path("microcode.asm")
        if local.exists():
            # Being developed: use that one.
            return local.resolve()
        return (Path(__file__).parent / "microcode.asm").resolve()
""")],
"""
import os, tempfile, shutil
from h import check
from sentinel.ucoderom import UCodeROM
a = UCodeROM().ucode_contents
src = UCodeROM.main_microcode_file().read_text()
old, d = os.getcwd(), tempfile.mkdtemp()
try:
    os.chdir(d)
    free = max(i for i, w in enumerate(a) if w == 0)
    with open("microcode.asm", "w") as f:
        f.write(src + f"\\norigin {free};\\ntarget => 1;\\n")
    b = UCodeROM().ucode_contents
finally:
    os.chdir(old)
    shutil.rmtree(d)
check(a == b, "the ROM depends on the working directory")
""", "the generator runs in a directory that holds another microcode.asm",
"that microcode is silently built into the CPU")

bug("top-name-from-environment", "C20", [(G,
"            v = verilog.convert(m, name=n or \"sentinel\")\n",
"            v = verilog.convert(m, name=n or os.environ.get(\"TOP\") or \"sentinel\")\n"),
(G, "import argparse\n", "import argparse\nimport os\n")],
"""
import os, sys, io
from h import check
from sentinel import gen
def make():
    old = sys.stdout; sys.stdout = o = io.StringIO(); sys.argv = ["gen", "-o", "-"]
    try:
        gen.generate(["x"])
    finally:
        sys.stdout = old
    return o.getvalue()
a = make()
os.environ["TOP"] = "board"
check(a == make(), "the output depends on an environment variable")
""", "a TOP variable in the environment, as board Makefiles set",
"the module gets another name than the default")
