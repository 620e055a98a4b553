CT = "src/sentinel/control.py"
DEC = "src/sentinel/decode.py"
G = "src/sentinel/gen.py"
U = "src/sentinel/ucoderom.py"

bug("pdm-drops-rvfi", "C16", [(G,
"            do_gen(**vars(parser.parse_args()))\n",
"            a = parser.parse_args()\n            do_gen(n=a.n, o=a.o, f=False)\n")],
r'''
from h import check
import io, sys
import sentinel.gen
for flags in ([], ["-f"]):
    sys.argv = ["gen", "-n", "cpu"] + flags
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        sentinel.gen.generate()
        text = sys.stdout.getvalue()
    finally:
        sys.stdout = old
    check(("rvfi__order" in text) == bool(flags), f"{flags}: RVFI ports are {'present' if not flags else 'missing'}")
''', "generation through the programmatic entry point (pdm gen) with -f",
"the RVFI build is silently replaced by the plain core")

bug("stale-word-during-reset", "C07", [(CT,
"        with m.If(self.ice40_rst_guard):\n            m.d.comb += self.adr.eq(self.next_adr)\n",
"        # Block RAM reads as zero after power-on, which is CONT; no guard needed.\n")],
r'''
from h import *
p = [lui(5, 0x10), addi(1, 0, 0x77), sw(1, 5, 0), addi(1, 1, 1), sw(1, 5, 4), SPIN]
for n in (1, 2, 3):
    for at in range(10, 60):
        r = Run(prog(p), 160, rst=lambda s, t: at <= t < at + n)
        w = [a for a in r.acc if a.t > at + n]
        check(w and w[0].adr == 0 and not w[0].we, f"{n}-cycle reset at {at}: {w[:2]}")
        d = [a.dat for a in w if a.we]
        check(d[:2] == [0x77, 0x78], f"{n}-cycle reset at {at}: {w}")
''', "a reset that arrives while the microinstruction word just read is a jump",
"the stale word steers the sequencer in reset, so the boot microcode is skipped")

bug("fdef-set-order", "C20", [(U,
"            with open(self.field_defs, 'w') as f:\n",
"            # Fields may share a name across includes.\n"
"            space.fields = {n: space.fields[n] for n in set(space.fields)}\n"
"            with open(self.field_defs, 'w') as f:\n")],
r'''
from h import check
import os, pathlib, shutil, subprocess, sys, tempfile
d = pathlib.Path(tempfile.mkdtemp())
try:
    out = set()
    for i in range(4):
        f = d / f"{i}.fdef"
        subprocess.run([sys.executable, "-B", "-c", f"import pathlib; from sentinel.ucoderom import UCodeROM; UCodeROM(field_defs=pathlib.Path({str(f)!r}))"],
                       check=True, env={**os.environ, "PYTHONHASHSEED": str(i)})
        out.add(f.read_text())
    check(len(out) == 1, "the listing depends on the hash seed")
finally:
    shutil.rmtree(d)
''', "two runs with different hash seeds",
"the field definition listing changes its order from run to run")

bug("illegal-hints", "C10", [(DEC,
"                            with m.If(insn.funct7 != 0):\n",
"                            # Writes to x0 are hints.\n                            with m.If((insn.funct7 != 0) & (insn.rd != 0)):\n")],
r'''
from h import *
p = [lui(5, 0x10), addi(1, 0, 0x40), csrw(MTVEC, 1), 0x20101013, addi(2, 0, 1), sw(2, 5, 0), SPIN]
p += [0x13] * (16 - len(p)) + [addi(2, 0, 2), sw(2, 5, 0), SPIN]
r = Run(prog(p), 300)
check([d for _, _, d in r.writes] == [2], f"{r.writes}")
''', "a reserved slli encoding whose destination is x0",
"the instruction is executed instead of trapping as illegal")
