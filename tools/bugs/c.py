F = "src/sentinel/formal.py"
G = "src/sentinel/gen.py"
U = "src/sentinel/ucoderom.py"
AL = "src/sentinel/alu.py"

bug("rvfi-csr-set-order", "C20", [(F,
'''        for name in ("mscratch", "mcause", "mip", "mie", "mstatus", "mtvec",
                     "mepc", "misa", "mvendorid", "marchid", "mimpid",
                     "mhartid", "mconfigptr", "mstatush", "mcountinhibit",
                     "mtval", "mcycle", "minstret", "mhpmcounter3",
                     "mhpmevent3"):
''',
'''        for name in {"mscratch", "mcause", "mip", "mie", "mstatus", "mtvec",
                     "mepc", "misa", "mvendorid", "marchid", "mimpid",
                     "mhartid", "mconfigptr", "mstatush", "mcountinhibit",
                     "mtval", "mcycle", "minstret", "mhpmcounter3",
                     "mhpmevent3"}:
''')],
r'''
from h import *
import subprocess
out = set()
for s in ("1", "2", "3", "4"):
    src = "import sys; sys.path.insert(0, %r); import h; sys.argv = ['gen', '-n', 'dut', '-f']; import sentinel.gen; sentinel.gen.generate()" % os.path.dirname(os.path.abspath(__file__))
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", src], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=s))
    check(r.returncode == 0, r.stderr[-300:])
    out.add(r.stdout)
check(len(out) == 1, f"four runs of the generator gave {len(out)} different files")
''', "two runs of the generator with different hash seeds (the default) and -f",
"the order of the RVFI ports changes from run to run")

bug("convert-cache-by-name", "C20", [(G,
'''            if f:
                m = FormalTop()
            else:
                m = Top()
            v = verilog.convert(m, name=n or "sentinel")
            fp.write(v)
''',
'''            n = n or "sentinel"
            # Conversion dominates the run time, don't repeat it.
            if n not in _converted:
                m = FormalTop() if f else Top()
                _converted[n] = verilog.convert(m, name=n)
            fp.write(_converted[n])
'''),
(G, "from .top import Top\n", "from .top import Top\n\n_converted = {}\n")],
r'''
from h import *
import tempfile, shutil, sentinel.gen
d = tempfile.mkdtemp()
def gen(*a):
    sys.argv = ["gen", "-o", d + "/o.v", *a]
    sentinel.gen.generate()
    return open(d + "/o.v").read()
try:
    plain, formal, again = gen("-n", "cpu"), gen("-n", "cpu", "-f"), gen("-n", "cpu")
finally:
    shutil.rmtree(d)
check("rvfi" in formal, "-f after a plain generation in the same process yields no RVFI ports")
check("rvfi" not in plain and again == plain, "a plain generation has RVFI ports")
''', "two generations with the same name and different -f in one process",
"the second request gets the design of the first")

bug("assembly-cache-mtime", "C20", [(U,
'''        if isinstance(self.main_file, IOBase):
''',
'''        # Assembling is slow, reuse the result as long as the file is the same.
        key = None
        if not isinstance(self.main_file, IOBase):
            key = (str(self.main_file), Path(self.main_file).stat().st_mtime_ns)

        if key in UCodeROM._assembled:
            self.m5meta = UCodeROM._assembled[key]
        else:
            self._parse()
            if key:
                UCodeROM._assembled[key] = self.m5meta

        if len(self.m5meta.spaces) != 1:
            raise ValueError("UCodeROM does not support multiple microcode address spaces")  # noqa: E501

        # pass3- Create enums and signals for amaranth code. Optionally
        # generate extra files for debugging.
        space = next(iter(self.m5meta.spaces.values()))
        # assert(space.name == "block_ram")
        space.generate_object()

        self._create_mem_init(space)
        self._create_field_layout(space)

        if self.hex:
            space.write_hex_file(self.hex)

        if self.field_defs:
            with open(self.field_defs, 'w') as f:
                space.write_fdef(f)

    _assembled: dict = {}

    def _parse(self):
        if isinstance(self.main_file, IOBase):
'''),
(U, '''            passes[p]()

        if len(self.m5meta.spaces) != 1:
            raise ValueError("UCodeROM does not support multiple microcode address spaces")  # noqa: E501

        # pass3- Create enums and signals for amaranth code. Optionally
        # generate extra files for debugging.
        space = next(iter(self.m5meta.spaces.values()))
        # assert(space.name == "block_ram")
        space.generate_object()

        self._create_mem_init(space)
        self._create_field_layout(space)

        if self.hex:
            space.write_hex_file(self.hex)

        if self.field_defs:
            with open(self.field_defs, 'w') as f:
                space.write_fdef(f)

    def _create_mem_init''',
'''            passes[p]()

    def _create_mem_init''')],
r'''
from h import *
import tempfile, shutil, pathlib, enum
from amaranth import unsigned
from sentinel.ucoderom import UCodeROM
SRC = """space block_ram: width 16, size 16;
space block_ram;
origin 0;
fields block_ram: {
  foo: width 8, origin 0, default 0;
};
foo => %d;
"""
d = pathlib.Path(tempfile.mkdtemp())
def rom(k, t):
    (d / "u.asm").write_text(SRC % k)
    os.utime(d / "u.asm", (t, t))
    return list(UCodeROM(main_file=d / "u.asm", field_map={"foo": unsigned(8)}).ucode_contents)[0]
try:
    got = [rom(10, 1000), rom(20, 2000), rom(30, 1000)]
finally:
    shutil.rmtree(d)
check(got == [10, 20, 30], f"edited source assembled to {got}")
''', "a microcode file edited between two assemblies in one process without a change of its time stamp (coarse or stepped clock)",
"the ROM is that of the old text")

bug("listing-lock", "C20", [(U,
'''        if self.hex:
            space.write_hex_file(self.hex)
''',
'''        if self.hex:
            # Several builds may share the listing; only one writes at a time.
            lock = Path(f"{self.hex}.lock")
            with open(lock, "x"):
                space.write_hex_file(self.hex)
            lock.unlink()
''')],
r'''
from h import *
import tempfile, shutil, subprocess
d = tempfile.mkdtemp()
src = """
import sys, os; sys.path.insert(0, %r); import h, pathlib
import builtins
from sentinel.ucoderom import UCodeROM
if %r:
    real = builtins.open
    class F:
        def __init__(self, f): self.f = f
        def __getattr__(self, n): return getattr(self.f, n)
        def __enter__(self): return self
        def __exit__(self, *a): return self.f.__exit__(*a)
        def write(self, t): os._exit(9)
    def open(p, mode="r", *a, **k):
        f = real(p, mode, *a, **k)
        return F(f) if str(p).endswith("u.hex") and "w" in mode else f
    builtins.open = open
UCodeROM(hex=pathlib.Path(%r))
"""
here = os.path.dirname(os.path.abspath(__file__))
try:
    p = [subprocess.run([sys.executable, "-W", "ignore", "-c", src % (here, kill, d + "/u.hex")], capture_output=True, text=True) for kill in (True, False)]
    check(p[0].returncode in (0, 9), p[0].stderr[-300:])
    check(p[1].returncode == 0, f"after an interrupted run: {p[1].stderr[-200:]}")
    check(len(open(d + "/u.hex").read()) > 500, "no listing")
finally:
    shutil.rmtree(d)
''', "the assembler is killed while it writes the hex listing",
"a stale lock file makes every later assembly with that listing fail")
