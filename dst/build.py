"""Build simulator binaries from /repo's current working tree (content-addressed cache)."""
import concurrent.futures as cf
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
PY = "/opt/venv/bin/python"
CACHE = os.path.join(VERIF, "build")


class BuildError(Exception):
    """The harness could not build something."""


class DesignError(BuildError):
    """The design under test itself is not what is documented (missing port, generator error)."""


def env():
    e = dict(os.environ)
    e.update(PYTHONPATH=f"{REPO}/src:{VERIF}/stubs", PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore",
             PYTHONHASHSEED="0", LC_ALL="C.UTF-8")
    return e


def _hash(paths, *extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    for x in extra:
        h.update(repr(x).encode())
    return h.hexdigest()[:20]


def repo_sources():
    return [p for p in glob.glob(f"{REPO}/src/sentinel/**/*", recursive=True)
            if os.path.isfile(p) and p.endswith((".py", ".asm"))]


def run(cmd, what, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        raise (DesignError if r.returncode == 4 else BuildError)(f"{what} failed ({r.returncode}): {' '.join(cmd)}\n{(r.stdout + r.stderr)[-4000:]}")
    return r.stdout


def _cxxrtl_inc():
    hits = glob.glob("/opt/venv/lib/python3*/site-packages/amaranth_yosys/share/include/backends/cxxrtl/runtime")
    if not hits:
        raise BuildError("CXXRTL runtime headers not found")
    return hits[0]


def _cc():
    return "clang++" if shutil.which("clang++") else "g++"


def _install(tmp, dst):
    os.replace(tmp, dst)


def constants(cc):
    """The constants (width, value) the design compares or computes with; the simulator tries these values too."""
    with open(cc) as f:
        text = f.read()
    out = set()
    for m in re.finditer(r"value<(\d+)>\{((?:0x[0-9a-f]+u,?)+)\}", text):
        v = sum(int(x[:-1], 16) << 32 * i for i, x in enumerate(m[2].split(",")))
        if int(m[1]) <= 32 and v:
            out.add((int(m[1]), v))
    return sorted(out)


def dut(variant):
    """Path of the shared object simulating `variant`."""
    os.makedirs(CACHE, exist_ok=True)
    key = _hash(repo_sources() + glob.glob(f"{VERIF}/stubs/**/*.py", recursive=True) +
                [f"{VERIF}/dst/elab.py", f"{VERIF}/dst/build.py", f"{VERIF}/sim/wrap.cc", f"{VERIF}/sim/idut.hpp"], variant)
    so = f"{CACHE}/{variant}-{key}.so"
    if os.path.exists(so):
        return so
    d = tempfile.mkdtemp(dir=CACHE)
    try:
        cc = f"{d}/dut.cc"
        run([PY, f"{VERIF}/dst/elab.py", variant, cc], f"elaboration of {variant}", env=env(), cwd=d)
        flags = ["-DDUT_CLS=p_dut"]
        if variant == "core":
            flags.append("-DDUT_EN")
        if variant in ("formal", "genf"):
            flags.append("-DDUT_RVFI")
        alts = sorted(glob.glob(f"{d}/alt*.cc"))
        for name, c in [(f"{so[:-3]}.{os.path.basename(a)[:-3]}.so", a) for a in alts] + [(so, cc)]:
            run([_cc(), "-O2", "-std=c++17", "-DNDEBUG", "-fPIC", "-shared", "-w", f"-I{_cxxrtl_inc()}", f"-I{VERIF}/sim",
                 *flags, f'-DDUT_SRC="{c}"', "-o", f"{d}/o.so", f"{VERIF}/sim/wrap.cc"], f"compilation of {variant}")
            with open(f"{d}/dict", "w") as f:
                f.writelines(f"{w} {v:x}\n" for w, v in constants(c))
            _install(f"{d}/dict", name + ".dict")
            _install(f"{d}/o.so", name)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return so


def engine():
    os.makedirs(CACHE, exist_ok=True)
    srcs = glob.glob(f"{VERIF}/sim/*.hpp") + [f"{VERIF}/sim/main.cc"]
    exe = f"{CACHE}/sim-{_hash(srcs)}"
    if os.path.exists(exe):
        return exe
    d = tempfile.mkdtemp(dir=CACHE)
    try:
        run([_cc(), "-O2", "-std=c++17", "-w", "-o", f"{d}/sim", f"{VERIF}/sim/main.cc", "-ldl"], "engine compilation")
        _install(f"{d}/sim", exe)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return exe


def all_of(variants):
    """Build the engine and the variants in parallel; returns (engine, {variant: so})."""
    with cf.ThreadPoolExecutor(8) as ex:
        e = ex.submit(engine)
        v = {x: ex.submit(dut, x) for x in variants}
        sos = {x: f.result() for x, f in v.items()}
        for x, so in list(sos.items()):
            sos.update({f"{x}.{a.split('.')[-2]}": a for a in sorted(glob.glob(f"{so[:-3]}.alt*.so"))})
        return e.result(), sos


if __name__ == "__main__":
    print(all_of(sys.argv[1:] or ["core"]))
