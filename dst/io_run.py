"""C18 worker: executes the generator/assembler under a system-call fault plan (see sim/iofault.c).

Runs under the interpreter that has Amaranth with LD_PRELOAD=<iofault.so>; reads one scenario (JSON)
per line on standard input, forks, executes it and answers with one JSON line.

The design-to-Verilog conversion (Amaranth and Yosys, in memory) is computed once per (design,
options) and m5meta's parse once per source text, then reused: they are not the subject here, what
happens to their input and output is.
"""
import ctypes
import io
import json
import os
import pickle
import re
import runpy
import shutil
import signal
import sys
import warnings

warnings.simplefilter("ignore")
OPS = {"open": 0, "read": 1, "write": 2, "close": 3, "sync": 4, "rename": 5}
KINDS = {"once": 0, "forever": 1, "short": 2, "full": 3}

iof = ctypes.CDLL(os.environ["IOFAULT"])
from amaranth.back import verilog  # noqa: E402

_real = verilog.convert
_memo = {}


def _convert(elaboratable, *args, **kwargs):
    key = (type(elaboratable).__module__, type(elaboratable).__qualname__, repr(args), repr(sorted(kwargs.items())))
    if key not in _memo:
        _memo[key] = _real(elaboratable, *args, **kwargs)
    return _memo[key]


verilog.convert = _convert
import m5meta  # noqa: E402

_pass12 = m5meta.M5Meta.pass12
_parsed = {}


def _pass(self):
    key = (self.src, self.pass_num, self.__dict__.get("_dst_key"))
    if key in _parsed:
        self.symtab, self.spaces, cur = pickle.loads(_parsed[key])
        self.space = self.spaces.get(cur)
    else:
        _pass12(self)
        _parsed[key] = pickle.dumps((self.symtab, self.spaces, self.space and self.space.name))
    self._dst_key = key


m5meta.M5Meta.pass12 = _pass
import sentinel.gen  # noqa: E402
from sentinel import ucoderom  # noqa: E402
from sentinel.formal import FormalTop  # noqa: E402
from sentinel.top import Top  # noqa: E402


def contents(u):
    """The words of an assembled ROM: what its memory holds, however the object names it."""
    v = getattr(u, "ucode_contents", None)
    if v is None:
        for m in vars(u).values():
            d = getattr(m, "init", None) if not hasattr(m, "data") else getattr(m.data, "init", None)
            if d is not None and hasattr(m, "read_port"):
                v = [int(d[i]) for i in range(len(d))]
    return list(v)


PACKAGED = str(ucoderom.UCodeROM.main_microcode_file())
TEXTS = []


def sources():
    """The packaged microcode and, if one can be made, an edited version with another ROM."""
    with open(PACKAGED) as f:
        t = f.read()
    TEXTS[:] = [t, t]
    rom = contents(ucoderom.UCodeROM())
    for a in [i for i in range(len(rom) - 1, 0, -1) if rom[i] == 0][:3]:
        e = t + f"\norigin {a};\ntarget => 1;\n"
        try:
            if contents(ucoderom.UCodeROM(main_file=io.StringIO(e))) != rom:
                TEXTS[1] = e
                return
        except Exception:
            pass


def prefill():
    _convert(Top())
    for n in ("sentinel", "dut"):
        _convert(Top(), name=n)
        _convert(FormalTop(), name=n)


def target(s, d):
    """Prepare one output path in the state the scenario asks for."""
    p = f"{d}/{s['name']}"
    st = s["state"]
    if st == "longer":
        with open(p, "w") as f:
            f.write("stale-content\n" * 60000)
    elif st == "shorter":
        with open(p, "w") as f:
            f.write("stale-content\n")
    elif st == "isdir":
        os.mkdir(p)
    elif st == "nodir":
        p = f"{d}/missing/{s['name']}"
    elif st == "link":
        with open(p + ".real", "w") as f:
            f.write("stale-content\n" * 60000)
        os.symlink(p + ".real", p)
    return p


def content(p):
    try:
        with open(p) as f:
            return f.read()
    except (OSError, UnicodeDecodeError):
        return None


def execute(s, d, faults=True):
    """Run one scenario in directory d; returns the observations."""
    r = dict(error=None, stdout="", files={})
    paths = {o["name"]: target(o, d) for o in s.get("outputs", [])}
    src = None
    if s["kind"] == "rom" and s["main"] != "default":
        src = f"{d}/src.asm"
        with open(src, "w") as f:
            f.write(TEXTS[1 if s.get("edited") else 0])
    so = f"{d}.stdout"
    fd = os.open(so, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    keep = os.dup(1)
    os.dup2(fd, 1)
    os.close(fd)
    sys.stdout = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, "w", closefd=False)), encoding="utf-8", line_buffering=False)
    mine = sys.stdout
    iof.iof_arm(d.encode(), 1)
    iof.iof_also(PACKAGED.encode())
    if faults:
        for f in s["faults"]:
            if f["op"] == "disk":
                iof.iof_full(ctypes.c_long(f["arg"]))
            else:
                iof.iof_fault(OPS[f["op"]], f["nth"], KINDS[f["kind"]], f["arg"])
    handle = None
    try:
        if s["kind"] == "gen":
            argv = ["gen"]
            for o in s["argv"]:
                argv.append(paths.get(o[1:], o) if o.startswith("@") else o)
            sys.argv = argv
            if s["entry"] == "main":
                runpy.run_module("sentinel.gen", run_name="__main__")    # python -m sentinel.gen
            else:
                sentinel.gen.generate()
        else:
            kw = {}
            wrap = __import__("pathlib").Path if s["aspath"] else str
            for o in s["outputs"]:
                kw[o["name"]] = wrap(paths[o["name"]])
            if s["main"] == "path":
                kw["main_file"] = __import__("pathlib").Path(src)
            elif s["main"] == "file":
                handle = open(src)
                kw["main_file"] = handle
            elif s["main"] == "stringio":
                with open(src) as f:
                    kw["main_file"] = io.StringIO(f.read())
            rom = ucoderom.UCodeROM(**kw)
            r["rom"] = contents(rom)
            r["width"] = len(rom.fields.as_value())
            r["fields"] = [(k, f.offset, f.width) for k, f in rom.fields.shape()]
    except SystemExit as e:
        if e.code not in (None, 0):
            r["error"] = f"exit {e.code}"
    except BaseException as e:
        r["error"] = f"{type(e).__name__}: {e}"
        r["errno"] = getattr(e, "errno", None)
        e.__traceback__ = None
        del e
    if handle is not None:
        if r["error"] is None:
            r["handle_closed"] = handle.closed
        try:
            handle.close()
        except OSError:
            pass
    r["leaked"] = iof.iof_open_files()
    r["stdout_closed"] = bool(mine.closed or iof.iof_stdout_closed())
    r["stdout_replaced"] = sys.stdout is not mine
    # what the interpreter does at exit: flush standard output, and report failure through the exit status
    if not mine.closed:
        try:
            mine.flush()
        except OSError as e:
            r["error"] = r["error"] or f"exit status 120 (flush at exit: {e})"
    iof.iof_disarm()
    r["hard"] = iof.iof_hard()
    r["fired"] = [iof.iof_fired(i) for i in range(len(s["faults"]))]
    r["full"] = iof.iof_full_fired()
    r["counts"] = [iof.iof_count(i) for i in range(6)]
    r["opened"] = iof.iof_opened()
    os.dup2(keep, 1)
    os.close(keep)
    r["stdout"] = content(so)
    for o in s.get("outputs", []):
        r["files"][o["name"]] = content(paths[o["name"]])
    return r


def hex_words(text):
    """Address -> word of a hex listing."""
    out, at = {}, 0
    for tok in text.split():
        if tok.startswith("@"):
            at = int(tok[1:], 16)
        else:
            out[at] = int(tok, 16)
            at += 1
    return out


def judge(s, r, ref):
    """None, or what is wrong with observation r (ref: the same scenario without faults)."""
    if r["stdout_closed"]:
        return "standard output was closed"
    if r["leaked"]:
        return f"{r['leaked']} output or source file(s) left open after {'an error' if r['error'] else 'success'}"
    blocked = any(o["state"] in ("isdir", "nodir") for o in s.get("outputs", []) if s["kind"] == "rom" or "@" + o["name"] in s["argv"])
    if r["error"]:
        if not r["hard"] and not blocked:
            return f"failed although no I/O operation failed: {r['error']}"
        return None
    if blocked:
        return "reported success although the output path cannot be written"
    if ref["error"]:
        return f"reported success although the same request fails without faults ({ref['error']})"
    what = "after injected I/O faults " if r["hard"] else ""
    for n, t in ref["files"].items():
        if r["files"].get(n) != t:
            return f"reported success {what}but output {n} is incomplete: {size(r['files'].get(n))} instead of {size(t)}"
    if r["stdout"] != ref["stdout"]:
        return f"reported success {what}but standard output is incomplete: {size(r['stdout'])} instead of {size(ref['stdout'])}"
    if s["kind"] == "rom" and (r["rom"] != ref["rom"] or r["fields"] != ref["fields"]):
        return "the assembled ROM differs from the fault-free one"
    return None


def size(t):
    return "nothing" if t is None else f"{len(t)} characters"


def judge_ref(s, r):
    """The fault-free artefact itself must be complete."""
    if r["error"]:
        return None
    if s["kind"] == "gen":
        a = s["argv"]
        name = a[a.index("-n") + 1] if "-n" in a else "sentinel"
        if not a:
            want, got = _convert(Top()), r["stdout"]
        else:
            want = _convert(FormalTop() if "-f" in a else Top(), name=name)
            tofile = [x[1:] for x in a if x.startswith("@")]
            got = r["files"][tofile[0]] if tofile else r["stdout"]
        if got is None or want not in got:
            return f"the output does not contain the converted design ({size(got)} instead of {size(want)})"
        if got.count(want.splitlines()[-2]) != want.count(want.splitlines()[-2]) or "stale-content" in got:
            return "the output contains more than the converted design"
        return None
    if "hex" in r["files"]:
        t = r["files"]["hex"]
        try:
            w = hex_words(t or "")
        except ValueError:
            return "the hex listing has something else than addresses and words"
        bad = [a for a, v in w.items() if a >= len(r["rom"]) or r["rom"][a] != v]
        bad += [a for a, v in enumerate(r["rom"]) if v and a not in w]
        if bad:
            return f"the hex listing disagrees with the ROM at address {bad[0]:#x}"
    if "field_defs" in r["files"]:
        got = {m[0]: (int(m[1]), int(m[2])) for m in re.findall(r"^field (\w+) lsb (\d+) width (\d+)", r["files"]["field_defs"] or "", re.M)}
        for k, o, w in r["fields"]:
            if not k.startswith("_padding") and got.get(k) != (o, w):
                return f"the field listing gives {k} as {got.get(k)}, the ROM layout as {(o, w)}"
        if f"word width {r['width']}" not in (r["files"]["field_defs"] or ""):
            return "the field listing lacks the word width"
    return None


def forked(s, base, faults):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            signal.setitimer(signal.ITIMER_REAL, 120)
            os.environ["HOME"] = base
            r = execute(s, f"{base}/w", faults)
        except BaseException as e:
            r = dict(harness=f"{type(e).__name__}: {e}")
        iof.iof_disarm()
        with os.fdopen(wfd, "w") as f:
            json.dump(r, f)
        os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd) as f:
        t = f.read()
    os.waitpid(pid, 0)
    return json.loads(t) if t else dict(harness="the child died")


def main():
    base = sys.argv[1]
    prefill()
    sources()
    refs = {}
    print("ready", flush=True)
    for line in sys.stdin:
        s = json.loads(line)
        key = json.dumps({k: v for k, v in s.items() if k != "faults"}, sort_keys=True)

        def one(faults):
            w = f"{base}/w"
            shutil.rmtree(w, ignore_errors=True)
            os.mkdir(w)
            try:
                return forked(s, base, faults)
            finally:
                shutil.rmtree(w, ignore_errors=True)
        if key not in refs:
            ref = one(False)
            refs[key] = (ref, ref.get("harness") and f"HARNESS {ref['harness']}" or judge(s, ref, ref) or judge_ref(s, ref))
        ref, bad = refs[key]
        total = sum(len(t.encode()) for t in [ref.get("stdout"), *(ref.get("files") or {}).values()] if t)
        for f in s["faults"]:
            if "rel" in f:      # the disk fills up shortly before the last byte
                f["arg"] = max(0, total - f["rel"])
        r = one(True) if not bad and s["faults"] else ref
        if not bad:
            bad = r.get("harness") and f"HARNESS {r['harness']}" or judge(s, r, ref)
        print(json.dumps(dict(bad=bad, fired=r.get("fired"), full=r.get("full"), hard=r.get("hard"), error=r.get("error"), counts=r.get("counts"))), flush=True)


if __name__ == "__main__":
    main()
