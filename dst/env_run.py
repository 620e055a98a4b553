"""C20 process: executes one list of requests in one interpreter (see dst/env_check.py).

Usage: env_run.py SPEC.json RESULT.json; the environment (hash seed, clock, entropy, ...) comes from the harness.
"""
import ctypes
import enum
import gc
import hashlib
import io
import json
import os
import runpy
import sys
import threading
import warnings

warnings.simplefilter("ignore")
OPS = {"open": 0, "read": 1, "write": 2, "close": 3, "sync": 4, "rename": 5}


class Kind(enum.Enum):
    A = 0
    B = 1
    C = 2


def contents(u):
    """The words of an assembled ROM: what its memory holds, however the object names it."""
    v = getattr(u, "ucode_contents", None)
    if v is None:
        for m in vars(u).values():
            d = getattr(m, "init", None) if not hasattr(m, "data") else getattr(m.data, "init", None)
            if d is not None and hasattr(m, "read_port"):
                v = [int(d[i]) for i in range(len(d))]
    return list(v)


def text(p):
    with open(p, encoding="utf-8", errors="replace") as f:
        return f.read()


def main():
    result = sys.argv[2]
    with open(sys.argv[1]) as f:
        s = json.load(f)
    keep = []
    rnd = s["noise"]
    for i in range(rnd):                     # heap layout, and with it object identities
        keep.append(bytearray((i * 7919) % 5000))
        if i % 3:
            keep.pop(len(keep) // 2)
    if s["gc"] == "off":
        gc.disable()
    elif s["gc"] == "often":
        gc.set_threshold(7, 2, 2)
    os.umask(s["umask"])
    if s["order"] == "formal":
        import sentinel.formal  # noqa: F401
    elif s["order"] == "rom":
        import sentinel.ucoderom  # noqa: F401
    from sentinel import ucoderom
    iof = None
    if s.get("crash"):
        iof = ctypes.CDLL(os.environ["IOFAULT"])
        iof.iof_arm(s["root"].encode(), 1)
        iof.iof_fault(OPS[s["crash"]["op"]], s["crash"]["nth"], 4, s["crash"]["arg"])
    res = []

    def do(o):
        if o["op"] == "gen":
            argv = [s["argv0"]]
            if o["out"]:
                argv += ["-o", o["out"]]
            if o["name"]:
                argv += ["-n", o["name"]]
            if o["f"]:
                argv += ["-f"]
            if o["swap"]:
                argv = argv[:1] + argv[-1:] + argv[1:-1] if argv[-1] == "-f" else argv
            sys.argv = argv
            tofile = o["out"] and o["out"] != "-"
            so = s["root"] + "/stdout"
            fd = os.open(so, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
            old = os.dup(1)
            sys.stdout.flush()
            os.dup2(fd, 1)
            os.close(fd)
            was = sys.stdout
            sys.stdout = io.TextIOWrapper(io.FileIO(1, "w", closefd=False), encoding="utf-8")
            try:
                if o["entry"] == "main":
                    runpy.run_module("sentinel.gen", run_name="__main__")
                else:
                    import sentinel.gen
                    sentinel.gen.generate()
                sys.stdout.flush()
            finally:
                sys.stdout = was
                os.dup2(old, 1)
                os.close(old)
            r = text(o["out"]) if tofile else text(so)
            if tofile and os.path.getsize(so):
                r += "\n[standard output]\n" + text(so)
            # the location of the sources is part of the request, not of the environment
            return r.replace(s["lib"], "LIB")
        kw = {}
        for k in ("hex", "field_defs"):
            if o.get(k):
                kw[k] = __import__("pathlib").Path(o[k]) if o["aspath"] else o[k]
        if o["src"]:
            with open(o["path"], "w") as f:
                f.write(o["source"])
            if o["mtime"] is not None:       # the clock may be coarse, stand still or jump back
                os.utime(o["path"], (o["mtime"], o["mtime"]))
            if o["how"] == "path":
                kw["main_file"] = __import__("pathlib").Path(o["path"])
            elif o["how"] == "file":
                kw["main_file"] = open(o["path"])
            else:
                kw["main_file"] = io.StringIO(text(o["path"]))
            from amaranth import unsigned
            kw["field_map"] = {"foo": unsigned(8), "kind": Kind, "on": unsigned(1)}
        rom = ucoderom.UCodeROM(**kw)
        r = dict(rom=contents(rom), width=len(rom.fields.as_value()), depth=len(contents(rom)), fields=[(k, f.offset, f.width) for k, f in rom.fields.shape()])
        for k in ("hex", "field_defs"):
            if o.get(k):
                r[k] = text(o[k])
        return json.dumps(r)

    def every():
        for o in s["ops"]:
            try:
                t = do(o)
                e = None
            except SystemExit as x:
                t, e = "", None if x.code in (None, 0) else f"exit {x.code}"
            except BaseException as x:
                t, e = "", f"{type(x).__name__}: {x}"[:500]
            res.append(dict(error=e, sha=hashlib.sha256(t.encode()).hexdigest(), text=t if s["texts"] else None, size=len(t)))
    if s["thread"]:
        threading.stack_size(512 << 20)
        t = threading.Thread(target=every)
        t.start()
        t.join()
    else:
        every()
    if iof:
        iof.iof_disarm()
    env = ctypes.CDLL(os.environ["ENVFAULT"])
    env.envf_used.restype = ctypes.c_ulonglong
    with open(result, "w") as f:
        json.dump(dict(res=res, used=[env.envf_used(i) for i in range(4)]), f)


if __name__ == "__main__":
    main()
