"""C20: generation under simulated environments and process histories.

One scenario is a sequence of one to four processes that share a home, a temporary and a working
directory and a copy of the package.  Each process has its own seeded hash seed, wall clock (also
backwards), entropy, process id, directory order, heap layout, environment, working directory, collector
setting and list of requests; some are killed at a chosen system call.  Every request of a process that
was not killed must yield exactly the artefact the same request yields alone in a fresh process.
"""
import concurrent.futures as cf
import functools
import glob
import json
import os
import random
import re
import shutil
import signal
import subprocess
import tempfile
import threading
import time

import build
from build import CACHE, PY, VERIF
from io_check import preload

QUICK_RUNS, QUICK_CAP, THOROUGH_S = 150, 270, 780
NAMES = [None, None, "sentinel", "dut", "cpu_core"]
TOY = """space block_ram: width 24, size 16;
space block_ram;
origin 0;
fields block_ram: {
  foo: width 8, origin 0, default 3;
  kind: enum { a = 0; b; c; }, default a;
  on: bool, origin 12, default 0;
};
foo => %d, kind => c, on => true;
origin %d;
kind => b;
"""


def envlib():
    os.makedirs(CACHE, exist_ok=True)
    src = f"{VERIF}/sim/envfault.c"
    so = f"{CACHE}/envfault-{build._hash([src])}.so"
    if not os.path.exists(so):
        fd, tmp = tempfile.mkstemp(dir=CACHE)
        os.close(fd)
        build.run([shutil.which("gcc") or "clang", "-O1", "-shared", "-fPIC", "-w", "-o", tmp, src, "-ldl"], "compilation of the environment seam")
        os.replace(tmp, so)
    return so


def yosys_cache():
    """Yosys is a WebAssembly module; keep its compiled form outside the simulated homes."""
    d = f"{CACHE}/config/wasmtime"
    os.makedirs(d, exist_ok=True)
    os.makedirs(f"{CACHE}/wasmtime", exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=CACHE)
    with os.fdopen(fd, "w") as f:
        f.write(f'[cache]\nenabled = true\ndirectory = "{CACHE}/wasmtime"\n')
    os.replace(tmp, f"{d}/config.toml")


def toy(k):
    return TOY % (k, 2 + k % 13)


def toy_rom(k):
    r = [0] * 16
    r[0] = k | 2 << 8 | 1 << 12
    r[2 + k % 13] = 3 | 1 << 8
    return r


def request(r, edits):
    if r.random() < 0.45:
        o = dict(op="gen", entry=r.choice(["main", "pdm"]), out=r.choice([None, "-", "F", "F"]), name=r.choice(NAMES), f=r.random() < 0.35, swap=r.random() < 0.3)
        if o["out"] is None and not o["name"] and not o["f"] and r.random() < 0.7:
            o["out"] = "F"
        return o
    o = dict(op="rom", src=None, how="path", aspath=r.random() < 0.5)
    if r.random() < 0.75:
        o.update(src="toy", k=r.randrange(8) * 17 + 3, how=r.choice(["path", "path", "file", "stringio"]), path=r.choice(["a", "b"]), mtime=r.choice([None, 1700000000, 1700000000, 1600000000]))
    for k in ("hex", "field_defs"):
        if r.random() < 0.6:
            o[k] = r.choice(["1", "1", "2"])
    return o


def scenario(seed, i, edits):
    r = random.Random(seed * 1000033 + i)
    procs = []
    for _ in range(r.choice([1, 2, 2, 3, 3, 4])):
        p = dict(hash=r.choice([0, 1, r.randrange(1 << 32)]), wall=r.choice([0, 1, 946684800, 1 << 31, 4102444800, r.randrange(1 << 32)]), entropy=r.randrange(1 << 62), pid=r.choice([1, 2, 4242, r.randrange(2, 1 << 22)]),
                 rev=r.choice([0, 1, 2, 3]), noise=r.choice([0, 10, 1000, 30000]), gc=r.choice(["on", "on", "off", "often"]) if r.random() < 0.3 else "on", umask=r.choice([0o022, 0o077, 0]),
                 order=r.choice(["", "formal", "rom"]), thread=r.random() < 0.15, argv0=r.choice(["gen", "x/__main__.py", "sentinel.gen"]), opt=r.choice(["", "", "1", "2"]),
                 cwd=r.choice(["cwd", "other", "home"]), home=r.choice(["set", "set", "unset", "gone"]), lang=r.choice(["C", "C.UTF-8", "POSIX", ""]), tz=r.choice(["", "UTC", "Asia/Kathmandu", "XYZ+11"]),
                 tmp=r.choice(["tmp", "tmp", "unset"]), extra=r.random() < 0.5, stdin=r.choice(["null", "pipe"]), bytecode=r.random() < 0.4, skew=r.choice([None, None, -10**8, 10**8, "zero"]), edit=r.choice([0, 0, 0, 1]) if edits else 0, crash=None, ops=[], decoy=r.choice(DECOYS) if r.random() < 0.3 else None, vars=r.choice(["", "", "0", "1", "x", "dir"]))
        if r.random() < 0.33:
            op = r.choice(["write", "write", "write", "open", "close", "rename"])
            p["crash"] = dict(op=op, nth=r.choice([0, 1, 1, 2, r.randrange(8)]), arg=r.choice([0, 1, 100, 4000]))
        for _ in range(r.choice([1, 1, 2, 3]) if not p["crash"] else 1):
            p["ops"].append(request(r, edits))
        if p["crash"] and r.random() < 0.65:
            p["ops"][0] = dict(op="rom", src=None, how="path", aspath=True, hex="1", field_defs="2")
        procs.append(p)
    return dict(procs=procs)


def key(o, edit):
    """What the artefact may depend on."""
    if o["op"] == "gen":
        if not (o["out"] or o["name"] or o["f"]):
            return ("gen", "bare", edit)
        return ("gen", o["name"] or "sentinel", o["f"], edit)
    return ("rom", o["src"] and o["k"], bool(o.get("hex")), bool(o.get("field_defs")), 0 if o["src"] else edit)


BASE = dict(hash=0, wall=1700000000, entropy=1, pid=4242, rev=0, noise=0, gc="on", umask=0o022, order="", thread=False, argv0="gen", opt="", cwd="cwd", home="set", lang="C.UTF-8", tz="",
            tmp="tmp", extra=False, stdin="null", bytecode=False, skew=None, edit=0, crash=None, decoy=None, vars="")
ROOT = 64          # length of the scratch path, which is part of the sources' recorded location


DECOYS = ["microcode.asm", "microcode.asm", "microcode.asm", "microcode.hex", "sentinel.v", ".sentinel", "sentinel.json", "cells.v"]


@functools.lru_cache
def variables():
    """Names of environment variables the package's sources mention."""
    out = set()
    for fn in glob.glob(f"{build.REPO}/src/sentinel/**/*.py", recursive=True):
        with open(fn, encoding="utf-8") as f:
            out |= set(re.findall(r"(?:environ(?:\.get\(|\.setdefault\(|\[)|getenv\()\s*[\"'](\w+)[\"']", f.read()))
    return sorted(out)


class World:
    """The directories one scenario's processes share."""

    def __init__(self, root, texts):
        self.root, self.texts = root, texts
        for d in ("home", "tmp", "cwd", "other", "out", "lib"):
            os.makedirs(f"{root}/{d}")
        shutil.copytree(f"{build.REPO}/src/sentinel", f"{root}/lib/sentinel", ignore=shutil.ignore_patterns("__pycache__"))
        self.edit = 0
        self.n = 0

    def process(self, p, texts=False):
        root = self.root
        self.n += 1
        asm = f"{root}/lib/sentinel/microcode.asm"
        if p["edit"] != self.edit:
            st = os.stat(asm)
            with open(asm, "w") as f:
                f.write(self.texts[p["edit"]])
            os.utime(asm, ns=(st.st_atime_ns, st.st_mtime_ns))      # same time stamp: the clock did not advance, or went back
            self.edit = p["edit"]
        if p["skew"] is not None:
            for d, _, fs in os.walk(root):
                for f in fs:
                    st = os.lstat(f"{d}/{f}")
                    t = 0 if p["skew"] == "zero" else max(0, st.st_mtime + p["skew"])
                    os.utime(f"{d}/{f}", (t, t), follow_symlinks=False)
        cwd = f"{root}/{p['cwd']}"
        ops = []
        for o in p["ops"]:
            o = dict(o)
            if o["op"] == "gen":
                if o["out"] == "F":
                    o["out"] = f"{root}/out/{o['name'] or 'x'}.v" if p["rev"] else "out.v"
                if o["out"] == "out.v" and p["rev"] == 0:
                    o["out"] = f"{cwd}/out.v" if p["noise"] else "out.v"
            else:
                for k in ("hex", "field_defs"):
                    if o.get(k):
                        o[k] = f"{root}/out/{k}{o[k]}"
                if o["src"]:
                    o.update(path=f"{root}/other/{o['path']}.asm", source=toy(o["k"]))
            ops.append(o)
        spec = dict(p, ops=ops, root=root, lib=f"{root}/lib/", texts=texts)
        if p["decoy"]:
            # something unrelated lies where the process runs, under a name the generator uses elsewhere
            for d in ("home", "cwd", "other", "tmp"):
                with open(f"{root}/{d}/{p['decoy']}", "w") as f:
                    f.write(self.texts[-1] if p["decoy"].endswith(".asm") else "decoy\n")
        sp, rp = f"{root}/spec.json", f"{root}/result.json"
        with open(sp, "w") as f:
            json.dump(spec, f)
        if os.path.exists(rp):
            os.unlink(rp)
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONPATH": f"{root}/lib:{VERIF}/stubs", "PYTHONHASHSEED": str(p["hash"]), "PYTHONWARNINGS": "ignore", "LD_PRELOAD": f"{envlib()} {preload()}",
               "ENVFAULT": envlib(), "IOFAULT": preload(), "ENVF_WALL": str(p["wall"]), "ENVF_SEED": str(p["entropy"]), "ENVF_PID": str(p["pid"]), "ENVF_REV": str(p["rev"]), "XDG_CONFIG_HOME": f"{CACHE}/config"}
        if p["home"] != "unset":
            env["HOME"] = f"{root}/home" if p["home"] == "set" else "/nonexistent"
        if p["tmp"] == "tmp":
            env["TMPDIR"] = f"{root}/tmp"
        if not p["bytecode"]:
            env["PYTHONDONTWRITEBYTECODE"] = "1"
        else:
            env["PYTHONPYCACHEPREFIX"] = f"{root}/pyc"
        if p["opt"]:
            env["PYTHONOPTIMIZE"] = p["opt"]
        if p["lang"]:
            env["LC_ALL"] = p["lang"]
        if p["tz"]:
            env["TZ"] = p["tz"]
        if p["extra"]:
            env.update(USER="someone", LOGNAME="someone", DEBUG="1", COLUMNS="40", SOURCE_DATE_EPOCH="12345", VERBOSE="1", TERM="dumb", NO_COLOR="1", CI="true", XDG_CACHE_HOME=f"{root}/home/cache")
        if p["vars"]:
            env.update({v: f"{root}/other" if p["vars"] == "dir" else p["vars"] for v in variables() if v not in env})
        pre = ["setarch", "-R"] if shutil.which("setarch") else []
        r = subprocess.Popen(pre + [PY, f"{VERIF}/dst/env_run.py", sp, rp], cwd=cwd, env=env, stdin=subprocess.DEVNULL if p["stdin"] == "null" else subprocess.PIPE, stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE, text=True, start_new_session=True)
        try:
            _, err = r.communicate(timeout=240)
        except subprocess.TimeoutExpired:
            os.killpg(r.pid, signal.SIGKILL)
            r.communicate()
            raise RuntimeError("a generator process did not finish within 240 s")
        if r.returncode == 137 and p["crash"]:
            return None, None
        if r.returncode or not os.path.exists(rp):
            return [dict(error=f"process ended with status {r.returncode}: {err[-300:]}", sha="", text=None, size=0) for _ in ops], [0] * 4
        with open(rp) as f:
            d = json.load(f)
        return d["res"], d["used"]


def place(tmp, n):
    d = f"{tmp}/{n}"
    return d + "_" * (ROOT - len(d))


class Refs:
    def __init__(self, tmp, texts):
        self.tmp, self.texts, self.memo, self.lock, self.n = tmp, texts, {}, threading.Lock(), 0

    def get(self, o, edit):
        k = key(o, edit)
        with self.lock:
            if k not in self.memo:
                self.memo[k] = cf.Future()
                mine = True
                self.n += 1
                n = self.n
            else:
                mine = False
            f = self.memo[k]
        if mine:
            root = place(self.tmp, f"ref{n}")
            try:
                o = dict(o)
                if o["op"] == "gen":
                    o.update(entry="main", out="F" if o["out"] or o["name"] or o["f"] else None, swap=False)
                elif o["src"]:
                    o.update(how="path", path="a", mtime=None)
                w = World(root, self.texts)
                p = dict(BASE, edit=edit, ops=[o])
                r, _ = w.process(p, texts=True)
                f.set_result(r[0])
            except BaseException as e:
                f.set_exception(e)
            finally:
                shutil.rmtree(root, ignore_errors=True)
        return f.result()


def differ(a, b):
    x, y = a.splitlines(), b.splitlines()
    for i, (p, q) in enumerate(zip(x, y)):
        if p != q:
            return f"line {i + 1} is {p[:80]!r} instead of {q[:80]!r}"
    return f"{len(x)} lines instead of {len(y)}"


def run(s, root, refs, texts, detail=False):
    """Execute a scenario; returns (violation or None, statistics)."""
    w = World(root, texts)
    st = dict(procs=0, ops=0, crashed=0, used=[0] * 4)
    try:
        for i, p in enumerate(s["procs"]):
            res, used = w.process(p, texts=detail)
            st["procs"] += 1
            if res is None:
                st["crashed"] += 1
                continue
            st["used"] = [a + b for a, b in zip(st["used"], used)]
            for j, (o, r) in enumerate(zip(p["ops"], res)):
                st["ops"] += 1
                what = f"process {i + 1}, request {j + 1} ({label(o)})"
                ref = refs.get(o, p["edit"])
                if ref["error"] and not r["error"]:
                    return f"{what}: succeeds although the same request alone in a fresh process fails ({ref['error']})", st
                if r["error"]:
                    if ref["error"]:
                        continue
                    return f"{what}: fails although the same request alone in a fresh process succeeds ({r['error']})", st
                if r["sha"] != ref["sha"]:
                    d = differ(r["text"], ref["text"]) if r["text"] is not None else "content differs"
                    return f"{what}: the artefact differs from the one the same request yields alone in a fresh process: {d}", st
                if o["op"] == "rom" and o["src"]:
                    got = json.loads(ref["text"])
                    if got["rom"] != toy_rom(o["k"]):
                        return f"{what}: the ROM {got['rom']} is not what the source says ({toy_rom(o['k'])})", st
        return None, st
    finally:
        shutil.rmtree(root, ignore_errors=True)


def label(o):
    if o["op"] == "gen":
        return "gen" + (f" -o {o['out']}" if o["out"] else "") + (f" -n {o['name']}" if o["name"] else "") + (" -f" if o["f"] else "")
    return "assemble " + (f"source {o['k']} as {o['how']}" if o["src"] else "the microcode") + "".join(f" {k}" for k in ("hex", "field_defs") if o.get(k))


def texts_of(tmp):
    """The package's microcode and, if one can be made, an edited version with another ROM."""
    with open(f"{build.REPO}/src/sentinel/microcode.asm", encoding="utf-8") as f:
        orig = f.read()
    root = place(tmp, "edit")
    o = dict(op="rom", src=None, how="path", aspath=True)
    try:
        w = World(root, [orig, orig])
        r, _ = w.process(dict(BASE, ops=[o]), texts=True)
        if r[0]["error"]:
            return [orig]
        rom = json.loads(r[0]["text"])["rom"]
        for a in [i for i in range(len(rom) - 1, 0, -1) if rom[i] == 0][:3]:
            w.texts = [orig, orig + f"\norigin {a};\ntarget => 1;\n"]
            w.edit = 0
            with open(f"{root}/lib/sentinel/microcode.asm", "w") as f:
                f.write(w.texts[0])
            r, _ = w.process(dict(BASE, edit=1, ops=[o]), texts=True)
            if not r[0]["error"] and sum(x != y for x, y in zip(json.loads(r[0]["text"])["rom"], rom)) == 1:
                return w.texts
        return [orig]
    finally:
        shutil.rmtree(root, ignore_errors=True)


def cls(bad):
    return re.sub(r"process \d+, request \d+ \(.*?\)|\d+|: line.*|: content.*|\(.*", "#", bad)


def shrink(s, fails):
    changed = True
    budget = 40
    while changed and budget > 0:
        changed = False
        cands = []
        for i in range(len(s["procs"])):
            if len(s["procs"]) > 1:
                cands.append(dict(s, procs=s["procs"][:i] + s["procs"][i + 1:]))
        for i, p in enumerate(s["procs"]):
            for j in range(len(p["ops"])):
                if len(p["ops"]) > 1:
                    cands.append(dict(s, procs=[dict(q, ops=q["ops"][:j] + q["ops"][j + 1:]) if k == i else q for k, q in enumerate(s["procs"])]))
        for f in ("wall", "entropy", "pid", "rev", "hash", "noise", "gc", "umask", "order", "thread", "argv0", "opt", "cwd", "home", "lang", "tz", "tmp", "extra", "stdin", "bytecode", "skew", "edit", "crash", "decoy", "vars"):
            if any(p[f] != BASE[f] for p in s["procs"]):
                cands.append(dict(s, procs=[dict(p, **{f: BASE[f]}) for p in s["procs"]]))
        for c in cands:
            budget -= 1
            if budget <= 0:
                break
            if fails(c):
                s, changed = c, True
                break
    return s


def check(prop, seed, tier):
    from check import report
    t0 = time.time()
    cap = QUICK_CAP if tier == "quick" else THOROUGH_S
    W = min(8, os.cpu_count() or 1)
    tmp = tempfile.mkdtemp(prefix="dst-env-")
    total = QUICK_RUNS if tier == "quick" else 10**9
    stats = dict(done=0, procs=0, ops=0, crashed=0, used=[0] * 4, faults={}, keys=set(), shapes=set(), samples=[])
    lock = threading.Lock()
    found = []
    try:
        envlib()
        preload()
        yosys_cache()
        texts = texts_of(tmp)
        refs = Refs(tmp, texts)
        refs.get(dict(op="gen", out="F", name="dut", f=False), 0)     # also compiles Yosys once (build/wasmtime)
        t1 = time.time()

        def loop(k):
            for i in range(k, total, W):
                if time.time() - t0 > cap or (found and found[0][0] < i):
                    break
                s = scenario(seed, i, len(texts) > 1)
                bad, st = run(s, place(tmp, f"w{k}"), refs, texts)
                with lock:
                    stats["done"] += 1
                    for a in ("procs", "ops", "crashed"):
                        stats[a] += st[a]
                    stats["used"] = [a + b for a, b in zip(stats["used"], st["used"])]
                    for p in s["procs"]:
                        for f in BASE:
                            if f != "ops" and p[f] != BASE[f]:
                                n = f"{f} changed" if f != "crash" else f"killed at a {p['crash']['op']}"
                                stats["faults"][n] = stats["faults"].get(n, 0) + 1
                        for o in p["ops"]:
                            stats["keys"].add(key(o, p["edit"]))
                    stats["shapes"].add(json.dumps(s, sort_keys=True))
                    if len(stats["samples"]) < 4:
                        stats["samples"].append(f"run {i}: " + " / ".join(("killed: " if p["crash"] else "") + "; ".join(label(o) for o in p["ops"]) for p in s["procs"]) + f" -> {bad or 'same artefacts'}")
                    if bad:
                        found.append((i, bad, s))
                        found.sort(key=lambda x: x[0])
        with cf.ThreadPoolExecutor(W) as ex:
            for f in [ex.submit(loop, k) for k in range(W)]:
                f.result()
        sim = time.time() - t1
        violation = None
        if found:
            i, bad, s = found[0]
            want = cls(bad)
            end = time.time() + 90

            def again(x):
                if time.time() > end:
                    return False
                b, _ = run(x, place(tmp, "s"), refs, texts)
                return b and cls(b) == want
            small = shrink(s, again)
            outs = [run(small, place(tmp, "s"), refs, texts, True)[0] for _ in range(2)]
            if outs[0] != outs[1] or not outs[0]:
                raise RuntimeError(f"replay is not deterministic: {outs}")
            os.makedirs(f"{VERIF}/replays", exist_ok=True)
            path = f"{VERIF}/replays/{prop}-s{seed}-r{i}.replay"
            with open(path, "w") as f:
                f.write(f"# property {prop}\n# violation {outs[0]}\n{json.dumps(small)}\n")
            violation = ("ENV", f"run {i} of seed {seed}: {outs[0]}", path, 0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    evidence(prop, tier, seed, stats, sim, time.time() - t0, violation, len(texts) > 1)
    print(f"{stats['done']} runs, {stats['procs']} processes, {stats['ops']} requests, {stats['crashed']} killed, {time.time() - t0:.1f} s")
    return report(prop, violation)


def replay(path):
    with open(path) as f:
        s = json.loads(f.read().splitlines()[-1])
    tmp = tempfile.mkdtemp(prefix="dst-env-")
    try:
        yosys_cache()
        texts = texts_of(tmp)
        refs = Refs(tmp, texts)
        refs.get(dict(op="gen", out="F", name="dut", f=False), 0)
        bad, _ = run(s, place(tmp, "r"), refs, texts, True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(json.dumps(s))
    print(bad or "no violation")
    if bad:
        print(f"VIOLATION property=C20 replay={path}")
        return 1
    return 0


def evidence(prop, tier, seed, st, sim, wall, violation, edits):
    cov = {
        "evaluations": st["done"],
        "distinct_nontrivial": len(st["shapes"]),
        "rule": "one evaluation = one seeded sequence of 1-4 processes sharing a file system, each with its own environment and requests; distinct by the whole scenario",
        "samples": st["samples"] or ["none"],
        "runs_per_hour": int(st["done"] * 3600 / sim) if sim else 0,
        "simulated_time": "wall clocks between 1970 and 2106, different in every process, also running backwards between processes",
        "processes": st["procs"], "requests_compared": st["ops"], "processes_killed": st["crashed"], "distinct_requests": len(st["keys"]),
        "faults_fired": st["faults"],
        "seam_calls": dict(zip(["clock", "entropy", "pid", "directory listings"], st["used"])),
        "microcode_edits": "the package's microcode is edited between processes" if edits else "no unused microcode word found, not edited",
        "components": {"real": ["sentinel.gen", "the whole design, Amaranth and Yosys", "sentinel.ucoderom with m5pre/m5meta", "the Python interpreter and its start-up"],
                       "stub": ["clock, entropy, process id and directory order (sim/envfault.c)", "process death at a system call (sim/iofault.c)", "amaranth_soc (interface declarations)"]},
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2), "violations": 1 if violation else 0,
          "assumptions": ["the location of the package is part of the request (source positions are recorded in the Verilog)", "one process at a time"]}
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/.{prop}.tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(f"{VERIF}/evidence/.{prop}.tmp", f"{VERIF}/evidence/{prop}.json")
