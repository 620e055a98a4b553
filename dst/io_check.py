"""C18: I/O faults at the system-call seam under the Verilog generator and the microcode assembler."""
import concurrent.futures as cf
import errno
import json
import os
import random
import re
import shutil
import signal
import subprocess
import tempfile
import threading
import time

import build
from build import CACHE, PY, VERIF

QUICK_RUNS, QUICK_CAP, THOROUGH_S = 9000, 240, 780
ERR = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES, "EDQUOT": errno.EDQUOT, "EMFILE": errno.EMFILE, "EINTR": errno.EINTR,
       "EROFS": errno.EROFS, "EPIPE": errno.EPIPE, "EFBIG": errno.EFBIG}
NAME = {v: k for k, v in ERR.items()}


def scenario(seed, i):
    r = random.Random(seed * 1000003 + i)
    states = ["absent"] * 6 + ["longer"] * 3 + ["shorter", "link", "isdir", "nodir"]
    if r.random() < 0.6:
        s = dict(kind="gen", entry=r.choice(["main", "pdm"]), outputs=[], argv=[])
        k = r.random()
        if k < 0.5:
            s["outputs"] = [dict(name="out.v", state=r.choice(states))]
            s["argv"] = ["-o", "@out.v"]
        elif k < 0.7:
            s["argv"] = ["-o", "-"]
        elif k < 0.85:
            s["argv"] = ["-n", "sentinel"]
        if s["argv"] or r.random() < 0.3:
            if r.random() < 0.4:
                s["argv"] += ["-f"]
            if "-n" not in s["argv"] and r.random() < 0.4:
                s["argv"] += ["-n", "dut"]
    else:
        s = dict(kind="rom", main=r.choice(["default", "path", "file", "stringio"]), aspath=r.random() < 0.5, edited=r.random() < 0.5, outputs=[])
        for n in ("hex", "field_defs"):
            if r.random() < 0.75:
                s["outputs"].append(dict(name=n, state=r.choice(states)))
    f = []
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        k = r.random()
        if k < 0.1:
            f.append(dict(op="disk", rel=r.choice([1, 2, 100, r.randrange(1, 1500), r.randrange(1, 4096), r.randrange(1, 8192)])))
        elif k < 0.2:
            f.append(dict(op="disk", arg=r.choice([0, 1, 100, 4096, 8191, 8192, 65536, 200000, r.randrange(1, 320000), r.randrange(1, 6000)])))
        elif k < 0.6:
            kind = r.choice(["once", "forever", "short", "short", "full"])
            arg = {"once": lambda: ERR[r.choice(["ENOSPC", "EIO", "EINTR", "EINTR", "EDQUOT", "EPIPE", "EFBIG"])], "forever": lambda: ERR[r.choice(["ENOSPC", "EIO", "EDQUOT"])],
                   "short": lambda: r.choice([1, 2, 100, 4095, 8192, 100000]), "full": lambda: r.choice([0, 1, 500])}[kind]()
            f.append(dict(op="write", nth=r.choice([0, 0, 0, 1, 1, 2, 3, r.randrange(40)]), kind=kind, arg=arg))
        elif k < 0.75:
            f.append(dict(op="close", nth=r.choice([0, 0, 1, 2]), kind="once", arg=ERR[r.choice(["EIO", "ENOSPC", "EDQUOT"])]))
        elif k < 0.88:
            f.append(dict(op="open", nth=r.choice([0, 0, 1, 2]), kind="once", arg=ERR[r.choice(["EACCES", "EMFILE", "ENOSPC", "EROFS", "EINTR"])]))
        elif k < 0.97:
            kind = r.choice(["once", "forever", "short"])
            f.append(dict(op="read", nth=r.choice([0, 1, 2, r.randrange(8)]), kind=kind,
                          arg=r.choice([1, 100, 5000]) if kind == "short" else ERR[r.choice(["EIO", "EINTR"])] if kind == "once" else ERR["EIO"]))
        else:
            f.append(dict(op=r.choice(["sync", "rename"]), nth=0, kind="once", arg=ERR["EIO"]))
    s["faults"] = f
    return s


def label(f):
    if f["op"] == "disk":
        return "disk full just before the end" if "rel" in f else "disk full after some bytes"
    if f["kind"] in ("once", "forever"):
        return f"{f['op']} fails {f['kind']}: {NAME[f['arg']]}"
    return {"short": f"short {f['op']}", "full": f"disk full at a {f['op']}"}[f["kind"]]


def preload():
    os.makedirs(CACHE, exist_ok=True)
    src = f"{VERIF}/sim/iofault.c"
    so = f"{CACHE}/iofault-{build._hash([src])}.so"
    if not os.path.exists(so):
        fd, tmp = tempfile.mkstemp(dir=CACHE)
        os.close(fd)
        build.run([shutil.which("gcc") or "clang", "-O1", "-shared", "-fPIC", "-w", "-o", tmp, src, "-ldl"], "compilation of the I/O seam")
        os.replace(tmp, so)
    return so


class Worker:
    def __init__(self, tmp, n):
        so = preload()
        self.dir = f"{tmp}/{n}"
        os.mkdir(self.dir)
        e = build.env()
        e.update(LD_PRELOAD=so, IOFAULT=so, PYTHONPATH=f"{build.REPO}/src:{VERIF}/stubs")
        self.err = open(f"{tmp}/{n}.err", "w+")
        self.p = subprocess.Popen([PY, f"{VERIF}/dst/io_run.py", self.dir], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True, env=e, cwd=self.dir,
                                  start_new_session=True)
        self.timer = threading.Timer(880, self.kill)
        self.timer.daemon = True
        self.timer.start()
        if self.p.stdout.readline().strip() != "ready":
            self.fail("the worker did not start")

    def fail(self, what):
        self.err.flush()
        self.err.seek(0)
        raise RuntimeError(f"{what}: {self.err.read()[-3000:]}")

    def run(self, s):
        try:
            self.p.stdin.write(json.dumps(s) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError:
            line = ""
        if not line:
            self.fail("the worker stopped")
        r = json.loads(line)
        if r["bad"] and r["bad"].startswith("HARNESS"):
            self.fail(r["bad"])
        return r

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def close(self):
        self.timer.cancel()
        self.kill()
        self.p.wait()
        self.err.close()


def cls(bad):
    return re.sub(r"[\d]+|: .*", "#", bad)


def shrink(w, s, bad):
    want = cls(bad)

    def fails(x):
        r = w.run(x)
        return r["bad"] and cls(r["bad"]) == want
    changed = True
    while changed:
        changed = False
        for i in range(len(s["faults"])):
            x = dict(s, faults=s["faults"][:i] + s["faults"][i + 1:])
            if fails(x):
                s, changed = x, True
                break
        for i in range(len(s["outputs"])):
            if s["outputs"][i]["state"] != "absent":
                x = dict(s, outputs=[dict(o, state="absent") if j == i else o for j, o in enumerate(s["outputs"])])
                if fails(x):
                    s, changed = x, True
            if s["kind"] == "rom":
                x = dict(s, outputs=s["outputs"][:i] + s["outputs"][i + 1:])
                if fails(x):
                    s, changed = x, True
                    break
    return s


def check(prop, seed, tier):
    from check import report
    t0 = time.time()
    cap = QUICK_CAP if tier == "quick" else THOROUGH_S
    W = min(8, os.cpu_count() or 1)
    tmp = tempfile.mkdtemp(prefix="dst-io-")
    total = QUICK_RUNS if tier == "quick" else 10**9
    stats = dict(done=0, fired={}, hard=0, errors=0, silent=0, outcomes=set(), samples=[])
    lock = threading.Lock()
    workers = []
    found = []
    t1 = time.time()

    def loop(k):
        w = Worker(tmp, k)
        with lock:
            workers.append(w)
        for i in range(k, total, W):
            if time.time() - t0 > cap or (found and found[0][0] < i):
                break
            s = scenario(seed, i)
            r = w.run(s)
            with lock:
                stats["done"] += 1
                for f, n in zip(s["faults"], r["fired"] or []):
                    hit = r["full"] if f["op"] == "disk" else n
                    if hit:
                        stats["fired"][label(f)] = stats["fired"].get(label(f), 0) + 1
                stats["hard"] += bool(r["hard"])
                stats["errors"] += bool(r["error"])
                fired = tuple(sorted(label(f) + str(f.get("nth", "")) for f, n in zip(s["faults"], r["fired"] or []) if n or f["op"] == "disk" and r["full"]))
                if fired:
                    stats["outcomes"].add((json.dumps({a: b for a, b in s.items() if a != "faults"}, sort_keys=True), fired, tuple(r["counts"] or ()), bool(r["error"])))
                if len(stats["samples"]) < 6 and fired:
                    stats["samples"].append(f"run {i}: {json.dumps(s)} -> {r['error'] or 'success'}")
                if r["bad"]:
                    found.append((i, r["bad"], s))
                    found.sort(key=lambda x: x[0])

    try:
        with cf.ThreadPoolExecutor(W) as ex:
            for f in [ex.submit(loop, k) for k in range(W)]:
                f.result()
        sim = time.time() - t1
        violation = None
        if found:
            i, bad, s = found[0]
            w = workers[0]
            small = shrink(w, s, bad)
            os.makedirs(f"{VERIF}/replays", exist_ok=True)
            path = f"{VERIF}/replays/{prop}-s{seed}-r{i}.replay"
            outs = [w.run(small)["bad"], w.run(small)["bad"]]
            if outs[0] != outs[1] or not outs[0]:
                raise RuntimeError(f"replay is not deterministic: {outs}")
            with open(path, "w") as f:
                f.write(f"# property {prop}\n# violation {outs[0]}\n{json.dumps(small)}\n")
            violation = ("IO", f"run {i} of seed {seed}: {outs[0]} ({json.dumps(small)})", path, 0)
    finally:
        for w in workers:
            w.close()
        shutil.rmtree(tmp, ignore_errors=True)
    evidence(prop, tier, seed, stats, sim, time.time() - t0, violation)
    print(f"{stats['done']} runs, {stats['hard']} with a failed operation, {len(stats['outcomes'])} distinct non-trivial, {time.time() - t0:.1f} s")
    return report(prop, violation)


def replay(path):
    with open(path) as f:
        s = json.loads(f.read().splitlines()[-1])
    tmp = tempfile.mkdtemp(prefix="dst-io-")
    w = Worker(tmp, 0)
    try:
        r = w.run(s)
    finally:
        w.close()
        shutil.rmtree(tmp, ignore_errors=True)
    print(json.dumps(s))
    print(r["bad"] or f"no violation ({r['error'] or 'success'})")
    if r["bad"]:
        print(f"VIOLATION property=C18 replay={path}")
        return 1
    return 0


def evidence(prop, tier, seed, st, sim, wall, violation):
    cov = {
        "evaluations": st["done"],
        "distinct_nontrivial": len(st["outcomes"]),
        "rule": "one evaluation = one execution of the generator or assembler under a seeded fault plan; non-trivial = at least one planned fault fired; distinct by "
                "(configuration, faults fired with their positions, system calls made, outcome)",
        "samples": st["samples"] or ["none"],
        "runs_per_hour": int(st["done"] * 3600 / sim) if sim else 0,
        "simulated_time": "not applicable: the code under test reads no clock",
        "runs_with_a_failed_operation": st["hard"],
        "runs_reporting_an_error": st["errors"],
        "faults_fired": st["fired"],
        "components": {"real": ["sentinel.gen (argument parsing, output selection, writing)", "sentinel.ucoderom with m5pre/m5meta", "Python's I/O stack"],
                       "stub": ["open/read/write/close/fsync/rename on the scratch directory and on standard output (sim/iofault.c)",
                                "Amaranth's Verilog conversion is real but computed once per design and option", "amaranth_soc (interface declarations)"]},
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2), "violations": 1 if violation else 0,
          "assumptions": ["interpreter exit is represented by the flush of standard output that CPython performs then; a failing flush counts as a reported error (exit status 120)",
                          "end of file cannot be told from a truncated source file, so truncation of the microcode source is not injected"]}
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/.{prop}.tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(f"{VERIF}/evidence/.{prop}.tmp", f"{VERIF}/evidence/{prop}.json")

