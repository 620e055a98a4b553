#!/usr/bin/env python3
"""Sensitivity experiment: rare-trigger faults in the simulated design.

    trojan.py OUT.jsonl [--count N] [--bits K,K,..] [--runs N] [--jobs J] [--seed S]

Each experiment flips one bit of one register on the clock edges at which K randomly chosen state
bits have given values.  The values are those of a state seen in a simulated run (so the trigger is
reachable), the faults are put into the generated simulation code (not into /repo).  Recorded: how
often the trigger fired in the clean design under the checks' own workload, and which check reported
the fault first.  A development tool, not a check.
"""
import argparse
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/dst")
import build  # noqa: E402

W = "/tmp/trojan"
PROPS = [1, 11, 4, 5, 6, 9, 7, 10, 2, 3, 8, 12, 13, 14]


def base():
    cc = f"{W}/core.cc"
    subprocess.run([build.PY, f"{V}/dst/elab.py", "core", cc], check=True, env=build.env(), cwd=W)
    return open(cc).read()


def registers(src):
    """(name, width) of the clocked registers."""
    return [(n, int(w)) for w, n in re.findall(r"^\twire<(\d+)> (p_\w+);", src, re.M) if re.search(rf"^\t{n} = wire<", src, re.M)]


def lit(n, b, v):
    return f"{'' if v else '!'}({n}.curr.data[{b // 32}]>>{b % 32}&1)"


def inject(src, code, glob=""):
    i = src.rindex("\treturn converged;")
    j = src.index("namespace cxxrtl_design {") + len("namespace cxxrtl_design {")
    return src[:j] + "\n" + glob + src[j:i] + code + src[i:]


def so(src, name):
    cc = f"{W}/{name}.cc"
    with open(cc, "w") as f:
        f.write(src)
    out = f"{W}/{name}.so"
    flags = ["-DDUT_CLS=p_dut", f'-DDUT_SRC="{cc}"', "-DDUT_EN"]
    subprocess.run([build._cc(), "-std=c++17", "-O2", "-DNDEBUG", "-fPIC", "-shared", "-w", f"-I{build._cxxrtl_inc()}", f"-I{V}/sim", *flags, "-o", out, f"{V}/sim/wrap.cc"], check=True)
    os.unlink(cc)
    return out


def batch(exe, p, dut, seed, n, secs, out):
    q = subprocess.run([exe, "batch", "--prop", str(p), "--dut", f"core={dut}", "--seed", str(seed), "--n", str(n), "--worker", "0", "--workers", "1",
                        "--out", out, "--time", str(secs)], capture_output=True, text=True, timeout=600)
    return (json.loads(q.stdout) if q.returncode == 0 else None), q.stderr


def evaluate(a):
    k, exe, src, code, weak, runs, seed = a
    if weak:    # the flip at every visit of the same microinstruction: dead state when even that goes unnoticed
        h = evaluate((f"{k}w", exe, src, weak, None, min(runs, 1000), seed))
        if not h:
            return None
    s = so(inject(src, code), f"t{k}")
    hits = {}
    for p in PROPS:
        j, err = batch(exe, p, s, seed, runs, 60, f"{W}/o{k}")
        if j and j["vidx"] >= 0:
            hits[f"C{p:02}"] = [j["vidx"], j["cls"], j["detail"][:120]]
            break
    os.unlink(s)
    return hits


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--count", type=int, default=100)
    ap.add_argument("--bits", default="8,16,24")
    ap.add_argument("--runs", type=int, default=4000)
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    exe = shutil.copy2(build.engine(), f"{W}/sim")
    src = base()
    regs = registers(src)
    print(sum(w for _, w in regs), "state bits in", len(regs), "registers", flush=True)
    rng = random.Random(a.seed)
    # states seen: dump every register at sparse clock edges
    pr = "".join(f'fprintf(stderr," %llx",(unsigned long long)({n}.curr.data[0]{f"|(unsigned long long){n}.curr.data[1]<<32" if w > 32 else ""}));' for n, w in regs)
    code = f'if (posedge_p_clk && ++tj_n % 9973 == 0) {{ {pr} fprintf(stderr,"\\n"); }}\n'
    s = so(inject(src, code, "static unsigned long long tj_n;\n"), "snap")
    states = []
    for p in (1, 4, 5, 9):
        _, err = batch(exe, p, s, a.seed + 1000, 400, 60, f"{W}/o")
        states += [[int(x, 16) for x in ln.split()] for ln in err.splitlines() if len(ln.split()) == len(regs)]
    print(len(states), "states sampled", flush=True)
    bits = [(i, b) for i, (n, w) in enumerate(regs) for b in range(w)]
    seq = [i for i, (n, w) in enumerate(regs) if n.endswith(("next__adr",))]
    exps = []
    for e in range(a.count):
        k = int(rng.choice(a.bits.split(",")))
        st = rng.choice(states)
        # the microprogram address, and k bits of a few registers
        some = rng.sample(range(len(regs)), 6)
        pool = [(i, b) for i, b in bits if i in some]
        pick = rng.sample(pool, min(k, len(pool))) + [(i, b) for i in seq for b in range(regs[i][1])]
        trig = " && ".join(lit(regs[i][0], b, st[i] >> b & 1) for i, b in sorted(set(pick)))
        ti = rng.randrange(len(regs))
        tb = rng.randrange(regs[ti][1])
        exps.append((k, trig, regs[ti][0], tb))
    # how often does each trigger fire under the checks' workload?
    n = len(exps)
    code = "if (posedge_p_clk) {" + "".join(f"if ({t}) tj_c[{i}]++;\n" for i, (_, t, _, _) in enumerate(exps)) + "}\n"
    glob = f'struct TJ {{ unsigned long long c[{n}]; ~TJ() {{ fprintf(stderr,"TJ"); for (auto x : c) fprintf(stderr," %llu",x); fprintf(stderr,"\\n"); }} }}; static TJ tj; static auto &tj_c = tj.c;\n'
    s = so(inject(src, code, glob), "count")
    fires = [0] * n
    for p in (1, 4, 5, 9):
        _, err = batch(exe, p, s, a.seed, a.runs, 100, f"{W}/o")
        m = re.search(r"^TJ (.*)$", err, re.M)
        fires = [x + int(y) for x, y in zip(fires, m[1].split())]
    print("triggers that fire:", sum(x > 0 for x in fires), "of", n, flush=True)
    flip = "if (posedge_p_clk && {}) {}.next.data[{}] ^= 1u<<{};\n"
    jobs = [(i, exe, src, flip.format(t, r, b // 32, b % 32), flip.format(" && ".join(x for x in t.split(" && ") if "next__adr" in x), r, b // 32, b % 32), a.runs, a.seed) for i, (_, t, r, b) in enumerate(exps)]
    with open(a.out, "a") as f, cf.ThreadPoolExecutor(a.jobs) as ex:
        for (k, t, r, b), fi, h in zip(exps, fires, ex.map(evaluate, jobs)):
            f.write(json.dumps(dict(k=k, trig=t, reg=r, bit=b, fires=fi, hits=h)) + "\n")
            f.flush()
    shutil.rmtree(W, ignore_errors=True)


if __name__ == "__main__":
    main()
