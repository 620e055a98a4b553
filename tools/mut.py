#!/usr/bin/env python3
"""Mutation campaign: systematic source mutants, each judged by every check's engine profile.

    mut.py OUT.jsonl FILE... [--n RUNS] [--jobs J] [--sample K] [--seed S]

Scratch copies only (/tmp/mut); reads /repo, writes OUT.jsonl: one line per mutant with the
properties that report it.  A development tool, not a check.
"""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/dst")


def py_mutants(path, src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    b = src.encode()

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset
    out = []

    def rep(s, e, new, what, line):
        t = b[:s] + new.encode() + b[e:]
        out.append((what, line, t.decode()))
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n

    def seg(n):
        s, e = pos(n)
        return b[s:e].decode()

    def in_doc(n):
        p = parents.get(n)
        return isinstance(p, ast.Expr)
    for n in ast.walk(tree):
        if not hasattr(n, "lineno"):
            continue
        L = n.lineno
        if isinstance(n, ast.BinOp):
            alt = {ast.BitAnd: "|", ast.BitOr: "&", ast.Add: "-", ast.Sub: "+", ast.BitXor: "|", ast.LShift: ">>", ast.RShift: "<<"}.get(type(n.op))
            if alt:
                rep(*pos(n), f"({seg(n.left)}) {alt} ({seg(n.right)})", f"op {alt}: {seg(n)[:60]}", L)
            if isinstance(n.op, (ast.BitAnd, ast.BitOr)):
                rep(*pos(n), seg(n.left), f"left only: {seg(n)[:60]}", L)
                rep(*pos(n), seg(n.right), f"right only: {seg(n)[:60]}", L)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Invert):
            rep(*pos(n), f"({seg(n.operand)})", f"no ~: {seg(n)[:60]}", L)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.Gt: ">=", ast.LtE: "<", ast.GtE: ">"}.get(type(n.ops[0]))
            if alt:
                rep(*pos(n), f"({seg(n.left)}) {alt} ({seg(n.comparators[0])})", f"cmp {alt}: {seg(n)[:60]}", L)
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            for v in {n.value + 1, n.value - 1} | ({0} if n.value > 1 else set()):
                if v >= 0:
                    rep(*pos(n), str(v), f"const {n.value}->{v}", L)
        elif isinstance(n, ast.Call):
            f = seg(n.func)
            if f == "Mux" and len(n.args) == 3:
                a, c, d = map(seg, n.args)
                rep(*pos(n), f"Mux({a}, {d}, {c})", f"mux swap: {seg(n)[:60]}", L)
            if f in ("m.If", "m.Elif") and n.args:
                rep(*pos(n), f"{f}(~({seg(n.args[0])}).bool())", f"negate: {seg(n)[:60]}", L)
                rep(*pos(n), f"{f}(1)", f"always: {seg(n)[:60]}", L)
                rep(*pos(n), f"{f}(0)", f"never: {seg(n)[:60]}", L)
            if f.endswith(".eq") and n.args:
                p = parents.get(n)
                if isinstance(p, ast.AugAssign):
                    rep(*pos(p), "pass", f"drop: {seg(n)[:60]}", L)
                elif isinstance(p, ast.List):
                    rep(*pos(n), "[]", f"drop: {seg(n)[:60]}", L)
                if not isinstance(n.args[0], ast.Constant):
                    rep(*pos(n.args[0]), "0", f"zero: {seg(n)[:60]}", L)
                else:
                    pass
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and n.attr in ("comb", "sync") and seg(n.value) == "m.d":
            pass
        elif isinstance(n, ast.Attribute) and n.attr.isupper() and len(n.attr) > 1:
            sib = {x.attr for x in ast.walk(tree) if isinstance(x, ast.Attribute) and seg(x.value) == seg(n.value) and x.attr.isupper()} - {n.attr}
            for x in sorted(sib)[:3]:
                rep(*pos(n), f"{seg(n.value)}.{x}", f"enum {seg(n)}->{x}", L)
        elif isinstance(n, ast.List) and isinstance(parents.get(n), ast.AugAssign) is False and len(n.elts) > 1:
            pass
    return out


def asm_mutants(path, src):
    out = []
    ls = src.splitlines(keepends=True)
    vals = {}
    for ln in ls:
        for k, v in re.findall(r"(\w+)\s*=>\s*(\w+)", ln.split("//")[0].split(";")[0] + ";"):
            vals.setdefault(k, set()).add(v)
    for i, ln in enumerate(ls):
        code = re.split(r"//|/\*", ln)[0]
        for m in re.finditer(r"(\w+)\s*=>\s*(\w+)\s*,?", code):
            t = ln[:m.start()] + ln[m.end():]
            t = re.sub(r",\s*;", ";", t)
            out.append((f"drop {m.group(0)}", i + 1, "".join(ls[:i] + [t] + ls[i + 1:])))
            for v in sorted(vals.get(m.group(1), set()) - {m.group(2)})[:4]:
                t = ln[:m.start(2)] + v + ln[m.end(2):]
                out.append((f"{m.group(0)} -> {v}", i + 1, "".join(ls[:i] + [t] + ls[i + 1:])))
    return out


BASE = {}


def base_text(variant, repo, build):
    if (variant, repo) in BASE:
        return BASE[variant, repo]
    old, build.REPO = build.REPO, repo
    out = f"/tmp/mut/e{os.getpid()}.cc"
    try:
        build.run([build.PY, f"{V}/dst/elab.py", variant, out], "elaboration", env=build.env(), cwd="/tmp/mut")
        with open(out) as f:
            t = f.read()
    finally:
        build.REPO = old
    if repo == "/repo":
        BASE[variant, repo] = t
    return t


def evaluate(args):
    k, rel, what, line, text, n, exe, formal = args
    import build
    d = f"/tmp/mut/w{k}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo/src", d + "/src")
    with open(f"{d}/{rel}", "w") as f:
        f.write(text)
    build.REPO = d
    build.CACHE = f"{d}/cache"
    r = dict(id=k, file=rel, line=line, what=what)
    t0 = time.time()
    try:
        variants = ["formal", "core"] if formal else ["core"]
        try:
            if base_text(variants[0], "/repo", build) == base_text(variants[0], d, build):
                r["equiv"] = 1
                return r
            sos = {v: build.dut(v) for v in variants}
        except build.BuildError as e:
            r["build"] = str(e).strip().splitlines()[-1][:200]
            return r
        hits = {}
        for p in ([15] if formal else [1, 11, 4, 5, 6, 9, 7, 10, 2, 3, 8, 12, 13, 14]):
            v = "formal" if p == 15 else "core"
            q = subprocess.run([exe, "batch", "--prop", str(p), "--dut", f"{v}={sos[v]}", "--seed", "1", "--n", str(n), "--worker", "0", "--workers", "1",
                                "--out", f"{d}/o", "--time", "60"], capture_output=True, text=True, timeout=300)
            if q.returncode:
                r["crash"] = q.stderr[-200:]
                continue
            j = json.loads(q.stdout)
            if j["vidx"] >= 0:
                hits[f"C{p:02}"] = [j["vidx"], j["cls"], j["detail"][:100]]
        r["hits"] = hits
    except Exception as e:
        r["error"] = repr(e)[:300]
    finally:
        r["t"] = round(time.time() - t0, 1)
        shutil.rmtree(d, ignore_errors=True)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("files", nargs="+")
    ap.add_argument("--n", type=int, default=1500)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--formal", action="store_true")
    a = ap.parse_args()
    import build
    os.makedirs("/tmp/mut", exist_ok=True)
    exe = shutil.copy2(build.engine(), f"/tmp/mut/sim{os.getpid()}")
    todo = []
    seen = set()
    for rel in a.files:
        src = open(f"/repo/{rel}").read()
        for what, line, text in (asm_mutants if rel.endswith(".asm") else py_mutants)(rel, src):
            if text != src and text not in seen:
                seen.add(text)
                todo.append((rel, what, line, text))
    random.Random(a.seed).shuffle(todo)
    if a.sample:
        todo = todo[:a.sample]
    print(len(todo), "mutants", flush=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    base = int(time.time()) % 100000 * 100000
    jobs = [(base + i, *t, a.n, exe, a.formal) for i, t in enumerate(todo)]
    with open(a.out, "a") as f, cf.ProcessPoolExecutor(a.jobs) as ex:
        for r in ex.map(evaluate, jobs):
            f.write(json.dumps(r) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
