#!/usr/bin/env python3
"""Run the deterministic-simulation check of one property.

    check.py PROP                 (VERIF_SEED, VERIF_TIER=quick|thorough from the environment)
    check.py --replay FILE        re-execute a recorded violation (exit 1 if it reproduces)

Exit 0: held on everything explored; 1: VIOLATION (or reproduced); 2: the check itself failed.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
from build import VERIF  # noqa: E402

# property -> (variants, first one is the primary design; quick runs; thorough seconds)
CPU = {
    "C01": (["core"], 320000), "C02": (["core"], 240000), "C03": (["core"], 240000), "C04": (["core"], 320000),
    "C05": (["core"], 320000), "C06": (["core"], 320000), "C07": (["core"], 320000), "C08": (["core"], 200000),
    "C09": (["core"], 320000), "C10": (["core"], 320000), "C11": (["core"], 320000), "C12": (["core"], 280000),
    "C13": (["core"], 240000), "C14": (["core"], 280000), "C15": (["formal", "genf"], 200000),
    "C16": (["core", "formal", "gen", "genf"], 80000),
}
QUICK_CAP, THOROUGH_S = 240, 780
FAULTS = {
    "wait_state_cycles": "waits", "stalls_over_256_cycles": "long_waits", "spurious_acks": "spur",
    "garbage_words_while_idle": "garb_idle", "garbage_on_unselected_lanes": "garb_lanes",
    "irq_edges": "irq_edges", "irq_single_cycle_glitches": "irq_glitch", "irq_changes_while_stalled": "irq_gated",
    "resets": "resets", "resets_during_bus_wait": "reset_in_wait", "resets_during_execution": "reset_in_exec",
    "resets_during_reset_sequence": "reset_in_reset", "clock_enable_stall_bursts": "gate_bursts",
    "clock_enable_stalled_cycles": "gated",
}
PROBES = {"instructions": "insns", "bus_transactions": "txs", "data_transactions": "datas", "synchronous_traps": "traps_sync",
          "interrupts_taken": "traps_irq", "interrupts_deferred_by_mask": "deferred_irq", "mret": "mrets", "csr_accesses": "csr_acc",
          "writes_to_x0": "x0_writes", "rvfi_records_checked": "rvfi", "instructions_with_several_allowed_outcomes": "ambiguous",
          "abandoned_runs": "invalid"}
COV = [("(previous class, class, fetch/data wait bucket, irq phase) states", 36 * 36 * 4 * 4 * 8),
       ("(instruction class, cycle) points at which reset hit", 36 * 64), ("(instruction class, cycle) points at which a stall hit", 36 * 64),
       ("(CSR address, CSR instruction, zero/non-zero source) accesses", 4096 * 12)]


def known_findings():
    out = []
    p = f"{VERIF}/known-findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(C\d\d) class=(\S+) match=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out


def child_env():
    return {k: v for k, v in os.environ.items() if not k.startswith("VERIF_")}


def run_engine(args, timeout):
    r = subprocess.run(args, capture_output=True, text=True, timeout=timeout, env=child_env())
    return r


def dut_args(variants, sos):
    a = []
    for v in variants:
        a += ["--dut", f"{v}={sos[v]}"]
    return a


def cpu_check(prop, seed, tier):
    t0 = time.time()
    variants, quick_n = CPU[prop]
    num = int(prop[1:])
    replays = f"{VERIF}/replays"
    os.makedirs(replays, exist_ok=True)
    try:
        exe, sos = build.all_of(variants)
        variants = list(sos)
    except build.DesignError as e:
        if prop not in ("C15", "C16"):
            raise
        path = f"{replays}/{prop}-design.replay"
        with open(path, "w") as f:
            f.write(f"# property {prop}\n# violation DESIGN: {str(e).splitlines()[-1]}\nD {' '.join(variants)}\n")
        return dict(violation=("DESIGN", str(e).splitlines()[-1], path, 0), agg={}, distinct=0, cov=[0] * len(COV),
                    wall=time.time() - t0, seed=seed, variants=variants, sim_wall=0)
    W = min(8, os.cpu_count() or 1)
    agg, cov, hashes, samples = {}, None, set(), []
    found = None
    lo = 0
    rounds = [4000, 16000] if tier == "quick" else [4000, 16000, 60000]
    tmp = tempfile.mkdtemp(prefix="dst-")
    procs = []
    sim_wall = 0
    try:
        while True:
            if tier == "quick":
                if lo >= quick_n:
                    break
                n = rounds.pop(0) if rounds else quick_n - lo
                hi = min(lo + n, quick_n)
                left = QUICK_CAP - (time.time() - t0)
            else:
                n = rounds.pop(0) if rounds else 200000
                hi = lo + n
                left = THOROUGH_S - (time.time() - t0)
            if left <= 1:
                break
            t1 = time.time()
            procs = []
            for w in range(W):
                out = f"{tmp}/v{w}"
                args = [exe, "batch", "--prop", str(num), *dut_args(variants, sos), "--seed", str(seed), "--lo", str(lo), "--n", str(hi),
                        "--worker", str(w), "--workers", str(W), "--out", out, "--time", f"{left:.1f}", "--cov", f"{tmp}/c{w}"]
                procs.append((subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=child_env()), out))
            res = []
            for w, (p, out) in enumerate(procs):
                so, se = p.communicate(timeout=left + 120)
                if p.returncode:
                    raise RuntimeError(f"engine exited with {p.returncode}: {se[-2000:]}")
                res.append((json.loads(so), out, w))
            sim_wall += time.time() - t1
            timed = False
            for r, out, w in res:
                merge(agg, r)
                timed |= bool(r["timed"])
                with open(f"{tmp}/c{w}", "rb") as f:
                    b = f.read()
                cov = int.from_bytes(b, "little") | (cov or 0)
                with open(f"{tmp}/c{w}.h", "rb") as f:
                    h = f.read()
                hashes.update(h[i:i + 8] for i in range(0, len(h), 8))
                if len(samples) < 4:
                    samples += r["samples"][:1]
            hits = sorted((r["vidx"], r["cls"], r["detail"], out) for r, out, w in res if r["vidx"] >= 0)
            if hits:
                found = hits[0]
                break
            lo = hi
            if timed:
                break
        agg["samples"] = samples
        violation = None
        if found:
            violation = confirm(prop, num, exe, sos, variants, seed, found, tmp, replays)
        counts = []
        bit = 0
        for _, size in COV:
            counts.append(bin(((cov or 0) >> bit) & ((1 << size) - 1)).count("1"))
            bit += size
        return dict(violation=violation, agg=agg, distinct=len(hashes), cov=counts, wall=time.time() - t0, seed=seed,
                    variants=variants, sim_wall=sim_wall)
    finally:
        for p, _ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)


def merge(agg, r):
    for k, v in r.items():
        if k == "cls_n":
            d = agg.setdefault(k, {})
            for c, (n, lo, hi) in v.items():
                if n:
                    a = d.setdefault(c, [0, lo, hi])
                    d[c] = [a[0] + n, min(a[1], lo), max(a[2], hi)]
        elif k == "otherc":
            d = agg.setdefault(k, {})
            for c, n in v.items():
                d[c] = d.get(c, 0) + n
        elif isinstance(v, (int, float)) and k not in ("vidx", "timed"):
            agg[k] = agg.get(k, 0) + v


def confirm(prop, num, exe, sos, variants, seed, found, tmp, replays):
    """Minimise, then replay in a fresh process: it must fail in the same way."""
    idx, cls, detail, raw = found
    path = f"{replays}/{prop}-s{seed}-r{idx}.replay"
    common = ["--prop", str(num), *dut_args(variants, sos)]
    small = f"{tmp}/small"
    r = run_engine([exe, "shrink", *common, "--in", raw, "--out", small, "--time", "25"], 200)
    if r.returncode or r.stdout.split("\t")[0] == "NONE":
        raise RuntimeError(f"the recorded run did not reproduce: {r.stdout}{r.stderr}")
    shutil.copyfile(small, path)
    outs = [run_engine([exe, "replay", *common, "--in", path], 120) for _ in range(2)]
    if any(o.returncode != 1 for o in outs) or outs[0].stdout != outs[1].stdout:
        raise RuntimeError(f"replay is not deterministic: {[o.stdout for o in outs]}")
    c, steps, det = outs[0].stdout.rstrip("\n").split("\t", 2)
    return (c, f"run {idx} of seed {seed}: {det} [{steps} instructions after minimisation]", path, int(steps))


def evidence(prop, tier, seed, r, extra_assumptions=()):
    a = r["agg"]
    per_h = 3600 / r["sim_wall"] if r["sim_wall"] else 0
    cov = {
        "evaluations": int(a.get("done", 0)),
        "distinct_nontrivial": r["distinct"],
        "rule": "one evaluation = one seeded simulated execution (program, data, wait states, interrupts, resets, stalls and don't-care "
                "values all drawn from the seed); non-trivial = at least 8 completed instructions, at least one injected fault fired, and "
                "not abandoned; distinct by hash over the cycle-stamped bus history",
        "samples": a.get("samples") or [f"no run was needed: {r['violation'][1] if r['violation'] else ''}"],
        "runs_per_hour": int(a.get("done", 0) * per_h),
        "simulated_clock_cycles": int(a.get("cycles", 0) + a.get("gated", 0) + a.get("second_cycles", 0)),
        "simulated_cycles_per_hour": int((a.get("cycles", 0) + a.get("gated", 0) + a.get("second_cycles", 0)) * per_h),
        "second_executions_for_comparison": int(a.get("second_runs", 0)),
        "faults_fired": {k: int(a.get(v, 0)) for k, v in FAULTS.items()},
        "workload_probes": {k: int(a.get(v, 0)) for k, v in PROBES.items()},
        "distinct_states": {k: n for (k, _), n in zip(COV, r["cov"])},
        "cycles_per_instruction_class": {k: {"count": v[0], "min_busy": v[1], "max_busy": v[2]} for k, v in a.get("cls_n", {}).items()},
        "violations_of_other_properties": a.get("otherc", {}),
        "components": {"real": [f"{v}: " + VARIANT[v.split('.')[0]] for v in r["variants"]],
                       "stub": ["Wishbone slave/memory, interrupt, reset and clock-enable sources (simulator)",
                                "amaranth_soc (interface declarations only; not installed here)"]},
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(r["wall"], 2),
          "violations": 1 if r["violation"] else 0,
          "assumptions": ["slaves acknowledge one or more cycles after the request, never combinationally in its first cycle",
                          "the slave, the interrupt source and reset run in the CPU's clock domain",
                          "two-state simulation: registers the design leaves uninitialised start as zero",
                          *extra_assumptions]}
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    tmp = f"{VERIF}/evidence/.{prop}.tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, f"{VERIF}/evidence/{prop}.json")


VARIANT = {"core": "sentinel.top.Top behind Amaranth's EnableInserter, as CXXRTL", "formal": "sentinel.formal.FormalTop (RVFI), as CXXRTL",
           "gen": "the design sentinel.gen writes, as CXXRTL", "genf": "the design sentinel.gen -f writes, as CXXRTL"}


def replay(path):
    head = open(path).read()
    prop = re.search(r"property (C\d\d)", head).group(1)
    if prop in CPU:
        variants = CPU[prop][0]
        m = re.search(r"^D (.*)$", head, re.M)
        if m:
            try:
                build.all_of(m.group(1).split())
            except build.DesignError as e:
                print(f"DESIGN: {str(e).splitlines()[-1]}\nVIOLATION property={prop} replay={path}")
                return 1
            print("the design builds")
            return 0
        exe, sos = build.all_of(variants)
        variants = list(sos)
        r = run_engine([exe, "replay", "--prop", str(int(prop[1:])), *dut_args(variants, sos), "--in", path,
                        "-v", os.environ.get("VERBOSE", "0")], 600)
        print(r.stdout.rstrip())
        if r.returncode == 1:
            print(f"VIOLATION property={prop} replay={path}")
        elif r.returncode:
            print(r.stderr, file=sys.stderr)
            return 2
        return r.returncode
    mod = other(prop)
    return mod.replay(path)


def other(prop):
    import importlib
    return importlib.import_module({"C17": "soc_check", "C18": "io_check", "C20": "env_check"}[prop])


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    print(f"seed {seed} tier {tier} property {prop}", flush=True)
    if prop not in CPU:
        return other(prop).check(prop, seed, tier)
    r = cpu_check(prop, seed, tier)
    evidence(prop, tier, seed, r)
    a = r["agg"]
    print(f"{int(a.get('done', 0))} runs, {r['distinct']} distinct non-trivial, {int(a.get('cycles', 0) + a.get('second_cycles', 0))} cycles, "
          f"{r['wall']:.1f} s")
    return report(prop, r["violation"])


def report(prop, v):
    if not v:
        return 0
    cls, detail, path, _ = v
    for p, c, m, what in known_findings():
        if p == prop and c == cls and re.search(m, detail):
            print(f"KNOWN-FINDING: property={prop} {what}")
            return 0
    print(f"{cls}: {detail}")
    print(f"VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}")
    return 1


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
