"""C17: the example SoC under simulated bus, serial-line, GPIO and reset schedules."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

import build
from build import CACHE, PY, REPO, VERIF, run

VARIANTS = {"wb-bare": 24000, "csr-bare": 24000, "wb-cpu": 4000, "csr-cpu": 4000}
WHAT = {"bare": "examples/attosoc.py peripherals, RAM and interconnect, simulator as bus master, UART divisor 40, as CXXRTL",
        "cpu": "examples/attosoc.py complete with sentinel.top.Top executing firmware, UART divisor as shipped, as CXXRTL"}
QUICK_CAP, THOROUGH_S = 240, 780
FAULTS = {"resets": "resets", "resets_during_bus_access": "reset_in_tx", "resets_during_received_character": "reset_in_rx",
          "resets_during_sent_character": "reset_in_txc", "skewed_line_clock_characters": "skewed", "accesses_that_must_have_no_effect": "junk",
          "gpio_pin_changes": "pins", "start_bit_in_the_cycle_of_the_data_read": "early_start",
          "accesses_within_8_cycles_of_a_timer_tick": "near_tick", "flag_reads_within_12_cycles_of_a_received_character": "near_rx",
          "flag_reads_within_12_cycles_of_transmission_end": "near_tx"}
PROBES = {"bus_transactions": "txs", "timer_ticks": "ticks", "characters_received": "rxchars", "characters_sent": "txchars", "flag_reads": "flagreads",
          "timer_reads": "timerreads", "memory_accesses": "mem", "gpio_and_led_accesses": "gpio", "interrupt_line_rises": "irqs",
          "abandoned_protocol_steps": "invalid", "known_finding_reproduced": "known_losses"}


def binary(v):
    os.makedirs(CACHE, exist_ok=True)
    bus, kind = v.split("-")
    key = build._hash(build.repo_sources() + [f"{REPO}/examples/attosoc.py", f"{VERIF}/dst/soc_elab.py", f"{VERIF}/sim/soc.cc"] +
                      glob.glob(f"{VERIF}/stubs/**/*.py", recursive=True), v)
    exe = f"{CACHE}/soc-{v}-{key}"
    if os.path.exists(exe):
        return exe
    d = tempfile.mkdtemp(dir=CACHE)
    try:
        e = build.env()
        e["PYTHONPATH"] = f"{REPO}:" + e["PYTHONPATH"]
        run([PY, f"{VERIF}/dst/soc_elab.py", bus, kind, f"{d}/d.cc"], f"elaboration of the SoC ({v})", env=e, cwd=d)
        run([build._cc(), "-O2", "-std=c++17", "-w", "-DNDEBUG", f"-I{build._cxxrtl_inc()}", f'-DDUT_SRC="{d}/d.cc"', f"-DWB={int(bus == 'wb')}",
             f"-DCPU={int(kind == 'cpu')}", f"-DDIV={1250 if kind == 'cpu' else 40}", "-o", f"{d}/o", f"{VERIF}/sim/soc.cc"], f"compilation of the SoC ({v})")
        os.replace(f"{d}/o", exe)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return exe


def tolerate():
    """\"1\" if known-findings.txt lists the tick lost in the acknowledge cycle of a WBTimer read."""
    from check import known_findings
    return str(int(any(p == "C17" and c == "ACK_TICK" for p, c, _, _ in known_findings())))


def binaries():
    with cf.ThreadPoolExecutor(4) as ex:
        return dict(zip(VARIANTS, ex.map(binary, VARIANTS)))


def check(prop, seed, tier):
    from check import child_env, report
    t0 = time.time()
    exes = binaries()
    W = min(8, os.cpu_count() or 1)
    cap = QUICK_CAP if tier == "quick" else THOROUGH_S
    agg = {v: {} for v in VARIANTS}
    hashes = {v: set() for v in VARIANTS}
    tmp = tempfile.mkdtemp(prefix="dst-")
    procs = set()
    found = None
    t1 = time.time()

    def job(v, w, lo, n):
        out = f"{tmp}/{v}.{w}"
        left = cap - (time.time() - t0)
        if left < 1:
            return v, None, out
        p = subprocess.Popen([exes[v], "batch", "--seed", str(seed), "--lo", str(lo), "--n", str(n), "--worker", str(w), "--workers", str(W),
                              "--time", f"{left:.1f}", "--known", tolerate(), "--out", out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=child_env())
        procs.add(p)
        so, se = p.communicate(timeout=left + 120)
        procs.discard(p)
        if p.returncode:
            raise RuntimeError(f"engine exited with {p.returncode}: {se[-2000:]}")
        with open(out + ".h", "rb") as f:
            h = f.read()
        hashes[v].update(h[i:i + 8] for i in range(0, len(h), 8))
        return v, json.loads(so), out

    try:
        done = {v: 0 for v in VARIANTS}
        rnd = 0
        while not found and time.time() - t0 < cap:
            todo = []
            for v, n in VARIANTS.items():
                hi = (n // 8, n, n * 4)[rnd] if rnd < 3 else done[v] * 2
                if tier == "quick":
                    hi = min(hi, n)
                if hi > done[v]:
                    todo += [(v, w, done[v], hi) for w in range(W)]
                    done[v] = hi
            if not todo:
                break
            rnd += 1
            with cf.ThreadPoolExecutor(W) as ex:
                res = list(ex.map(lambda a: job(*a), todo))
            hits = []
            for v, r, out in res:
                if r is None:
                    continue
                for k, x in r.items():
                    if k.startswith("align"):
                        agg[v][k] = max(agg[v].get(k, 0), x)
                    elif k not in ("vidx", "detail"):
                        agg[v][k] = agg[v].get(k, 0) + x
                if r["vidx"] >= 0:
                    hits.append((r["vidx"], v, r["detail"], out))
            if hits:
                found = min(hits)
        sim = time.time() - t1
        violation = confirm(prop, seed, exes, found, tmp) if found else None
    finally:
        for p in list(procs):
            p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    evidence(prop, tier, seed, agg, hashes, sim, time.time() - t0, violation)
    tot = lambda k: sum(a.get(k, 0) for a in agg.values())  # noqa: E731
    print(f"{tot('done')} runs, {sum(map(len, hashes.values()))} distinct non-trivial, {tot('cycles')} cycles, {time.time() - t0:.1f} s")
    if tot("known_losses"):
        from check import known_findings
        for p, c, m, what in known_findings():
            if (p, c) == (prop, "ACK_TICK"):
                print(f"KNOWN-FINDING: property={p} {what} [{int(tot('known_losses'))} times]")
    return report(prop, violation)


def confirm(prop, seed, exes, found, tmp):
    idx, v, detail, raw = found
    os.makedirs(f"{VERIF}/replays", exist_ok=True)
    path = f"{VERIF}/replays/{prop}-s{seed}-{v}-r{idx}.replay"
    r = subprocess.run([exes[v], "shrink", "--known", tolerate(), "--in", raw, "--out", f"{tmp}/small", "--time", "25"], capture_output=True, text=True, timeout=200)
    if r.returncode or r.stdout.startswith("NONE"):
        raise RuntimeError(f"the recorded run did not reproduce: {r.stdout}{r.stderr}")
    with open(f"{tmp}/small") as f:
        body = f.read()
    with open(path, "w") as f:
        f.write(f"# property {prop}\n# variant {v}\n# violation {r.stdout.strip()}\n{body}")
    outs = [subprocess.run([exes[v], "replay", "--known", tolerate(), "--in", path], capture_output=True, text=True, timeout=120) for _ in range(2)]
    if any(o.returncode != 1 for o in outs) or outs[0].stdout != outs[1].stdout:
        raise RuntimeError(f"replay is not deterministic: {[o.stdout for o in outs]}")
    return ("SOC", f"run {idx} of seed {seed}, {v}: {outs[0].stdout.strip()} [{body.count(chr(10))} schedule lines after minimisation]", path, 0)


def replay(path):
    with open(path) as f:
        head = f.read()
    v = re.search(r"^# variant (\S+)", head, re.M).group(1)
    r = subprocess.run([binary(v), "replay", "--known", tolerate(), "--in", path, "-v", os.environ.get("VERBOSE", "0")], capture_output=True, text=True, timeout=600)
    print(r.stderr + r.stdout.rstrip())
    if r.returncode == 1:
        print(f"VIOLATION property=C17 replay={path}")
    return r.returncode


def evidence(prop, tier, seed, agg, hashes, sim, wall, violation):
    tot = lambda k: int(sum(a.get(k, 0) for a in agg.values()))  # noqa: E731
    per_h = 3600 / sim if sim else 0
    cov = {
        "evaluations": tot("done"),
        "distinct_nontrivial": sum(map(len, hashes.values())),
        "rule": "one evaluation = one seeded simulated execution of the SoC; non-trivial = at least 8 bus transactions; distinct by hash over the "
                "cycle-stamped bus history, per variant",
        "samples": [f"{v}: " + json.dumps(a, sort_keys=True) for v, a in agg.items()],
        "runs_per_hour": int(tot("done") * per_h),
        "simulated_clock_cycles": tot("cycles"),
        "simulated_cycles_per_hour": int(tot("cycles") * per_h),
        "simulated_seconds_at_12_MHz": round(tot("cycles") / 12e6, 2),
        "faults_fired": {k: tot(x) for k, x in FAULTS.items()},
        "workload_probes": {k: tot(x) for k, x in PROBES.items()},
        "distinct_access_alignments_to_events": {v: {k: a.get(k, 0) for k in ("align_tick", "align_rx", "align_tx")} for v, a in agg.items()},
        "components": {"real": [f"{v}: " + WHAT[v.split("-")[1]] for v in agg],
                       "stub": ["amaranth_soc (memory map, Wishbone decoder, CSR bridge, registers: stand-ins with the published timing; not installed here)",
                                "amaranth_boards, tabulate (names only)", "serial line partner, GPIO pins, reset source (simulator)"]},
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2),
          "violations": 1 if violation else 0,
          "assumptions": ["the timer register is read at least once between two ticks, a character is read before the next start bit, and a character is "
                          "written only when the transmitter is known to be empty (the peripherals document no queue)",
                          "serial bit lengths within 2.5 % of nominal", "two-state simulation"]}
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/.{prop}.tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(f"{VERIF}/evidence/.{prop}.tmp", f"{VERIF}/evidence/{prop}.json")
