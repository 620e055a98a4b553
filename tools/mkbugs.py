"""Write /verif/seeded/<id>/ from the definitions in tools/bugs/*.py and confirm each one:
the patch applies, the demonstration passes without it and fails with it, and (with --tests)
the stable tests still pass.  Usage: mkbugs.py [--tests] [ID...]"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = "/verif"
BUGS = {}


def bug(id, prop, edits, demo, needs, breaks):
    BUGS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def main():
    here = os.path.join(ROOT, "tools")
    for f in sorted(os.listdir(here + "/bugs")):
        if f.endswith(".py"):
            exec(compile(open(f"{here}/bugs/{f}").read(), f, "exec"), {"bug": bug})
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tests = "--tests" in sys.argv
    bad = 0
    for id, b in BUGS.items():
        if args and id not in args:
            continue
        d = f"{ROOT}/{"microcode-bugs" if any(e[0].endswith(".asm") for e in b["edits"]) else "seeded"}/{id}"
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix="bug-", dir="/tmp")
        try:
            sh(f"cp -a /repo {w}/repo", "/")
            for fn, old, new in b["edits"]:
                p = f"{w}/repo/{fn}"
                s = open(p).read()
                assert s.count(old) == 1, (id, fn, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = sh("git diff", f"{w}/repo").stdout
            assert diff
            open(f"{d}/patch.diff", "w").write(diff)
            shutil.copy(here + "/demo/h.py", d)
            shutil.copy(here + "/demo/demo.sh", d)
            os.chmod(f"{d}/demo.sh", 0o755)
            open(f"{d}/demo.py", "w").write(b["demo"].lstrip("\n"))
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(f"{d}/meta.json", "w"), indent=1)
            lay = f"{w}/elsewhere"
            shutil.copytree(d, lay)
            for f in ("patch.diff", "meta.json"):
                os.remove(f"{lay}/{f}")
            good = sh(f"sh {lay}/demo.sh", "/repo")
            br = sh(f"sh {lay}/demo.sh", f"{w}/repo")
            ok = good.returncode == 0 and br.returncode != 0
            msg = f"{id} [{b['prop']}] demo clean={good.returncode} patched={br.returncode} {br.stdout.strip()[-160:]}"
            if "Traceback" in br.stderr or good.returncode:
                msg += "\n" + br.stderr[-600:] + good.stdout[-500:] + good.stderr[-900:]
            if tests and ok:
                r = sh(f"git apply {d}/patch.diff && bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh {w}/out.json >/dev/null 2>&1; git checkout -- .", "/repo")
                o = open(f"{w}/out.json").read()
                res = json.loads(o)
                st = all(x in json.dumps(res.get("passed", res.get("pass", o))) for x in
                         ("doctest::development/internals", "tests.sim.test_ucode::test_ucode_layout_gen"))
                msg += f" tests={'ok' if st else 'BROKEN ' + o[:300]}"
                ok = ok and st
            bad += not ok
            print(("ok   " if ok else "BAD  ") + msg, flush=True)
        finally:
            shutil.rmtree(w)
    sys.exit(bad != 0)


main()
