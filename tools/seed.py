"""Create and validate a planted change: seed.py FILE.py

FILE.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old,
new)], demo)].  Each is kept in seeded/<id> only if, in a scratch copy of
/repo, the demo passes without and fails with it, the build's imports work
and (with --tests) the stable tests pass.
"""
import difflib
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run in the repository's root
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=2
D=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD/scikit-topt" exec /opt/venv/bin/python "$D/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def main():
    ns = runpy.run_path(sys.argv[1])
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    tests = "--tests" in sys.argv
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        w = f"/tmp/seedwork/{s['id']}"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs("/tmp/seedwork", exist_ok=True)
        shutil.copytree("/repo", w, ignore=shutil.ignore_patterns(
            ".git", "__pycache__", "assets", "docs"))
        out = os.path.join(HERE, "seeded", s["id"])
        tmp = f"/tmp/seedwork/{s['id']}.d"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + "/demo.sh", "w").write(SH)
        open(tmp + "/demo.py", "w").write(ns.get("COMMON", "") + s["demo"])
        json.dump({"property": s["property"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]},
                  open(tmp + "/meta.json", "w"), indent=1)
        r0 = sh(["bash", tmp + "/demo.sh"], w, timeout=300)
        bad = None
        for f, old, new in s["edits"]:
            p = f"{w}/scikit-topt/sktopt/{f}"
            t = open(p).read()
            if old not in t:
                bad = f"OLD NOT FOUND {f}: {old[:60]}"
                break
            open(p, "w").write(t.replace(old, new, 1))
        if bad:
            print(s["id"], bad)
            continue
        d = ""
        for f in dict.fromkeys(e[0] for e in s["edits"]):
            q = f"scikit-topt/sktopt/{f}"
            d += "".join(difflib.unified_diff(
                open(f"/repo/{q}").readlines(), open(f"{w}/{q}").readlines(),
                "a/" + q, "b/" + q))
        open(tmp + "/patch.diff", "w").write(d)
        r1 = sh(["bash", tmp + "/demo.sh"], w, timeout=300)
        ok = r0.returncode == 0 and r1.returncode != 0
        t = ""
        if ok and tests:
            env = dict(os.environ, PYTHONPATH=w + "/scikit-topt",
                       MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
                       OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                       NUMBA_NUM_THREADS="1")
            r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p",
                    "no:cacheprovider", "--timeout=300",
                    "-x", f"--basetemp={tmp}/t"], w, env=env)
            t = r.stdout.strip().splitlines()[-1]
            shutil.rmtree(tmp + "/t", ignore_errors=True)
            if "9 passed" not in t:
                ok = False
        print(s["id"], "OK" if ok else "REJECTED", "clean", r0.returncode,
              "patched", r1.returncode, t,
              (r1.stdout + r1.stderr).strip().splitlines()[-1:]
              if ok else (r0.stderr[-600:], r1.stdout[-300:]), flush=True)
        if ok:
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(tmp, out)
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)


main()
