"""apply each seeded change to a copy of the package, run the checks on it"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.registry import TABLE       # noqa: E402


def one(sid):
    d = f"/tmp/seedrun/{sid}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/repo/scikit-topt/sktopt", d + "/scikit-topt/sktopt",
                    ignore=shutil.ignore_patterns("__pycache__"))
    src = f"{HERE}/seeded/{sid}"
    prop = json.load(open(src + "/meta.json"))["property"]
    r = subprocess.run(["patch", "-p1", "-s", "-i", src + "/patch.diff"],
                       cwd=d, capture_output=True, text=True)
    if r.returncode:
        return sid, prop, ["PATCH FAILED " + r.stdout]
    out = []
    env = dict(os.environ, VERIF_REPO=d, SA_EVID=d)
    for c in (TABLE if "--all" in sys.argv else [prop]):
        if c not in TABLE:
            out.append(f"{c}:no check")
            continue
        r = subprocess.run(["python3", HERE + "/check.py", c], env=env,
                           capture_output=True, text=True)
        if r.returncode or c == prop:
            out.append(f"{c}:{'CAUGHT' if r.returncode == 1 else r.returncode}")
    shutil.rmtree(d)
    return sid, prop, out


ids = sorted(os.listdir(HERE + "/seeded"))
ids = [i for i in ids if not [a for a in sys.argv[1:] if a[0] != "-"]
       or i in sys.argv[1:]]
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(one, ids):
        print(*r, flush=True)
