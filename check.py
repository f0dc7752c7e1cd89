#!/usr/bin/env python3
"""Decide one property of /repo from its source.  See DESIGN.md."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from sa.ctx import Ctx                      # noqa: E402
from sa.project import AnalysisError        # noqa: E402
from sa import registry                     # noqa: E402


def known_findings():
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                     "KNOWN_FINDINGS.txt")
    out = set()
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: "):
                # finding: property=<id> key=<rule|construct> :: <text>
                head = line[len("finding: "):].split(" :: ", 1)[0]
                pid, key = head.strip().split(" ", 1)
                out.add((pid.split("=", 1)[1], key.split("=", 1)[1]))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        ctx = Ctx(pid, tier, seed)
        run, meta = registry.get(pid)
        late.append((ctx, meta))
        ctx.section("analysis", run, ctx)
    except AnalysisError as e:
        print(f"ANALYSIS-BROKEN property={pid}: {e}")
        return 2
    del late[:]
    return ctx.finish(meta["level"], meta["explanation"], meta["trusted"],
                      known_findings())


late = []           # the analysis under way
LIMIT = 600         # seconds for a quick run


def out_of_time():
    """report what was decided until now"""
    ctx, meta = late[0]
    ctx.unsure("time", "analysis", f"not finished after {LIMIT} s")
    return ctx.finish(meta["level"], meta["explanation"], meta["trusted"],
                      known_findings())


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def go():
        rc[0] = main()
    t = threading.Thread(target=go, daemon=True)
    t.start()
    if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough":
        t.join()
    else:
        t.join(LIMIT)
        if t.is_alive() and late:
            rc[0] = out_of_time()
            sys.stdout.flush()
            os._exit(rc[0])
        t.join()
    sys.stdout.flush()
    sys.exit(rc[0])
