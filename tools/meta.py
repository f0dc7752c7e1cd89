#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
S = "scikit-topt/sktopt/"
CD = S + "core/optimizers/common_density.py"
OC = S + "core/optimizers/oc.py"
LM = S + "core/optimizers/logmoc.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note,
         state=(), observe=(), na=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={"files": files,
                 "mechanism": [dict(name=n, where=w) for n, w in mech],
                 "state": [dict(name=a, meaning=b, where=c)
                           for a, b, c in state],
                 "observe_at": list(observe), "hook_needed": None},
        _tech=tech, _note=note, _na=na))


from meta_table import fill           # noqa: E402
fill(prop, S, CD, OC, LM)


def main():
    from sa.registry import TABLE
    assert all(len(p["title"]) <= 80 for p in P), [
        p["id"] for p in P if len(p["title"]) > 80]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items()
                                if k[0] != "_"}) + "\n")
    checks, na = [], []
    for p in P:
        if p["_na"]:
            na.append({"property": p["id"], "reason": p["_na"]})
            assert p["id"] not in TABLE, p["id"]
            continue
        if p["id"] not in TABLE:
            na.append({"property": p["id"], "reason":
                       "no check built yet"})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']}",
            "thorough_cmd": f"python3 check.py {p['id']} --thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["_tech"], "level": "other",
            "level_note": p["_note"]})
    missing = set(TABLE) - {p["id"] for p in P}
    assert not missing, missing
    man = {"version": 1,
           "setup_cmd": "python3 -c \"import ast, sys; "
                        "assert sys.version_info >= (3, 8)\"",
           "checks": checks, "not_applicable": na,
           "notes": "Static value-flow analysis of the Python source; no "
                    "check runs code of /repo. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed;", [x["property"] for x in na], "not")


if __name__ == "__main__":
    main()
