"""What a rule sees: the project, obligations, and the verdict policy.

An obligation is *discharged* when the abstract value the analysis derived
from the source is equal (value numbering) to the one the property demands,
or the fact about paths / events holds on all abstract paths.  It is *broken*
only with a positive witness: both sides fully modelled and different.  If
anything unmodelled takes part, it is *undecided*: never an alarm.
"""
from __future__ import annotations
import ast
import json
import os
import time
import traceback

from . import terms as tm
from .terms import T, mk, const
from .project import Module, Project, AnalysisError
from .interp import Interp, State

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# uninterpreted operations with a meaning of their own: two different ones
# (or the same one on different arguments) are different functions
KNOWN = {
    "np.sum", "np.mean", "np.max", "np.min", "np.percentile", "np.median",
    "np.std", "np.any", "np.all", "np.linalg.norm", "np.argmax", "np.argmin",
    "np.cumsum", "np.prod", "np.dot", "np.cross", "np.ptp", "np.allclose",
    "np.unique", "np.setdiff1d", "np.union1d", "np.intersect1d",
    "np.concatenate", "isinstance", "np.isin", "np.argsort", "np.nonzero",
    "np.setxor1d",
}
# wrappers without a meaning for values
STRUCT = {"tuple", "list", "idx", "slice", "pair", "dict", "full", "kw",
          "it", "const", "sym", "mu", "obj", "func", "class", "ext",
          "fstr", "str", "set", "module"}


class Dom:
    """where a free symbol ranges"""

    def __init__(self, lo, hi, points=(), small=False):
        self.lo, self.hi, self.points, self.small = lo, hi, points, small


UNIT = Dom(1e-4, 1.0, small=True)


class Ctx:
    def __init__(self, pid, tier="quick", seed=1, proj=None):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.proj = proj or Project()
        self.obl = []
        self.t0 = time.time()
        self.visited = set()
        self.notes = []
        self.counts = {}
        self.main_loops = set()
        self.loops = {}
        self.n = 30 if tier == "quick" else 400

    # --------------------------------------------------------------- engine
    def ip(self, models=None, opaque=(), budget=None):
        ip = Interp(self.proj, models=models or {}, opaque=opaque,
                    budget=budget or 2000000)
        ip.visited = self.visited
        return ip

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    # ---------------------------------------------------------- obligations
    def _add(self, status, rule, construct, where, text, detail=None):
        self.obl.append({"status": status, "rule": rule,
                         "construct": construct, "where": where,
                         "text": text, "detail": detail})

    def ok(self, rule, construct, how, where=""):
        self._add("held", rule, construct, where, how)
        return True

    def bad(self, rule, construct, where, text, detail=None):
        self._add("broken", rule, construct, where, text, detail)
        return False

    def unsure(self, rule, construct, why, where=""):
        self._add("undecided", rule, construct, where, why)
        return None

    def fact(self, cond, rule, construct, where, good, wrong, detail=None):
        if cond:
            return self.ok(rule, construct, good, where)
        return self.bad(rule, construct, where, wrong, detail)

    def program(self, name, text, fn):
        """a small user program against the analysed package: its function"""
        name = "user_" + name
        self.proj.modules[name] = Module(
            name, os.path.join(self.proj.root, name + ".py"),
            ast.parse(text))
        return self.proj.modules[name].names[fn]

    def section(self, name, f, *a, **k):
        """run one rule group; failures inside the analyser are undecided"""
        try:
            return f(*a, **k)
        except AnalysisError:
            raise
        except Exception as e:          # analyser limitation, not a verdict
            tb = traceback.extract_tb(e.__traceback__)
            last = tb[-1] if tb else None
            self.unsure(name, name, f"analyser stopped: {type(e).__name__}: "
                        f"{e} ({last.filename.split('/')[-1]}:{last.lineno})"
                        if last else str(e))
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            return None

    # ------------------------------------------------------------- equality
    def ranges(self, doms, terms):
        consts = set()
        for t in terms:
            for x in tm.subterms(t):
                if x.op == "const" and isinstance(x.args[0], (int, float)) \
                        and not isinstance(x.args[0], bool):
                    consts.add(float(x.args[0]))
        out = {}
        for name, d in (doms or {}).items():
            if not isinstance(d, Dom):
                out[name] = d
                continue
            pts = sorted(c for c in consts if d.lo <= c <= d.hi)
            near = []
            for c in pts:
                for w in (0.0, 1e-3, -1e-3, 1e-7, -1e-7):
                    v = c + w * max(1.0, abs(c))
                    if d.lo <= v <= d.hi:
                        near.append(v)
            near += list(d.points)

            def r(it, name=name, d=d, near=near):
                u = it.leaf(("sel", name), (0.0, 1.0))
                w = it.leaf(("val", name), (0.0, 1.0))
                if near and u < 0.25:
                    return near[int(w * len(near)) % len(near)]
                if d.small and u < 0.45:
                    return d.lo + (d.hi - d.lo) * 10 ** (-5 * w)
                if d.small and u < 0.55:
                    return d.hi - (d.hi - d.lo) * 10 ** (-5 * w)
                return d.lo + (d.hi - d.lo) * w
            out[name] = r
        return out

    def foreign(self, got, want, allowed=()):
        """operations in got whose meaning the comparison does not know"""
        have, mus = set(), set()
        for x in tm.subterms(want):
            have.add(_opname(x))
            if x.op == "mu":
                mus.add(x.args[0])
        out = set()
        for x in tm.subterms(got):
            if x.op == "mu" and x.args[0] not in mus and x.args[0] not in \
                    self.main_loops and x not in self.loops:
                out.add(f"loop value {x.args[1]}")
            n = _opname(x)
            if n is None or n in have or n in KNOWN or n in allowed:
                continue
            out.add(n)
        return sorted(out)

    def equal(self, rule, construct, where, got, want, doms=None, what="",
              n=None, allowed=(), **kw):
        if not isinstance(got, T):
            return self.unsure(rule, construct, "no value derived", where)
        if got is want:
            return self.ok(rule, construct, "same value number", where)
        if tm.has_unk(got):
            u = [x.args[0] for x in tm.find(got, lambda x: x.op == "unk")]
            return self.unsure(rule, construct, f"unmodelled: {u[:2]}", where)
        r = tm.compare(got, want, n=n or self.n,
                       ranges=self.ranges(doms, (got, want)),
                       seed=self.seed, loops=self.loops, **kw)
        if r[0] == "same":
            return self.ok(rule, construct, "equal value numbers (random "
                           "interpretation)", where)
        if r[0] == "undecided":
            return self.unsure(rule, construct, r[1], where)
        f = self.foreign(got, want, allowed)
        if f:
            return self.unsure(rule, construct,
                               f"operations without a model: {f[:4]}", where)
        it, va, vb = r[1], r[2], r[3]
        vals = {}
        for s in sorted({x for t in (got, want) for x in tm.subterms(t)
                         if x.op == "sym"}, key=lambda x: x.id):
            try:
                vals[str(s.args[0])] = it.ev(s)
            except Exception:
                pass
        return self.bad(rule, construct, where,
                        f"{what or construct}: derived value differs from "
                        f"the required one",
                        {"derived": tm.show(got, 12), "required":
                         tm.show(want, 12), "at": dict(list(vals.items())[
                             :24]), "derived_value": repr(va),
                         "required_value": repr(vb)})

    def dense(self, rule, construct, where, got, want, cases, ip, n=None,
              hook=None, tol=1e-8, what="", subset=None):
        """``got`` read over small arrays equals ``want(case)`` on every case;
        a case is a dict of symbol -> value"""
        from . import dense as dn
        if not isinstance(got, T):
            return self.unsure(rule, construct, "no value derived", where)
        why, used = None, 0
        for c in cases:
            env = {k: v for k, v in c.items() if isinstance(k, T)}
            d = dn.Dense(env, ip, n if not callable(n) else n(c),
                         hook(c) if hook else None)
            w = want(c)
            if w is None:
                continue
            try:
                g = d.ev(got)
            except dn.Undecided as e:
                why = why or str(e)
                continue
            used += 1
            if subset is not None:
                g = subset(c, g)
            if not dn.close(g, w, tol):
                return self.bad(
                    rule, construct, where,
                    f"{what or construct}: derived value differs from the "
                    f"required one",
                    {"derived": tm.show(got, 10),
                     "at": {str(k.args[0]): _lst(v) for k, v in
                            env.items() if k.op == "sym"},
                     "derived_value": _lst(g), "required_value": _lst(w)})
        if why is not None:
            return self.unsure(rule, construct, why, where)
        if not used:
            return self.unsure(rule, construct, "no case", where)
        self.count("array readings", used)
        return self.ok(rule, construct, f"equal on {used} array readings",
                       where)

    # --------------------------------------------------------------- result
    def finish(self, level, explanation, trusted, known):
        held = [o for o in self.obl if o["status"] == "held"]
        bad = [o for o in self.obl if o["status"] == "broken"]
        und = [o for o in self.obl if o["status"] == "undecided"]
        listed, fresh = [], []
        for o in bad:
            k = f"{o['rule']}|{o['construct']}"
            (listed if (self.pid, k) in known else fresh).append(o)
        cov = {
            "explanation": explanation,
            "obligations": len(self.obl),
            "discharged": len(held),
            "undecided": len(und),
            "functions_analysed": sorted(
                {v.qual if hasattr(v, "qual") else str(v)
                 for v in self.visited}),
            "counts": self.counts,
            "rules": sorted({o["rule"] for o in self.obl}),
            "samples": [{k: o[k] for k in ("rule", "construct", "where",
                                           "text")} for o in held[:12]],
            "undecided_obligations": [
                {k: o[k] for k in ("rule", "construct", "where", "text")}
                for o in und],
            "trusted_base": trusted,
            "checker_cmd": f"python3 check.py {self.pid}",
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": level, "coverage": cov,
              "assumptions": trusted,
              "wall_s": round(time.time() - self.t0, 3),
              "violations": len(fresh)}
        d = os.environ.get("SA_EVID") or os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for o in listed:
            print(f"KNOWN-FINDING: property={self.pid} {o['rule']}: "
                  f"{o['construct']}: {o['text']}")
        for o in und:
            print(f"UNDECIDED property={self.pid} {o['rule']}: "
                  f"{o['construct']}: {o['text']}")
        print(f"property={self.pid} obligations={len(self.obl)} "
              f"discharged={len(held)} undecided={len(und)} "
              f"violated={len(fresh)} known={len(listed)} "
              f"wall={ev['wall_s']}s")
        if fresh:
            w = os.path.join(d, f"{self.pid}.witness.json")
            with open(w, "w") as f:
                json.dump(fresh, f, indent=1, default=str)
            for o in fresh:
                print(f"  {o['where']}: [{o['rule']}] {o['construct']}: "
                      f"{o['text']}")
                if o["detail"]:
                    s = json.dumps(o["detail"], default=str)
                    print(f"    {s[:1500]}")
            print(f"VIOLATION property={self.pid} "
                  f"replay=evidence/{self.pid}.witness.json")
            return 1
        if not held:
            print(f"ANALYSIS-BROKEN property={self.pid}: nothing discharged")
            return 2
        return 0


def _lst(v):
    if hasattr(v, "tolist"):
        v = v.tolist()
    return repr(v)[:300]


def _opname(x):
    if x.op == "call":
        ax = [a.args[1] for a in x.args[1:] if isinstance(a, T)
              and a.op == "kw" and a.args[0] == "axis"]
        if x.args[0] in KNOWN and ax and not (tm.is_const(ax[0]) and tm.cval(
                ax[0]) is None):
            return f"call:{x.args[0]}[axis]"
        return "call:" + str(x.args[0]) if x.args[0] not in KNOWN else None
    if x.op == "attr":
        return "attr:" + str(x.args[1])
    if x.op in STRUCT or x.op in tm._NUM or x.op in tm._CMP or x.op in (
            "and", "or", "not", "ite", "gather", "store", "aidx", "is",
            "isnot", "isfinite", "isnan", "len", "float", "bool"):
        if x.op == "len":
            return "len"
        return None
    return x.op


def where_of(info):
    return info.where if info is not None else "?"
