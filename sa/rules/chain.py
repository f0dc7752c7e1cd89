"""C05 (sensitivity chain) and C33 (reported metrics)."""
import ast

from .. import terms as tm
from ..terms import const, sym, mk
from ..ctx import Dom
from .opt import all_runs, opt_run, KINDS, TASKS
from . import steps
from ..dense import np
from .update import FREE, attr_term

E0 = sym("tsk.material_coef", "s")
DOMS = {"cfg.beta_eta": Dom(0.1, 0.9), "cfg.E_min_coeff": Dom(1e-3, 0.4),
        "tsk.material_coef": Dom(1.0, 20.0)}


def th(x):
    return mk("tanh", x)


def projected(x, beta, eta):
    one = const(1.0)
    den = tm.add(th(tm.mul(beta, eta)), th(tm.mul(beta, tm.sub(one, eta))))
    return tm.div(tm.add(th(tm.mul(beta, eta)),
                         th(tm.mul(beta, tm.sub(x, eta)))), den)


def modulus(kind, rho, e0, emin, p):
    if kind == "SIMP":
        f = mk("pow", rho, p)
    else:
        f = tm.div(rho, tm.add(const(1.0), tm.mul(p, tm.sub(const(1.0),
                                                          rho))))
    return tm.add(emin, tm.mul(tm.sub(e0, emin), f))


class Chain:
    """the terms one iteration has to be made of"""

    def __init__(self, run, model="SIMP"):
        e = run.objective_event()
        S = run.sched
        self.beta, self.eta = S("beta"), sym("cfg.beta_eta", "s")
        self.p, self.fs, self.R = S("p"), S("neumann_scale"), \
            S("filter_radius")
        self.x = mk("call", "filter.F", self.R, run.mu_rho)
        self.rho = projected(self.x, self.beta, self.eta)
        X = sym("x~", "a")
        self.dH = tm.subst(tm.diff(projected(X, self.beta, self.eta), X),
                           {X: self.x})
        # what the solver was given (compared with self.rho separately)
        r = e.extra["rho"]
        pu, fs = e.extra["p"], e.extra["fs"]
        u = tm.call("fem.u", r, pu, fs)
        self.u, self.r = u, r
        it = tm.it_("task")
        n = run.NT
        col = mk("idx", tm.FULL, it)
        if run.task == "heat":
            s = tm.gather(mk("call", "fem.sensitivity", r, pu, u), col)
        else:
            en = tm.gather(mk("call", "fem.energy", r, pu, u), col)
            y = sym("y~", "a")
            emin = tm.mul(E0, sym("cfg.E_min_coeff", "s"))
            E = modulus(model, y, E0, emin, pu)
            g = tm.div(tm.diff(E, y), E)
            s = tm.mul(tm.mul(const(-2.0), en), tm.subst(g, {y: r}))
        g = mk("call", "filter.G", self.R, tm.mul(s, self.dH))
        tot = mk("fold", "add", const(0.0), g, it, n)
        self.dC_full = tm.div(tot, n)
        flag = sym("cfg.sensitivity_filter", "s")
        self.dC_out = tm.ite(flag, mk("call", "filter.F", self.R,
                                      self.dC_full), self.dC_full)
        self.energy_mean = tm.call("np.mean", mk(
            "call", "fem.energy", r, pu, u), mk("kw", "axis", const(1)))


class Later:
    """equalities value numbering leaves open are read over small meshes"""

    def __init__(self, ctx, run):
        self.ctx, self.run, self.pieces = ctx, run, []

    def equal(self, rule, construct, where, got, want, ranges, what, **kw):
        n = len(self.ctx.obl)
        r = self.ctx.equal(rule, construct, where, got, want, ranges, what,
                           **kw)
        mine = self.ctx.obl[n:]
        if len(mine) == 1 and mine[0]["status"] == "undecided":
            L = self.run.label + ": "
            c = construct[len(L):] if construct.startswith(L) else construct
            self.pieces.append((mine[0], steps.Piece(
                rule, c, self.judge(got, want, what), "same values")))
        return r

    @staticmethod
    def judge(got, want, what):
        def fn(it, case):
            a, b = it(got), it(want)
            if a is None or b is None or isinstance(a, str):
                same = a is b or a == b
            else:
                a, b = np.asarray(a, float), np.asarray(b, float)
                if a.ndim and b.ndim and a.shape != b.shape:
                    raise steps.Undecided("shapes differ")
                same = np.allclose(a, b, rtol=1e-6, atol=1e-12)
            if not same:
                return what, {"value": a, "expected": b}
        return fn

    def read(self):
        if not self.pieces:
            return
        n = len(self.ctx.obl)
        steps.small(self.ctx, self.run, [p for _, p in self.pieces], cases=6)
        new = self.ctx.obl[n:]
        if not any(o["status"] == "undecided" for o in new):
            for o, _ in self.pieces:
                self.ctx.obl.remove(o)
        else:
            # keep one entry each: what was read replaces what was open
            for (o, p) in self.pieces:
                for x in new:
                    if x["construct"].endswith(p.what):
                        self.ctx.obl.remove(
                            o if x["status"] != "undecided" else x)
                        break


def runs(ctx):
    for opt in KINDS:
        for task in TASKS:
            for model in (("SIMP", "RAMP") if task == "elastic"
                          else ("SIMP",)):
                r = opt_run(ctx, opt, task, cfg_fixed={
                    "design_dirichlet": False, "interpolation": model})
                r.label = f"{opt}/{task}/{model}"
                yield r, model


def c05(ctx):
    """Value numbering of one iteration's density pipeline and of the
    gradient handed to the density update, against the chain rule."""
    for run, model in runs(ctx):
        ctx.section(run.label, c05_run, ctx, run, model)


def c05_run(ctx, run, model):
    rule = "sensitivity chain"
    if run.loop is None or not run.roles():
        return ctx.unsure(rule, run.label, "main loop not identified")
    W = run.loop.where
    e = run.objective_event()
    ch = Chain(run, model)
    ranges = dict(DOMS)
    L = run.label
    late = Later(ctx, run)
    eq = lambda r, c, got, want, what: late.equal(     # noqa: E731
        r, f"{L}: {c}", W, got, want, ranges, what, allowed=FREE, tol=1e-6)
    eq("physical density", "density the state is solved with",
       e.extra["rho"], ch.rho, "the state must be solved with the projected, "
       "filtered design density at this iteration's radius and sharpness")
    eq("scheduled parameters", "penalisation of the state solve",
       e.extra["p"], ch.p, "penalisation power")
    eq("scheduled parameters", "load factor of the state solve",
       e.extra["fs"], ch.fs, "load factor")
    for name in ("fem.energy", "fem.sensitivity"):
        for x in run.last_pass(name):
            for k, want in (("rho", ch.r), ("p", e.extra["p"]),
                            ("u", ch.u)):
                eq("energies belong to the state just solved",
                   f"{name}: {k}", x.extra[k], want,
                   f"{name} gets another {k} than the solve")
    for x in run.last_pass("filter.F") + run.last_pass("filter.G"):
        eq("one filter radius", f"{x.name} in {x.stack[-1].split('.')[-1] if x.stack else '?'}",
           x.extra["radius"], ch.R, "filter radius of this iteration")
    u = run.update_event()
    if u is None:
        return ctx.unsure(rule, L, "density update not identified", W)
    tv = u.extra["tvals"]
    g = tv.get("dC_drho_design_eles")
    if g is None:
        return ctx.unsure(rule, L, "gradient argument not identified", W)
    want = tm.gather(ch.dC_out, run.D)
    eq(rule, "gradient handed to the update", g, want,
       "gradient must be the load-case average of filter^T(dC/drho_phys * "
       "dH/drho) on the design elements")
    r = tv.get("rho_design_eles")
    if r is not None:
        eq(rule, "density handed to the update", r,
           tm.gather(run.mu_rho, run.D), "design part of the density")
    for nm, want in (("move_limit", "move_limit"), ("eta", "eta"),
                     ("beta", "beta"), ("percentile", "percentile"),
                     ("vol_frac", "vol_frac")):
        if nm in tv:
            eq("scheduled parameters", f"{nm} of the update", tv[nm],
               run.sched(want), f"{nm} must be this iteration's scheduled "
               "value")
    it = tv.get("iter_num")
    if it is not None:
        eq("scheduled parameters", "iteration number of the update", it,
           run.iter, "iteration number")
    late.read()


# ------------------------------------------------------------------- C33
def c33(ctx):
    """What the histories and the run's state report, against the values of
    the iteration."""
    for run, model in runs(ctx):
        if model == "SIMP":
            ctx.section(run.label, c33_run, ctx, run, model)


def c33_run(ctx, run, model):
    rule = "recorded value"
    if run.loop is None or not run.roles():
        return ctx.unsure(rule, run.label, "main loop not identified")
    W = run.loop.where
    e = run.objective_event()
    L = run.label
    D = run.D
    late = Later(ctx, run)
    ch = Chain(run, model)
    new, old = tm.gather(run.rho_next, D), tm.gather(run.mu_rho, D)
    want = {
        "rho_change_max": tm.call("np.max", mk("abs", tm.sub(new, old))),
        "rho_projected": tm.gather(e.extra["rho"], D),
        "energy": ch.energy_mean,
        "neumann_scale": ch.fs,
    }
    obj = tm.call("np.mean", tm.call("fem.objectives", e.extra["rho"],
                                     e.extra["p"], e.extra["fs"]))
    names = ["compliance"] if run.task == "elastic" else None
    for nm, w in want.items():
        f = run.fed(nm)
        c = f"{L}: {nm}"
        if len(f) != 1:
            ctx.fact(len(f) != 0, rule, c, W, "recorded", f"{nm} is not "
                     "recorded in an iteration")
            continue
        for wn, got, ww in run.worlds(f[0].extra["data"], w):
            late.equal(rule, f"{c}, {wn}", W, got, ww, DOMS,
                      f"history {nm}", allowed=FREE, tol=1e-6)
    if names:
        fs = run.fed("compliance")
    else:
        ob = attr_term(run, "objective")
        fs = [x for x in run.last_pass("feed")
              if x.extra["name"] in (ob, tm.call("str", ob), mk("str", ob))]
    c = f"{L}: objective"
    if len(fs) != 1:
        ctx.unsure(rule, c, "objective history not identified", W)
    else:
        late.equal(rule, c, W, fs[0].extra["data"], obj, DOMS,
                  "objective history must be the mean over the load cases",
                  allowed=FREE)
    late.read()
    peak(ctx, run, e)
    shown(ctx, run, fs[0].extra["data"] if len(fs) == 1 else None)


def peak(ctx, run, e):
    """u_max: the largest absolute value of each load case's solution"""
    from . import steps
    u = tm.call("fem.u", e.extra["rho"], e.extra["p"], e.extra["fs"])

    def judge(it, case):
        got = np.asarray(it.fed("u_max"), dtype=float).ravel()
        want = np.abs(np.asarray(it(u), dtype=float)).max(axis=0)
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-7):
            return ("u_max is not the largest absolute value of each load "
                    "case's solution", {"recorded": got, "largest": want})
    steps.small(ctx, run, [steps.Piece(
        "recorded value", "u_max", judge, "largest absolute value of each "
        "load case's solution")], cases=5)


def shown(ctx, run, objective, want=None):
    """what can be read between two calls is what was recorded last"""
    rule = "state between calls"
    L, W = run.label, run.loop.where
    if run.after is None:
        return
    st = run.after.heap.get(("o", run.opt.oid, "_state"))
    oid = getattr(st, "oid", None)
    cls = ctx.proj.lookup("sktopt.core.optimizers.common_density."
                          "DensityState")
    if oid is None or cls is None:
        return

    def fed(n):
        f = run.fed(n)
        return f[0].extra["data"] if len(f) == 1 else None
    if want is not None:
        want = {n: fed(n) for n in want}
    want = want or {"last_iter": run.iter, "compliance": objective,
                    "rho_change_max": fed("rho_change_max"),
                    "u_max": fed("u_max")}
    ann = {x.target.id for x in cls.node.body if isinstance(x, ast.AnnAssign)}
    for n, w in want.items():
        c = f"{L}: {n}"
        if n not in ann or w is None:
            continue
        k = ("o", oid, n)
        got = run.loop.next.get(k)
        if got is None:
            if run.after.heap.get(k) in (None, tm.NONE):
                ctx.bad(rule, c, W, f"{n} of the state is never set")
            else:
                ctx.unsure(rule, c, "not set inside the loop", W)
            continue
        if got is run.loop.mu.get(k):
            ctx.bad(rule, c, W, f"{n} of the state is never set")
            continue
        g = run.ip.toT(got, run.after)
        # what the recorder has last is what it was fed last
        g = tm.subst(g, {x: fed(tm.cval(x.args[-1])) for x in tm.calls(
            g, "recorder.latest") if tm.is_const(x.args[-1])
            and fed(tm.cval(x.args[-1])) is not None})
        ctx.equal(rule, c, W, g, w, DOMS, f"{n} of the state is that of the "
                  "iteration just made", allowed=FREE)
