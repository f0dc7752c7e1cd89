"""Linear solver choice and failure handling (C27), PETSc options (C28).

Stand-ins: a direct, a Krylov and a PETSc solve each return their own symbol,
and the latter two their own status code, so that the derived displacement
shows which solver produced it under which outcome."""
from __future__ import annotations

from .. import terms as tm
from ..terms import const, sym, mk
from ..interp import State
from ..values import Fn, Obj, Tup, Cls, Dct, Arr
from .opt import named
from .fem import (models, FemRun, Algebra, ALLOWED, heat_task, FLT, D, FREE_D, INFO, FS,
                  ITER, PARAMS, Model, material, RHO, P)

EL = "sktopt.fea.solver_elastic."
U = {"direct": sym("u.direct", "a"), "krylov": sym("u.krylov", "a"),
     "petsc": sym("u.petsc", "a")}
CLASS = {"spsolve": "direct", "cg_jacobi": "krylov", "cg_pyamg": "krylov",
         "petsc": "petsc", "petsc_spdirect": "petsc"}
UNAME = {t: n for n, t in U.items()}


class Alg(Algebra):
    """which solver an entry of the displacement came from"""

    def __call__(self, it, t):
        b = t
        while b.op == "gather" or b.op == "call" and b.args[0] in (
                "np.reshape", "np.ravel", ".reshape", ".flatten",
                "np.squeeze"):
            b = b.args[0 if b.op == "gather" else 1]
        if b in UNAME:
            return it.fam[0].leaf(("solution", UNAME[b]))
        return super().__call__(it, t)


ALG = Alg()
PINFO = sym("petsc.reason", "s")
DOMS = {"solver.info": (-2.0, 2.0), "petsc.reason": (-2.0, 2.0)}


def stand_ins(ctx):
    m = dict(models(ctx))
    how_class = {"spsolve": "direct", "splu": "direct",
                 "skfem.solve": "direct", "petsc": "petsc",
                 "petsc-multi": "petsc", **{n: "krylov" for n in ITER}}

    def wrap(f):
        def g(ip, st, a, k, node):
            n = len(ip.trace)
            r = f(ip, st, a, k, node)
            es = [e for e in ip.trace[n:] if e.name == "lin.solve"]
            if not es:
                if isinstance(r, Model):
                    return Model(wrap(r.fn), r.name)
                return r
            how = how_class[es[-1].extra["how"]]
            u = ip.new_arr(st, U[how], "u." + how)
            if isinstance(r, Tup):
                info = INFO if how == "krylov" else PINFO
                if es[-1].extra["how"] == "petsc-multi":
                    info = ip.new_list(st, [PINFO, PINFO])
                return Tup([u, info])
            return u
        return g
    return {n: wrap(f) if n.startswith("scipy.") or n == ".solve" or
            "petsc_compat" in n or "solver_petsc" in n or n.startswith(
                "skfem") and n.endswith("solve") else f
            for n, f in m.items()}


def exc_syms(*ts):
    return {x for t in ts for x in tm.subterms(t) if x.op == "sym" and
            str(x.args[0]).startswith("exc@")}


def under(t, exc, info=None, reason=None):
    sub = {x: tm.TRUE if exc else tm.FALSE for x in exc_syms(t)}
    for v, s in ((info, INFO), (reason, PINFO)):
        if v is not None:
            sub[s] = const(v)
    return tm.subst(t, sub)


def pc_of(st):
    t = tm.TRUE
    for c in st.pc:
        t = tm.and_(t, c)
    return t


OUTCOMES = {"direct": [("", {})],
            "krylov": [("", {"info": 0}), ("not converged", {"info": 7}),
                       ("breakdown", {"info": -1})],
            "petsc": [("", {"reason": 2}), ("not converged", {"reason": -3})]}
WARN = (".warning", ".warn", ".error", ".critical", ".exception",
        "warnings.warn", "logging.warning", "logging.error")


def c27(ctx):
    """Every linear solve is done by the configured solver, with the
    configured tolerances; failures are announced or fall back to the direct
    solver exactly when that is allowed; unknown solvers are refused."""
    for name in (*CLASS, "no_such_solver"):
        for fb in (False, True):
            ctx.section(f"solve_u/{name}", dispatch, ctx, name, fb)
            ctx.section(f"state solve/{name}", state_solve, ctx, name, fb)
    ctx.section("auto", auto, ctx)
    for kind in ("elastic", "heat"):
        for name in (*CLASS, "auto", "no_such_solver"):
            for n in (1, 2) if kind == "heat" else (2,):
                ctx.section(f"{kind}/{n} cases/{name}", multi, ctx, kind, n,
                            name)
    ctx.section("legacy selector", legacy, ctx)


def judge(ctx, rule, L, where, ip, events, s, got, name, fb, cfg, K=None,
          F=None):
    """the outcomes of one solve with a known configuration"""
    cls = CLASS.get(name)
    if cls is None:
        if not fb:
            return ctx.fact(s is None, "unknown solver", L, where,
                            "refused on every path",
                            "a solver name that does not exist is accepted")
        if s is None:
            return ctx.ok("unknown solver", L, "refused", where)
        return outcome(ctx, rule, L + ": unknown solver", where, got, U[
            "direct"], {}, "must be solved by the direct solver")
    if s is None:
        return ctx.bad(rule, L, where, "the solve fails on every path")
    for text, out in OUTCOMES[cls]:
        good = text == ""
        want = U[cls] if good or not fb else U["direct"]
        outcome(ctx, rule, L + (f": {text}" if text else ""), where, got,
                want, {"exc": False, **out},
                f"must be the {cls} solution" if want is U[cls] else
                "must fall back to the direct solver")
        if not good and not fb:
            pcs = [x for e in events if e.kind == "call" and e.name in WARN
                   for x in [conj(e.pc)]]
            told = [under(x, False, **out) for x in pcs]
            stays = under(pc_of(s), False, **out)
            sure(ctx, "announced", f"{L}: {text}", where, tm.or_(
                *told, tm.not_(stays)) if told else tm.not_(stays),
                "a solution that did not converge is returned without a "
                "warning")
    if fb and cls != "direct":
        outcome(ctx, rule, L + ": solver fails", where, got, U["direct"],
                {"exc": True}, "must fall back to the direct solver")
    elif not fb:
        pc = pc_of(s)
        ex = exc_syms(pc, *[conj(e.pc) for e in events])
        if ex:
            sure(ctx, "failure surfaces", L, where, tm.not_(tm.subst(
                pc, {x: tm.TRUE for x in ex})),
                "an exception of the solver is swallowed although no "
                "fallback is allowed")
    first = [e for e in events if e.name == "lin.solve"]
    prim = [e for e in first if HOW[e.extra["how"]] == cls]
    if not prim:
        return None
    for e in prim:
        if cls != "direct":
            for o in ("rtol", "maxiter"):
                want = cfg[o]
                g = e.extra["opts"].get(o)
                if g is None:
                    ctx.bad("tolerances", f"{L}: {o}", where,
                            f"the configured {o} does not reach the solver")
                elif not tm.has_unk(g) and not any(
                        x is want for x in tm.subterms(g)):
                    ctx.bad("tolerances", f"{L}: {o}", where,
                            f"the solver's {o} does not depend on the "
                            f"configured one", {"derived": tm.show(g, 4)})
                else:
                    configured(ctx, f"{L}: {o}", where, g, want, o)
    if K is not None:
        for e in first:
            for what, g, w in (("matrix", e.args[0], K),
                               ("right-hand side", e.args[1], F)):
                if g is w:
                    ctx.ok("system", f"{L}: {what}", "as given", where)
                elif not tm.has_unk(g) and not any(x is w for x in
                                                   tm.subterms(g)):
                    ctx.bad("system", f"{L}: {what}", where,
                            f"the {what} solved is not derived from the one "
                            "given", {"derived": tm.show(g, 4)})
                elif what == "matrix":
                    ctx.unsure("system", f"{L}: {what}", tm.show(g, 2),
                               where)
                else:
                    ctx.equal("system", f"{L}: {what}", where, g, w, DOMS,
                              "the right-hand side given must be solved")
    return True


RANGES = {"rtol": ((0.1, 1.0), (1e-4, 1e-3), (1e-12, 1e-10)),
          "maxiter": ((1.0, 20.0), (300.0, 900.0), (5e3, 2e4))}


def configured(ctx, L, where, got, want, option):
    """the value set by the user, whatever its size"""
    if got is want:
        return ctx.ok("tolerances", L, "as configured", where)
    for r in RANGES[option]:
        ctx.equal("tolerances", L, where, got, want, {
            **DOMS, f"cfg.{option}": r, "n_dof": (50.0, 5000.0)},
            f"the configured {option} must reach the solver",
            allowed=ALLOWED)


HOW = {"spsolve": "direct", "splu": "direct", "skfem.solve": "direct",
       "petsc": "petsc", "petsc-multi": "petsc",
       **{n: "krylov" for n in ITER}}


def conj(pc):
    t = tm.TRUE
    for c in pc:
        t = tm.and_(t, c)
    return t


def outcome(ctx, rule, L, where, got, want, out, text):
    exc = out.pop("exc", False) if out else False
    g = under(got, exc, **out)
    return same(ctx, rule, L, where, g, want, text)


def same(ctx, rule, L, where, got, want, text):
    return ctx.equal(rule, L, where, got, want, DOMS, text, model=ALG,
                     allowed=ALLOWED)


def sure(ctx, rule, L, where, cond, text):
    if cond is tm.TRUE:
        return ctx.ok(rule, L, "holds on every path", where)
    if cond is tm.FALSE:
        return ctx.bad(rule, L, where, text)
    one, zero = const(1.0), const(0.0)
    return ctx.equal(rule, L, where, tm.ite(cond, one, zero), one, DOMS,
                     text)


def config(ip, st, proj, name, fb, path="solver"):
    sc = proj.need(EL + "LinearSolverConfig")
    o = ip.sym_obj(st, sc, path)
    cfg = {"rtol": sym("cfg.rtol", "s"), "maxiter": sym("cfg.maxiter", "s")}
    for v in cfg.values():
        ip.types[v] = {"float"}
    for n, v in (("solver", const(name)), ("rtol", cfg["rtol"]),
                 ("maxiter", cfg["maxiter"]),
                 ("petsc_options", tm.NONE),
                 ("allow_fallback_to_spsolve", const(fb))):
        st.heap[("o", o.oid, n)] = v
    return o, cfg


def dispatch(ctx, name, fb):
    proj = ctx.proj
    K, F = sym("K.given", "a"), sym("F.given", "a")
    for how in ("config", "arguments"):
        fi = proj.need(EL + "solve_u")
        ip, st = ctx.ip(stand_ins(ctx)), State()
        o, cfg = config(ip, st, proj, name, fb)
        a = [ip.new_arr(st, K, "K"), ip.new_arr(st, F, "F")]
        kw = {}
        if how == "config":
            a.append(o)
        else:
            kw = {"chosen_solver": const(name), "rtol": cfg["rtol"],
                  "maxiter": cfg["maxiter"],
                  "allow_fallback_to_spsolve": const(fb)}
        s, v = ip.run(Fn(fi), a, kw, st)
        L = f"solve_u({how})/{name}" + ("/fallback" if fb else "")
        judge(ctx, "solver", L, fi.where, ip, ip.trace, s,
              None if s is None else ip.toT(v, s), name, fb, cfg, K, F)


def elastic_run(ctx, n, name, fb, **k):
    F = [sym(f"F{i}", "a") for i in range(n)]
    box = {}

    def cfg(ip, st):
        o, box["cfg"] = config(ip, st, ctx.proj, name, fb)
        return o
    run = FemRun(ctx, "elastic", n, cfg, task={
        "neumann_linear": lambda ip, st: ip.new_list(st, list(F)),
        "dirichlet_dofs": lambda ip, st: ip.new_arr(st, D, "D"),
        "free_dofs": lambda ip, st: ip.new_arr(st, FREE_D, "free")},
        models_=stand_ins(ctx), **k)
    return run, box.get("cfg")


def solved(run, **k):
    mark = len(run.ip.trace)
    s, v = run.call("objectives_multi_load", **k)
    return s, run.ip.trace[mark:], None if s is None else run.col(
        run.ip.content(run.u, s), 0)


def state_solve(ctx, name, fb):
    run, cfg = elastic_run(ctx, 1, name, fb)
    where = run.cls.find("objectives_multi_load", ctx.proj).where
    s, ev, got = solved(run)
    L = f"elastic state solve/{name}" + ("/fallback" if fb else "")
    judge(ctx, "state solver", L, where, run.ip, ev, s, got, name, fb, cfg)


def auto(ctx):
    """'auto' may choose, but what fails is redone by the direct solver"""
    run, cfg = elastic_run(ctx, 1, "auto", False)
    where = run.cls.find("objectives_multi_load", ctx.proj).where
    s, ev, got = solved(run)
    if s is None:
        return ctx.bad("auto", "state solve", where, "fails on every path")
    for text, exc, out in (("not converged", False, {"info": 5,
                                                     "reason": -3}),
                           ("solver fails", True, {})):
        g = under(got, exc, **out)
        same(ctx, "auto", f"state solve: {text}", where, g, U["direct"], "auto selection must fall back to the direct solver")
    for e in ev:
        if e.name == "lin.solve" and HOW[e.extra["how"]] != "direct":
            g = e.extra["opts"].get("rtol")
            if g is None:
                ctx.bad("tolerances", "auto: rtol", where, "the configured "
                        "rtol does not reach the solver")
            else:
                configured(ctx, "auto: rtol", where, g, cfg["rtol"], "rtol")


def multi(ctx, kind, n, name):
    if kind == "elastic":
        run, cfg = elastic_run(ctx, n, name, False)
    else:
        task, N, Tv, RB, RL = heat_task(n, "compliance", "none", True, True)
        box = {}

        def mk_cfg(ip, st):
            o, box["cfg"] = config(ip, st, ctx.proj, name, False)
            return o
        run = FemRun(ctx, "heat", n, mk_cfg, task=task, types={
            **FLT, **{v: {"float"} for v in Tv}}, models_=stand_ins(ctx))
        cfg = box["cfg"]
    where = run.cls.find("objectives_multi_load", ctx.proj).where
    s, ev, got = solved(run)
    L = f"{kind}, {n} cases/{name}"
    if name in ("cg_jacobi", "cg_pyamg", "no_such_solver"):
        if s is None:
            return ctx.ok("unsupported solver", L, "refused on every path",
                          where)
        if name == "no_such_solver":
            return ctx.bad("unsupported solver", L, where, "a solver that "
                           "does not exist is accepted")
        return same(ctx, "unsupported solver", L, where, under(
            got, False, info=0), U["krylov"], "an iterative solver "
            "must be refused or used, not replaced silently")
    cls = "direct" if name == "auto" else CLASS[name]
    if s is None:
        return ctx.bad("multi-case solver", L, where,
                       "the solve fails on every path")
    same(ctx, "multi-case solver", L, where, under(got, False, reason=2),
              U[cls], f"must be the {cls} solution")
    for e in ev:
        if e.name == "lin.solve" and HOW[e.extra["how"]] == "petsc":
            for o in ("rtol", "maxiter"):
                g = e.extra["opts"].get(o)
                if g is None:
                    ctx.bad("tolerances", f"{L}: {o}", where, f"the "
                            f"configured {o} does not reach the solver")
                else:
                    ctx.equal("tolerances", f"{L}: {o}", where, g, cfg[o],
                              DOMS, f"the configured {o} must reach the "
                              "solver")


def legacy(ctx):
    """the selector by name means the same as the configuration"""
    for name in ("spsolve", "cg_pyamg", "petsc"):
        run, _ = elastic_run(ctx, 1, name, False, cfg=False, kws={
            "solver_option": const(name)})
        where = run.cls.find("__init__", ctx.proj).where
        s, ev, got = solved(run)
        L = f"solver_option={name}"
        if s is None:
            ctx.bad("legacy selector", L, where, "fails on every path")
            continue
        same(ctx, "legacy selector", L, where, under(
            got, False, info=0, reason=2), U[CLASS[name]],
            f"must be the {CLASS[name]} solution")
    # a configuration wins over the legacy selector
    run, _ = elastic_run(ctx, 1, "spsolve", False, kws={
        "solver_option": const("petsc")})
    where = run.cls.find("__init__", ctx.proj).where
    s, ev, got = solved(run)
    if s is None:
        return ctx.bad("legacy selector", "precedence", where, "fails")
    return same(ctx, "legacy selector", "precedence", where, got,
                     U["direct"], "solver_config must win over "
                     "solver_option")


# --------------------------------------------------------------------- C28
SP = "sktopt.fea.solver_petsc."
FIELDS = ("ksp_type", "pc_type", "pc_factor_mat_solver_type",
          "options_prefix", "use_set_from_options")
DEFAULT = {"ksp_type": const("cg"), "pc_type": const("gamg"),
           "pc_factor_mat_solver_type": tm.NONE, "options_prefix": tm.NONE,
           "use_set_from_options": tm.TRUE}
DIRECT = {**DEFAULT, "ksp_type": const("preonly"), "pc_type": const("lu")}
TXT = {n: sym("given." + n, "s") for n in FIELDS[:4]}
FREE = {"pc_factor_mat_solver_type": TXT["pc_factor_mat_solver_type"],
        "options_prefix": TXT["options_prefix"],
        "use_set_from_options": tm.FALSE}


def c28(ctx):
    """PETSc options: what the user sets survives normalisation, merging and
    configuration, a direct solve stays direct, and the KSP is set up with
    exactly those options."""
    cases = [{}] + [{n: v} for n, v in FREE.items()] + [dict(FREE)]
    for solver in ("petsc", "petsc_spdirect"):
        for form in ("dict", "object"):
            for c in cases:
                ctx.section("options", options, ctx, solver, form, c)
        for c in cases:
            for form in ("dict", "object"):
                ctx.section("configuration", configuration, ctx, solver,
                            form, c)
        ctx.section("no options", options, ctx, solver, None, {})
    for n, v in (("ksp_type", const("gmres")), ("pc_type", const("ilu"))):
        for form in ("dict", "object"):
            ctx.section("petsc keeps", options, ctx, "petsc", form, {n: v})
            ctx.section("petsc keeps", configuration, ctx, "petsc", form,
                        {n: v})
            ctx.section("conflict", conflict, ctx, form, n, v)
    for n, v in (("ksp_type", const("cg")), ("pc_type", const("gamg")),
                 ("pc_type", const("jacobi")), ("ksp_type", const(
                     "bcgs"))):
        for form in ("dict", "object"):
            ctx.section("conflict", conflict, ctx, form, n, v)
    ctx.section("defaults", defaults, ctx)
    for c in ({}, dict(FREE), {**FREE, "ksp_type": TXT["ksp_type"],
                               "pc_type": TXT["pc_type"]}):
        for maxit in (True, False):
            for multi_ in (False, True):
                ctx.section("ksp", ksp, ctx, c, maxit, multi_)


def given(ip, st, proj, form, c):
    if form is None:
        return tm.NONE, st
    if form == "dict":
        return ip.new_dict(st, dict(c)), st
    s, o = ip.run(Cls(proj.need(SP + "PETScOptions")), [], dict(c), st)
    return o, s


def env(ctx):
    ip = ctx.ip()
    for v in TXT.values():
        ip.types[v] = {"str"}
    return ip, State()


def expect(ctx, rule, L, where, ip, s, v, want):
    if not isinstance(v, Obj):
        return ctx.unsure(rule, L, "no options object derived", where)
    r = True
    for n in FIELDS:
        g = ip.toT(ip.obj_attr(v, n, s, None, None), s)
        r = agree(ctx, rule, f"{L}: {n}", where, g, want[n])
    return r


def agree(ctx, rule, L, where, g, w):
    while g.op in ("str", "bool") or g.op == "call" and g.args[0] in (
            "str", "bool") and len(g.args) == 2:
        g = g.args[-1]
    if g is w:
        return ctx.ok(rule, L, "the value given survives", where)
    simple = {"const", "sym"}
    if g.op in simple and w.op in simple:
        return ctx.bad(rule, L, where, f"becomes {tm.show(g, 3)} instead of "
                       f"{tm.show(w, 3)}")
    return ctx.unsure(rule, L, tm.show(g, 3), where)


def options(ctx, solver, form, c):
    fi = ctx.proj.need(SP + "petsc_options_for_solver")
    ip, st = env(ctx)
    full = {n: DIRECT[n] for n in ("ksp_type", "pc_type")} if (
        solver, form) == ("petsc_spdirect", "object") else {}
    o, st = given(ip, st, ctx.proj, form, {**full, **c})
    s, v = ip.run(Fn(fi), [const(solver), o], {}, st)
    L = f"{solver}/{form}/{','.join(c) or 'nothing set'}"
    if s is None:
        return ctx.bad("options", L, fi.where, "the options are refused")
    base = DIRECT if solver == "petsc_spdirect" else DEFAULT
    v = ip.force(v, s)
    if form is None and solver == "petsc" and ip.toT(v, s) is tm.NONE:
        fi = ctx.proj.need(SP + "normalize_petsc_options")
        s, v = ip.run(Fn(fi), [tm.NONE], {}, s)
    return expect(ctx, "options", L, fi.where, ip, s, v, {**base, **c})


def configuration(ctx, solver, form, c):
    cls = ctx.proj.need("sktopt.core.optimizers.oc.OC_Config")
    ip, st = env(ctx)
    o, st = given(ip, st, ctx.proj, form, c)
    s, v = ip.run(Cls(cls), [], {"solver_option": const(solver),
                                 "petsc_options": o}, st)
    f = cls.find("__post_init__", ctx.proj)
    where = f.where if f else "?"
    L = f"{solver}/{form}/{','.join(c) or 'nothing set'}"
    if s is None:
        return ctx.bad("configuration", L, where, "the configuration is "
                       "refused")
    base = DIRECT if solver == "petsc_spdirect" else DEFAULT
    sc = ip.obj_attr(v, "solver_config", s, None, None)
    ctx.fact(ip.toT(ip.obj_attr(sc, "solver", s, None, None), s) is const(
        solver), "configuration", L + ": solver", where,
        "solver_config names the configured solver",
        "solver_config names another solver than solver_option")
    return expect(ctx, "configuration", L, where, ip, s, ip.force(
        ip.obj_attr(sc, "petsc_options", s, None, None), s), {**base, **c})


def defaults(ctx):
    cls = ctx.proj.need("sktopt.core.optimizers.oc.OC_Config")
    for name in ("petsc", "petsc_spdirect", "spsolve", "cg_pyamg"):
        ip, st = env(ctx)
        s, v = ip.run(Cls(cls), [], {"solver_option": const(name)}, st)
        f = cls.find("__post_init__", ctx.proj)
        where = f.where if f else "?"
        if s is None:
            ctx.bad("configuration", name, where, "refused with default "
                    "options")
            continue
        sc = ip.obj_attr(v, "solver_config", s, None, None)
        ctx.fact(ip.toT(ip.obj_attr(sc, "solver", s, None, None), s) is
                 const(name), "configuration", name, where,
                 "solver_config names the configured solver",
                 "solver_config names another solver than solver_option")
        if name.startswith("petsc"):
            expect(ctx, "configuration", name, where, ip, s, ip.force(
                ip.obj_attr(sc, "petsc_options", s, None, None), s),
                DIRECT if name == "petsc_spdirect" else DEFAULT)


def conflict(ctx, form, n, v):
    fi = ctx.proj.need(SP + "petsc_options_for_solver")
    ip, st = env(ctx)
    o, st = given(ip, st, ctx.proj, form, {
        **{"ksp_type": const("preonly"), "pc_type": const("lu")}, n: v})
    s, r = ip.run(Fn(fi), [const("petsc_spdirect"), o], {}, st)
    ctx.fact(s is None, "conflict", f"petsc_spdirect/{form}/{n}", fi.where,
             "refused on every path", "a direct solve accepts options that "
             "make it iterative")
    if form == "object" and v in (const("cg"), const("gamg")):
        return None         # not to be told from an object left at defaults
    cls = ctx.proj.need("sktopt.core.optimizers.oc.OC_Config")
    ip, st = env(ctx)
    o, st = given(ip, st, ctx.proj, form, {n: v})
    s, r = ip.run(Cls(cls), [], {"solver_option": const("petsc_spdirect"),
                                 "petsc_options": o}, st)
    f = cls.find("__post_init__", ctx.proj)
    ctx.fact(s is None, "conflict", f"configuration/{form}/{n}",
             f.where if f else "?", "refused on every path",
             "a direct solve accepts options that make it iterative")


def ksp(ctx, c, maxit, multi_):
    proj = ctx.proj
    fi = proj.need(SP + ("solve_u_petsc_multi" if multi_ else
                         "solve_u_petsc"))
    state = {"x": {}, "last": None, "n": 0}

    def is_ksp(t):
        return any(x.op == "call" and x.args[0] == "petsc4py.PETSc.KSP"
                   for x in tm.subterms(t))

    def vec(ip, st, a, k, node):
        state["n"] += 1
        t = mk("call", "petsc.vec", const(state["n"]))
        return t

    def solve(ip, st, a, k, node):
        r = ip.toT(a[0], st)
        if not is_ksp(r) or len(a) != 3:
            return NotImplemented
        b, x = ip.toT(a[1], st), ip.toT(a[2], st)
        ip.event("call", "ksp.solve", st, node, args=[r, b, x])
        state["x"][x] = state["last"] = b
        return tm.NONE

    def get(ip, st, a, k, node):
        b = state["x"].get(ip.toT(a[0], st))
        if b is None:
            return NotImplemented
        return ip.new_arr(st, mk("call", "ksp.solution", b), "x")

    def reason(ip, st, a, k, node):
        if state["last"] is None:
            return NotImplemented
        return mk("call", "ksp.reason", state["last"])

    def rhs(ip, st, a, k, node):
        return mk("call", "petsc.rhs", ip.toT(a[1], st))
    ip = ctx.ip({".createSeq": vec, ".createVecRight": vec,
                 ".createVecLeft": vec, ".solve": solve, ".getArray": get,
                 ".getConvergedReason": reason, ".createWithArray": rhs})
    for v in TXT.values():
        ip.types[v] = {"str"}
    st = State()
    s, o = ip.run(Cls(proj.need(SP + "PETScOptions")), [], dict(c), st)
    K = ip.new_arr(s, sym("K", "a"), "K")
    F0 = sym("F", "a")
    F = ip.new_arr(s, F0, "F", Tup([sym("n", "s"), const(2)]) if multi_
                   else None)
    rt, mx = sym("rtol", "s"), sym("maxiter", "s")
    ip.types[rt] = ip.types[mx] = {"float"}
    if multi_:
        s.assume(tm.cmp_("eq", mk("attr", F0, "ndim"), const(2)))
    mark = len(ip.trace)
    s, v = ip.run(Fn(fi), [K, F, rt, mx if maxit else tm.NONE, o], {}, s)
    L = f"{fi.name}/{','.join(c) or 'defaults'}" + (
        "" if maxit else "/no maxiter")
    if s is None:
        return ctx.bad("ksp", L, fi.where, "fails on every path")
    ev = [e for e in ip.trace[mark:] if e.kind == "call" and not any(
        x.op == "eq" and x.args[0] is const(1) for x in e.pc)]
    if any("Options" in e.name and e.name != ".setOptionsPrefix" and
           e.name != ".setFromOptions" for e in ev):
        return ctx.unsure("ksp", L, "options set through PETSc.Options",
                          fi.where)
    want = {**DEFAULT, **c}
    solves = [e for e in ev if e.name == "ksp.solve"]
    if not solves:
        return ctx.unsure("ksp", L, "no KSP solve seen", fi.where)
    first = solves[0]
    k = first.args[0]
    pc = [e for e in ev if e.name == ".getPC"]

    def calls(name, of=None):
        return [e for e in ev if e.name == name and (
            of is None or ip.toT(e.args[0], s) is of)]

    def val(e, i, name):
        return ip.toT(e.kws[name], s) if e.kws and name in e.kws else (
            ip.toT(e.args[i], s) if len(e.args) > i else None)

    def setting(what, es, got, wanted, kind="s"):
        es = [e for e in es if e.order < first.order]
        if not es:
            return ctx.bad("ksp", f"{L}: {what}", fi.where,
                           f"{what} is not passed to the solver before it "
                           f"solves")
        g = got(es[-1])
        if g is None:
            return ctx.bad("ksp", f"{L}: {what}", fi.where,
                           f"{what} is not passed to the solver")
        return agree(ctx, "ksp", f"{L}: {what}", fi.where, g, wanted)
    kt = calls(".setType", k)
    pcs = [mk("call", ".getPC", k)] if pc else []
    pt = [e for e in calls(".setType") if ip.toT(e.args[0], s) in pcs]
    if not pcs:
        ctx.unsure("ksp", f"{L}: pc_type", "no preconditioner seen",
                   fi.where)
    else:
        setting("pc_type", pt, lambda e: val(e, 1, "pc_type"),
                want["pc_type"])
    setting("ksp_type", kt, lambda e: val(e, 1, "ksp_type"),
            want["ksp_type"])
    tol = calls(".setTolerances", k)
    setting("rtol", tol, lambda e: val(e, 1, "rtol"), rt)
    if maxit:
        setting("maxiter", tol, lambda e: val(e, 4, "max_it"), mx)
    fac = calls(".setFactorSolverType")
    if want["pc_factor_mat_solver_type"] is tm.NONE:
        ctx.fact(not fac, "ksp", f"{L}: factor solver", fi.where,
                 "left to PETSc", "a factor solver is set although none is "
                 "given")
    else:
        setting("factor solver", fac, lambda e: val(e, 1, "solver"), want[
            "pc_factor_mat_solver_type"])
    pre = calls(".setOptionsPrefix", k)
    if want["options_prefix"] is not tm.NONE:
        setting("options prefix", pre, lambda e: val(e, 1, "prefix"), want[
            "options_prefix"])
    fo = [e for e in calls(".setFromOptions", k)]
    if want["use_set_from_options"] is tm.TRUE:
        if not fo:
            ctx.bad("ksp", f"{L}: runtime options", fi.where,
                    "use_set_from_options is on but PETSc's options are "
                    "never read")
        else:
            late = [e for e in kt + pt + tol + pre + fac
                    if fo[-1].order < e.order < first.order]
            ctx.fact(not late and fo[-1].order < first.order, "ksp",
                     f"{L}: runtime options", fi.where,
                     "read after every setting and before the solve",
                     "PETSc's runtime options are read before a setting "
                     "that overrides them" if late else
                     "PETSc's runtime options are read after the solve")
    elif want["use_set_from_options"] is tm.FALSE:
        ctx.fact(not fo, "ksp", f"{L}: runtime options", fi.where,
                 "not read", "PETSc's options are read although "
                 "use_set_from_options is off")
    ops = calls(".setOperators", k)
    if ops:
        A = ip.toT(ops[-1].args[1], s)
        csr = [x for x in tm.subterms(A) if x.op == "kw" and
               x.args[0] == "csr"]
        Kt = sym("K", "a")
        if csr:
            w = [mk("attr", Kt, n) for n in ("indptr", "indices", "data")]
            g = list(csr[0].args[1].args)
            if g == w:
                ctx.ok("ksp", f"{L}: matrix", "indptr, indices, data",
                       fi.where)
            elif set(g) <= set(w):
                ctx.bad("ksp", f"{L}: matrix", fi.where, "the CSR arrays "
                        "are handed over in the wrong order")
            elif len(g) == 3:
                for x, y, n in zip(g, w, ("row pointers", "columns",
                                          "entries")):
                    z = sym("K." + n.replace(" ", "_"), "a")
                    ctx.equal("ksp", f"{L}: matrix {n}", fi.where, tm.subst(
                        x, {y: z}), z, {"K.entries": (-2.0, 2.0)},
                        f"the {n} of the matrix given must be handed over")
            else:
                ctx.unsure("ksp", f"{L}: matrix", tm.show(csr[0], 3),
                           fi.where)
    # results
    r = ip.force(v, s)
    if not isinstance(r, Tup) or len(r.items) != 2:
        return ctx.unsure("ksp", f"{L}: result", "no (solution, status)",
                          fi.where)
    sol, info = r.items
    if not multi_:
        ctx.equal("ksp", f"{L}: solution", fi.where, ip.toT(sol, s), mk(
            "call", "ksp.solution", mk("call", "petsc.rhs", F0)), {},
            "must be the solution for the right-hand side given")
        return ctx.equal("ksp", f"{L}: status", fi.where, ip.toT(info, s),
                         mk("call", "ksp.reason", mk("call", "petsc.rhs",
                                                     F0)), {},
                         "must be PETSc's converged reason")
    for j in range(2):
        col = tm.gather(F0, mk("idx", tm.FULL, const(j)))
        b = mk("call", "petsc.rhs", col)
        ctx.equal("ksp", f"{L}: solution {j}", fi.where, tm.gather(ip.toT(
            sol, s), mk("idx", tm.FULL, const(j))), mk(
                "call", "ksp.solution", b), {}, f"column {j} must be the "
            f"solution for right-hand side {j}", allowed=("attr:ndim",))
        items = ip.list_items(info, s)
        if items is not None and len(items) > j:
            ctx.equal("ksp", f"{L}: status {j}", fi.where, ip.toT(
                items[j], s), mk("call", "ksp.reason", b), {},
                f"status {j} must be that of right-hand side {j}")
    return True
