"""C06 interpolation/derivative agreement, C07 projection."""
from .. import terms as tm
from ..terms import const, sym
from ..ctx import Dom, UNIT
from ..interp import State

RHO = sym("rho", "a")
U = sym("U", "a")
E0, EMIN, P = sym("E0", "s"), sym("Emin", "s"), sym("p", "s")
BETA, ETA = sym("beta", "s"), sym("eta", "s")

DOMS = {"rho": Dom(2e-5, 1.0, small=True), "U": Dom(0.0, 50.0),
        "E0": Dom(1.0, 50.0), "Emin": Dom(1e-3, 0.5),
        "p": Dom(1.0, 6.0, points=(1.0, 3.0))}

D = "sktopt.core.derivatives."
C = "sktopt.fea.composer."


def call(ctx, fn, mk_args, models=None):
    """abstract call; -> (value term, state, interp, arrays)"""
    ip = ctx.ip(models)
    st = State()
    arrs = {}
    args = []
    for a in mk_args:
        if isinstance(a, tuple):
            name, content = a
            arrs[name] = ip.new_arr(st, content, name)
            args.append(arrs[name])
        else:
            args.append(a)
    s, v = ip.run(fn, args, {}, st)
    if s is None:
        return None, None, ip, arrs
    return ip.toT(v, s), s, ip, arrs


def untouched(ctx, rule, fn, s, ip, arrs, names):
    for n in names:
        c = ip.content(arrs[n], s)
        if c is arrs[n].__class__ or True:
            want = {"rho": RHO, "U": U}[n]
            ctx.equal(rule, f"{fn.qual}: argument {n} afterwards", fn.where,
                      c, want, DOMS)


def E_of(ctx, model):
    fn = ctx.proj.need(C + f"{model}_interpolation")
    v, s, ip, arrs = call(ctx, fn, [("rho", RHO), E0, EMIN, P])
    return fn, v, s, ip, arrs


def c06(ctx):
    for model in ("simp", "ramp"):
        ctx.section(f"{model}", one_model, ctx, model)
    ctx.section("pairing", pairing, ctx)


def one_model(ctx, model):
    fn, E, s, ip, arrs = E_of(ctx, model)
    untouched(ctx, "interpolation is pure", fn, s, ip, arrs, ["rho"])
    # end points
    one = tm.subst(E, {RHO: const(1.0)})
    zero = tm.subst(E, {RHO: const(0.0)})
    ctx.equal("solid has the full modulus", f"{fn.qual}(1)", fn.where, one,
              E0, DOMS, f"{model}: modulus at density 1")
    ctx.equal("void has the minimum modulus", f"{fn.qual}(0)", fn.where,
              zero, EMIN, DOMS, f"{model}: modulus at density 0")
    dE = tm.diff(E, RHO)
    dfn = ctx.proj.need(D + f"dE_drho_{model}")
    v, s, ip, arrs = call(ctx, dfn, [("rho", RHO), E0, EMIN, P])
    ctx.equal("dE/drho is the derivative of the interpolation", dfn.qual,
              dfn.where, v, dE, DOMS, f"{dfn.name} against d/drho {fn.name}",
              tol=1e-6)
    untouched(ctx, "derivative is pure", dfn, s, ip, arrs, ["rho"])
    want = tm.div(tm.mul(tm.mul(const(-2.0), U), dE), E)
    cfn = ctx.proj.need(D + f"dC_drho_{model}")
    v, s, ip, arrs = call(ctx, cfn, [("rho", RHO), ("U", U), E0, EMIN, P])
    ctx.equal("sensitivity = -(dE/drho) 2U/E", cfn.qual, cfn.where, v, want,
              DOMS, cfn.name, tol=1e-6)
    untouched(ctx, "sensitivity is pure", cfn, s, ip, arrs, ["rho", "U"])
    for name, extra, ref in (
            (f"dE_drho_{model}_inplace", [], dE),
            (f"dC_drho_{model}_inplace", [("U", U)], want)):
        f = ctx.proj.lookup(D + name)
        if f is None:
            continue
        a = [("rho", RHO)] + extra + [("out", sym("out", "a")), E0, EMIN, P]
        v, s, ip, arrs = call(ctx, f, a)
        if s is None:
            ctx.bad("in-place variant agrees", f.qual, f.where,
                    f"{name} raises on every path")
            continue
        got = ip.content(arrs["out"], s)
        ctx.equal("in-place variant agrees", f.qual, f.where, got, ref, DOMS,
                  f"{name}: contents of out", tol=1e-6)
        untouched(ctx, "in-place variant keeps its inputs", f, s, ip, arrs,
                  ["rho"] + (["U"] if extra else []))


def pairing(ctx):
    """the pair handed to the FE solver and to the sensitivity belongs to the
    model the configuration names; anything else is refused"""
    fn = ctx.proj.need(
        "sktopt.core.optimizers.common_density.interpolation_funcs")
    cfgc = ctx.proj.need(
        "sktopt.core.optimizers.common_density.DensityMethodConfig")
    for name, model in (("SIMP", "simp"), ("RAMP", "ramp"),
                        ("OTHER", None)):
        ip = ctx.ip()
        st = State()
        cfg = ip.sym_obj(st, cfgc, "cfg")
        st.heap[("o", cfg.oid, "interpolation")] = const(name)
        s, v = ip.run(fn, [cfg], {}, st)
        c = f"{fn.qual}[{name}]"
        if model is None:
            ctx.fact(s is None, "unknown models are refused", c, fn.where,
                     "every path raises", f"interpolation={name!r} accepted")
            continue
        if s is None:
            ctx.bad("known models are accepted", c, fn.where,
                    f"interpolation={name!r} raises")
            continue
        items = ip.list_items(v, s)
        if not items or len(items) < 2:
            ctx.unsure("pairing", c, "not a pair", fn.where)
            continue
        _, E, _, _, _ = E_of(ctx, model)
        rho = ip.new_arr(s, RHO, "rho")
        s1, e = ip.run(items[0], [rho, E0, EMIN, P], {}, s)
        ctx.equal("FE stiffness uses the configured model", c, fn.where,
                  ip.toT(e, s1), E, DOMS, f"{name}: modulus function")
        u = ip.new_arr(s1, U, "U")
        s2, g = ip.run(items[1], [rho, u, E0, EMIN, P], {}, s1)
        dE = tm.diff(E, RHO)
        want = tm.div(tm.mul(tm.mul(const(-2.0), U), dE), E)
        ctx.equal("sensitivity uses the configured model", c, fn.where,
                  ip.toT(g, s2), want, DOMS, f"{name}: sensitivity", tol=1e-6)


# ------------------------------------------------------------------- C07

PD = {"rho": Dom(0.0, 1.0, points=(0.0, 1.0, 0.5), small=True),
      "beta": Dom(0.05, 20.0), "eta": Dom(0.05, 0.95, points=(0.5,))}


def c07(ctx):
    base = "sktopt.core.projection."
    th = lambda x: tm.mk("tanh", x)         # noqa: E731
    den = tm.add(th(tm.mul(BETA, ETA)),
                 th(tm.mul(BETA, tm.sub(const(1.0), ETA))))
    H = tm.div(tm.add(th(tm.mul(BETA, ETA)),
                      th(tm.mul(BETA, tm.sub(RHO, ETA)))), den)
    dH = tm.diff(H, RHO)
    for name, ref in (("heaviside_projection", H),
                      ("heaviside_projection_derivative", dH),
                      ("heaviside_projection_inplace", H),
                      ("heaviside_projection_derivative_inplace", dH)):
        ctx.section(name, projection, ctx, ctx.proj.need(base + name), ref,
                    name.endswith("inplace"))
    # the normalised form itself: fixed ends and monotone
    ctx.equal("projection keeps void", "H(0)", "specification",
              tm.subst(H, {RHO: const(0.0)}), const(0.0), PD)
    ctx.equal("projection keeps solid", "H(1)", "specification",
              tm.subst(H, {RHO: const(1.0)}), const(1.0), PD)


def projection(ctx, fn, ref, inplace):
    for how in (("none", "given") if inplace else ("none",)):
        ip = ctx.ip()
        st = State()
        rho = ip.new_arr(st, RHO, "rho")
        kws = {}
        if how == "given":
            out = ip.new_arr(st, sym("out", "a"), "out")
            kws["out"] = out
        s, v = ip.run(fn, [rho, BETA, ETA], kws, st)
        c = f"{fn.qual}" + (f"[out {how}]" if inplace else "")
        if s is None:
            ctx.bad("projection formula", c, fn.where, "raises on every path")
            continue
        rule = "derivative is dH/drho" if "derivative" in fn.name \
            else "projection is the normalised tanh step"
        ctx.equal(rule, c, fn.where, ip.toT(v, s), ref, PD, c, tol=1e-6)
        if how == "given":
            ctx.equal("result lands in out", c, fn.where,
                      ip.content(out, s), ref, PD, c, tol=1e-6)
        # without `out`, the derivative promises a new array; the projection
        # documents both a new array and writing in place
        if how == "given" or not inplace or "derivative" in fn.name:
            ctx.equal("input density is not modified", c, fn.where,
                      ip.content(rho, s), RHO, PD, f"{c}: rho afterwards")
        # ends
        t = ip.toT(v, s)
        if "derivative" not in fn.name and not tm.has_unk(t):
            ctx.equal("projection keeps void", c, fn.where,
                      tm.subst(t, {RHO: const(0.0)}), const(0.0), PD,
                      "H(0)", tol=1e-6)
            ctx.equal("projection keeps solid", c, fn.where,
                      tm.subst(t, {RHO: const(1.0)}), const(1.0), PD,
                      "H(1)", tol=1e-6)
