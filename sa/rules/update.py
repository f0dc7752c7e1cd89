"""C01-C04: the density update of both optimizers."""
from .. import terms as tm
from ..terms import const, sym, mk
from ..ctx import Dom
from ..order import Order, pointwise, Opaque, mono, strip
from . import steps
from .opt import all_runs, opt_run

M, S1, S2, ML = (sym(n, "s") for n in ("rho_min", "s1", "s2", "ml"))
S1A = sym("s1", "a")
RNG = {"rho_min": (1e-3, 0.1), "s1": (0.0, 0.5), "s2": (0.0, 0.4),
       "ml": (0.0, 0.3), "cfg.scaling_rate_min": (0.05, 0.9),
       "cfg.scaling_rate_max": (1.1, 3.0), "cfg.lagrangian_clip": (0.2, 3.0)}
# functions of the state solve, filter and schedules: any value may come out
FREE = {"call:fem.energy", "call:fem.sensitivity", "call:fem.objectives",
        "call:fem.u", "call:filter.F", "call:filter.G", "call:sched", "fold",
        "call:recorder.latest", "call:broke", "call:more", "call:ran"}


def wild(it, t):
    """arbitrary values for what the FE solve and the filter deliver"""
    if t.op == "fold" or (t.op == "call" and t.args[0] in (
            "filter.F", "filter.G", "fem.energy", "fem.sensitivity")):
        u = it.leaf(("w", t.id), (-1.0, 1.0))
        e = it.leaf(("e", t.id), (-4.0, 4.0))
        return u * 10 ** e
    return None


def slacked(run, t):
    rr = sym("s1", "a")
    sub = {run.mu_rho: tm.add(M, rr),
           sym("cfg.rho_min", "s"): M,
           sym("cfg.rho_max", "s"): tm.add(tm.add(M, rr), S2),
           run.sched("move_limit"): ML}
    return tm.subst(t, sub)


def order(run, extra=()):
    eta = run.sched("eta")
    nn = [M, S1, S1A, S2, ML, eta, sym("cfg.scaling_rate_min", "s"),
          sym("cfg.scaling_rate_max", "s"), sym("cfg.lagrangian_clip", "s")]
    od = Order(nonneg=list(nn) + list(extra))
    od.main, od.keep, od.run = run.loop.id, tuple(extra), run
    return od


def witness(ctx, t, pred, n=None, fixed_ranges=None):
    """an interpretation under which pred(value) is false"""
    rng = dict(RNG)
    rng.update(fixed_ranges or {})
    for k in range((n or ctx.n) * 20):
        it = tm.Interp(tm._h(ctx.seed, "w", k), rng, None, None, wild)
        try:
            vs = [it.num(x) for x in t]
        except tm.Undecided:
            return None
        if not pred(*vs):
            return it, vs
    return None


def foreign(ctx, t, main=None, keep=()):
    """what keeps a counterexample from being one: operations without a
    model, and values carried by a loop about which nothing is known"""
    out = ctx.foreign(t, mk("tuple"), FREE)
    for x in tm.subterms(t):
        if x.op == "mu" and x.args[0] != main and x not in keep:
            out.append("loop value " + str(x.args[1]))
    return out


def unroll(od, t, k):
    """replace what inner loops carry by their values after k passes"""
    run = getattr(od, "run", None)
    if run is None:
        return t
    for l in run.ip.loops:
        if l.id == run.loop.id:
            continue
        init, step = {}, {}
        for key, m in l.mu.items():
            if isinstance(m, tm.T) and m.op == "mu" and isinstance(
                    l.init.get(key), tm.T) and isinstance(
                        l.next.get(key), tm.T):
                init[m] = slacked(run, l.init[key])
                step[m] = slacked(run, l.next[key])
        if not any(x in init for x in tm.subterms(t)):
            continue
        for _ in range(k):
            t = tm.subst(t, step)
        t = tm.subst(t, init)
    return t


def bound(ctx, rule, construct, where, lo, hi, od, text, what):
    if od.le(lo, hi):
        return ctx.ok(rule, construct, f"derived in the order domain: {text}",
                      where)
    ok = lambda a, b: a <= b + 1e-9 * max(1, abs(b))    # noqa: E731
    w = None
    for k in range(3):
        # values a search loop carries after k passes
        l, h = (unroll(od, x, k) for x in (lo, hi))
        w = witness(ctx, [l, h], ok)
        if w is not None and not [x for t in (l, h) for x in foreign(
                ctx, t, getattr(od, "main", None), getattr(od, "keep", ()))]:
            lo, hi = l, h
            break
    if w is None or tm.has_unk(lo) or tm.has_unk(hi):
        return ctx.unsure(rule, construct, f"not derived: {text}", where)
    f = [x for t in (lo, hi) for x in foreign(
        ctx, t, getattr(od, "main", None), getattr(od, "keep", ()))]
    if f:
        return ctx.unsure(rule, construct, f"operations without a model: {f}",
                          where)
    it, vs = w
    at = {}
    for s in tm.syms(lo) | tm.syms(hi):
        at[s] = it.ev(sym(s, "s"))
    return ctx.bad(rule, construct, where, f"{what}: {text} fails",
                   {"left": tm.show(lo, 9), "right": tm.show(hi, 9),
                    "values": vs, "at": at})


def value_on_design(ctx, run, rule):
    if run.loop is None or not run.roles():
        ctx.unsure(rule, run.label, "main loop not identified")
        return None
    nxt = run.rho_next
    others = [i for i in tm.set_indices(nxt)
              if strip(i) is not run.D and any(
                  x.op == "store" and x.args[1] is i
                  for x in tm.subterms(nxt))]
    try:
        return pointwise(nxt, [run.D], others)
    except Opaque as e:
        ctx.unsure(rule, run.label, str(e))
        return None


def c01(ctx):
    """Order-domain derivation of the density bounds and the move limit from
    the value every design element gets in one iteration."""
    for run in all_runs(ctx):
        ctx.section(run.label, c01_run, ctx, run)
    steps.c01(ctx)


def c01_run(ctx, run):
    rule = "density bounds"
    V = value_on_design(ctx, run, rule)
    if V is None:
        return
    W = run.loop.where
    for nm, v in run.worlds(V):
        v = slacked(run, v)
        c = f"{run.label}: design density, {nm}"
        fl = run.fed("lmid")
        # the multiplier stays in [lambda_lower, lambda_upper] (C03), >= 0
        od = order(run, extra=[e.extra["data"] for e in fl])
        R = tm.add(M, S1A)
        MX = tm.add(R, S2)
        bound(ctx, rule, c, W, v, MX, od, "density <= rho_max", c)
        bound(ctx, rule, c, W, M, v, od, "density >= rho_min", c)
        bound(ctx, "move limit", c, W, v, tm.add(R, ML), od,
              "new <= old + move_limit of this iteration", c)
        bound(ctx, "move limit", c, W, tm.sub(R, ML), v, od,
              "new >= old - move_limit of this iteration", c)
        for x in local_ops(v):
            if x.op == "pow" and not (tm.is_const(x.args[1]) and float(
                    tm.cval(x.args[1])).is_integer()):
                bound(ctx, "update is a real number", c, W, tm.ZERO,
                      x.args[0], od, "base of a real power >= 0", c)
            if x.op == "log":
                bound(ctx, "update is a real number", c, W, tm.ZERO,
                      x.args[0], od, "argument of log >= 0", c)
    # start
    init = run.rho_init
    others = [i for i in tm.set_indices(init)]
    c = f"{run.label}: initial density"
    try:
        v0 = pointwise(init, [], others)
    except Opaque as e:
        return ctx.unsure(rule, c, str(e), W)
    od = order(run)
    sub = {sym("cfg.rho_min", "s"): M,
           sym("cfg.rho_max", "s"): tm.add(M, S2)}
    v0 = tm.subst(v0, sub)
    bound(ctx, rule, c, W, v0, tm.add(M, S2), od, "initial <= rho_max", c)
    bound(ctx, rule, c, W, M, v0, od, "initial >= rho_min", c)


def local_ops(v):
    """operations on the element's own values (not inside reductions)"""
    out, seen, st = [], set(), [v]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        if x.op in tm.ELEMENTWISE or x.op in ("float",):
            st += [a for a in x.args if isinstance(a, tm.T)]
    return out


# ------------------------------------------------------------------- C02
def c02(ctx):
    """Which elements an iteration (and the start) may write, and what the
    forced elements get."""
    for run in all_runs(ctx):
        ctx.section(run.label, c02_run, ctx, run)
    steps.c02(ctx)


def attr_term(run, name, st=None):
    st = st or run.before.fork()
    return run.ip.toT(run.ip.getattr(run.tsk, name, st, run.ip.stack[-1]
                                     if run.ip.stack else None, None), st)


def c02_run(ctx, run):
    rule = "only design elements change"
    if run.loop is None or not run.roles():
        return ctx.unsure(rule, run.label, "main loop not identified")
    W = run.loop.where
    dd = "True" in run.label
    N = attr_term(run, "neumann_elements" if dd
                  else "dirichlet_neumann_elements")
    fixed = attr_term(run, "fixed_elements")
    nxt = run.rho_next
    stores = []
    for x in tm.subterms(nxt):
        if x.op == "store" and strip(x.args[1]) not in stores:
            stores.append(strip(x.args[1]))
    known = {run.D.id, N.id, fixed.id}
    for i in stores:
        if i.id not in known and i.op != "sym":
            ctx.unsure(rule, run.label,
                       f"index set without a meaning: {tm.show(i, 4)}", W)
    c = f"{run.label}: element outside design and forced sets"
    mine = [i for i in stores if i.id in known]
    try:
        v = pointwise(nxt, [], mine)
        if v is run.mu_rho:
            ctx.ok(rule, c, "value number is the previous density", W)
        else:
            g = ctx.equal(rule, c, W, v, run.mu_rho, None, c,
                          allowed=FREE)
    except Opaque as e:
        # another set of elements is written as well
        bad = [i for i in stores if i.op == "sym" and i.id not in known]
        if bad:
            ctx.bad(rule, c, W, "an iteration also writes the elements "
                    f"{[tm.show(i, 4) for i in bad]}")
        else:
            ctx.unsure(rule, c, str(e), W)
    forced = "forced elements stay solid"
    for what, t in (("after an iteration", nxt), ("at the start",
                                                  run.rho_init)):
        c = f"{run.label}: surface-load elements {what}"
        others = [i for i in tm.set_indices(t) if strip(i) is not N]
        flag = mk("is", N, tm.NONE)
        if dd:
            t = tm.subst(t, {flag: tm.FALSE,
                             mk("isnot", N, tm.NONE): tm.TRUE})
        for how in ("design", "non-design"):
            ins = [N] + ([run.D] if how == "design" else [])
            try:
                v = pointwise(t, ins, [i for i in others
                                       if strip(i).id not in
                                       {x.id for x in ins}])
            except Opaque as e:
                ctx.unsure(forced, c, str(e), W)
                continue
            ctx.equal(forced, f"{c} ({how})", W, v, const(1.0), RNG,
                      "density of an element that carries a load",
                      allowed=FREE)
    c = f"{run.label}: fixed elements at the start"
    try:
        others = [i for i in tm.set_indices(run.rho_init)
                  if strip(i) is not fixed]
        v = pointwise(run.rho_init, [fixed], others)
        ctx.equal(forced, c, W, v, const(1.0), RNG, c, allowed=FREE)
    except Opaque as e:
        ctx.unsure(forced, c, str(e), W)


# ------------------------------------------------------------------- C03
def c03(ctx):
    """OC: what the bisection measures, which way it moves, what it
    reports."""
    for task in ("elastic", "heat"):
        run = opt_run(ctx, "OC", task, cfg_fixed={"design_dirichlet": False})
        run.label = f"OC/{task}"
        ctx.section(run.label, c03_run, ctx, run)
    steps.c03(ctx)


def volume_spec(run, V_store):
    """sum of the projected, filtered candidate over the design volume"""
    beta, eta = run.sched("beta"), sym("cfg.beta_eta", "s")
    f = mk("call", "filter.F", run.radius_t, V_store)
    th = lambda x: mk("tanh", x)            # noqa: E731
    den = tm.add(th(tm.mul(beta, eta)),
                 th(tm.mul(beta, tm.sub(const(1.0), eta))))
    H = tm.div(tm.add(th(tm.mul(beta, eta)),
                      th(tm.mul(beta, tm.sub(f, eta)))), den)
    vol = tm.gather(attr_term(run, "elements_volume"), run.D)
    return tm.div(tm.call("np.sum", tm.mul(tm.gather(H, run.D), vol)),
                  tm.call("np.sum", vol))


def split_design(run):
    """the value written to rho[D] this iteration"""
    out = [x for x in tm.subterms(run.rho_next) if x.op == "store"
           and strip(x.args[1]) is run.D and x.args[0] is run.mu_rho]
    return out[0] if len(out) == 1 else None


def same_ranges(run):
    return {"cfg.beta_eta": Dom(0.1, 0.9), "tsk.n_tasks": Dom(1, 4)}


def model_fold(it, t):
    return None


def c03_run(ctx, run):
    rule = "measured volume"
    if run.loop is None or not run.roles():
        return ctx.unsure(rule, run.label, "main loop not identified")
    W = run.loop.where
    st = split_design(run)
    if st is None:
        return ctx.unsure(rule, run.label, "design store not identified", W)
    fv, fl = run.fed("vol_error"), run.fed("lmid")
    if len(fv) != 1 or len(fl) != 1:
        return ctx.unsure(rule, run.label, "recorded values not identified")
    ve, lam = fv[0].extra["data"], fl[0].extra["data"]
    for nm, v, s, lm in run.worlds(ve, st, lam):
        want = tm.sub(volume_spec(run, s), run.sched("vol_frac"))
        ctx.equal(rule, f"{run.label}: recorded vol_error, {nm}", W, v, want,
                  same_ranges(run), "volume error of the returned design",
                  tol=1e-6)
    # the loop that moves the multiplier
    inner = None
    for l in run.ip.loops:
        for k, m in l.mu.items():
            if isinstance(m, tm.T) and m is lam and l is not run.loop:
                inner, lk = l, k
    if inner is None:
        return ctx.unsure("multiplier search", run.label,
                          "search loop not identified", W)
    IW = inner.where
    lo = [k for k, v in inner.init.items()
          if v is sym("cfg.lambda_lower", "s")]
    hi = [k for k, v in inner.init.items()
          if v is sym("cfg.lambda_upper", "s")]
    nx = inner.next.get(lk)
    if len(lo) != 1 or len(hi) != 1 or not isinstance(nx, tm.T):
        return ctx.unsure("multiplier search", run.label,
                          "bracket not identified", IW)
    L, U = inner.mu[lo[0]], inner.mu[hi[0]]
    Ln, Un = inner.next[lo[0]], inner.next[hi[0]]
    a, b, c_ = (sym(x, "s") for x in ("λlow", "gap1", "gap2"))
    sub = {L: a, lam: tm.add(a, b), U: tm.add(tm.add(a, b), c_)}
    S = lambda t: tm.subst(t, sub)          # noqa: E731
    od = Order(nonneg=[b, c_])
    rng = {"λlow": (-5.0, 5.0), "gap1": (0.0, 3.0), "gap2": (0.0, 3.0)}
    nx, Ln, Un = S(nx), S(Ln), S(Un)
    lam0 = inner.init[lk]
    r = "multiplier stays inside its bracket"
    cn = f"{run.label}: multiplier"

    def bnd(x, y, text):
        if od.le(x, y):
            return ctx.ok(r, cn, f"derived: {text}", IW)
        w = witness(ctx, [x, y], lambda p, q: p <= q + 1e-9, None, rng)
        if w is None or foreign(ctx, x, run.loop.id) or foreign(
                ctx, y, run.loop.id):
            return ctx.unsure(r, cn, f"not derived: {text}", IW)
        return ctx.bad(r, cn, IW, f"{text} fails",
                       {"left": tm.show(x, 8), "right": tm.show(y, 8),
                        "values": w[1]})
    bnd(a, Ln, "lower end never decreases")
    bnd(Un, tm.add(tm.add(a, b), c_), "upper end never increases")
    bnd(Ln, nx, "multiplier above the new lower end")
    bnd(nx, Un, "multiplier below the new upper end")
    i_sub = {sym("cfg.lambda_lower", "s"): a,
             sym("cfg.lambda_upper", "s"): tm.add(a, b)}
    l0 = tm.subst(lam0, i_sub)
    bnd(a, l0, "first multiplier above cfg.lambda_lower")
    bnd(l0, tm.add(a, b), "first multiplier below cfg.lambda_upper")
    # direction: too much material => larger multiplier => less material
    V = st.args[2]
    od2 = order(run, extra=[lam])
    try:
        vp = pointwise(V, [run.D], [])
    except Opaque:
        vp = V
    r = "multiplier moves against the volume error"
    vs = [v for _, v in run.worlds(vp)]
    # mask the multiplier's other uses: only the element's own update counts
    m = {mono(slacked(run, v), lam, od2) for v in vs}
    ctx.fact(True, r, cn, IW, "", "") if False else None
    if m == {-1}:
        ctx.ok(r, f"{run.label}: density as a function of the multiplier",
               "derived non-increasing", IW)
    elif m == {1}:
        ctx.bad(r, f"{run.label}: density as a function of the multiplier",
                IW, "density grows with the multiplier",
                {"density": tm.show(vp, 8)})
    else:
        ctx.unsure(r, f"{run.label}: density as a function of the "
                   "multiplier", f"monotonicity not derived ({m})", IW)
    # how the sign of the measured error decides
    inner_ve = None
    for k, v in inner.next.items():
        if inner.mu.get(k) is not None and isinstance(v, tm.T) \
                and v is ve:
            inner_ve = v
    ve_l = ve
    sgn = {}
    for name, val in (("positive", 0.25), ("negative", -0.25)):
        t = tm.subst(inner.next[lk], {ve_l: const(val)})
        t = S(fold_cmp(t))
        if any(x is ve_l for x in tm.subterms(t)):
            t = None
        sgn[name] = t
    here = tm.add(a, b)
    for name, t, x, y in (
            ("positive", sgn["positive"], here, sgn["positive"]),
            ("negative", sgn["negative"], sgn["negative"], here)):
        cc = f"{run.label}: step for a {name} volume error"
        if t is None or t is S(inner.next[lk]):
            ctx.unsure(r, cc, "step does not expose the volume error", IW)
            continue
        if od.le(x, y):
            ctx.ok(r, cc, "derived", IW)
            continue
        w = witness(ctx, [x, y], lambda p, q: p <= q + 1e-9, None, rng)
        if w is None or foreign(ctx, t, run.loop.id):
            ctx.unsure(r, cc, "not derived", IW)
        else:
            ctx.bad(r, cc, IW, f"with a {name} volume error the multiplier "
                    "moves the wrong way", {"next": tm.show(t, 8)})
    # the search may only stop when the error is small or the bracket is
    r = "search stops only when done"
    for b_ in inner.breaks:
        conds = b_.pc
    # accuracy is a matter of the tolerances; reported under measured volume
    # recorded multiplier belongs to the returned design
    lams = [x for x in tm.subterms(vp) if x.op == "mu"
            and x.args[0] == inner.id]
    bad = [x for x in lams if x is not lam and not str(x.args[1]).endswith(
        ("?later", "?set")) and tm.kind(x) == "s"]
    ctx.fact(lam in lams or not lams, "recorded multiplier is the one used",
             cn, IW, "the returned density is a function of the recorded "
             "multiplier", "the returned density does not use the recorded "
             f"multiplier but {[tm.show(x, 3) for x in bad]}")


def fold_cmp(t):
    """re-evaluate comparisons between constants after substitution"""
    return tm.subst(t, {})


# ------------------------------------------------------------------- C04
def c04(ctx):
    """LogMOC: dual variable, Lagrangian gradient and step direction."""
    for task in ("elastic", "heat"):
        for dual in ("ema", "augmented"):
            run = opt_run(ctx, "LogMOC", task, cfg_fixed={
                "design_dirichlet": False, "dual_update": dual})
            run.label = f"LogMOC/{task}/{dual}"
            ctx.section(run.label, c04_run, ctx, run)
    steps.c04(ctx)


def c04_run(ctx, run):
    rule = "multiplier bounds"
    if run.loop is None or not run.roles():
        return ctx.unsure(rule, run.label, "main loop not identified")
    W = run.loop.where
    f = {n: run.fed(n) for n in ("lambda_v", "constraint_coeff", "vol_error",
                                 "dL", "-dC", "dV_chain")}
    if any(len(v) != 1 for v in f.values()):
        return ctx.unsure(rule, run.label, "recorded values not identified")
    d = {n: v[0].extra["data"] for n, v in f.items()}
    lam = d["lambda_v"]
    c = f"{run.label}: multiplier"
    a, g = sym("λlow", "s"), sym("gap1", "s")
    sub = {sym("cfg.lambda_lower", "s"): a,
           sym("cfg.lambda_upper", "s"): tm.add(a, g)}
    od = Order(nonneg=[g])
    od.main = run.loop.id
    l = tm.subst(lam, sub)
    bound(ctx, rule, c, W, l, tm.add(a, g), od, "multiplier <= lambda_upper",
          c)
    bound(ctx, rule, c, W, a, l, od, "multiplier >= lambda_lower", c)
    # volume error of the current projected density
    e = run.objective_event()
    vol = tm.gather(attr_term(run, "elements_volume"), run.D)
    want = tm.sub(tm.div(tm.call("np.sum", tm.mul(tm.gather(
        e.extra["rho"], run.D), vol)), tm.call("np.sum", vol)),
        run.sched("vol_frac"))
    for nm, v in run.worlds(d["vol_error"]):
        ctx.equal("measured volume", f"{run.label}: recorded vol_error, {nm}",
                  W, v, want, same_ranges(run), "volume error", tol=1e-6)
    # dual ascent: multiplier does not decrease when the error grows
    ve = sym("volume_error", "s")
    r = "multiplier follows the volume error"
    od = Order(nonneg=[sym("cfg.mu_p", "s"), sym("1-decay", "s"),
                       sym("cfg.augmented_lagrangian_mu", "s")])
    sub = {d["vol_error"]: ve, sym("cfg.lambda_decay", "s"): tm.sub(
        const(1.0), sym("1-decay", "s"))}
    for n in ("lambda_v", "constraint_coeff"):
        t = tm.subst(tm.subst(d[n], {d["vol_error"]: ve}), sub)
        s = mono(tm.subst(t, {}), ve, od)
        cc = f"{run.label}: {n} as a function of the volume error"
        if s == 1:
            ctx.ok(r, cc, "derived non-decreasing", W)
        else:
            up = witness_mono(ctx, t, ve)
            if s == -1 or s == 0 or up is not None:
                ctx.bad(r, cc, W, f"{n} does not grow with the volume error",
                        {"value": tm.show(t, 8), "witness": up})
            else:
                ctx.unsure(r, cc, "monotonicity not derived", W)
    # Lagrangian gradient (plain options)
    plain = {sym(f"cfg.{x}", "s"): tm.FALSE for x in (
        "filter_lagrangian", "center_lagrangian", "normalize_volume_chain",
        "center_objective")}
    coeff = d["constraint_coeff"]
    rs = [k for k in run.loop.next if run.loop.labels.get(k) ==
          "running_scale"]
    for nm, dL, dC, dV, cf in run.worlds(d["dL"], d["-dC"], d["dV_chain"],
                                         coeff):
        dL, dC, dV, cf = (tm.subst(x, plain) for x in (dL, dC, dV, cf))
        # recorded dV_chain is |dV|
        if dV.op == "abs":
            dV = dV.args[0]
        raw = tm.add(tm.neg(dC), tm.mul(cf, dV))
        ok = dL.op == "div"
        cc = f"{run.label}: Lagrangian gradient, {nm}"
        if not ok:
            ctx.unsure("Lagrangian gradient", cc, "no common scale", W)
            continue
        ctx.equal("Lagrangian gradient", cc, W, dL.args[0], raw,
                  same_ranges(run), "dL = dC + coefficient * dV",
                  allowed=FREE, model=None, tol=1e-6)
        # the step goes against the gradient
    st = split_design(run)
    if st is None:
        return ctx.unsure("step direction", run.label,
                          "design store not identified", W)
    V = st.args[2]
    G = sym("G", "a")
    for nm, v, dL in run.worlds(V, d["dL"]):
        v = tm.subst(v, {dL: G})
        try:
            v = pointwise(v, [run.D], [])
        except Opaque as ex:
            ctx.unsure("step direction", run.label, str(ex), W)
            continue
        v = slacked(run, v)
        cc = f"{run.label}: density as a function of dL, {nm}"
        if not any(x is G for x in tm.subterms(v)):
            ctx.unsure("step direction", cc, "update does not use the "
                       "recorded gradient", W)
            continue
        s = mono(v, G, order(run))
        if s == -1:
            ctx.ok("step direction", cc, "derived non-increasing", W)
        elif s == 1:
            ctx.bad("step direction", cc, W, "density grows where the "
                    "Lagrangian grows", {"density": tm.show(v, 9)})
        else:
            ctx.unsure("step direction", cc, "monotonicity not derived", W)


def witness_mono(ctx, t, x):
    for k in range(ctx.n * 10):
        rng = dict(RNG)
        rng["1-decay"] = (0.01, 0.9)
        vals = []
        for v in (-0.2, 0.3):
            it = tm.Interp(tm._h(ctx.seed, "m", k), rng, None, {x: v}, wild)
            try:
                vals.append(it.num(t))
            except tm.Undecided:
                return None
        if vals[0] > vals[1] + 1e-9:
            return vals
    return None
