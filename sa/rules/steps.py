"""What whole iterations do, read over small meshes (see iterate.py).

Each piece is a relation the property demands between the values an iteration
starts from, the values the stand-in functions deliver and the values the
iteration leaves behind; the graph of the iteration is evaluated over random
small problems and the relation is compared.
"""
from __future__ import annotations
import random

from .. import dense as dn
from .. import terms as tm
from ..dense import np, Undecided, Crash
from . import iterate as I
from .opt import opt_run

EPS = 1e-9


class Piece:
    def __init__(self, rule, what, fn, good):
        self.rule, self.what, self.fn, self.good = rule, what, fn, good


def small(ctx, run, pieces, cases=None, count=3, flags=None, disjoint=None,
          label=None, tune=None):
    """decide the pieces over random small problems"""
    W = run.loop.where
    label = label or run.label
    n = (cases or 10) * (1 if ctx.tier == "quick" else 12)
    bad, why, used = {}, {}, {}
    for j in range(n):
        case = I.Case(run, random.Random(f"{ctx.seed}/{label}/{j}"), flags,
                      disjoint)
        if tune is not None:
            tune(case)
        prev = None
        try:
            for it in I.iterations(run, case, count):
                it.prev = prev
                for p in pieces:
                    if p in bad:
                        continue
                    try:
                        with np.errstate(all="ignore"):
                            r = p.fn(it, case)
                    except Crash as e:
                        # what raises is judged by other rules
                        why.setdefault(p, f"raises: {e}")
                        continue
                    except Undecided as e:
                        why.setdefault(p, f"{e}")
                        continue
                    if r is SKIP:
                        continue
                    used[p] = used.get(p, 0) + 1
                    if r is not None:
                        bad[p] = (r[0], {**r[1], "iteration": it.k + 1,
                                         "elements": case.n,
                                         "design": case.D})
                prev = it
        except Undecided as e:
            for p in pieces:
                why.setdefault(p, f"iteration not readable: {e}")
    for p in pieces:
        c = f"{label}: {p.what}"
        if p in bad:
            ctx.bad(p.rule, c, W, bad[p][0],
                    {k: show(v) for k, v in bad[p][1].items()})
        elif p in why:
            ctx.unsure(p.rule, c, why[p], W)
        elif used.get(p):
            ctx.count("iterations read", used[p])
            ctx.ok(p.rule, c, f"{p.good} ({used[p]} iterations read)", W)


SKIP = object()


def show(v):
    if isinstance(v, np.ndarray):
        return [round(float(x), 6) for x in v.ravel()[:12]]
    if isinstance(v, (float, int)):
        return round(float(v), 9)
    return str(v)


def vec(v, n=None):
    a = np.asarray(v, dtype=float)
    if n is not None and a.shape != (n,):
        if a.ndim == 0:
            return np.full(n, float(a))
        raise Undecided(f"shape {a.shape} instead of {n} values")
    return a


def num(v):
    a = np.asarray(v, dtype=float)
    if a.size != 1:
        raise Undecided("not a number")
    return float(a.reshape(-1)[0])


def rho_old(it, case):
    return vec(it(it.run.mu_rho), case.n)


def rho_new(it, case):
    return vec(it(it.run.rho_next), case.n)


def design(it):
    return np.asarray(it(it.run.D), dtype=int)


def forced(it, case, dd):
    """elements this configuration keeps solid"""
    return case.named["tsk.neumann_elements"] if dd else case.DN


def free(it, case, dd):
    """design elements that are not kept solid"""
    F = forced(it, case, dd)
    D = design(it)
    return D if F is None else D[~np.isin(D, F)]


def runs(ctx, restarts=(False,)):
    for opt in ("OC", "LogMOC"):
        for dd in (False, True):
            for rs in restarts:
                for task in ("elastic", "heat"):
                    if rs and task == "heat":
                        continue
                    run = opt_run(ctx, opt, task, cfg_fixed={
                        "design_dirichlet": dd}, restart=rs)
                    run.roles()
                    run.label = f"{opt}/{task}/design_dirichlet={dd}" + (
                        "/restarted" if rs else "")
                    run.dd = dd
                    yield run


# ------------------------------------------------------------------- C01
def c01(ctx):
    for run in runs(ctx, (False, True)):
        if run.loop is None or run.mu_rho is None:
            ctx.unsure("density bounds", run.label, "main loop not "
                       "identified")
            continue
        ctx.section(run.label + " (iterations)", c01_run, ctx, run)


def c01_run(ctx, run):
    dd = run.dd

    def bounds(v, case, E):
        lo, hi = case.num["cfg.rho_min"], case.num["cfg.rho_max"]
        if not np.all(np.isfinite(v)):
            return "a design density is not a number", {"densities": v}
        if np.any(v < lo - EPS) or np.any(v > hi + EPS):
            return (f"a design density leaves [{lo:.4g}, {hi:.4g}]",
                    {"densities": v})

    def after(it, case):
        return bounds(rho_new(it, case)[free(it, case, dd)], case, it)

    def start(it, case):
        if it.k:
            return SKIP
        return bounds(rho_old(it, case)[free(it, case, dd)], case, it)

    def move(it, case):
        f = free(it, case, dd)
        a, b = rho_old(it, case)[f], rho_new(it, case)[f]
        ml = case.sched("move_limit", iteration(it))
        if np.any(np.abs(b - a) > ml + EPS):
            return (f"a design density moves by more than {ml:.4g}",
                    {"before": a, "after": b})
    small(ctx, run, [
        Piece("density bounds", "design densities after an iteration", after,
              "within the bounds and finite"),
        Piece("density bounds", "design densities at the start", start,
              "within the bounds and finite"),
        Piece("move limit", "change of a design density in an iteration",
              move, "within the move limit of this iteration")], cases=6)


def iteration(it):
    return int(it(it.run.iter))


# ------------------------------------------------------------------- C02
def c02(ctx):
    for run in runs(ctx, (False, True)):
        if run.loop is None or run.mu_rho is None:
            ctx.unsure("forced elements stay solid", run.label,
                       "main loop not identified")
            continue
        ctx.section(run.label + " (iterations)", c02_run, ctx, run)


def c02_run(ctx, run):
    dd = run.dd

    def outside(it, case):
        F = forced(it, case, dd)
        keep = np.ones(case.n, bool)
        keep[design(it)] = False
        if F is not None:
            keep[F] = False
        a, b = rho_old(it, case), rho_new(it, case)
        if not keep.any():
            return SKIP
        if np.any(a[keep] != b[keep]):
            return ("an element outside the design and forced sets changes",
                    {"before": a, "after": b,
                     "outside": np.nonzero(keep)[0]})

    def solid(which):
        def judge(it, case):
            F = forced(it, case, dd)
            if F is None or not len(F):
                return SKIP
            if which == "start" and it.k:
                return SKIP
            v = (rho_old if which == "start" else rho_new)(it, case)
            if np.any(np.abs(v[F] - 1.0) > EPS):
                return ("a surface-load element is not solid",
                        {"densities": v, "forced": F})
        return judge

    def fixed(it, case):
        v = rho_old(it, case)
        F = case.fixed
        if not len(F):
            return SKIP
        if np.any(np.abs(v[F] - 1.0) > EPS):
            return ("an element outside the design region is not solid",
                    {"densities": v, "fixed": F})
    small(ctx, run, [
        Piece("only design elements change", "elements outside design and "
              "forced sets in an iteration", outside, "unchanged"),
        Piece("forced elements stay solid", "surface-load elements after an "
              "iteration", solid("after"), "density 1"),
        Piece("forced elements stay solid", "surface-load elements at the "
              "start", solid("start"), "density 1"),
        Piece("forced elements stay solid", "fixed elements when an "
              "iteration begins", fixed, "density 1")], cases=6)


# ---------------------------------------------------------------- volumes
def heaviside(x, beta, eta):
    den = np.tanh(beta * eta) + np.tanh(beta * (1 - eta))
    return (np.tanh(beta * eta) + np.tanh(beta * (x - eta))) / den


def slope(x, beta, eta):
    den = np.tanh(beta * eta) + np.tanh(beta * (1 - eta))
    return beta / np.cosh(beta * (x - eta)) ** 2 / den


class Now:
    """what this iteration has to work with, by the meaning of its names"""

    def __init__(self, it, case):
        k = iteration(it)
        self.k = k
        self.D = design(it)
        self.vol = case.vol[self.D]
        self.V = self.vol.sum()
        for n in ("beta", "vol_frac", "move_limit", "eta", "filter_radius",
                  "percentile"):
            setattr(self, n, case.sched(n, k))
        self.be = case.num["cfg.beta_eta"]
        self.W = case.matrix(self.filter_radius)
        self.lo, self.hi = case.num["cfg.rho_min"], case.num["cfg.rho_max"]
        self.old = rho_old(it, case)

    def error(self, rho):
        h = heaviside(self.W @ rho, self.beta, self.be)
        return float((h[self.D] * self.vol).sum() / self.V - self.vol_frac)


def now(it, case):
    if getattr(it, "now_", None) is None:
        it.now_ = Now(it, case)
    return it.now_


def handed(it, case):
    """the gradient handed to the density update"""
    e = it.run.update_event()
    t = None if e is None else e.extra["tvals"].get("dC_drho_design_eles")
    if t is None:
        raise Undecided("gradient handed to the update not identified")
    return vec(it(t), len(design(it)))


def ratio(raw, got):
    """k > 0 with raw = k * got, a violation, or SKIP"""
    top = np.max(np.abs(raw))
    if top < 1e-9:
        return SKIP
    i = int(np.argmax(np.abs(raw)))
    k = raw[i] / got[i] if got[i] else np.inf
    if not k > 0 or not np.allclose(got * k, raw, rtol=1e-6,
                                    atol=1e-7 * top):
        return ("the recorded gradient is not the computed one over a "
                "positive scale", {"recorded": got, "computed": raw})
    return k


def smoothed(it, k, size, q):
    """the scale is the size of the gradient in the first iteration of a
    run and lies between the scale before and the size later on"""
    it.scale = k
    what = f"{q:.4g} percentile"
    if iteration(it) <= 1:
        if abs(k - size) > 1e-6 * size:
            return (f"the gradient is divided by {k:.6g}, not by its "
                    f"{what}, {size:.6g}", {})
        return None
    old = getattr(it.prev, "scale", None)
    if old is None:
        return SKIP
    lo, hi = min(old, size), max(old, size)
    if not lo * (1 - 1e-6) <= k <= hi * (1 + 1e-6):
        return (f"the gradient is divided by {k:.6g}, neither its {what}, "
                f"{size:.6g}, nor the scale before, {old:.6g}, nor anything "
                "between", {})


# ------------------------------------------------------------------- C03
def c03(ctx):
    for task in ("elastic", "heat"):
        run = opt_run(ctx, "OC", task, cfg_fixed={"design_dirichlet": False})
        run.label = f"OC/{task}"
        if run.loop is None or not run.roles():
            ctx.unsure("measured volume", run.label,
                       "main loop not identified")
            continue
        ctx.section(run.label + " (iterations)", c03_run, ctx, run)


def oc_value(w, case, dC, lam):
    """the optimality-criteria value of every design element"""
    s = (np.maximum(-dC, 0.0) / (lam + 1e-12)) ** w.eta
    s = np.clip(s, case.num["cfg.scaling_rate_min"],
                case.num["cfg.scaling_rate_max"])
    r = w.old[w.D]
    return np.clip(r * s, np.maximum(r - w.move_limit, w.lo),
                   np.minimum(r + w.move_limit, w.hi))


def c03_run(ctx, run):
    small(ctx, run, c03_pieces(run), disjoint=True)


def c03_pieces(run):
    # elements kept solid lie outside the design here: what the search
    # measures is then what the iteration leaves behind
    def measured(it, case):
        w = now(it, case)
        ve = num(it.fed("vol_error"))
        want = w.error(rho_new(it, case))
        if abs(ve - want) > 1e-7 * max(1, abs(want)):
            return (f"vol_error {ve:.6g} is recorded, the design left "
                    f"behind has {want:.6g}", {"design": rho_new(it, case)})

    def scaled(it, case):
        """the gradient is divided by a smoothed size of itself"""
        raw = handed(it, case)
        k = ratio(raw, -vec(it.fed("-dC"), len(raw)))
        if k is SKIP or isinstance(k, tuple):
            return k
        q = case.sched("percentile", iteration(it))
        if q is None:               # which scale is used is left open
            return None
        return smoothed(it, k, max(
            np.percentile(np.abs(raw), q), case.num["cfg.sensitivity_scale_floor"]), q)

    def inside(it, case):
        lam = num(it.fed("lmid"))
        lo, hi = (case.num["cfg.lambda_" + s] for s in ("lower", "upper"))
        if not lo - EPS <= lam <= hi * (1 + EPS):
            return (f"the multiplier {lam:.6g} leaves "
                    f"[{lo:.4g}, {hi:.4g}]", {})

    def formula(it, case):
        w = now(it, case)
        lam = num(it.fed("lmid"))
        dC = -vec(it.fed("-dC"), len(w.D))
        want = oc_value(w, case, dC, lam)
        got = rho_new(it, case)[w.D]
        # the guard against division by zero is too small to matter but
        # next to a vanishing multiplier
        tol = 1e-8 if lam > 1e-3 else 1e-4
        if not np.allclose(got, want, rtol=tol, atol=tol):
            return ("the design left behind is not the optimality-criteria "
                    f"update at the recorded multiplier {lam:.6g}",
                    {"left behind": got, "update": want, "before": w.old})

    def target(it, case):
        w = now(it, case)
        lam = num(it.fed("lmid"))
        dC = -vec(it.fed("-dC"), len(w.D))
        lo, hi = (case.num["cfg.lambda_" + s] for s in ("lower", "upper"))

        def at(x):
            r = w.old.copy()
            r[w.D] = oc_value(w, case, dC, x)
            return w.error(r)
        ve = at(lam)
        if abs(ve) <= 5e-3:
            return None
        d = 1e-3 * max(1.0, lam)
        if ve > 0 and (lam + d >= hi or at(lam + d) <= 5e-3):
            return None
        if ve < 0 and (lam - d <= lo or at(lam - d) >= -5e-3):
            return None
        return (f"the search stops at the multiplier {lam:.6g} with the "
                f"volume error {ve:.4g}, although others in "
                f"[{lo:.3g}, {hi:.3g}] are nearer the target",
                {"at the ends": np.array([at(lo), at(hi)])})
    return [
        Piece("measured volume", "recorded vol_error (small meshes)",
              measured, "volume of the filtered and projected design left "
              "behind minus the target"),
        Piece("gradient scaling", "recorded -dC", scaled, "the gradient "
              "over its (smoothed) scheduled percentile"),
        Piece("multiplier stays inside its bracket", "recorded multiplier",
              inside, "within [lambda_lower, lambda_upper]"),
        Piece("update formula", "design left behind", formula,
              "optimality-criteria update at the recorded multiplier"),
        Piece("search reaches the target", "volume of the design left "
              "behind", target, "on target unless no multiplier of the "
              "bracket is nearer")]


# ------------------------------------------------------------------- C04
def c04(ctx):
    for task in ("elastic", "heat"):
        for dual in ("ema", "augmented"):
            run = opt_run(ctx, "LogMOC", task, cfg_fixed={
                "design_dirichlet": False, "dual_update": dual})
            run.label = f"LogMOC/{task}/{dual}"
            run.dual = dual
            if run.loop is None or not run.roles():
                ctx.unsure("multiplier bounds", run.label,
                           "main loop not identified")
                continue
            ctx.section(run.label + " (iterations)", c04_run, ctx, run)


def c04_run(ctx, run):
    pcs = c04_pieces(run)
    for fl in ({}, {f: False for f in I.FLAGS}):
        small(ctx, run, pcs, flags=fl, label=run.label + (
            ", plain options" if fl else ", random options"))


def c04_pieces(run):
    def measured(it, case):
        w = now(it, case)
        ve, want = num(it.fed("vol_error")), w.error(w.old)
        if abs(ve - want) > 1e-7 * max(1, abs(want)):
            return (f"vol_error {ve:.6g} is recorded, the design at hand "
                    f"has {want:.6g}", {"design": w.old})

    def bnds(case):
        return (case.num["cfg.lambda_lower"], case.num["cfg.lambda_upper"])

    def dual(it, case):
        lam = num(it.fed("lambda_v"))
        lo, hi = bnds(case)
        if not lo - EPS <= lam <= hi + EPS:
            return f"lambda_v {lam:.6g} leaves [{lo:.4g}, {hi:.4g}]", {}
        ve = now(it, case).error(now(it, case).old)
        pen = case.num["cfg.mu_p"] * ve
        if iteration(it) <= 1:
            want = pen
        else:
            if it.prev is None:
                return SKIP
            old = num(it.prev.fed("lambda_v"))
            if run.dual == "augmented":
                want = old + pen
            else:
                k = case.num["cfg.lambda_decay"]
                want = k * old + (1 - k) * pen
        want = min(max(want, lo), hi)
        if abs(lam - want) > 1e-6 * max(1, abs(want)):
            return (f"lambda_v is {lam:.6g} instead of {want:.6g} for the "
                    f"volume error {ve:.4g} ({run.dual})", {})

    def coeff(it, case):
        ve = now(it, case).error(now(it, case).old)
        want = num(it.fed("lambda_v")) + case.num[
            "cfg.augmented_lagrangian_mu"] * ve
        got = num(it.fed("constraint_coeff"))
        if abs(got - want) > 1e-6 * max(1, abs(want)):
            return (f"constraint_coeff is {got:.6g} instead of {want:.6g} "
                    f"for the volume error {ve:.4g}", {})

    def chain(it, case):
        w = now(it, case)
        if getattr(it, "dV", None) is None:
            h = slope(w.W @ w.old, w.beta, w.be)
            full = np.zeros(case.n)
            full[w.D] = w.vol / w.V
            it.dV = (w.W.T @ (h * full))[w.D]
        return it.dV

    def volume_chain(it, case):
        """|dV| up to the recorded scale"""
        s = num(it.fed("volume_chain_scale"))
        got = vec(it.fed("dV_chain"), len(now(it, case).D))
        want = np.abs(s * chain(it, case))
        if not s > 0:
            return f"volume_chain_scale is {s:.6g}", {}
        if not case.flag["normalize_volume_chain"] and s != 1.0:
            return (f"volume_chain_scale is {s:.6g} without "
                    "normalize_volume_chain"), {}
        if not np.allclose(got, want, rtol=1e-6, atol=1e-12):
            return ("dV_chain is not the sensitivity of the volume through "
                    "projection and filter",
                    {"recorded": got, "sensitivity": want})

    def gradient(it, case):
        w = now(it, case)
        dL = vec(it.fed("dL"), len(w.D))
        s = num(it.fed("volume_chain_scale"))
        raw = -vec(it.fed("-dC"), len(w.D)) + num(
            it.fed("constraint_coeff")) * s * chain(it, case)
        if case.flag["filter_lagrangian"]:
            full = np.zeros(case.n)
            full[w.D] = raw
            raw = (w.W @ full)[w.D]
        if case.flag["center_lagrangian"]:
            raw = raw - (raw * w.vol).sum() / w.V
        top = np.max(np.abs(raw))
        if top < 1e-9:
            return SKIP
        i = int(np.argmax(np.abs(raw)))
        k = dL[i] / raw[i]
        it.raw, it.k_dL = raw, 1 / k if k else np.inf
        if not k > 0 or not np.allclose(dL, k * raw, rtol=1e-6,
                                        atol=1e-7 * top * abs(k)):
            on = [f for f, v in case.flag.items() if v]
            return ("dL is not a positive multiple of dC + coefficient * dV"
                    + (f" with {', '.join(on)}" if on else ""),
                    {"dL": dL, "expected direction": raw})

    def scaled(it, case):
        if getattr(it, "raw", None) is None and gradient(it, case):
            return SKIP
        if getattr(it, "raw", None) is None:
            return SKIP
        q = case.sched("percentile", iteration(it))
        if q is None:
            q = case.num["cfg.lagrangian_percentile"]
        return smoothed(it, it.k_dL, max(
            np.percentile(np.abs(it.raw), q),
            case.num["cfg.lagrangian_scale_floor"]), q)

    def chain_scale(it, case):
        if not case.flag["normalize_volume_chain"]:
            return SKIP
        num_ = case.num
        dC = vec(it.fed("-dC"), len(now(it, case).D))
        a = max(np.percentile(np.abs(dC), num_["cfg.lagrangian_percentile"]),
                num_["cfg.lagrangian_scale_floor"])
        b = max(np.percentile(np.abs(chain(it, case)),
                              num_["cfg.volume_chain_percentile"]),
                num_["cfg.volume_chain_scale_floor"])
        g = num_["cfg.volume_chain_gain"]
        w = now(it, case)
        if case.gain_under is not None and w.error(w.old) < 0:
            g = case.gain_under
        s = num(it.fed("volume_chain_scale"))
        if abs(s - g * a / b) > 1e-6 * abs(s):
            return (f"volume_chain_scale is {s:.6g}; gain {g:.4g} times "
                    f"the sizes {a:.4g} / {b:.4g} is {g * a / b:.6g}", {})

    def centred(it, case):
        if not case.flag["center_objective"]:
            return SKIP
        w = now(it, case)
        dC = vec(it.fed("-dC"), len(w.D))
        m = (dC * w.vol).sum() / w.V
        if abs(m) > 1e-7 * max(1e-12, np.max(np.abs(dC))):
            return (f"with center_objective the mean of -dC is {m:.6g}", {})

    def step(it, case):
        """against dL, by no more than eta * clipped dL in log(rho)"""
        w = now(it, case)
        dL = vec(it.fed("dL"), len(w.D))
        f = free(it, case, False)
        on = np.isin(w.D, f)
        a = w.old[w.D][on]
        b = rho_new(it, case)[w.D][on]
        c = case.num["cfg.lagrangian_clip"]
        full = np.clip(a * np.exp(-w.eta * np.clip(dL[on], -c, c)), w.lo,
                       w.hi)
        if np.any((b - a) * np.sign(dL[on]) > EPS):
            return ("a density moves along the gradient instead of against",
                    {"before": a, "after": b, "dL": dL[on]})
        # between the old density and the full step ...
        over = ((b - a) * np.sign(full - a)
                > np.abs(full - a) * (1 + 1e-7) + 1e-8)
        if np.any(over):
            return ("a density moves further than exp(-eta * clipped dL)",
                    {"before": a, "after": b, "full step": full})
        # ... and the full step itself where nothing limits it
        low = a * a / (a + w.move_limit)
        easy = (full < a + w.move_limit) & (full > low)
        if np.any(easy & (np.abs(b - full) > 1e-6)):
            return ("a density does not take the step exp(-eta * clipped "
                    "dL) though nothing limits it",
                    {"before": a, "after": b, "full step": full})
    return [
        Piece("measured volume", "recorded vol_error (small meshes)",
              measured, "volume of the filtered and projected design minus "
              "the target"),
        Piece("multiplier follows the volume error", "lambda_v (small "
              "meshes)", dual, "within its bounds, first mu_p * error, then "
              "accumulated or averaged"),
        Piece("multiplier follows the volume error", "constraint_coeff "
              "(small meshes)", coeff,
              "lambda_v + augmented_lagrangian_mu * error"),
        Piece("Lagrangian gradient", "volume sensitivity", volume_chain,
              "chain rule through projection and filter, times the "
              "recorded scale"),
        Piece("Lagrangian gradient", "recorded dL", gradient,
              "positive multiple of dC + coefficient * dV, filtered and "
              "centred as configured"),
        Piece("gradient scaling", "recorded dL", scaled, "the gradient "
              "over its (smoothed) scheduled percentile"),
        Piece("gradient scaling", "volume_chain_scale", chain_scale,
              "gain times the percentiles of objective and volume "
              "sensitivity"),
        Piece("Lagrangian gradient", "centred objective sensitivity",
              centred, "volume-weighted mean zero"),
        Piece("step direction", "design left behind", step,
              "against dL, the full log step unless limited")]


# ------------------------------------------------------------------- C46
def c46(ctx):
    """The optimality residual of an iteration, by its definition."""
    from . import chain
    for opt in ("OC", "LogMOC"):
        for task in ("elastic", "heat"):
            run = opt_run(ctx, opt, task, cfg_fixed={
                "design_dirichlet": False, "check_convergence": True})
            run.label = f"{opt}/{task}"
            if run.loop is None or not run.roles():
                ctx.unsure("optimality residual", run.label,
                           "main loop not identified")
                continue
            ctx.section(run.label, small, ctx, run, c46_pieces(run, opt),
                        disjoint=True)
            ctx.section(run.label + " at bounds", small, ctx, run,
                        c46_pieces(run, opt), disjoint=True, tune=narrow,
                        count=4, label=run.label + ", nearly all at bounds")
            ctx.section(run.label + " state", chain.shown, ctx, run, None,
                        ("kkt_residual", "vol_error"))


def narrow(case):
    """bounds so near to each other that an update ends on one of them"""
    lo = case.num["cfg.rho_min"]
    case.num["cfg.rho_max"] = lo * (1.03 if case.run.kind == "OC" else 1.01)


def c46_pieces(run, opt):
    def interior(w, rho, case):
        """numbers of the elements away from both bounds; None where it
        hangs on the width of the margin"""
        d = np.minimum(rho - w.lo, w.hi - rho)
        if np.any((d > 1e-8) & (d < 2e-6)):
            return None
        return d >= 2e-6

    def lagrangian(it, case):
        w = now(it, case)
        if opt == "LogMOC":
            return w.old[w.D], vec(it.fed("dL"), len(w.D))
        raw = handed(it, case)
        k = ratio(raw, -vec(it.fed("-dC"), len(raw)))
        if k is SKIP or isinstance(k, tuple):
            return None
        lam = num(it.fed("lmid"))
        return rho_new(it, case)[w.D], raw + lam * k * w.vol / w.V

    def largest(it, case):
        w = now(it, case)
        v = lagrangian(it, case)
        if v is None:
            return SKIP
        rho, dL = v
        m = interior(w, rho, case)
        if m is None:
            return SKIP
        want = float(np.max(np.abs(dL[m]))) if m.any() else 0.0
        got = num(it.fed("kkt_residual"))
        if not abs(got - want) <= 1e-6 * max(abs(want), 1e-9):
            return (f"the residual is {got:.6g}, the largest Lagrangian "
                    f"gradient over the {int(m.sum())} interior design "
                    f"elements {want:.6g}", {"gradient": dL,
                                             "density": rho})

    def fresh(it, case):
        """whatever residual the iteration before left behind"""
        f = run.fed("kkt_residual")
        if len(f) != 1:
            return SKIP
        t = f[0].extra["data"]
        got = num(it(t))
        inside = {x.id for x in tm.subterms(t)}
        for m, _, x in run.loop.terms:
            if m.id not in inside:
                continue
            try:
                if x is not t and num(it(x)) != got:
                    continue
            except (Undecided, TypeError, ValueError):
                continue
            # the memory the residual is kept in
            e = I.Iter(it.d, it.d.bind(it.E, [(m, 7.0 + abs(got))]),
                       it.run, it.k)
            v = num(e(t))
            if not abs(v - got) <= 1e-9 * max(abs(got), 1.0):
                return (f"the residual is {v:.6g} where the iteration "
                        f"before left {7.0 + abs(got):.6g} and {got:.6g} "
                        "where it did not", {"density": rho_new(it, case)})

    return [
        Piece("optimality residual", "recorded kkt_residual", largest,
              "the largest Lagrangian gradient over the interior design "
              "elements"),
        Piece("optimality residual", "residual of the iteration before",
              fresh, "has no part in the one of this iteration")]


# ------------------------------------------------------------------- C10
def c10(ctx):
    for run in runs(ctx):
        if run.loop is None or run.mu_rho is None:
            ctx.unsure("only this iteration's values", run.label,
                       "main loop not identified")
            continue
        ctx.section(run.label + " (iterations)", c10_run, ctx, run)
        if not run.dd:
            # what is divided by the percentile of this iteration
            pcs = [p for p in (c03_pieces if run.label.startswith("OC")
                               else c04_pieces)(run)
                   if p.what in ("recorded -dC", "recorded dL") and
                   p.rule == "gradient scaling"]
            small(ctx, run, pcs, cases=5, disjoint=True)


def c10_run(ctx, run):
    def same(kw, what):
        def judge(it, case):
            other = I.again(it, case, **kw)
            pairs = [("density", rho_new(it, case), rho_new(other, case))]
            for e in run.last_pass("feed"):
                t = e.extra["data"]
                try:
                    a, b = it(t), other(t)
                    a, b = np.asarray(a, float), np.asarray(b, float)
                except (Undecided, TypeError, ValueError):
                    continue
                pairs.append((f"recorded {tm.show(e.extra['name'], 2)}", a, b))
            for name, a, b in pairs:
                if a.shape != b.shape or not np.allclose(
                        a, b, rtol=1e-7, atol=1e-10, equal_nan=True):
                    return (f"the {name} of an iteration depends on {what}",
                            {"one": a, "other": b})
        return judge

    def analysed(it, case):
        w = now(it, case)
        got = vec(it(run.objective_event().extra["rho"]), case.n)
        want = heaviside(w.W @ w.old, w.beta, w.be)
        if not np.allclose(got, want, rtol=1e-7, atol=1e-9):
            return ("the density analysed is not that of the scheduled "
                    f"filter radius {w.filter_radius:.6g} and sharpness "
                    f"{w.beta:.4g}", {"analysed": got, "scheduled": want})
    small(ctx, run, [
        Piece("scheduled values in use", "filter radius and sharpness",
              analysed, "the density analysed is filtered with the radius "
              "and projected with the sharpness of this iteration"),
        Piece("only this iteration's values", "end points of the configured "
              "schedules", same({"ends": True}, "an end point of a "
                                "configured schedule beside the value of "
                                "this iteration"),
              "reach an iteration through the schedule only"),
        Piece("only this iteration's values", "scheduled values of other "
              "iterations", same({"others": True}, "scheduled values of "
                                 "another iteration"),
              "have no effect on an iteration")], cases=3)
