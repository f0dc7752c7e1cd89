"""Filters (C25 spatial, C26 Helmholtz) and cell volumes (C24).

Derived value graphs are read over small random meshes (``dense.Dense``);
weak forms get shape functions that add up to one, so that the assembled
systems keep the algebra of a Galerkin method."""
from __future__ import annotations

import itertools

from .. import terms as tm
from .. import dense as dn
from ..dense import np
from ..terms import T, const, sym, mk, call
from ..interp import State
from ..values import Cls, Tup, Arr, Model, MISSING
from . import fem
from .opt import named

SP = "sktopt.filters.spacial."
HN = "sktopt.filters.helmholtz_filter_nodal."
CO = "sktopt.fea.composer."
MESH = sym("mesh", "s")
MT, MP = mk("attr", MESH, "t"), mk("attr", MESH, "p")
VOL, RHO, V, MASK = (sym(n, "a") for n in ("volumes", "rho", "v", "mask"))
R, R2 = sym("radius", "s"), sym("radius.later", "s")
H = "skfem.helpers."


# -------------------------------------------------------------- readings
def meshes(seed, k, dim=4):
    """small random tetrahedral (or dim-corner) meshes"""
    rng = np.random.default_rng(seed)
    out = []
    for i in range(k):
        nn = int(rng.integers(dim + 2, dim + 5))
        ne = int(rng.integers(3, 7))
        t = np.stack([rng.permutation(nn)[:dim] for _ in range(ne)], 1)
        p = rng.random((3, nn))
        out.append({"rng": rng, MP: p, MT: t, VOL: 0.2 + rng.random(ne),
                    RHO: 0.05 + 0.9 * rng.random(ne),
                    V: rng.random(ne) - 0.7, "ne": ne, "nn": nn})
    return out


def masks(c, i):
    rng, ne = c["rng"], c["ne"]
    m = rng.random(ne) < 0.65
    if i % 4 == 0:
        m[:] = True
    if not m.any():
        m[int(rng.integers(ne))] = True
    return m


class Field:
    """trial/test functions and interpolated fields on a small mesh"""

    def __init__(self, c, mesh=None):
        rng = np.random.default_rng(int(1e6 * float(c[MP][0, 0])))
        t, nn = c[MT], c["nn"]
        ne = t.shape[1]
        self.nn = nn
        self.N = np.zeros((ne, nn))
        self.G = np.zeros((ne, 3, nn))
        for e in range(ne):
            nodes = np.unique(t[:, e])
            w = 0.3 + rng.random(len(nodes))
            self.N[e, nodes] = w / w.sum()
            g = rng.random((3, len(nodes))) - 0.5
            self.G[e][:, nodes] = g - g.mean(1, keepdims=True)
        self.w = c[VOL]

    def __call__(self, d, t, E):
        if t.op == "call":
            f = t.args[0]
            if f == "form.assemble":
                return self.assemble(d, t, E)
            if f == "fe.A":
                A, D = d.ev(t.args[1], E), d.ev(t.args[2], E)
                I = self.rest(D)
                return A[np.ix_(I, I)]
            if f == "fe.b":
                A, b, x, D = (d.ev(y, E) for y in t.args[1:])
                I = self.rest(D)
                xd = np.zeros(self.nn)
                D = self.ids(D)
                xd[D] = np.broadcast_to(x, (self.nn,))[D]
                b = np.broadcast_to(b, (self.nn,))
                return (b - A @ xd)[I]
            if f == "fe.x":
                x, D = d.ev(t.args[1], E), self.ids(d.ev(t.args[2], E))
                xd = np.zeros(self.nn)
                xd[D] = np.broadcast_to(x, (self.nn,))[D]
                return xd
            if f == "fe.I":
                return self.rest(d.ev(t.args[1], E))
            if f == "fe.eA":
                A, D = np.array(d.ev(t.args[1], E)), self.ids(
                    d.ev(t.args[2], E))
                A[D, :] = 0
                A[D, D] = 1
                return A
            if f == "fe.eb":
                b, x, D = (d.ev(y, E) for y in t.args[1:])
                D = self.ids(D)
                b = np.array(np.broadcast_to(b, (self.nn,)), dtype=float)
                b[D] = np.broadcast_to(x, (self.nn,))[D]
                return b
            if f == ".interpolate":
                return None
        if t.op == "attr" and t.args[1] in ("nelements", "nvertices"):
            return self.N.shape[0 if t.args[1] == "nelements" else 1]
        if t.op == "attr" and t.args[1] in ("N",):
            return self.nn
        return None

    def ids(self, D):
        D = np.asarray(D)
        return np.nonzero(D)[0] if D.dtype == bool else D.astype(int)

    def rest(self, D):
        return np.setdiff1d(np.arange(self.nn), self.ids(D))

    def assemble(self, d, t, E):
        cls, integ = tm.cval(t.args[1]), t.args[2]
        if cls == "BilinearForm":
            A = np.zeros((self.nn, self.nn))
            for i in range(self.nn):
                for j in range(self.nn):
                    A[i, j] = self.integral(d, integ, E, j, i)
            return A
        if cls == "LinearForm":
            return np.array([self.integral(d, integ, E, None, i)
                             for i in range(self.nn)])
        return self.integral(d, integ, E, None, None)

    def integral(self, d, integ, E, j, i):
        v = self.point(d, integ, E, j, i)
        v = np.broadcast_to(v, self.w.shape) if np.ndim(v) <= 1 else v
        if np.ndim(v) != 1:
            raise dn.Undecided("integrand")
        return float((self.w * v).sum())

    def basis_fun(self, F, j, i):
        if F.op == "sym" and str(F.args[0]).startswith("form.U"):
            k = j
        elif F.op == "sym" and str(F.args[0]).startswith("form.V"):
            k = i
        else:
            return None
        if k is None:
            raise dn.Undecided("form argument")
        return self.N[:, k], self.G[:, :, k].T

    def field(self, d, F, E, j, i):
        r = self.basis_fun(F, j, i)
        if r is not None:
            return r
        if F.op == "call" and F.args[0] == ".interpolate":
            u = np.broadcast_to(d.ev(F.args[2], E), (self.nn,))
            return self.N @ u, np.einsum("ekn,n->ke", self.G, u)
        return None

    def holds(self, t):
        return any(x.op == "sym" and str(x.args[0]).startswith("form.")
                   or x.op == "call" and x.args[0] == ".interpolate"
                   for x in tm.subterms(t))

    def point(self, d, t, E, j, i):
        r = self.field(d, t, E, j, i)
        if r is not None:
            return r[0]
        if not self.holds(t):
            if t.op == "gather" and fem.Tensor.spread(t.args[1]):
                return d.ev(t.args[0], E)
            return d.ev(t, E)
        p = lambda x: self.point(d, x, E, j, i)          # noqa: E731
        if t.op in dn._UF:
            return dn._UF[t.op](*[p(x) for x in t.args])
        if t.op == "attr":
            r = self.field(d, t.args[0], E, j, i)
            n = t.args[1] if not isinstance(t.args[1], T) else tm.cval(
                t.args[1])
            if r is not None and n in ("grad", "value"):
                return r[n == "grad"]
        if t.op == "ite":
            return p(t.args[1 if d.truth(d.ev(t.args[0], E)) else 2])
        if t.op == "gather" and fem.Tensor.spread(t.args[1]):
            return p(t.args[0])
        if t.op == "gather" and t.args[1].op not in ("idx", "slice") and (
                tm.kind(t.args[1]) == "s"):
            return p(t.args[0])[d.ev(t.args[1], E)]
        if t.op == "fold" and t.args[0] in ("add", const("add")):
            r = p(t.args[1])
            for k in range(int(d.ev(t.args[4], E))):
                r = r + self.point(d, t.args[2], d.bind(E, [(t.args[3], k)]),
                                   j, i)
            return r
        if t.op == "call":
            f = t.args[0]
            a = [x for x in t.args[1:] if x.op != "kw"]
            if f in (H + "grad", H + "d"):
                r = self.field(d, a[0], E, j, i)
                if r is not None:
                    return r[1]
            if f in (H + "dot", H + "inner", H + "prod", H + "mul"):
                x, y = p(a[0]), p(a[1])
                if np.ndim(x) == np.ndim(y) == 2 and f in (
                        H + "dot", H + "inner"):
                    return (x * y).sum(0)
                if np.ndim(x) <= 1 and np.ndim(y) <= 1:
                    return x * y
            if f in ("np.sum",):
                ax = fem.axis_of(t)
                x = p(a[0])
                if ax == 0 and np.ndim(x) == 2:
                    return x.sum(0)
            if f == "np.einsum" and tm.is_const(a[0]) and all(
                    np.ndim(p(x)) == 2 for x in a[1:]):
                s = tm.cval(a[0]).replace(" ", "")
                if s in ("i...,i...->...", "i...,i...", "ij...,ij...->..."):
                    x, y = p(a[1]), p(a[2])
                    return (x * y).sum(0)
        raise dn.Undecided("integrand " + tm.show(t, 2))

    # reference
    def helmholtz(self, r):
        A = np.einsum("e,ei,ej->ij", self.w, self.N, self.N)
        return A + r * r * np.einsum("e,eki,ekj->ij", self.w, self.G, self.G)

    def mass(self):
        return np.einsum("e,ei,ej->ij", self.w, self.N, self.N)


def models(ctx):
    m = fem.models(ctx)

    def cond(ip, st, a, k, node, eliminate=True):
        b = named(a, k, ["A", "b", "x", "I", "D", "expand"] if eliminate
                  else ["A", "b", "x", "I", "D", "diag", "overwrite"])
        if "A" not in b or "b" not in b or b.get("diag") is not None:
            return NotImplemented
        A, rhs = ip.toT(b["A"], st), ip.toT(b["b"], st)
        x = ip.toT(b["x"], st) if "x" in b else const(0.0)
        x = const(0.0) if x is tm.NONE else x
        if b.get("D") is not None and ip.toT(b["D"], st) is not tm.NONE:
            D = ip.toT(b["D"], st)
        elif b.get("I") is not None:
            D = call("fe.I", ip.toT(b["I"], st))
        else:
            return NotImplemented
        arr = lambda t, l: ip.new_arr(st, t, l)          # noqa: E731
        if not eliminate:
            return Tup([arr(mk("call", "fe.eA", A, D), "enforced"),
                        arr(mk("call", "fe.eb", rhs, x, D), "rhs")])
        out = [arr(mk("call", "fe.A", A, D), "condensed"),
               arr(mk("call", "fe.b", A, rhs, x, D), "rhs")]
        if ip.toT(b.get("expand", tm.TRUE), st) is tm.FALSE:
            return Tup(out)
        return Tup(out + [arr(mk("call", "fe.x", x, D), "x"),
                          arr(mk("call", "fe.I", D), "I")])
    for q in ("skfem.condense", "skfem.utils.condense"):
        m[q] = cond
    for q in ("skfem.enforce", "skfem.utils.enforce"):
        m[q] = lambda *a: cond(*a, eliminate=False)
    return m


def filter_obj(ctx, ip, st, cls, mask, radius=R):
    """as the optimizer builds it"""
    args = {"mesh": MESH, "elements_volume": ip.new_arr(st, VOL, "volumes"),
            "radius": radius,
            "design_mask": ip.new_arr(st, MASK, "mask") if mask else tm.NONE}
    return ip.meth(Cls(cls), "from_defaults", [], args, st)


class FilterRun:
    def __init__(self, ctx, cls, mask, radius=R):
        self.ctx = ctx
        self.ip = ip = ctx.ip(models(ctx))
        self.cls = ctx.proj.need(cls)
        st = State()
        self.st, self.obj = filter_obj(ctx, ip, st, self.cls, mask, radius)
        self.mask = mask

    def forward(self, st=None, rho=RHO):
        st = (st or self.st).fork()
        x = self.ip.new_arr(st, rho, "rho", Tup([mk("len", rho)]))
        s, v = self.ip.meth(self.obj, "forward", [x], {}, st)
        if s is None:
            return None, None, None
        return s, self.ip.toT(v, s), self.ip.content(x, s)

    def gradient(self, st):
        st = st.fork()
        x = self.ip.new_arr(st, V, "v", Tup([mk("len", V)]))
        s, v = self.ip.meth(self.obj, "gradient", [x], {}, st)
        if s is None:
            return None, None, None
        return s, self.ip.toT(v, s), self.ip.content(x, s)

    def where(self, n):
        f = self.cls.find_method(self.ctx.proj, n) if hasattr(
            self.cls, "find_method") else None
        return f.where if f is not None else self.cls.where


def read(term, c, ip, extra=None, n=None):
    env = {k: v for k, v in c.items() if isinstance(k, T)}
    env.update(extra or {})
    return dn.Dense(env, ip, n or c["nn"], Field(c)).ev(term)


def full(x, n):
    return np.array(np.broadcast_to(np.asarray(x, dtype=float), (n,)))


def shown(c, *ks):
    return {k.args[0] if k.op == "sym" else "mesh." + str(k.args[1]):
            np.round(np.asarray(c[k], dtype=float), 4).tolist()
            for k in ks if k in c and c[k] is not None}


def per_case(ctx, rule, construct, where, cases, judge, good):
    """judge(case) -> None (fine) or (text, detail)"""
    why, used = None, 0
    for c in cases:
        try:
            r = judge(c)
        except dn.Crash as e:
            return ctx.bad(rule, construct, where, f"raises: {e}",
                           shown(c, MT, MASK, R))
        except dn.Undecided as e:
            why = why or str(e)
            continue
        used += 1
        if r is not None:
            return ctx.bad(rule, construct, where, r[0], r[1])
    if why is not None:
        return ctx.unsure(rule, construct, why, where)
    ctx.count("array readings", used)
    return ctx.ok(rule, construct, f"{good} ({used} readings)", where)


def where(ctx, cls, n):
    for b in cls.mro(ctx.proj):
        f = b.methods.get(n)
        if f is not None:
            return f.where
    return cls.where


def kept(ctx, name, where, after, var, run, cases):
    """the caller's array still holds what it held"""
    def judge(c):
        if after is not var and not np.array_equal(full(read(
                after, c, run.ip), c["ne"]), c[var]):
            return "the caller's array is changed", shown(c, MASK, R, var)
    per_case(ctx, "input-kept", name, where, cases, judge, "unchanged")


# ------------------------------------------------------------ C25 spatial
def radii(c, i):
    """from a radius that reaches nothing but the element itself to one that
    reaches everything"""
    x = c[MP][:, c[MT]].mean(1)
    d = np.sqrt(((x[:, :, None] - x[:, None, :]) ** 2).sum(0))
    v = np.sort(np.unique(d[d > 1e-9]))
    if i % 5 == 0:
        return float(0.5 * v[0])
    k = int(c["rng"].integers(len(v)))
    hi = v[k + 1] if k + 1 < len(v) else v[k] * 1.5
    return float(0.5 * (v[k] + hi))


def c25(ctx):
    tm.KEEP_AXES = True
    cls = ctx.proj.need(SP + "SpacialFilter")
    for mask in (False, True):
        ctx.section(f"spatial filter {'with' if mask else 'without'} mask",
                    spatial, ctx, cls, mask)
        ctx.section("many neighbours", crowd, ctx, cls, mask)
    ctx.section("radius update", spatial_update, ctx, cls)
    ctx.section("kernels", kernels, ctx)
    ctx.section("filter matrix", matrix_rules, ctx)
    ctx.section("element centres", centres, ctx)


def spatial_cases(ctx, mask, k=None):
    cs = meshes(ctx.seed + 17, k or (10 if ctx.tier == "quick" else 60))
    for i, c in enumerate(cs):
        c[MASK] = masks(c, i)
        c[R] = radii(c, i)
        c[R2] = radii(c, i + 1)
        c["mask"] = c[MASK] if mask else np.ones(c["ne"], bool)
        if i % 5 in (2, 3):         # other units of length
            u = 1e-4 if i % 5 == 2 else 1e4
            c[MP], c[VOL], c[R], c[R2] = (c[MP] * u, c[VOL] * u ** 3,
                                          c[R] * u, c[R2] * u)
        x = c[MP][:, c[MT]].mean(1)
        c["dist"] = np.sqrt(((x[:, :, None] - x[:, None, :]) ** 2).sum(0))
    return cs


def matrix_of(term, c, ip, var=RHO):
    """columns of the affine map, and its value at zero"""
    ne = c["ne"]
    z = full(read(term, c, ip, {var: np.zeros(ne)}), ne)
    return np.stack([full(read(term, c, ip, {var: e}), ne) - z
                     for e in np.eye(ne)], 1), z


def weights(c, W, m, r):
    """what the rows of a density filter of radius r must look like"""
    ne = c["ne"]
    D = c["dist"]
    ids = np.nonzero(m)[0]
    out = np.nonzero(~m)[0]
    S = W[np.ix_(ids, ids)]
    if len(out) and (abs(W[np.ix_(ids, out)]) > 1e-12).any():
        return "a non-design element contributes to a design element"
    if not np.allclose(W.sum(1)[ids], 1):
        return "the weights of a design element do not add up to one"
    if (S < -1e-12).any():
        return "negative weight"
    d = D[np.ix_(ids, ids)]
    if (S[d > r * (1 + 1e-9)] > 1e-12).any():
        return "an element outside the radius contributes"
    if (S[d < 0.97 * r] <= 0).any():
        return "a design element inside the radius does not contribute"
    for a in range(len(ids)):
        o = np.argsort(d[a], kind="stable")
        w = S[a][o]
        if (np.diff(w) > 1e-9).any():
            return "a farther element weighs more than a nearer one"
    k = S / np.diag(S)[:, None]
    if not np.allclose(k, k.T, atol=1e-9):
        return "weights are not a function of the distance alone"
    del ne
    return None


def spatial(ctx, cls, mask):
    tag = "with a design mask" if mask else "without a design mask"
    q = cls.qual
    wf, wg = where(ctx, cls, "forward"), where(ctx, cls, "gradient")
    run = FilterRun(ctx, cls.qual, mask)
    s, f, after = run.forward()
    if f is None:
        return ctx.bad("filter-runs", f"{q}.forward, {tag}", wf,
                       "raises on every path")
    cases = spatial_cases(ctx, mask)
    s2, g, vafter = run.gradient(s)

    def linear(c):
        W, z = matrix_of(f, c, run.ip)
        if abs(z).max() > 1e-12:
            return "the filter is not linear in the density", shown(
                c, MASK, R)
        x = full(read(f, c, run.ip), c["ne"])
        if not np.allclose(x, W @ c[RHO]):
            return "the filter is not linear in the density", shown(
                c, MASK, R)
        return None
    per_case(ctx, "linear", f"{q}.forward, {tag}", wf, cases, linear,
             "linear in the density")

    if mask:
        def outside(c):
            x = full(read(f, c, run.ip), c["ne"])
            m = c["mask"]
            if not np.allclose(x[~m], c[RHO][~m]):
                return "densities outside the design region change", shown(
                    c, MASK, R, RHO) | {"result": x.tolist()}
        per_case(ctx, "outside-untouched", f"{q}.forward, {tag}", wf, cases,
                 outside, "elements outside the mask keep their density")

    def averaged(c):
        W, _ = matrix_of(f, c, run.ip)
        t = weights(c, W, c["mask"], c[R])
        if t:
            return t, shown(c, MP, MT, MASK, R) | {
                "matrix": np.round(W, 5).tolist()}
    per_case(ctx, "weighted-average", f"{q}.forward, {tag}", wf, cases,
             averaged, "rows are distance weights over the design elements "
             "inside the radius, adding up to one")
    kept(ctx, f"{q}.forward, {tag}: rho afterwards", wf, after, RHO, run,
         cases)
    if g is None:
        return ctx.bad("filter-runs", f"{q}.gradient, {tag}", wg,
                       "raises on every path")

    def adjoint(c):
        W, _ = matrix_of(f, c, run.ip)
        m = c["mask"]
        W = np.where(m[:, None] & m[None, :], W, 0.0)
        x = full(read(g, c, run.ip), c["ne"])
        if not np.allclose(x, W.T @ c[V]):
            return ("the sensitivity is not the transpose of the filter "
                    "applied to the incoming one"), shown(
                        c, MASK, R, V) | {"result": x.tolist(),
                                          "required": (W.T @ c[V]).tolist()}
    per_case(ctx, "adjoint", f"{q}.gradient, {tag}", wg, cases, adjoint,
             "gradient is the transposed filter on the design elements and "
             "zero elsewhere")
    kept(ctx, f"{q}.gradient, {tag}: v afterwards", wg, vafter, V, run,
         cases)


def crowd(ctx, cls, mask):
    """however many elements lie inside the radius, all of them count"""
    ne, nn = 200, 40
    rng = np.random.default_rng(ctx.seed + 91)
    t = np.stack([rng.permutation(nn)[:4] for _ in range(ne)], 1)
    c = {"rng": rng, MP: rng.random((3, nn)), MT: t, VOL: 0.2 + rng.random(
        ne), RHO: 0.05 + 0.9 * rng.random(ne), V: rng.random(ne) - 0.7,
        "ne": ne, "nn": nn, R: 3.0}
    c[MASK] = np.arange(ne) % 7 != 3
    m = c[MASK] if mask else np.ones(ne, bool)
    run = FilterRun(ctx, cls.qual, mask)
    s, f, _ = run.forward()
    w = where(ctx, cls, "forward")

    def judge(c):
        ids = np.nonzero(m)[0]
        for j in (ids[0], ids[len(ids) // 2], ids[-2]):
            e = np.zeros(ne)
            e[j] = 1.0
            x = full(read(f, c, run.ip, {RHO: e}), ne)
            y = full(read(f, c, run.ip, {RHO: 2 * e}), ne)
            if (y - x)[m].min() <= 0:
                i = int(np.argmin(np.where(m, y - x, 1.0)))
                return (f"element {j} does not contribute to element {i} "
                        f"although it lies inside the radius, with "
                        f"{int(m.sum())} elements there"), {"radius": 3.0}
    per_case(ctx, "weighted-average", f"{cls.qual}.forward, many "
             f"neighbours{' with a design mask' if mask else ''}", w, [c],
             judge, "every element inside the radius contributes")


def spatial_update(ctx, cls):
    """the filter used is the one of the current radius"""
    q, w = cls.qual, where(ctx, cls, "update_radius")
    run = FilterRun(ctx, cls.qual, True)
    s, f0, _ = run.forward()
    s = s.fork()
    s, _ = run.ip.meth(run.obj, "update_radius", [R2], {}, s)
    if s is None:
        return ctx.bad("current-radius", f"{q}.update_radius", w,
                       "raises on every path")
    s1, f1, _ = run.forward(s)
    fresh = FilterRun(ctx, cls.qual, True, R2)
    s3, f2, _ = fresh.forward()
    s4, g1, _ = run.gradient(s1)
    s5, g2, _ = fresh.gradient(s3)
    cases = spatial_cases(ctx, True)
    for n, a, b in (("forward", f1, f2), ("gradient", g1, g2)):
        if a is None or b is None:
            ctx.bad("current-radius", f"{q}.{n}", w, "raises on every path")
            continue

        def same(c):
            x, y = (full(read(t, c, i.ip), c["ne"])
                    for t, i in ((a, run), (b, fresh)))
            if not np.allclose(x, y):
                return ("after update_radius the filter is not the one of "
                        "the new radius"), shown(c, MASK, R, R2) | {
                            "result": x.tolist(), "required": y.tolist()}
        per_case(ctx, "current-radius", f"{q}.{n} after update_radius", w,
                 cases, same, "equals a filter built with the new radius")


DIST = sym("d", "a")


def kernels(ctx):
    fi = ctx.proj.need(SP + "make_kernel")
    for kind in ("linear", "quadratic", "gaussian"):
        for sig in ((False, True) if kind == "gaussian" else (False,)):
            ip = ctx.ip({})
            st = State()
            kw = {"sigma": sym("sigma", "s")} if sig else {}
            s, v = ip.run(fi, [const(kind), R], kw, st)
            name = f"{kind} kernel" + (" with sigma" if sig else "")
            if s is None:
                ctx.bad("kernel", name, fi.where, "raises on every path")
                continue
            its = ip.list_items(v, s)
            if its is None or len(its) != 2:
                ctx.unsure("kernel", name, "not a (kernel, support) pair",
                           fi.where)
                continue
            x = ip.new_arr(s, DIST, "d", Tup([mk("len", DIST)]))
            s, w = ip.run(its[0], [x], {}, s)
            if s is None:
                ctx.bad("kernel", name, fi.where, "raises on every path")
                continue
            w, sup = ip.toT(w, s), ip.toT(its[1], s)
            rng = np.random.default_rng(5)
            cases = []
            for _ in range(8):
                r = 0.1 + 2 * rng.random()
                sg = 0.1 + rng.random()
                top = 3 * sg if sig else r
                d = np.sort(np.concatenate([[0.0, top], top * (
                    1.2 * rng.random(9))]))
                cases.append({R: r, sym("sigma", "s"): sg, DIST: d,
                              "top": top})

            def judge(c):
                env = {k: y for k, y in c.items() if isinstance(k, T)}
                de = dn.Dense(env, ip, len(c[DIST]))
                y = full(de.ev(w), len(c[DIST]))
                u = float(de.ev(sup))
                at = {"radius": c[R], "d": c[DIST].tolist(),
                      "weights": y.tolist(), "support": u}
                d = c[DIST]
                if abs(u - c["top"]) > 1e-9:
                    return "support is not the radius", at
                i = d <= u
                if (y[i] < -1e-12).any():
                    return "negative weight inside the support", at
                if (y[d < 0.97 * u] <= 0).any():
                    return "no weight inside the support", at
                if (np.diff(y[i]) > 1e-12).any():
                    return "a farther element weighs more", at
            per_case(ctx, "kernel", name, fi.where, cases, judge,
                     "positive, non-increasing, support equal to the radius")
    ip = ctx.ip({})
    s, v = ip.run(fi, [const("no-such-kernel"), R], {}, State())
    ctx.fact(s is None, "kernel", "unknown kernel name", fi.where,
             "refused", "an unknown kernel name is accepted")


def matrix_rules(ctx):
    """build_filter_matrix with a random kernel: rows add up to one, entries
    are kernel(distance) (times the volume when asked for)"""
    fi = ctx.proj.need(SP + "build_filter_matrix")
    C = sym("centers", "a")
    for mask, vol in itertools.product((False, True), repeat=2):
        ip = ctx.ip({})
        st = State()
        kern = Model(lambda ip, st, a, kw, n: ip.new_arr(
            st, tm.div(const(0.04), tm.add(const(0.3), tm.mul(
                ip.toT(a[0], st), ip.toT(a[0], st)))), "w"), "kernel")
        kw = {"design_mask": ip.new_arr(st, MASK, "mask") if mask
              else tm.NONE, "volume_correction": const(vol),
              "elem_volume": ip.new_arr(st, VOL, "vol")}
        s, v = ip.run(fi, [ip.new_arr(st, C, "c"), kern, R], kw, st)
        name = f"{fi.qual}{', mask' if mask else ''}" \
            f"{', volume weights' if vol else ''}"
        if s is None:
            ctx.bad("filter-matrix", name, fi.where, "raises on every path")
            continue
        W = ip.toT(v, s)
        cases = spatial_cases(ctx, mask)
        for c in cases:
            c[C] = c[MP][:, c[MT]].mean(1)

        def judge(c):
            env = {k: y for k, y in c.items() if isinstance(k, T)}
            got = np.asarray(dn.Dense(env, ip, c["ne"]).ev(W))
            ids = np.nonzero(c["mask"])[0]
            d = c["dist"][np.ix_(ids, ids)]
            w = np.where(d <= c[R], 0.04 / (0.3 + d * d), 0.0)
            if vol:
                w = w * c[VOL][ids][None, :]
            w = w / w.sum(1, keepdims=True)
            if not dn.close(got, w):
                return "not the row-normalised kernel weights", shown(
                    c, C, MASK, R, VOL) | {
                        "derived": np.round(got, 5).tolist(),
                        "required": np.round(w, 5).tolist()}
        per_case(ctx, "filter-matrix", name, fi.where, cases, judge,
                 "row-normalised kernel weights of the design elements "
                 "inside the radius")


def centres(ctx):
    fi = ctx.proj.need(SP + "get_element_centers")
    ip = ctx.ip({})
    s, v = ip.run(fi, [MESH], {}, State())
    ctx.dense("centres", fi.qual, fi.where, ip.toT(v, s) if s else None,
              lambda c: c[MP][:, c[MT]].mean(1), meshes(3, 8), ip,
              what="element centres")


# ---------------------------------------------------------- C26 Helmholtz
def c26(ctx):
    tm.KEEP_AXES = True
    cls = ctx.proj.need(HN + "HelmholtzFilterNodal")
    for mask in (False, True):
        ctx.section(f"Helmholtz filter {'with' if mask else 'without'} mask",
                    helmholtz, ctx, cls, mask)
    ctx.section("radius update", helmholtz_update, ctx, cls)
    ctx.section("element type", element_type, ctx)


def hcases(ctx, mask):
    out = []
    for k, dim in enumerate((4, 4, 8)):
        out += meshes(ctx.seed + 31 + k, 3 if ctx.tier == "quick" else 16,
                      dim)
    for i, c in enumerate(out):
        c[MASK] = masks(c, i)
        c[R] = 0.05 + 1.5 * float(c["rng"].random())
        c[R2] = 0.05 + 1.5 * float(c["rng"].random())
        c["mask"] = c[MASK] if mask else np.ones(c["ne"], bool)
        c["F"] = Field(c)
    return out


def to_nodes(c, x, outside):
    x = np.where(c["mask"], x, outside)
    t, w = c[MT], c[VOL]
    s, n = np.zeros(c["nn"]), np.zeros(c["nn"])
    for e in range(c["ne"]):
        for k in t[:, e]:
            s[k] += w[e] * x[e]
            n[k] += w[e]
    return s / np.where(n == 0, 1, n)


def solve(c, b, r, fixed=None, value=0.0):
    A = c["F"].helmholtz(r)
    used = np.abs(A).sum(1) > 0
    x = np.zeros(c["nn"])
    if fixed is not None:
        x[fixed] = value
        used[fixed] = False
    i = np.nonzero(used)[0]
    if len(i):
        x[i] = np.linalg.solve(A[np.ix_(i, i)], (b - A @ x)[i])
    return x


def fixed_nodes(c):
    return np.unique(c[MT][:, ~c["mask"]].ravel()).astype(int)


def ref_forward(c, rho, r):
    y = to_nodes(c, rho, 1.0)
    x = solve(c, c["F"].mass() @ y, r, fixed_nodes(c), 1.0)
    return x[c[MT]].mean(0)


def ref_surrogate(c, v, r):
    y = to_nodes(c, v, 0.0)
    x = solve(c, c["F"].mass() @ y, r)
    return np.minimum(x[c[MT]].mean(0), 0.0)


def connected(c):
    """every node belongs to an element (no singular rows)"""
    return len(np.unique(c[MT])) == c["nn"]


def usable(cs):
    out = []
    for c in cs:
        if not connected(c):
            used, inv = np.unique(c[MT], return_inverse=True)
            c[MP] = c[MP][:, used]
            c[MT] = inv.reshape(c[MT].shape)
            c["nn"] = len(used)
            c["F"] = Field(c)
        out.append(c)
    return out


def helmholtz(ctx, cls, mask):
    tag = "with a design mask" if mask else "without a design mask"
    q = cls.qual
    wf, wg = where(ctx, cls, "forward"), where(ctx, cls, "gradient")
    run = FilterRun(ctx, q, mask)
    s, f, after = run.forward()
    cases = usable(hcases(ctx, mask))
    if f is None:
        return ctx.bad("filter-runs", f"{q}.forward, {tag}", wf,
                       "raises on every path")

    def constant(c):
        for k in (1.0, 0.4):
            if k != 1.0 and not c["mask"].all():
                continue
            x = full(read(f, c, run.ip, {RHO: np.full(c["ne"], k)}),
                     c["ne"])
            if not np.allclose(x, k, atol=1e-7):
                return f"a constant density {k} is not kept", shown(
                    c, MT, MASK, R) | {"result": x.tolist()}
    per_case(ctx, "constant", f"{q}.forward, {tag}", wf, cases, constant,
             "a constant density passes unchanged")

    def equation(c):
        x = full(read(f, c, run.ip), c["ne"])
        y = ref_forward(c, c[RHO], c[R])
        if not np.allclose(x, y, atol=1e-8):
            return ("not the element average of the solution of "
                    "u - r^2 div grad u = averaged density with non-design "
                    "nodes at 1"), shown(c, MT, MASK, R, RHO, VOL) | {
                        "result": x.tolist(), "required": y.tolist()}
    per_case(ctx, "helmholtz", f"{q}.forward, {tag}", wf, cases, equation,
             "volume averages to nodes, solves the Helmholtz equation of "
             "the current radius with non-design nodes at 1, averages back")
    kept(ctx, f"{q}.forward, {tag}: rho afterwards", wf, after, RHO, run,
         cases)
    s2, g, vafter = run.gradient(s)
    if g is None:
        return ctx.bad("filter-runs", f"{q}.gradient, {tag}", wg,
                       "raises on every path")

    seen = set()

    def adjoint(c):
        ne = c["ne"]
        z = ref_forward(c, np.zeros(ne), c[R])
        W = np.stack([ref_forward(c, e, c[R]) - z for e in np.eye(ne)], 1)
        x = full(read(g, c, run.ip), ne)
        if np.allclose(x, np.where(c["mask"], W.T @ c[V], 0.0), atol=1e-9):
            seen.add("adjoint")
            return None
        y = ref_surrogate(c, c[V], c[R])
        if np.allclose(x, y, atol=1e-9):
            seen.add("surrogate")
            return None
        return ("the sensitivity is neither the transpose of the filter nor "
                "its smoothed stand-in of the same radius"), shown(
                    c, MT, MASK, R, V, VOL) | {
                        "result": x.tolist(), "required": y.tolist()}
    r = per_case(ctx, "sensitivity-filter", f"{q}.gradient, {tag}", wg,
                 cases, adjoint, "smoothed with the current radius over the "
                 "design elements")
    if r is True and "surrogate" in seen:
        ctx.bad("adjoint", f"{q}.gradient, {tag}: smoothing instead of the "
                "transpose", wg, "the sensitivity is smoothed by the same "
                "averaging and a Neumann Helmholtz solve and clipped at "
                "zero, which is not the transpose of forward")
    kept(ctx, f"{q}.gradient, {tag}: v afterwards", wg, vafter, V, run,
         cases)


def helmholtz_update(ctx, cls):
    q, w = cls.qual, where(ctx, cls, "update_radius")
    run = FilterRun(ctx, q, True)
    s, f0, _ = run.forward()
    s = s.fork()
    s, _ = run.ip.meth(run.obj, "update_radius", [R2], {}, s)
    if s is None:
        return ctx.bad("current-radius", f"{q}.update_radius", w,
                       "raises on every path")
    s1, f1, _ = run.forward(s)
    s4, g1, _ = run.gradient(s1)
    cases = usable(hcases(ctx, True))

    def fwd(c):
        x = full(read(f1, c, run.ip), c["ne"])
        if not np.allclose(x, ref_forward(c, c[RHO], c[R2]), atol=1e-8):
            return "forward does not use the new radius", shown(
                c, MT, MASK, R, R2)
    per_case(ctx, "current-radius", f"{q}.forward after update_radius", w,
             cases, fwd, "equals a filter of the new radius")

    def grad(c):
        x = full(read(g1, c, run.ip), c["ne"])
        ok = np.allclose(x, ref_surrogate(c, c[V], c[R2]), atol=1e-9)
        if not ok:
            old = np.allclose(x, ref_surrogate(c, c[V], c[R]), atol=1e-9)
            if not old:
                raise dn.Undecided("another sensitivity filter")
            return "gradient does not use the new radius", shown(
                c, MT, MASK, R, R2)
    per_case(ctx, "current-radius", f"{q}.gradient after update_radius", w,
             cases, grad, "equals a filter of the new radius")


FIRST_ORDER = {"MeshTri": "ElementTriP1", "MeshQuad": "ElementQuad1",
               "MeshTet": "ElementTetP1", "MeshHex": "ElementHex1"}


class MeshKind:
    """decides isinstance(mesh, ...) for one mesh class"""

    def __init__(self, name):
        self.name = name

    def __call__(self, d, t, E):
        if t.op == "call" and t.args[0] == "isinstance":
            c = t.args[2]
            cs = c.args if c.op in ("tuple", "list") else (c,)
            names = [str(x.args[0]).rsplit(".", 1)[-1] for x in cs
                     if x.op in ("ext", "class")]
            if len(names) != len(cs):
                raise dn.Undecided("isinstance")
            mine = {self.name, self.name + "1", "Mesh"}
            if self.name in ("MeshTri", "MeshQuad"):
                mine.add("Mesh2D")
            if self.name in ("MeshTet", "MeshHex"):
                mine.add("Mesh3D")
            return any(n in mine for n in names)
        if t.op == "call" and t.args[0] == "type":
            raise dn.Undecided("type()")
        if t.op == "call" and str(t.args[0]).rsplit(".", 1)[-1].startswith(
                ("Element", "Mesh")) and len(t.args) == 1:
            return str(t.args[0]).rsplit(".", 1)[-1]
        return None


def holds(s, d):
    """does a call return (rather than raise) in this reading?"""
    return all(d.truth(d.ev(c)) for c in s.pc)


def element_type(ctx):
    fi = ctx.proj.need(HN + "infer_element_from_mesh")
    ip = ctx.ip({})
    s, v = ip.run(fi, [MESH], {}, State())
    if s is None:
        return ctx.bad("element-type", fi.qual, fi.where,
                       "raises on every path")
    t = ip.toT(v, s)
    for m in list(FIRST_ORDER) + ["MeshLine"]:
        d = dn.Dense({}, ip, 4, MeshKind(m))
        name = f"{fi.qual}: {m}"
        try:
            ret = holds(s, d)
            r = d.ev(t) if ret else None
        except dn.Undecided as e:
            ctx.unsure("element-type", name, str(e), fi.where)
            continue
        ctx.fact(r == FIRST_ORDER.get(m), "element-type", name, fi.where,
                 f"{FIRST_ORDER.get(m) or 'refused'}",
                 f"{m}: {r or 'refused'}, not {FIRST_ORDER.get(m)}")


# ------------------------------------------------------------- C24 volumes
HEX = np.array([(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (0, 1, 1),
                (1, 0, 1), (1, 1, 0), (1, 1, 1)], float).T


SCALES = (1.0, 1e-3, 40.0)      # metres, millimetres, ...


def affine(rng):
    A = rng.random((3, 3)) + np.diag([0.6, 0.7, 0.8])
    if np.linalg.det(A) < 0:
        A[[0, 1]] = A[[1, 0]]
    return A, rng.random((3, 1))


def origin(P, j):
    """where the mesh sits: in the positive octant, across the coordinate
    planes, or with one axis negative"""
    if j % 3 == 1:
        return np.median(P, axis=1, keepdims=True)
    return np.array([[0.0], [2.5 if j % 3 else 0.0], [0.0]])


def tets(seed, k):
    rng = np.random.default_rng(seed)
    out = []
    ref = np.array([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], float).T
    for _ in range(k):
        ne = int(rng.integers(2, 5))
        perm = rng.permutation(4 * ne)
        P, T_, vol = np.zeros((3, 4 * ne)), np.zeros((4, ne), int), []
        for e in range(ne):
            A, b = affine(rng)
            ids = perm[4 * e:4 * e + 4]
            P[:, ids] = A @ ref + b
            T_[:, e] = ids
            vol.append(np.linalg.det(A) / 6)
        h = SCALES[_ % len(SCALES)]
        P = P - origin(P, _)
        out.append({MP: P * h, MT: T_, "vol": np.array(vol) * h ** 3,
                    "n": ne})
    return out


def hexes(seed, k):
    """affine images of the unit cube tapered along one axis: all faces are
    plane and the volume is known exactly"""
    rng = np.random.default_rng(seed)
    out = []
    for j in range(k):
        ne = int(rng.integers(2, 5))
        perm = rng.permutation(8 * ne)
        P, T_, vol = np.zeros((3, 8 * ne)), np.zeros((8, ne), int), []
        for e in range(ne):
            A, b = affine(rng)
            ax = int(rng.integers(3))
            u, w = [i for i in range(3) if i != ax]
            a1, a2 = rng.random(2) if j else (0.0, 0.0)
            X = HEX.copy()
            z = X[ax]
            X[u] = X[u] * (1 + a1 * z)
            X[w] = X[w] * (1 + a2 * z)
            ids = perm[8 * e:8 * e + 8]
            P[:, ids] = A @ X + b
            T_[:, e] = ids
            vol.append(np.linalg.det(A) * (1 + (a1 + a2) / 2 + a1 * a2 / 3))
        h = SCALES[j % len(SCALES)]
        P = P - origin(P, j)
        out.append({MP: P * h, MT: T_, "vol": np.array(vol) * h ** 3,
                    "n": ne})
    return out


def c24(ctx):
    tm.KEEP_AXES = True
    ctx.section("cell volumes", volumes, ctx)
    ctx.section("element/node transfer", transfer, ctx)


def transfer(ctx):
    """nodal averages of element values and their transpose"""
    proj = ctx.proj
    basis = sym("basis", "s")
    mesh = mk("attr", basis, "mesh")
    t, nv = mk("attr", mesh, "t"), mk("attr", mesh, "nvertices")
    G, C = sym("nodal gradient", "a"), sym("count", "a")
    cases = []
    for c in meshes(ctx.seed + 8, 4 if ctx.tier == "quick" else 20, 4) + \
            meshes(ctx.seed + 9, 2 if ctx.tier == "quick" else 10, 8):
        T_, nn = c[MT], c["nn"]
        S = np.zeros((nn, c["ne"]))
        for e in range(c["ne"]):
            S[T_[:, e], e] = 1
        cases.append({t: T_, nv: nn, mk("attr", mesh, "nelements"): c["ne"],
                      RHO: c[RHO], G: c["rng"].random(nn) - 0.5, "S": S,
                      C: S.sum(1), "n": nn, "ne": c["ne"]})
    f = proj.lookup("sktopt.fea.solver_heat._element_to_nodal_average")
    if f is not None:
        ip = ctx.ip({})
        st = State()
        s, v = ip.run(f, [basis, ip.new_arr(st, RHO, "rho")], {}, st)
        if s is None:
            ctx.bad("nodal-average", f.qual, f.where, "raises on every path")
        else:
            vs = ip.list_items(v, s) or []
            for i, (want, what) in enumerate((
                    (lambda c: c["S"] @ c[RHO] / np.maximum(
                        c["S"].sum(1), 1), "mean of the elements at a node"),
                    (lambda c: c["S"].sum(1), "elements at a node"))):
                if i < len(vs):
                    ctx.dense("nodal-average", f"{f.qual}[{i}]", f.where,
                              ip.toT(vs[i], s), want, cases, ip,
                              n=lambda c: c["n"], what=what)
    f = proj.lookup(
        "sktopt.fea.solver_heat._nodal_gradient_to_element_gradient")
    if f is not None:
        ip = ctx.ip({})
        st = State()
        s, v = ip.run(f, [basis, ip.new_arr(st, G, "g"),
                          ip.new_arr(st, C, "c")], {}, st)
        ctx.dense("nodal-average", f.qual, f.where,
                  ip.toT(v, s) if s else None, lambda c: c["S"].T @ (
                      c[G] / np.maximum(c[C], 1)), cases, ip,
                  n=lambda c: c["ne"], what="transpose of the nodal average")
    f = proj.lookup(HN + "node_to_element_density")
    if f is not None:
        ip = ctx.ip({})
        st = State()
        s, v = ip.run(f, [mesh, ip.new_arr(st, G, "g")], {}, st)
        ctx.dense("element-average", f.qual, f.where,
                  ip.toT(v, s) if s else None, lambda c: c["S"].T @ c[G]
                  / c["S"].sum(0), cases, ip, n=lambda c: c["ne"],
                  what="mean of the corner values")


def volumes(ctx):
    proj = ctx.proj
    fi = proj.need(CO + "get_elements_volume")
    k = 6 if ctx.tier == "quick" else 40
    ip = ctx.ip({})
    s, v = ip.run(fi, [MESH], {}, State())
    if s is None:
        return ctx.bad("volume", fi.qual, fi.where, "raises on every path")
    t = ip.toT(v, s)
    for m, cases in (("MeshTet", tets(ctx.seed + 5, k)),
                     ("MeshHex", hexes(ctx.seed + 6, k))):
        cases = cases + [{**c, MP: c[MP] * u, "vol": c["vol"] * u ** 3}
                         for c in cases[:3] for u in (1e-5, 1e4)]

        def judge(c):
            d = dn.Dense({MP: c[MP], MT: c[MT]}, ip, c["n"], MeshKind(m))
            if not holds(s, d):
                return f"a valid {m} is refused", {}
            got = full(d.ev(t), c["n"])
            if not dn.close(got / c["vol"], c["vol"] / c["vol"], 1e-7):
                return "not the volume of the elements", {
                    "corners of the elements": [c[MP][:, c[MT][:, e]].round(
                        4).tolist() for e in range(c["n"])][:2],
                    "derived": got.tolist(), "required": c["vol"].tolist()}
        per_case(ctx, "volume", f"{fi.qual}: {m}", fi.where, cases, judge,
                 "volume of every element")
    for m in ("MeshTri", "MeshQuad", "MeshLine"):
        d = dn.Dense({}, ip, 3, MeshKind(m))
        try:
            ret = holds(s, d)
        except dn.Undecided as e:
            ctx.unsure("volume", f"{fi.qual}: {m}", str(e), fi.where)
            continue
        ctx.fact(not ret, "volume", f"{fi.qual}: {m}", fi.where, "refused",
                 f"a volume is returned for a {m}")
    P, T_ = sym("p_coords", "a"), sym("t_conn", "a")
    for name, gen in (("_get_elements_volume_tet_numba", tets),
                      ("_get_elements_volume_hex_numba", hexes)):
        f = proj.lookup(CO + name)
        if f is None:
            continue
        ip = ctx.ip({})
        st = State()
        s, v = ip.run(f, [ip.new_arr(st, T_, "t"), ip.new_arr(st, P, "p")],
                      {}, st)
        cases = [{T_: c[MT], P: c[MP], "vol": c["vol"], "n": c["n"]}
                 for c in gen(ctx.seed + 7, k)]
        ctx.dense("volume", f.qual, f.where, ip.toT(v, s) if s else None,
                  lambda c: c["vol"], cases, ip, n=lambda c: c["n"],
                  what="element volumes", tol=1e-7)
