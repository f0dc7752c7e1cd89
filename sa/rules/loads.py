"""Boundary loads (C22): the assembled surface vectors and matrices, read over
small meshes whose facets carry arbitrary positive areas and shape-function
integrals."""
from __future__ import annotations

from .. import terms as tm
from .. import dense as dn
from ..dense import np
from ..terms import T, const, sym, mk
from ..interp import State
from ..values import Tup
from . import tasks
from .tasks import BASIS, MESH, TE, TH, Space, Build, Shape, per_case, kind

U, V, W = sym("form.U", "a"), sym("form.V", "a"), sym("form.W", "a")


class Facets:
    """a basis on some facets"""

    def __init__(self, ids):
        self.ids = np.asarray(ids, dtype=int).ravel()


class Surf(Space):
    """a Space whose facets can be integrated over"""

    def __init__(self, rng, ncomp, corners):
        super().__init__(rng, ncomp, corners)
        nf, k = self.facets.shape[1], self.facets.shape[0]
        w = rng.random((nf, k)) + 0.2
        self.area = rng.random(nf) + 0.3
        self.w = w / w.sum(1, keepdims=True) * self.area[:, None]
        m = rng.random((nf, k, k)) + 0.1
        m = m + m.transpose(0, 2, 1)
        self.mass = m / m.sum((1, 2), keepdims=True) * self.area[
            :, None, None]

    def load(self, facets, comp, value):
        F = np.zeros(self.N)
        for f in facets:
            for i, n in enumerate(self.facets[:, f]):
                F[self.nodal_dofs[comp, n]] += value * self.w[f, i]
        return F

    def matrix(self, facets, value):
        K = np.zeros((self.N, self.N))
        for f in facets:
            ns = self.facets[:, f]
            for i, a in enumerate(ns):
                for j, b in enumerate(ns):
                    K[self.nodal_dofs[0, a], self.nodal_dofs[0, b]] += \
                        value * self.mass[f, i, j]
        return K

    def __call__(self, d, t, E):
        if t.op == "attr" and t.args[0].op in ("dict", "tuple", "list") \
                and t.args[0].op == "dict":
            for p in t.args[0].args:
                if p.op == "pair" and p.args[0] is const(t.args[1]):
                    return d.ev(p.args[1], E)
        if t.op == "call":
            f = str(t.args[0])
            kw = {x.args[0]: x.args[1] for x in t.args[1:] if x.op == "kw"}
            pos = [x for x in t.args[1:] if x.op != "kw"]
            if f.rsplit(".", 1)[-1] in ("FacetBasis", "BoundaryFacetBasis",
                                        "boundary") and pos:
                if f.startswith("."):
                    ids = kw.get("facets", pos[1] if len(pos) > 1 else None)
                    ok = pos[0] is BASIS
                else:
                    ids = kw.get("facets")
                    ok = pos[0] is MESH
                if not ok:
                    raise dn.Undecided("facets of another mesh")
                ids = None if ids is None else d.ev(ids, E)
                if ids is None:
                    return Facets(np.nonzero(self.f2t[1] < 0)[0])
                ids = np.asarray(ids)
                if ids.dtype == bool:
                    ids = np.nonzero(ids)[0]
                return Facets(ids)
            if f == "form.assemble":
                return self.assemble(d, t.args[1].args[0], t.args[2],
                                     d.ev(t.args[3], E), E)
        return super().__call__(d, t, E)

    def at(self, d, integ, E, f, u=None, v=None):
        """value of an integrand on one facet"""
        d2 = dn.Dense({}, None, None, self)
        d2.env, d2.loops, d2.hints = dict(d.env), d.loops, d.hints
        d2.env[V.id], d2.env[U.id] = v, u
        x = d2.ev(integ, E)
        if np.ndim(x):
            raise dn.Undecided("integrand is not a number")
        return float(x)

    def assemble(self, d, form, integ, fb, E):
        if not isinstance(fb, Facets):
            raise dn.Undecided("not a facet basis")
        unit = [1.0] if self.ncomp == 1 else list(np.eye(self.ncomp))
        if form == "Functional":
            return float(sum(self.area[f] * self.at(d, integ, E, f)
                             for f in fb.ids))
        if form == "LinearForm":
            F = np.zeros(self.N)
            for c, v in enumerate(unit):
                if len(fb.ids) == 0:
                    break
                g = self.at(d, integ, E, 0, None, v)
                g2 = self.at(d, integ, E, 0, None, np.multiply(2.0, v))
                if abs(g2 - 2 * g) > 1e-9 * (1 + abs(g)):
                    raise dn.Crash("a form that is not linear")
                F += self.load(fb.ids, c, g)
            return F
        if form == "BilinearForm" and self.ncomp == 1:
            if len(fb.ids) == 0:
                return np.zeros((self.N, self.N))
            g = self.at(d, integ, E, 0, 1.0, 1.0)
            for u, v in ((2.0, 1.0), (1.0, 2.0)):
                if abs(self.at(d, integ, E, 0, u, v) - 2 * g) > 1e-9 * (
                        1 + abs(g)):
                    raise dn.Crash("a form that is not bilinear")
            return self.matrix(fb.ids, g)
        raise dn.Undecided(form)


class SurfBuild(Build):
    space = Surf


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, atol=1e-9, rtol=1e-8)


def vectors(x, n):
    """a list of load vectors, also where a single one is returned bare"""
    if isinstance(x, (list, tuple)):
        return list(x)
    x = np.asarray(x, dtype=float)
    return [x] if x.ndim == 1 else list(x)


class Call:
    """a function of regions, directions and values, run on symbols"""

    def __init__(self, ctx, f, n, per, bare, lens=None):
        self.ip = ip = ctx.ip(tasks.models(ctx))
        st = State()
        lens = lens or {}
        args = [BASIS]
        self.syms = {}
        for name in per:
            k = lens.get(name, n)
            if name == "dir":
                ss = self.syms[name] = [const(d) for d in per[name][:max(k, 1)]]
                vs = ss
            else:
                ss = self.syms[name] = [sym(f"{name}{i}", per[name])
                                        for i in range(max(k, 1))]
                if per[name] == "a":
                    vs = [ip.new_arr(st, s, s.args[0],
                                     Tup([mk("len", s)])) for s in ss]
                else:
                    for s in ss:
                        ip.types[s] = {"float"}
                    vs = ss
            args.append(vs[0] if name in bare else ip.new_list(st, vs))
        self.s, v = ip.run(f, args, {}, st)
        self.t = ip.toT(v, self.s) if self.s is not None else None
        self.args = [(a, self.syms["facets"][i]) for i, a in enumerate(
            ip.list_items(args[1], self.s) if "facets" not in bare and
            self.s is not None else [args[1]])] if self.s is not None else []

    def env(self, rng, sp):
        e = {}
        for name, ss in self.syms.items():
            for s in ss:
                if name == "facets":
                    e[s] = sp.some_facets(int(rng.integers(1, 5)))
                elif name != "dir":
                    e[s] = float(rng.uniform(0.3, 3) * rng.choice([-1, 1]))
        return e

    def dense(self, env, sp):
        d = dn.Dense(env, self.ip, None, sp)
        if self.s is None or not all(d.truth(d.ev(c)) for c in self.s.pc):
            return None
        return d


def mesh_cases(ctx, ncomp, k):
    for j in range(k):
        rng = np.random.default_rng(5000 * ctx.seed + 31 * j + ncomp)
        yield rng, Surf(rng, ncomp, 4 if j % 2 else 8)


def surface(ctx, fname, ncomp, per, expect, shapes, refuse, what):
    f = ctx.proj.lookup(fname)
    if f is None:
        return
    k = 4 if ctx.tier == "quick" else 24
    for n, bare, dirs in shapes:
        pr = dict(per)
        if dirs is not None:
            pr["dir"] = dirs
        tag = f"{f.qual} [{kind(n)}" + (
            f", directions {dirs}]" if dirs else "]") + (
            f" scalar {'/'.join(b for b in bare if b != 'facets' and b != 'dir')}"
            if n and bare else "")
        c = Call(ctx, f, n, pr, bare)
        if c.s is None:
            ctx.bad("load", tag, f.where, "raises on every path")
            continue

        def judge(case):
            rng, sp = case
            env = c.env(rng, sp)
            d = c.dense(env, sp)
            data = {"mesh.facets": sp.facets.tolist()} | {
                k_.args[0]: np.asarray(v).tolist() for k_, v in env.items()}
            if d is None:
                return "valid regions are refused", data
            r = expect(c, env, sp, d.ev(c.t), dirs)
            if r:
                return r, data
            for a, s_ in c.args:
                if not np.array_equal(np.asarray(d.ev(c.ip.toT(
                        a, c.s))), env[s_]):
                    return "the facets passed in are changed", data
        per_case(ctx, "load", tag, f.where, mesh_cases(ctx, ncomp, k),
                 judge, what)
    for n, lens, dirs in refuse:
        pr = dict(per)
        if dirs is not None:
            pr["dir"] = dirs
        c = Call(ctx, f, n, pr, (), lens)
        tag = f"{f.qual} [{kind(n)}, lengths {lens or dirs}]"
        if c.s is None:
            ctx.ok("load-refused", tag, "refused", f.where)
            continue

        def judge(case):
            rng, sp = case
            env = c.env(rng, sp)
            d = c.dense(env, sp)
            if d is not None:
                d.ev(c.t)
                return "is accepted", {"lengths": str(lens), "directions":
                                       str(dirs)}

        def careful(case):
            try:
                return judge(case)
            except (dn.Raises, dn.Crash):
                return None
        per_case(ctx, "load-refused", tag, f.where,
                 list(mesh_cases(ctx, ncomp, 2)), careful, "refused")


def c22(ctx):
    tm.KEEP_AXES = True
    ctx.section("surface forces", forces, ctx)
    ctx.section("surface heat flux", flux, ctx)
    ctx.section("Robin exchange", robin, ctx)
    for sh in tasks.shapes():
        if sh.via == "from_facets" and (sh.cls == "elastic" or (
                sh.cls == "heat")):
            ctx.section("loads of a task: " + sh.name, task, ctx, sh)
    ctx.section("load cases", load_cases, ctx)


def want_force(sp, facets, direction, value):
    A = sum(sp.area[f] for f in facets)
    return sp.load(facets, int(direction[2:]) - 1, value / A)


def same_loads(got, want, n):
    got = vectors(got, n)
    if len(got) != len(want):
        return f"{len(got)} load cases for {len(want)} regions"
    for i, (g, w) in enumerate(zip(got, want)):
        if not close(g, w):
            g = np.asarray(g, dtype=float)
            if g.shape == np.shape(w) and not close(g.sum(), w.sum()):
                return f"load {i} has another resultant " \
                       f"({g.sum():.4g} instead of {w.sum():.4g})"
            return f"load {i} is another load than that of its region"
    return None


def forces(ctx):
    f = TE + "assemble_surface_forces"

    def expect(c, env, sp, got, dirs):
        n = len(c.syms["facets"])
        return same_loads(got, [want_force(sp, env[c.syms["facets"][i]],
                                           dirs[i], env[c.syms["val"][i]])
                                for i in range(n)], sp.N)
    per = {"facets": "a", "dir": None, "val": "s"}
    shapes = [(0, ("facets", "dir", "val"), ["u^%d" % i]) for i in (1, 2, 3)]
    shapes += [(1, (), ["u^2"]), (2, (), ["u^3", "u^1"]),
               (2, (), ["u^2", "u^2"]), (3, (), ["u^1", "u^2", "u^3"]),
               (4, (), ["u^3", "u^1", "u^1", "u^2"])]
    d3 = ["u^1", "u^2", "u^3"]
    refuse = [(2, {"val": 1}, d3), (2, {"val": 3}, d3), (3, {"dir": 2}, d3),
              (2, {"facets": 3}, d3), (3, {"facets": 2}, d3),
              (1, None, ["x"]), (1, None, ["u^0"]), (1, None, ["all"])]
    surface(ctx, f, 3, per, expect, shapes, refuse, "each region carries its "
            "value, spread evenly, in its direction only")


def flux(ctx):
    f = TH + "assemble_surface_neumann"

    def expect(c, env, sp, got, dirs):
        n = len(c.syms["facets"])
        return same_loads(got, [sp.load(env[c.syms["facets"][i]], 0,
                                        env[c.syms["val"][i]])
                                for i in range(n)], sp.N)
    surface(ctx, f, 1, {"facets": "a", "val": "s"}, expect,
            [(0, ("facets", "val"), None), (1, (), None), (2, (), None),
             (3, (), None)],
            [(2, {"val": 1}, None), (2, {"val": 3}, None),
             (2, {"facets": 3}, None)],
            "the flux over the facets of each region")


def same_robin(got, want):
    if not isinstance(got, (list, tuple)) or len(got) != 2:
        raise dn.Undecided("not a pair")
    K, F = got
    K = K if isinstance(K, (list, tuple)) else [K]
    F = F if isinstance(F, (list, tuple)) else [F]
    if len(K) != len(want) or len(F) != len(want):
        return f"{len(K)} matrices and {len(F)} vectors for {len(want)} " \
               "regions"
    for i, (k, f) in enumerate(want):
        if not close(K[i], k):
            return f"matrix {i} is not that of h u v over its region"
        if not close(F[i], f):
            return f"vector {i} is not that of h T_env v over its region"


def robin_want(sp, facets, h, t):
    return [(sp.matrix(f, a), sp.load(f, 0, a * b))
            for f, a, b in zip(facets, h, t)]


def robin(ctx):
    f = TH + "assemble_surface_robin"

    def expect(c, env, sp, got, dirs):
        n = len(c.syms["facets"])
        hs = [env[x] for x in c.syms["h"]]
        ts = [env[x] for x in c.syms["T"]]
        hs = hs if "h" not in c.bare else [hs[0]] * n
        ts = ts if "T" not in c.bare else [ts[0]] * n
        return same_robin(got, robin_want(
            sp, [env[x] for x in c.syms["facets"]], hs, ts))
    shapes = [(0, ("facets", "h", "T"), None), (1, (), None), (2, (), None),
              (3, (), None), (2, ("h",), None), (3, ("T",), None),
              (3, ("h", "T"), None)]

    def e2(c, env, sp, got, dirs):
        return expect(c, env, sp, got, dirs)
    for sh in shapes:
        def e3(c, env, sp, got, dirs, bare=sh[1]):
            c.bare = bare
            return e2(c, env, sp, got, dirs)
        surface(ctx, f, 1, {"facets": "a", "h": "s", "T": "s"}, e3, [sh], [],
                "h u v and h T_env v over the facets of each region")
    surface(ctx, f, 1, {"facets": "a", "h": "s", "T": "s"}, expect, [],
            [(2, {"h": 1}, None), (2, {"T": 3}, None),
             (2, {"facets": 3}, None)], "")


def task(ctx, sh):
    b = SurfBuild(ctx, sh)
    q = f"{b.cls.qual}.{sh.via} [{sh.name}]"
    if b.s is None:
        return ctx.bad("task-load", q, b.where, "raises on every path")
    cs = []
    for c in b.cases(4 if ctx.tier == "quick" else 20):
        if len(c["design_elements"]):
            cs.append(c)
    elastic = sh.cls == "elastic"
    names = ("neumann_linear",) if elastic else (
        "robin_bilinear", "robin_linear")
    if not elastic and sh.robin is None:
        return
    ts = [b.attr(n) for n in names]
    if any(t is None for t in ts):
        return ctx.bad("task-load", q, b.where, "attribute missing")

    def judge(c, ts=ts, s=None):
        sp, env = c["sp"], c["env"]
        if not b.returns(c):
            raise dn.Undecided("refused")
        got = [b.dense(c).ev(t) for t in ts]
        if elastic:
            dirs = sh.load_dirs if isinstance(sh.load_dirs, list) else [
                sh.load_dirs] * len(b.L)
            if not isinstance(got[0], (list, tuple)):
                return "the load cases are not a list", b.shown(c)
            r = same_loads(got[0], [want_force(sp, env[f], d, env[v])
                                    for f, d, v in zip(b.L, dirs, b.lv)],
                           sp.N)
        else:
            r = same_robin(got, robin_want(
                sp, [env[f] for f in b.R], [env[x] for x in b.rh],
                [env[x] for x in b.rt]))
        if r:
            return r, b.shown(c)
    per_case(ctx, "task-load", f"{q}: {', '.join(names)}", b.where, cs,
             judge, "one per region, in order")
    if not elastic:
        s2 = b.s.fork()
        s2, _ = b.ip.meth(b.obj, "update_robin_bc", [
            b.ip.new_arr(s2, sym("rho", "a"), "rho"), sym("p", "s")], {}, s2)
        if s2 is None:
            ctx.bad("task-load", f"{q}: update_robin_bc", b.where,
                    "raises on every path")
        else:
            t2 = [b.attr(n, s2) for n in names]
            for c in cs:
                c["env"][sym("rho", "a")] = np.linspace(
                    0.1, 1, c["sp"].ne)
                c["env"][sym("p", "s")] = 3.0

            def again(c):
                return judge(c, t2)
            per_case(ctx, "task-load", f"{q}: after update_robin_bc",
                     b.where, cs, again, "one per region, in order")
    n = max(sh.loads if elastic else sh.dirichlet, 1)
    t = b.attr("n_tasks")

    def count(c):
        x = b.dense(c).ev(t)
        if int(x) != n:
            return f"n_tasks is {x} with {n} load cases", b.shown(c)
    if t is not None:
        per_case(ctx, "n-tasks", q, b.where, cs, count,
                 "number of load cases")
    if elastic:
        t = b.attr("force")

        def force(c):
            got = b.dense(c).ev(t)
            want = b.dense(c).ev(ts[0])
            if n == 1:
                if not close(got, want[0]):
                    return "force is not the load vector", b.shown(c)
            elif not isinstance(got, (list, tuple)) or len(got) != n or \
                    not all(close(x, y) for x, y in zip(got, want)):
                return "force is not the list of load vectors", b.shown(c)
        per_case(ctx, "force", q, b.where, cs, force,
                 "the vector, or the list of vectors")


def load_cases(ctx):
    """assigning force: a single vector is one load case"""
    sh = Shape("elasticity", "elastic", 0, "all", 2, ["u^1", "u^2"])
    b = SurfBuild(ctx, sh)
    if b.s is None:
        return
    X = [sym(f"new_force{i}", "a") for i in range(3)]
    for n in (0, 1, 2, 3):
        s = b.s.fork()
        vs = [b.ip.new_arr(s, x, "force") for x in X[:max(n, 1)]]
        val = b.ip.new_list(s, vs) if n else vs[0]
        import ast
        b.ip.setattr(b.obj, "force", val, s, None, ast.parse("x").body[0])
        q = f"{b.cls.qual}.force = {kind(n)}"
        t = b.attr("n_tasks", s)
        f = b.attr("force", s)

        def judge(c):
            rng = np.random.default_rng(3)
            d = dn.Dense({**c["env"], **{x: rng.random(c["sp"].N)
                                         for x in X}}, b.ip, None, c["sp"])
            k = d.ev(t)
            if int(k) != max(n, 1):
                return f"n_tasks is {k} after assigning {kind(n)}", {}
            got = d.ev(f)
            if n <= 1:
                ok = close(got, d.env[X[0].id])
            else:
                ok = isinstance(got, (list, tuple)) and len(got) == n and \
                    all(close(g, d.env[x.id]) for g, x in zip(got, X))
            if not ok:
                return "force is not what was assigned", {}
        per_case(ctx, "force", q, b.where, b.cases(2), judge,
                 "is kept as that many load cases")
