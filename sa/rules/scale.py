"""Length and force scaling (C16): scale() and unscale() read over small
meshes as changes of the task, and runs with scaling on and off."""
from __future__ import annotations

from .. import terms as tm
from .. import dense as dn
from ..dense import np
from ..terms import T, const, sym, mk
from ..interp import State
from ..values import Tup
from . import run as rn
from .opt import KINDS, OptRun
from .tasks import Space, per_case

BASIS = sym("scale.basis", "o")


class MeshV:
    """a mesh value: class, points, connectivity, named regions"""

    def __init__(self, kind, p, t, named=None):
        self.kind, self.p, self.t, self.named = kind, np.asarray(
            p, dtype=float), np.asarray(t), named
        if self.p.ndim != 2 or self.t.ndim != 2:
            raise dn.Undecided("mesh arrays")

    def attr(self, n):
        r = {"p": self.p, "doflocs": self.p, "t": self.t,
             "nelements": self.t.shape[1], "nvertices": self.p.shape[1]
             }.get(n)
        if r is not None:
            return r
        if n in ("boundaries", "_boundaries"):
            return self.named
        if n in ("subdomains", "_subdomains"):
            return self.named
        raise dn.Undecided("mesh." + str(n))

    def same(self, o):
        return isinstance(o, MeshV) and o.kind == self.kind \
            and np.array_equal(o.t, self.t) and o.p.shape == self.p.shape


class BasisV:
    def __init__(self, mesh, elem, quad):
        self.mesh, self.elem, self.quad = mesh, elem, quad

    def attr(self, n):
        if n in ("mesh", "elem"):
            return getattr(self, n)
        if n == "quadrature":
            return self.quad
        if n in ("X", "W"):
            return (self.quad, n)
        raise dn.Undecided("basis." + str(n))


class Hook:
    """reads mesh and basis constructions"""

    def __init__(self, basis):
        self.basis = basis

    def __call__(self, d, t, E):
        if t is BASIS:
            return self.basis
        if t.op == "attr":
            n = t.args[1] if not isinstance(t.args[1], T) else tm.cval(
                t.args[1])
            o = d.ev(t.args[0], E)
            if isinstance(o, (MeshV, BasisV)):
                return o.attr(n)
            return None
        if t.op == "is" or t.op == "isnot":
            x = d.ev(t.args[0], E)
            if isinstance(x, (MeshV, BasisV)):
                return (x is d.ev(t.args[1], E)) is (t.op == "is")
            return None
        if t.op != "call":
            return None
        f = t.args[0]
        pos = [x for x in t.args[1:] if not (isinstance(x, T)
                                             and x.op == "kw")]
        kw = {x.args[0]: x.args[1] for x in t.args[1:]
              if isinstance(x, T) and x.op == "kw"}
        kw = {k if not isinstance(k, T) else tm.cval(k): d.ev(v, E)
              for k, v in kw.items()}
        if isinstance(f, T):
            return None
        f = str(f)
        if f == "type" and len(pos) == 1:
            o = d.ev(pos[0], E)
            if isinstance(o, (MeshV, BasisV)):
                return ("class", o.kind if isinstance(o, MeshV) else
                        "Basis")
            return None
        if f == "call":
            c = d.ev(pos[0], E)
            if isinstance(c, tuple) and len(c) == 2 and c[0] == "class":
                return self.make(c[1], [d.ev(x, E) for x in pos[1:]], kw)
            return None
        last = f.rsplit(".", 1)[-1]
        if f.startswith("skfem.") and (last in (
                "Basis", "CellBasis", "InteriorBasis")
                or last.startswith("Mesh")):
            return self.make(last if last.startswith("Mesh") else "Basis",
                             [d.ev(x, E) for x in pos], kw)
        if f in ("copy.copy", "copy.deepcopy") and len(pos) == 1:
            o = d.ev(pos[0], E)
            return o if isinstance(o, (MeshV, BasisV)) else None
        if f == "dataclasses.replace":
            o = d.ev(pos[0], E)
            if not isinstance(o, MeshV) or len(pos) != 1 or \
                    set(kw) - {"doflocs", "t"}:
                raise dn.Undecided("replace")
            return MeshV(o.kind, kw.get("doflocs", o.p), kw.get("t", o.t),
                         o.named)
        if f.startswith(".") and pos:
            o = d.ev(pos[0], E)
            if isinstance(o, BasisV):
                if f == ".with_element" and len(pos) == 2 and not kw:
                    return BasisV(o.mesh, d.ev(pos[1], E), o.quad)
                raise dn.Undecided("basis" + f)
            if not isinstance(o, MeshV):
                return None
            a = [d.ev(x, E) for x in pos[1:]]
            if f == ".scaled" and len(a) + len(kw) == 1:
                k = a[0] if a else list(kw.values())[0]
                if isinstance(k, (bool, int, np.integer)):
                    raise dn.Crash("TypeError: mesh.scaled by an integer")
                k = np.broadcast_to(np.asarray(k, float), (3,))
                return MeshV(o.kind, o.p * k[:, None], o.t, o.named)
            if f == ".translated" and len(a) == 1:
                return MeshV(o.kind, o.p + np.asarray(a[0], float)[:, None],
                             o.t, o.named)
            if f in (".with_boundaries", ".with_subdomains"):
                return o
            raise dn.Undecided("mesh" + f)
        return None

    def make(self, kind, a, kw):
        if kind == "Basis":
            names = ["mesh", "elem", "mapping", "intorder", "elements",
                     "quadrature"]
            b = {**dict(zip(names, a)), **kw}
            if set(b) - {"mesh", "elem", "intorder", "quadrature",
                         "mapping", "disable_doflocs"} or not isinstance(
                             b.get("mesh"), MeshV):
                raise dn.Undecided("basis construction")
            q = b.get("quadrature")
            if q is None:
                q = ("order", b.get("intorder"))
            elif not (isinstance(q, tuple) and q[0] == "given"):
                if isinstance(q, tuple) and len(q) == 2 and all(
                        isinstance(x, tuple) and x[0][0] == "given"
                        for x in q) and (q[0][1], q[1][1]) == ("X", "W"):
                    q = q[0][0]
                else:
                    raise dn.Undecided("quadrature")
            return BasisV(b["mesh"], b["elem"], q)
        b = {**dict(zip(["doflocs", "t"], a)), **kw}
        if set(b) - {"doflocs", "t", "sort_t", "_boundaries", "_subdomains",
                     "validate"}:
            raise dn.Undecided("mesh construction")
        k = {"MeshTet1": "MeshTet", "MeshHex1": "MeshHex"}.get(kind, kind)
        # a mesh built from bare arrays has no named regions
        return MeshV(k, b["doflocs"], b["t"], b.get("_boundaries"))


def cases(ctx, F, k):
    for j in range(k):
        rng = np.random.default_rng(500 * ctx.seed + 7 * j + 1)
        sp = Space(rng, 3, 4 if j % 2 else 8)
        size = np.array([1.0, 0.6, 0.3])[rng.permutation(3)] * 10.0 ** \
            rng.uniform(-3, 3)
        p = (sp.p + rng.uniform(-2, 2, 3)[:, None]) * size[:, None]
        b = BasisV(MeshV("MeshTet" if j % 2 else "MeshHex", p, sp.t,
                         "named regions"), "element", ("given", j))
        N = sp.N
        env = {f: rng.uniform(-9, 9, N) for f in F}
        env[sym("scale.N", "s")] = N
        yield {"basis": b, "env": env}


def shown(c):
    return {"points": c["basis"].mesh.p[:, :4].tolist(),
            "box": np.ptp(c["basis"].mesh.p, axis=1).tolist()}


def c16(ctx):
    """scale(), unscale() of the optimizer on a symbolic task, read over
    small meshes; and the task's coordinates and loads at the end of runs."""
    tm.KEEP_AXES = True
    for opt in KINDS:
        for n in (1, 2, 3):
            ctx.section(f"scale {opt} {n}", pair, ctx, opt, n)
    tm.KEEP_AXES = False
    for opt in KINDS:
        for on in (True, False):
            ctx.section(f"run {opt} scaling={on}", whole, ctx, opt, on)


def pair(ctx, opt, n):
    proj = ctx.proj
    ip = ctx.ip({})
    st = State()
    oc = proj.need(KINDS[opt][1])
    # a task as its constructor leaves it: its declared attributes only
    tc = proj.need("sktopt.mesh.LinearElasticity")
    lazy = ip.sym_obj(st, tc, "tsk")
    t = ip.new_obj(st, tc, False, "tsk")
    for c in tc.mro(proj):
        for name in c.ann:
            st.heap[("o", t.oid, name)] = ip.obj_attr(lazy, name, st, None,
                                                      None)
    F = [sym(f"force{i}", "a") for i in range(n)]
    N = sym("scale.N", "s")
    fa = [ip.new_arr(st, f, f.args[0], Tup([N])) for f in F]
    st.heap[("o", t.oid, "neumann_linear")] = ip.new_list(st, fa)
    st.heap[("o", t.oid, "basis")] = BASIS
    o = ip.sym_obj(st, oc, "opt")
    st.heap[("o", o.oid, "tsk")] = t
    q = f"{oc.qual} [{n} load case{'s' * (n > 1)}]"

    def val(name, s):
        return ip.toT(ip.obj_attr(t, name, s, None, None), s)

    def where(m):
        f = oc.find(m, proj)
        return f.where if f is not None else oc.where
    cs = list(cases(ctx, F, 6 if ctx.tier == "quick" else 40))
    for rnd in (1, 2):
        for m in ("scale", "unscale"):
            s, _ = ip.meth(o, m, [], {}, st)
            if s is None:
                return ctx.bad("scaling", f"{q}: {m}", where(m),
                               f"{m} raises on every path")
            st = s
            b, f = val("basis", st), val("force", st)
            pc = list(st.pc)
            name = f"{q}: {m}" + (" again" if rnd == 2 else "")

            def rule(rl, judge, good):
                def go(c):
                    d = dn.Dense(c["env"], ip, None, Hook(c["basis"]))
                    if not all(d.truth(d.ev(x)) for x in pc):
                        return "a valid task is refused", shown(c)
                    return judge(d, c)
                per_case(ctx, rl, name, where(m), cs, go, good)

            def geometry(d, c, m=m):
                b0, b1 = c["basis"], d.ev(b)
                if not isinstance(b1, BasisV):
                    raise dn.Undecided("basis")
                p0, p1 = b0.mesh.p, b1.mesh.p
                if p1.shape != p0.shape:
                    return "the points of the mesh change", shown(c)
                if m == "unscale":
                    if not np.allclose(p1, p0, rtol=1e-9, atol=1e-9 * np.abs(
                            p0).max()):
                        return ("the coordinates are not those before "
                                "scaling", shown(c) | {
                                    "derived": p1[:, :4].tolist()})
                    return None
                L = np.ptp(p0, axis=1).max()
                want = (p0 - p0[:, :1]) / L
                if not np.allclose(p1 - p1[:, :1], want, rtol=1e-8,
                                   atol=1e-8):
                    return ("the scaled mesh is not the mesh in units of "
                            "its longest side", shown(c) | {
                                "derived box": np.ptp(p1, axis=1).tolist()})

            def kept(d, c):
                b0, b1 = c["basis"], d.ev(b)
                if not isinstance(b1, BasisV):
                    raise dn.Undecided("basis")
                if not b0.mesh.same(b1.mesh):
                    return "the element class or connectivity changes", \
                        shown(c)
                if b1.elem != b0.elem:
                    return "the finite element changes", shown(c)
                if b1.quad != b0.quad:
                    return ("the basis is rebuilt with another quadrature",
                            shown(c) | {"before": "as given by the caller",
                                        "after": str(b1.quad)})
                if b1.mesh.named != b0.mesh.named:
                    return "the mesh loses its named regions", shown(c)

            def loads(d, c, m=m):
                g = d.ev(f)
                if n > 1:
                    if not isinstance(g, (list, tuple)) or len(g) != n:
                        return "the number of load cases changes", shown(c)
                    g = list(g)
                else:
                    g = [g]
                w = [c["env"][x] for x in F]
                if m == "unscale":
                    ok = all(np.allclose(a, x, rtol=1e-9) for a, x in
                             zip(g, w))
                else:
                    r = np.concatenate([np.asarray(a) / x for a, x in
                                        zip(g, w)])
                    ok = r[0] > 0 and np.allclose(r, r[0], rtol=1e-9)
                if not ok:
                    return ("the loads are not those before scaling"
                            if m == "unscale" else "the loads are not all "
                            "scaled by one positive factor", shown(c) | {
                                "ratio by load case": [float(np.mean(
                                    np.asarray(a) / x)) for a, x in
                                    zip(g, w)]})
            rule("coordinates", geometry, "restored" if m == "unscale" else
                 "in units of the longest side")
            rule("same task", kept, "connectivity, element, quadrature and "
                 "regions kept")
            rule("loads", loads, "restored" if m == "unscale" else
                 "one positive factor for every load case")


# --------------------------------------------------------------- whole runs
def whole(ctx, opt, on):
    """what the task looks like when the final files are written"""
    F = [sym("force0", "a"), sym("force1", "a")]
    N = sym("scale.N", "s")

    def force(ip, st):
        return ip.new_list(st, [ip.new_arr(st, f, f.args[0], Tup([N]))
                                for f in F])
    r = OptRun(ctx, opt, "elastic", cfg_fixed={
        "design_dirichlet": True, "check_convergence": True,
        "max_iters": rn.NI, "record_times": rn.RT, "scaling": on},
        task_fixed={"basis": lambda ip, st: BASIS, "neumann_linear": force})
    L = f"{opt}/elastic/scaling={on}"
    if r.loop is None or not r.roles() or r.after is None:
        return ctx.unsure("scaled run", L, "main loop not identified")
    W = r.loop.where
    ip = r.ip
    cs = list(cases(ctx, F, 3 if ctx.tier == "quick" else 12))

    def read(st, name):
        return ip.toT(ip.obj_attr(r.tsk, name, st, None, None), st)

    def judge(what, terms, early, original):
        b, f = terms

        def go(c):
            env = {**c["env"], **NUMS}
            d = dn.Dense(env, ip, None, Hook(c["basis"]))
            x, y = d.ev(pick(b, r, early)), d.ev(pick(f, r, early))
            if not isinstance(x, BasisV):
                raise dn.Undecided("basis")
            p0 = c["basis"].mesh.p
            same = x.mesh.p.shape == p0.shape and np.allclose(
                x.mesh.p, p0, rtol=1e-9, atol=1e-9 * np.abs(p0).max())
            loads = isinstance(y, (list, tuple)) and len(y) == 2 and all(
                np.allclose(a, c["env"][q], rtol=1e-9) for a, q in zip(y, F))
            if original:
                if not same:
                    return ("the coordinates are not the original ones",
                            shown(c) | {"derived box": np.ptp(
                                x.mesh.p, axis=1).tolist()})
                if not loads:
                    return "the loads are not the original ones", shown(c)
            else:
                box = np.ptp(x.mesh.p, axis=1).max()
                if not np.isclose(box, 1.0):
                    return ("the mesh is not scaled to unit length",
                            shown(c) | {"derived longest side": float(box)})
        per_case(ctx, "scaled run", f"{L}: {what}", W, cs, go,
                 "original coordinates and loads" if original else
                 "scaled coordinates")

    def at(heap, what):
        st = r.after.fork()
        st.heap = dict(heap)
        return read(st, "basis"), read(st, "force")
    judge("before the first iteration", (read(r.entry_st, "basis"), read(
        r.entry_st, "force")), False, not on)
    seen = 0
    for e in r.last_pass("fem.objectives"):
        if e.extra.get("heap"):
            judge("state solve", at(e.extra["heap"], ""), False, not on)
    for e in r.ip.trace[r.mark:]:
        if e.kind != "call" or r.loop.id in e.loops or not (
                e.name.startswith("sktopt.mesh.visualization.")):
            continue
        seen += 1
        for early in (False, True):
            if rn.after_loop(tm.and_(*[c for c in e.pc if c not in
                                       r.loop.entry_pc]), r,
                             early) is tm.FALSE:
                continue
            judge(f"{e.name.rsplit('.', 1)[-1]} after the run "
                  f"({'converged' if early else 'to its limit'})",
                  at(e.extra["heap"], ""), early, True)
    if not seen:
        ctx.unsure("scaled run", L, "no final mesh file", W)
    st = r.after
    for early in (False, True):
        judge("after the run " + ("(converged)" if early else
                                  "(to its limit)"),
              (read(st, "basis"), read(st, "force")), early, True)
    st = st.fork()
    s, _ = ip.meth(r.opt, "optimize", [], {}, st)
    if s is not None:
        for early in (False, True):
            judge("after another call " + (
                "(converged)" if early else "(to its limit)"),
                (read(s, "basis"), read(s, "force")), early, True)


NUMS = {rn.NI: 3, rn.RT: 2}


def pick(t, r, early):
    """the value after the loop, left early or not (max_iters >= 1, so the
    loop is entered)"""
    t = rn.after_loop(t, r, early)
    m = {x: tm.TRUE for x in tm.subterms(t) if x.op == "call"
         and x.args[0] == "ran" and str(getattr(
             x.args[1], "args", (x.args[1],))[0]) == r.loop.id}
    return tm.subst(t, m)
