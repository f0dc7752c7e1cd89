"""C45: mesh files, box selection and the bundled problems."""
from __future__ import annotations
import ast
import itertools

from .. import terms as tm
from ..terms import T, sym, mk, const
from ..interp import State
from ..values import Tup
from .. import dense as dn
from ..dense import np, Undecided, Crash

LD = "sktopt.mesh.loader."
TP = "sktopt.mesh.toy_problem."
FILE = sym("mesh file", "o")
PATH = sym("mesh_path", "s")
ORD = sym("intorder", "s")

# cell blocks of a file, what it must be read as
FILES = (
    (("tetra",), "Tet"), (("hexahedron",), "Hex"),
    (("triangle", "tetra"), "Tet"), (("tetra", "triangle"), "Tet"),
    (("quad", "hexahedron"), "Hex"), (("hexahedron", "line", "quad"), "Hex"),
    (("line", "vertex", "triangle", "tetra", "tetra"), "Tet"),
    (("triangle",), None), (("quad", "line"), None), ((), None),
    (("tetra10",), None), (("hexahedron20",), None), (("wedge",), None),
)
ELEM = {"Tet": "ElementTetP1", "Hex": "ElementHex1"}


def c45(ctx):
    tm.KEEP_AXES = True
    for q in (LD + "basis_from_file", TP + "load_mesh_auto"):
        for kinds, want in FILES:
            ctx.section(q.split(".")[-1] + " " + "+".join(kinds), one, ctx, q,
                        kinds, want)
    ctx.section("stiffness", stiffness, ctx)
    ctx.section("box selection", boxes, ctx)
    for name in ("toy_test", "toy1", "toy1_fine", "toy2"):
        ctx.section(name, toy, ctx, name)


def reader(ctx, kinds):
    ip = ctx.ip({"meshio.read": lambda ip, st, a, k, node: FILE})
    cells = [sym(f"cell block {i} {k}", "o") for i, k in enumerate(kinds)]

    def blocks(ip, v, st):
        return ip.new_list(st, cells) if v is FILE else None

    def types(ip, v, st):
        if v in cells:
            return const(str(v.args[0]).split()[-1])

    def by_type(ip, v, st):
        if v is FILE:
            return ip.new_dict(st, {k: ip.new_arr(st, sym(
                f"cells {k}", "a"), k) for k in kinds})
    ip.attr_hooks["cells"] = blocks
    ip.attr_hooks["type"] = types
    ip.attr_hooks["cells_dict"] = by_type
    return ip


def call_of(t, last):
    """the call of a function with this last name component, or None"""
    return t if isinstance(t, T) and t.op == "call" and str(
        t.args[0]).split(".")[-1] in last else None


def split(t):
    pos, kw = [], {}
    for x in t.args[1:]:
        if isinstance(x, T) and x.op == "kw":
            kw[x.args[0] if isinstance(x.args[0], str)
               else tm.cval(x.args[0])] = x.args[1]
        else:
            pos.append(x)
    return pos, kw


def loaded(t, kind):
    """(kind of mesh, its file, oriented) of a mesh term; what a mesh can do
    is decided by its kind: only simplices have an orientation method"""
    o = False
    while True:
        if t.op == "ite" and call_of(t.args[0], ("hasattr",)):
            name = t.args[0].args[2]
            if not tm.is_const(name) or tm.cval(name) != "oriented":
                return None
            t = t.args[1 if kind == "Tet" else 2]
        elif t.op == "ite" and t.args[0].op == "not":
            t = mk("ite", t.args[0].args[0], t.args[2], t.args[1])
        elif call_of(t, ("oriented",)) and len(t.args) == 2:
            o, t = True, t.args[1]
        else:
            break
    f = call_of(t, ("load",))
    if f is None or len(f.args) < 2:
        return None
    cls = str(f.args[0]).split(".")[-2]
    p = f.args[1]
    while call_of(p, ("Path", "str", "fspath", "PurePath")) and \
            len(p.args) == 2:
        p = p.args[1]
    return cls, p, o


def one(ctx, q, kinds, want):
    f = ctx.proj.lookup(q)
    if f is None:
        return
    rule, W = "mesh file", f.where
    c = f"{f.qual}: {'+'.join(kinds) or 'no cells'}"
    ip = reader(ctx, kinds)
    args = {}
    for a in f.node.args.args:
        args[a.arg] = ORD if a.arg == "intorder" else PATH
    s, v = ip.run(f, [], args, State())
    if want is None:
        t = None if s is None else ip.toT(v, s)
        if t is None:
            return ctx.ok(rule, c, "refused", W)
        if t is tm.NONE or any(x.op == "unk" for x in tm.subterms(t)):
            return ctx.unsure(rule, c, "result not identified", W)
        return ctx.bad(rule, c, W, "cells the library does not know are "
                       "accepted: " + tm.show(t, 4))
    if s is None:
        return ctx.bad(rule, c, W, "raises on every path")
    t = ip.toT(v, s)
    if q.startswith(LD):
        b = call_of(t, ("Basis", "CellBasis", "InteriorBasis"))
        if b is None:
            return ctx.unsure(rule, c, "basis not identified", W)
        pos, kw = split(b)
        names = ("mesh", "elem", "mapping", "intorder")
        kw.update(zip(names, pos))
        io = kw.get("intorder")
        ctx.fact(io is ORD, rule, f"{c}: intorder", W, "the one asked for",
                 "integrates with order " + (
                     "of the element" if io is None else tm.show(io, 4)))
        e = kw.get("elem")
        n = 0
        while isinstance(e, T) and call_of(e, ("ElementVector",)):
            e, n = e.args[1] if len(e.args) > 1 else None, n + 1
        name = str(e.args[0]).split(".")[-1] if isinstance(e, T) and \
            e.op == "call" else None
        if name is None:
            ctx.unsure(rule, f"{c}: element", "element not identified", W)
        else:
            ctx.fact(name == ELEM[want] and n == 1, rule, f"{c}: element", W,
                     f"a vector of {name}", f"a basis of {name}"
                     + ("" if n else ", not a vector of them"))
        t = kw.get("mesh")
    m = None if t is None else loaded(t, want)
    if m is None:
        return ctx.unsure(rule, f"{c}: mesh", "mesh not identified", W)
    cls, p, o = m
    if cls == "Mesh":           # reads the kind off the file
        cls = "Mesh" + want
    ctx.fact(cls == "Mesh" + want, rule, f"{c}: mesh", W,
             f"read as {cls}", f"read as {cls}")
    ctx.fact(p is PATH, rule, f"{c}: file", W, "the file asked for",
             "read from " + tm.show(p, 4))
    if want == "Tet" and q.startswith(LD):
        ctx.fact(o, "oriented", f"{c}: mesh", W, "tetrahedra are oriented",
                 "tetrahedra are left as the file numbers them: "
                 "left-handed ones stay")


def stiffness(ctx):
    f = ctx.proj.lookup(LD + "load_stiffness_matrix")
    if f is None:
        return
    rule, W = "stiffness of a mesh file", f.where
    E, NU = sym("E", "s"), sym("nu", "s")
    ip = reader(ctx, ("tetra",))

    def lame(ip, st, a, k, node):
        b = dict(zip(("E", "nu"), a))
        b.update(k)
        return Tup(lam_mu(ip.toT(b["E"], st), ip.toT(b["nu"], st)))
    for n in ("skfem.models.elasticity.lame_parameters",
              "skfem.models.lame_parameters"):
        ip.models[n] = lame
    seen, order = [], []

    def basis(ip, st, a, k, node):
        b = dict(zip(("mesh_path", "intorder"), a))
        b.update(k)
        seen.append(ip.toT(b["mesh_path"], st))
        order.append(b.get("intorder"))
        return sym("basis of the file", "o")
    ip.models[LD + "basis_from_file"] = basis
    s, v = ip.run(f, [], {"mesh_path": PATH, "E": E, "nu": NU}, State())
    if s is None:
        return ctx.bad(rule, f.qual, W, "raises on every path")
    t = ip.toT(v, s)
    while call_of(t, ("tocsr", "tocsc", "tocoo")) and len(t.args) == 2:
        t = t.args[1]
    form = basis_t = None
    if call_of(t, ("asm",)):
        pos, _ = split(t)
        if len(pos) == 2:
            form, basis_t = pos
    elif call_of(t, ("assemble",)) and len(t.args) == 3:
        form, basis_t = t.args[1:]
    form = None if form is None else call_of(form, ("linear_elasticity",))
    if form is None:
        return ctx.unsure(rule, f.qual, "form not identified", W)
    pos, kw = split(form)
    kw.update(zip(("Lambda", "Mu"), pos))
    one_ = const(1.0)
    D = {E: (0.5, 300.0), NU: (0.05, 0.45)}
    for n, w in zip(("Lambda", "Mu"), lam_mu(E, NU)):
        ctx.equal(rule, f"{f.qual}: {n}", W, kw.get(n, one_), w, {
            "E": D[E], "nu": D[NU]}, f"{n} of the material given")
    ctx.fact(seen == [PATH] and basis_t is sym("basis of the file", "o"),
             rule, f"{f.qual}: basis", W, "of the file asked for",
             "not assembled on the basis of the file")
    n = order[0] if len(order) == 1 else None
    if n is None:
        g = ctx.proj.need(LD + "basis_from_file").node.args
        d = dict(zip([a.arg for a in g.args][::-1], g.defaults[::-1]))
        d = d.get("intorder")
        n = d.value if isinstance(d, ast.Constant) else None
    elif tm.is_const(n):
        n = tm.cval(n)
    if isinstance(n, int):
        ctx.fact(n >= 2, rule, f"{f.qual}: quadrature", W,
                 f"order {n}", f"order {n} leaves hexahedra without stiffness "
                 "against hourglass modes")


def lam_mu(E, nu):
    one_, two = const(1.0), const(2.0)
    return [tm.div(tm.mul(E, nu), tm.mul(tm.add(one_, nu), tm.sub(
        one_, tm.mul(two, nu)))), tm.div(E, tm.mul(two, tm.add(one_, nu)))]


# ------------------------------------------------------------ box selection
X = sym("points", "a")


def boxes(ctx):
    f = ctx.proj.lookup("sktopt.mesh.utils.get_points_in_range")
    if f is None:
        return
    rule, W = "box selection", f.where
    R = [(sym(f"{a}_lo", "s"), sym(f"{a}_hi", "s")) for a in "xyz"]
    ip = ctx.ip({})
    st = State()
    for r in R:
        for x in r:
            ip.types[x] = {"float"}
    s, v = ip.run(f, [Tup(list(r)) for r in R], {}, st)
    if s is None:
        return ctx.bad(rule, f.qual, W, "raises on every path")
    x = ip.new_arr(s, X, "x", Tup([const(3), sym("n", "s")]))
    s, r = ip.run(v, [x], {}, s)
    if s is None:
        return ctx.bad(rule, f.qual, W, "the predicate raises on every path")
    t = ip.toT(r, s)
    rng = np.random.default_rng(ctx.seed + 9)
    cases = []
    for _ in range(12):
        lo = rng.uniform(-2, 1, 3)
        hi = lo + rng.uniform(0, 2, 3) * (rng.uniform(size=3) > 0.2)
        # inside, outside and on every side, edge and corner
        at = [(lo[i] - 0.3, lo[i], (lo[i] + hi[i]) / 2, hi[i], hi[i] + 0.2)
              for i in range(3)]
        P = np.array(list(itertools.product(*at))).T
        c = {X: P, "lo": lo, "hi": hi}
        for i, r in enumerate(R):
            c[r[0]], c[r[1]] = float(lo[i]), float(hi[i])
        cases.append(c)

    def want(c):
        P = c[X]
        return np.all((P >= c["lo"][:, None]) & (P <= c["hi"][:, None]),
                      axis=0)
    ctx.dense(rule, f.qual, W, t, want, cases, ip,
              n=lambda c: c[X].shape[1], what="points of the closed box")


# --------------------------------------------------------- bundled problems
class Grid:
    """facet and element midpoints of an equal grid of a box"""

    def __init__(self, L, h):
        n = [int(np.ceil(a / h)) for a in L]
        e = [np.linspace(0, a, k + 1) for a, k in zip(L, n)]
        m = [(x[1:] + x[:-1]) / 2 for x in e]
        self.elements = grid(*m)
        self.facets = np.hstack([grid(*[e[j] if j == i else m[j]
                                        for j in range(3)])
                                 for i in range(3)])
        top = np.array(L)[:, None]
        on = (np.abs(self.facets) < 1e-9) | (np.abs(self.facets - top) < 1e-9)
        self.boundary = self.facets[:, on.any(axis=0)]


def grid(*xs):
    return np.array([a.ravel() for a in np.meshgrid(*xs, indexing="ij")])


def toy(ctx, name):
    f = ctx.proj.lookup(TP + name)
    if f is None:
        return
    rule, W = "bundled problem", f.where
    made, sel, tags, built = [], {}, {}, []

    def box(ip, st, a, k, node):
        b = dict(zip(("x_len", "y_len", "z_len", "mesh_size"), a))
        b.update(k)
        made.append([ip.toT(b[n], st) for n in (
            "x_len", "y_len", "z_len", "mesh_size")])
        return sym("mesh", "o")

    def pick(ip, pred, st):
        s2, r = ip.run(pred, [ip.new_arr(st, X, "x", Tup([const(3), sym(
            "n", "s")]))], {}, st.fork())
        return tm.unk("predicate") if s2 is None else ip.toT(r, s2)

    def satisfying(what):
        def g(ip, st, a, k, node):
            a = list(a)
            p = a[1] if len(a) > 1 else k.get("x", k.get("test"))
            only = a[2] if len(a) > 2 else k.get("boundaries_only",
                                                 const(False))
            y = sym(f"{what} {len(sel)}", "a")
            sel[y] = (what, pick(ip, p, st), ip.toT(only, st))
            return ip.new_arr(st, y, what)
        return g

    def with_b(ip, st, a, k, node):
        d = st.heap.get(("d", getattr(a[1], "did", None)))
        if isinstance(d, dict):
            for n, p in d.items():
                y = sym(f"facets {len(sel)}", "a")
                sel[y] = ("facets", pick(ip, p, st), const(True))
                tags[n if isinstance(n, str) else tm.cval(n)] = y
        return a[0]

    def build(ip, st, a, k, node):
        built.append(({n: ip.toT(x, st) for n, x in k.items()},
                      [ip.toT(x, st) for x in a]))
        return sym("task", "o")
    el = "sktopt.mesh.task_elastic.LinearElasticity"
    cls = ctx.proj.need(el)
    m = {TP + "create_box_hex": box, TP + "create_box_tet": box,
         ".facets_satisfying": satisfying("facets"),
         ".elements_satisfying": satisfying("elements"),
         ".with_boundaries": with_b,
         ".with_subdomains": lambda ip, st, a, k, node: a[0]}
    for b in cls.mro(ctx.proj):
        for meth in ("from_facets", "from_mesh_tags"):
            if meth in b.methods:
                m[b.methods[meth].qual] = build
    ip = ctx.ip(m)
    s, v = ip.run(f, [], {}, State())
    if s is None:
        return ctx.bad(rule, f.qual, W, "raises on every path")
    if len(made) != 1 or len(built) != 1 or not all(
            tm.is_const(x) for x in made[0]):
        return ctx.unsure(rule, f.qual, "box or task not identified", W)
    *L, h = [float(tm.cval(x)) for x in made[0]]
    g = Grid(L, h)
    kw, a = built[0]
    role = {}
    if tags:
        for n, y in tags.items():
            role.setdefault("dirichlet" if n.startswith("dirichlet") else
                            "load", []).append((n, y))
    else:
        a = [x for x in a if x.op != "ext" and x.op != "class"]
        order = [x for x in a if x in sel]
        for n in ("dirichlet_facets_ids", "force_facets_ids",
                  "neumann_facets_ids"):
            if n in kw:
                role.setdefault("dirichlet" if n[0] == "d" else "load",
                                []).append((n, kw[n]))
        fs = [x for x in order if sel[x][0] == "facets"]
        if not role and len(fs) == 2:
            role = {"dirichlet": [("support", fs[0])],
                    "load": [("load", fs[1])]}
    if set(role) != {"dirichlet", "load"}:
        return ctx.unsure(rule, f.qual, "support and load not identified", W)
    got = {}
    for kind, xs in role.items():
        for n, y in xs:
            if y not in sel:
                ctx.unsure(rule, f"{f.qual}: {n}", "region not identified", W)
                continue
            P = g.facets
            if sel[y][2] is const(True):
                P = g.boundary
            try:
                r = np.asarray(dn.Dense({X: P}, ip, P.shape[1]).ev(sel[y][1]))
            except Undecided as e:
                ctx.unsure(rule, f"{f.qual}: {n}", str(e), W)
                continue
            except Crash as e:
                ctx.bad(rule, f"{f.qual}: {n}", W, f"raises: {e}")
                continue
            if r.shape != (P.shape[1],):
                ctx.unsure(rule, f"{f.qual}: {n}", "not a selection", W)
                continue
            ps = {tuple(p) for p in P[:, r.astype(bool)].T.round(9)}
            ctx.fact(bool(ps), rule, f"{f.qual}: {n}", W,
                     f"selects {len(ps)} facets of the box",
                     "selects no facet of the box")
            got[n] = (kind, ps)
    sup = set().union(*[p for k, p in got.values() if k == "dirichlet"])
    for n, (k, ps) in got.items():
        if k == "load" and ps:
            ctx.fact(not ps <= sup, rule, f"{f.qual}: {n} and support", W,
                     "not on the support", "the load acts on the support only")
