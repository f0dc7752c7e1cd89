"""Element orientation (C35): the connectivity the orientation fixes return,
read over random tetrahedra and hexahedra, half of them mirrored."""
from __future__ import annotations

from .. import terms as tm
from .. import dense as dn
from ..dense import np
from ..terms import sym, const, mk
from ..interp import State
from ..values import Tup
from .filt import tets, hexes, MeshKind, MT, MP, MESH, holds
from .tasks import per_case

NE, NN = sym("n_elem", "i"), sym("n_node", "i")
MU = "sktopt.mesh.utils."
# scikit-fem: node 0 is the corner (1,1,1) of the reference cube; which
# three corners are its neighbours, and the signed node orders of a mirrored
# and a rotated cell
HEXREF = np.array([(1, 1, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 0, 0),
                   (0, 1, 0), (0, 0, 1), (0, 0, 0)], float).T


def hex_group():
    """node orders of a cube that keep it a cube: (order, mirrored?)"""
    import itertools
    out = []
    ref = [tuple(x) for x in HEXREF.T]
    for perm in itertools.permutations(range(3)):
        for flip in itertools.product((0, 1), repeat=3):
            img = [tuple(abs(f - x[i]) for i, f in zip(perm, flip))
                   for x in ref]
            order = tuple(ref.index(y) for y in img)
            A = np.zeros((3, 3))
            for r, (i, f) in enumerate(zip(perm, flip)):
                A[r, i] = -1 if f else 1
            out.append((order, np.linalg.det(A) < 0))
    return out


GROUP = hex_group()


def hex_ok(order):
    return any(tuple(order) == g for g, _ in GROUP)


def hex_side(t, p):
    """sign of the three edges at node 0"""
    a, b, c = (p[:, t[i]] - p[:, t[0]] for i in (1, 3, 2))
    return np.sign(np.linalg.det(np.array([a, b, c])))


def tet_side(t, p):
    return np.sign(np.linalg.det(np.array(
        [p[:, t[i]] - p[:, t[0]] for i in (1, 2, 3)])))


def cases(kind, seed, k):
    rng = np.random.default_rng(seed + 77)
    out = []
    for c in (tets if kind == "tet" else hexes)(seed, k):
        T_ = c[MT].copy()
        P = c[MP].copy()
        for e in range(c["n"]):
            if kind == "tet":
                T_[:, e] = T_[rng.permutation(4), e]
            else:
                g = GROUP[int(rng.integers(len(GROUP)))][0]
                T_[:, e] = T_[list(g), e]
        out.append({MT: T_, MP: P, "n": c["n"], "kind": kind})
    return out


def judge_t(c, got):
    """a violation text, or None"""
    T_, P = c[MT], c[MP]
    if got.shape != T_.shape:
        return "the connectivity has another shape"
    got = got.astype(int)
    side = tet_side if c["kind"] == "tet" else hex_side
    sides = set()
    for e in range(c["n"]):
        if sorted(got[:, e]) != sorted(T_[:, e]):
            return f"element {e} has other nodes than before"
        if c["kind"] == "hex":
            old = T_[:, e].tolist()
            if not hex_ok([old.index(x) for x in got[:, e]]):
                return f"element {e} is tangled: its corners no longer " \
                       "form the same hexahedron"
        before = side(T_[:, e], P)
        after = side(got[:, e], P)
        if after < 0:
            return f"element {e} is left-handed"
        if before > 0 and (got[:, e] != T_[:, e]).any():
            return f"right-handed element {e} is renumbered"
    return None


def c35(ctx):
    tm.KEEP_AXES = True
    k = 6 if ctx.tier == "quick" else 40
    for name, kind in (("fix_tetrahedron_orientation", "tet"),
                       ("fix_tetrahedron_orientation_numba", "tet"),
                       ("fix_hexahedron_orientation", "hex"),
                       ("fix_elements_orientation", "tet"),
                       ("fix_elements_orientation", "hex")):
        ctx.section(f"{name} {kind}", one, ctx, name, kind,
                    cases(kind, ctx.seed + 15, k))
    ctx.section("box meshes", boxes, ctx)


def one(ctx, name, kind, cs):
    f = ctx.proj.lookup(MU + name)
    if f is None:
        return
    ip = ctx.ip({})
    st = State()
    nv = const(4 if kind == "tet" else 8)
    mesh = name == "fix_elements_orientation"
    if mesh:
        args = [MESH]
    else:
        args = [ip.new_arr(st, MT, "t", Tup([nv, NE])),
                ip.new_arr(st, MP, "p", Tup([const(3), NN]))]
    q = f"{f.qual} ({kind})"
    s, v = ip.run(f, args, {}, st)
    if s is None:
        return ctx.bad("orientation", q, f.where, "raises on every path")
    t = ip.toT(v, s)
    hook = MeshKind("MeshTet" if kind == "tet" else "MeshHex")
    late = {} if mesh else {MT: ip.content(args[0], s),
                            MP: ip.content(args[1], s)}

    def judge(c):
        d = dn.Dense({MP: c[MP], MT: c[MT], NE: c["n"],
                      NN: c[MP].shape[1]}, ip, c["n"], hook)
        if not holds(s, d):
            return "a valid mesh is refused", {}
        why = judge_t(c, np.asarray(d.ev(t)))
        if why is None:
            for x, y in late.items():
                if not np.array_equal(np.asarray(d.ev(y)), c[x]):
                    why = "the arrays that were passed in are changed"
        if why:
            return why, {"t": c[MT].tolist(), "p": c[MP].round(4).tolist(),
                         "returned": np.asarray(d.ev(t)).tolist()}
    per_case(ctx, "orientation", q, f.where, cs, judge, "right-handed, the "
             "same elements, right-handed ones untouched")


class Box:
    """scikit-fem's structured meshes: a tensor grid of hexahedra, or the
    unit cube of tetrahedra refined and scaled"""

    def __init__(self, p, t, level=0):
        self.p, self.t, self.level = p, t, level

    @staticmethod
    def tensor(x, y, z):
        n = [len(x), len(y), len(z)]
        idx = np.arange(n[0] * n[1] * n[2]).reshape(n)
        p = np.array([a.ravel() for a in np.meshgrid(x, y, z,
                                                     indexing="ij")])
        cells = []
        off = 1 - HEXREF.T.astype(int)
        for i in range(n[0] - 1):
            for j in range(n[1] - 1):
                for k in range(n[2] - 1):
                    cells.append([idx[i + a, j + b, k + c]
                                  for a, b, c in off])
        return Box(p, np.array(cells).T)

    @staticmethod
    def cube():
        p = 1 - HEXREF
        t = [(0, 1, 2, 3), (3, 1, 2, 7), (1, 3, 5, 7), (2, 1, 4, 7),
             (6, 2, 3, 7)]
        return Box(p, np.array(t).T)

    def scaled(self, f):
        f = np.asarray(f, dtype=float)
        return Box(self.p * (f[:, None] if f.ndim else f), self.t,
                   self.level)


class Boxes:
    level = 0

    def __call__(self, d, t, E):
        if t.op == "attr":
            o = d.ev(t.args[0], E)
            if isinstance(o, Box):
                self.level = o.level
                return {"p": o.p, "t": o.t, "nelements": o.t.shape[1],
                        "nvertices": o.p.shape[1]}.get(t.args[1])
            return None
        if t.op != "call":
            return None
        f, a = str(t.args[0]), t.args[1:]
        if f.endswith(".init_tensor"):
            return Box.tensor(*[np.asarray(d.ev(x, E)) for x in a])
        if f.rsplit(".", 1)[-1] in ("MeshTet", "MeshTet1", "MeshHex",
                                    "MeshHex1"):
            if not a:
                return Box.cube()
            x = [d.ev(y, E) for y in a]
            return Box(np.asarray(x[0]), np.asarray(x[1]), self.level)
        if f in (".refined", ".scaled"):
            o = d.ev(a[0], E)
            if not isinstance(o, Box):
                return None
            v = d.ev(a[1], E) if len(a) > 1 else 1
            if f == ".scaled":
                return o.scaled(v)
            return Box(o.p, o.t, o.level + int(v))
        if f == "oriented":
            kind = t.args[1].args[0]
            T_, P = (np.asarray(d.ev(x, E)) for x in a[1:])
            T_ = T_.copy()
            for e in range(T_.shape[1]):
                if kind == "tet" and tet_side(T_[:, e], P) < 0:
                    T_[[1, 2], e] = T_[[2, 1], e]
                if kind == "hex" and hex_side(T_[:, e], P) < 0:
                    T_[[1, 3, 4, 6], e] = T_[[3, 1, 6, 4], e]
            return T_
        return None


def boxes(ctx):
    X = [sym(n, "s") for n in ("x_len", "y_len", "z_len")]
    H = sym("mesh_size", "s")

    def std(kind):
        return lambda ip, st, a, k, node: ip.new_arr(st, mk(
            "call", "oriented", const(kind), *[
                ip.toT(x, st) for x in list(a) + list(k.values())]), "t")
    rng = np.random.default_rng(ctx.seed + 5)
    for name, kind in (("create_box_hex", "hex"), ("create_box_tet", "tet")):
        f = ctx.proj.lookup("sktopt.mesh.toy_problem." + name)
        if f is None:
            continue
        ip = ctx.ip({MU + "fix_tetrahedron_orientation": std("tet"),
                     MU + "fix_tetrahedron_orientation_numba": std("tet"),
                     MU + "fix_hexahedron_orientation": std("hex")})
        st = State()
        for x in X + [H]:
            ip.types[x] = {"float"}
        s, v = ip.run(f, X + [H], {}, st)
        if s is None:
            ctx.bad("box-mesh", f.qual, f.where, "raises on every path")
            continue
        t = ip.toT(v, s)
        cs = [{**{x: float(rng.uniform(0.4, 4)) for x in X},
               H: float(rng.uniform(0.21, 0.9))} for _ in range(8)]

        def judge(c):
            d = dn.Dense(c, ip, None, Boxes())
            if not holds(s, d):
                return "a valid box is refused", {}
            o = d.ev(t)
            if not isinstance(o, Box):
                raise dn.Undecided("not a mesh")
            L = np.array([c[x] for x in X])
            data = {"lengths": L.tolist(), "mesh_size": c[H],
                    "p": o.p.round(4).tolist(), "t": o.t.tolist()}
            if not (np.allclose(o.p.min(1), 0) and np.allclose(
                    o.p.max(1), L)):
                return "the mesh does not span the box", data
            if kind == "hex":
                for i in range(3):
                    u = np.unique(o.p[i].round(9))
                    h = np.diff(u)
                    if not np.allclose(h, h[0]) or h[0] > c[H] * (
                            1 + 1e-9) or len(u) > 2 and \
                            L[i] / (len(u) - 2) <= c[H]:
                        return "the cells are not the coarsest equal ones " \
                               "within mesh_size", data
            else:
                h = max(L) / 2 ** o.level
                if h > c[H] * (1 + 1e-9) or 2 * h <= c[H]:
                    return "not the coarsest refinement within mesh_size", \
                        data | {"refinements": o.level}
            side = tet_side if kind == "tet" else hex_side
            if any(side(o.t[:, e], o.p) < 0 for e in range(o.t.shape[1])):
                return "left-handed elements", data
        per_case(ctx, "box-mesh", f.qual, f.where, cs, judge,
                 "spans the box with right-handed cells of the asked size")
