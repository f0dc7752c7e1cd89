"""Element lookup (C29): elements at given nodes, and neighbour elements,
read over small random meshes and over histories of calls with meshes that
come, go and share an identity number."""
from __future__ import annotations

import copy

from .. import terms as tm
from .. import dense as dn
from ..dense import np
from ..terms import T, const, sym, mk
from ..interp import State
from ..values import Obj, Tup, Model
from .tasks import Space, per_case

MU = "sktopt.mesh.utils."
SPARSE = ("csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix",
          "dok_matrix", "csr_array", "csc_array", "coo_array", "lil_array")


class Sp:
    """a sparse matrix: rows by columns, always two axes"""

    def __init__(self, a):
        self.a = np.atleast_2d(np.asarray(a, dtype=float))

    def attr(self, n):
        if n == "shape":
            return self.a.shape
        if n == "T":
            return Sp(self.a.T)
        if n == "nnz":
            return int((self.a != 0).sum())
        if n == "indices":
            return np.nonzero(self.a)[1]
        if n == "indptr":
            return np.concatenate([[0], np.cumsum((self.a != 0).sum(1))])
        if n == "data":
            return self.a[self.a != 0]
        raise dn.Undecided("sparse." + str(n))

    def item(self, i):
        if isinstance(i, tuple):
            r = self.a[i]
            return r if np.ndim(r) == 0 else Sp(r)
        if isinstance(i, slice):
            return Sp(self.a[i])
        i = np.asarray(i)
        if i.dtype != bool and i.size and (
                i.max() >= len(self.a) or i.min() < -len(self.a)):
            raise dn.Crash("row index out of range")
        return Sp(self.a[i])


def mesh_attr(sp, n):
    r = {"t": sp.t, "p": sp.p, "facets": sp.facets, "nelements": sp.ne,
         "nvertices": sp.nn, "nfacets": sp.facets.shape[1], "t2f": sp.t2f,
         "f2t": sp.f2t, "nnodes": sp.nn}.get(n)
    if r is None:
        raise dn.Undecided("mesh." + str(n))
    return r


class Hook:
    def __init__(self, meshes):
        self.meshes = {k: v for k, v in meshes.items()}

    def __call__(self, d, t, E):
        if t.op == "attr":
            n = t.args[1].args[0] if isinstance(t.args[1], T) else t.args[1]
            a = t.args[0]
            if isinstance(a, T) and a.op == "obj" and a.args[0] in \
                    self.meshes:
                return mesh_attr(self.meshes[a.args[0]], n)
            o = d.ev(a, E)
            if isinstance(o, Sp):
                return o.attr(n)
            if isinstance(o, str) and n in ("__name__", "__qualname__"):
                return o
            return None
        if t.op == "call" and t.args[0] == "type" and t.args[1].op == "obj" \
                and t.args[1].args[0] in self.meshes:
            return "MeshTet" if self.meshes[
                t.args[1].args[0]].corners == 4 else "MeshHex"
        if t.op in ("is", "isnot", "eq", "ne") and all(
                x.op == "obj" and x.args[0] in self.meshes for x in t.args):
            return (t.args[0] is t.args[1]) is (t.op in ("is", "eq"))
        if t.op == "sym" and "." in str(t.args[0]):
            m, n = str(t.args[0]).split(".", 1)
            if m in self.meshes:
                return mesh_attr(self.meshes[m], n)
        if t.op == "gather":
            o = d.ev(t.args[0], E)
            if isinstance(o, Sp):
                return o.item(d.index(t.args[1], E))
            return None
        if t.op in ("ne", "eq", "gt") and len(t.args) == 2:
            o = d.ev(t.args[0], E)
            if isinstance(o, Sp):
                x = d.ev(t.args[1], E)
                f = {"ne": np.not_equal, "eq": np.equal,
                     "gt": np.greater}[t.op]
                return Sp(f(o.a, x))
            return None
        if t.op in ("add", "mul", "matmul"):
            x, y = d.ev(t.args[0], E), d.ev(t.args[1], E)
            if isinstance(x, Sp) or isinstance(y, Sp):
                xa = x.a if isinstance(x, Sp) else np.asarray(x)
                ya = y.a if isinstance(y, Sp) else np.asarray(y)
                if t.op == "add":
                    return Sp(xa + ya)
                if t.op == "mul" and np.ndim(ya) == 0:
                    return Sp(xa * ya)
                r = xa @ ya
                return Sp(r) if isinstance(x, Sp) and isinstance(y, Sp) \
                    else r
            return None
        if t.op != "call":
            return None
        f = str(t.args[0])
        if f.startswith("scipy.sparse.") and f.split(".")[-1] in SPARSE:
            r = dn.Dense.call(d, t, E)
            return Sp(r)
        if len(t.args) > 1 and isinstance(t.args[1], T) and (
                f.startswith(".") or f in ("sparse.rows", "sparse.cols",
                                           "np.asarray", "np.array")):
            o = d.ev(t.args[1], E)
            if not isinstance(o, Sp):
                if f == "sparse.rows":
                    return np.nonzero(np.asarray(o))[0]
                if f == "sparse.cols":
                    return np.nonzero(np.asarray(o))[1]
                return None
            rest = [d.ev(x, E) for x in t.args[2:] if x.op != "kw"]
            kw = {x.args[0]: d.ev(x.args[1], E) for x in t.args[2:]
                  if x.op == "kw"}
            if f == "sparse.rows":
                return np.nonzero(o.a)[0]
            if f == "sparse.cols":
                return np.nonzero(o.a)[1]
            if f in (".tocsr", ".tocsc", ".tocoo", ".tolil", ".copy",
                     ".sorted_indices", ".astype"):
                return o
            if f in (".toarray", ".todense", ".A"):
                return o.a
            if f in (".getrow", ".getcol"):
                return Sp(o.a[rest[0]]) if f == ".getrow" else Sp(
                    o.a[:, [rest[0]]])
            if f in (".sum", ".max"):
                return getattr(o.a, f[1:])(*rest, **kw)
            if f == ".dot":
                y = rest[0]
                return Sp(o.a @ y.a) if isinstance(y, Sp) else o.a @ y
            if f in (".transpose", ".T"):
                return Sp(o.a.T)
            if f == ".getnnz":
                return (o.a != 0).sum(*rest, **kw)
            raise dn.Undecided("sparse " + f)
        return None


class World:
    """meshes with identity numbers, some of which are collected"""

    def __init__(self, ids):
        self.ids = ids
        self.alive = set()
        self.gone = []          # (mesh, call) to run when it is collected

    def models(self):
        def ident(ip, st, a, kw, node):
            v = ip.force(a[0], st)
            if isinstance(v, Obj) and v.path in self.ids:
                return const(self.ids[v.path])
            return NotImplemented

        def ref(ip, st, a, kw, node):
            v = ip.force(a[0], st)
            if not (isinstance(v, Obj) and v.path in self.ids):
                return NotImplemented

            def get(ip, s, a, k, nd):
                return v if v.path in self.alive else tm.NONE
            r = Model(get, "weakref")
            if len(a) > 1:
                self.gone.append((v.path, lambda ip, s, c=a[1]: ip.run(
                    c, [r], {}, s)))
            return r

        def finalize(ip, st, a, kw, node):
            v = ip.force(a[0], st)
            if not (isinstance(v, Obj) and v.path in self.ids):
                return NotImplemented
            self.gone.append((v.path, lambda ip, s, a=tuple(a): ip.run(
                a[1], list(a[2:]), dict(kw), s)))
            return tm.NONE

        def nonzero(ip, st, a, kw, node):
            t = ip.toT(a[0], st)
            x = t
            while x.op == "gather" or x.op == "call" and str(
                    x.args[0]).startswith(".") and len(x.args) > 1:
                x = x.args[0] if x.op == "gather" else x.args[1]
            if x is ADJ or x.op == "call" and str(x.args[0]).startswith(
                    "scipy.sparse."):
                return Tup([ip.new_arr(st, mk("call", "sparse.rows", t),
                                       "rows"),
                            ip.new_arr(st, mk("call", "sparse.cols", t),
                                       "cols")])
            return NotImplemented
        return {"builtins.id": ident, "id": ident, "weakref.ref": ref,
                "weakref.finalize": finalize, ".nonzero": nonzero}

    def now(self, name, ip, st):
        """``name`` exists; a mesh whose number it has is gone"""
        for o in list(self.alive):
            if o != name and self.ids[o] == self.ids[name]:
                self.alive.discard(o)
                for m, f in list(self.gone):
                    if m == o:
                        f(ip, st)
        self.alive.add(name)


ADJ = sym("adjacency", "s")


def meshes(ctx, k):
    rng = np.random.default_rng(ctx.seed + 29)
    out = []
    for i in range(k):
        w = {n: Space(rng, 1, 4 if (i + j) % 2 else 8)
             for j, n in enumerate("ABC")}
        if i % 2:
            # as many nodes and elements, other connectivity
            w["B"] = copy.copy(w["A"])
            w["B"].t = rng.permutation(w["A"].nn)[w["A"].t]
        out.append(w)
    return rng, out


def targets(rng, sp, shape):
    """node lists: (arguments, all nodes)"""
    n = sp.nn
    if shape == "empty":
        return np.array([], dtype=int)
    if shape == "one":
        return rng.permutation(n)[:1]
    if shape == "repeated":
        x = rng.permutation(n)[:3]
        return np.concatenate([x, x[::-1]])
    if shape == "all":
        return np.arange(n)
    return rng.permutation(n)[:int(rng.integers(2, 5))]


HISTORIES = (
    ("first call", {"A": 1}, "A"),
    ("same mesh again", {"A": 1}, "AA"),
    ("another mesh", {"A": 1, "B": 2}, "AB"),
    ("back to the first mesh", {"A": 1, "B": 2}, "ABA"),
    ("a collected mesh's number is used again", {"A": 1, "B": 1}, "AB"),
    ("... between two living meshes", {"A": 1, "B": 2, "C": 1}, "ABCB"),
    ("... and looked up twice", {"A": 1, "B": 1}, "ABB"),
)
LISTS = (("array",), ("array", "array"), ("array", "array", "array"))


def by_nodes(ctx):
    f = ctx.proj.need(MU + "get_elements_by_nodes")
    where = f.where
    rng, ms = meshes(ctx, 3 if ctx.tier == "quick" else 20)
    shapes = ["array"] + [f"list of {i}" for i in (1, 2, 3)]
    for title, ids, seq in HISTORIES:
        for shape in shapes:
            if shape != "array" and shape != "list of 2" and seq != "A":
                continue
            one_history(ctx, f, where, title, ids, seq, shape, ms, rng)


def one_history(ctx, f, where, title, ids, seq, shape, ms, rng):
    w = World(ids)
    ip = ctx.ip(w.models())
    st = State()
    obj = {n: ip.sym_obj(st, None, n) for n in ids}
    res = []
    q = f"{f.qual} [{title}; {shape}]"
    for i, n in enumerate(seq):
        w.now(n, ip, st)
        names = [f"nodes{i}_{j}" for j in range(
            1 if shape == "array" else int(shape[-1]))]
        arrs = [ip.new_arr(st, sym(x, "a"), x) for x in names]
        arg = arrs[0] if shape == "array" else ip.new_list(st, arrs)
        s, v = ip.run(f, [obj[n], arg], {}, st)
        if s is None:
            return ctx.bad("elements-at-nodes", q, where,
                           f"call {i + 1} (mesh {n}) raises on every path")
        st = s
        res.append((n, names, ip.toT(v, s), s))
    if ip.stale:
        return ctx.unsure("elements-at-nodes", q,
                          "containers shared by reference", where)
    cases = []
    for m in ms:
        kinds = ["some", "empty", "one", "repeated", "all", "some"]
        for kd in kinds if seq == "A" else kinds[:1]:
            env = {}
            for n, names, _, _ in res:
                for j, x in enumerate(names):
                    env[x] = targets(rng, m[n], kd if j == 0 else "some")
            cases.append((m, env))

    def judge(c):
        m, env = c
        d = dn.Dense({sym(k, "a"): v for k, v in env.items()}, ip, None,
                     Hook({k: v for k, v in m.items() if k in ids}))
        for i, (n, names, t, s) in enumerate(res):
            got = d.ev(t)
            want = m[n].touching(np.concatenate([env[x] for x in names]))
            g = np.asarray(list(got) if isinstance(got, set) else got)
            if g.shape != want.shape or not np.array_equal(
                    g.astype(float), want):
                return (f"call {i + 1} (mesh {n}) does not return the "
                        f"sorted elements at the nodes", {
                            "nodes": str([list(env[x]) for x in names]),
                            "connectivity": str(m[n].t.T.tolist()),
                            "derived": str(got), "required": str(want)})
            if g.size and g.dtype.kind not in "iu":
                return "the element numbers are not integers", {
                    "derived": str(g)}
    per_case(ctx, "elements-at-nodes", q, where, cases, judge,
             "sorted, unique, exactly the elements at the nodes")


def neighbours(sp):
    return np.array([[len(set(sp.t[:, i]) & set(sp.t[:, j])) > 0
                      for j in range(sp.ne)] for i in range(sp.ne)])


def matrices(ctx):
    for name in ("build_element_adjacency_matrix",
                 "build_element_adjacency_matrix_fast"):
        f = ctx.proj.lookup(MU + name)
        if f is None:
            continue
        w = World({"A": 1})
        ip = ctx.ip(w.models())
        st = State()
        A = ip.sym_obj(st, None, "A")
        s, v = ip.run(f, [A], {}, st)
        q = f.qual
        if s is None:
            ctx.bad("adjacency", q, f.where, "raises on every path")
            continue
        if ip.stale:
            ctx.unsure("adjacency", q, "containers shared by reference",
                       f.where)
            continue
        t = ip.toT(v, s)
        _, ms = meshes(ctx, 4 if ctx.tier == "quick" else 20)

        def judge(m):
            d = dn.Dense({}, ip, None, Hook({"A": m["A"]}))
            got = d.ev(t)
            a = got.a if isinstance(got, Sp) else np.asarray(got)
            want = neighbours(m["A"])
            if a.shape != want.shape:
                return "the matrix is not elements by elements", {
                    "shape": str(a.shape)}
            off = ~np.eye(len(want), dtype=bool)
            if not np.array_equal((a != 0)[off], want[off]):
                i, j = np.argwhere(((a != 0) != want) & off)[0]
                return ("entry is not 'share a node'", {
                    "elements": f"{i}: {m['A'].t[:, i]}, "
                                f"{j}: {m['A'].t[:, j]}",
                    "derived": str(a[i, j])})
        per_case(ctx, "adjacency", q, f.where, ms, judge,
                 "two elements are adjacent exactly when they share a node")


def adjacent(ctx):
    for name in ("get_adjacent_elements", "get_adjacent_elements_fast"):
        f = ctx.proj.lookup(MU + name)
        if f is None:
            continue
        for shape in ("array", "list"):
            adj_one(ctx, f, name, shape)


def adj_one(ctx, f, name, shape):
    w = World({"A": 1})
    ip = ctx.ip(w.models())
    st = State()
    A = ip.sym_obj(st, None, "A")
    G = sym("given", "a")
    g = ip.new_arr(st, G, "given") if shape == "array" else ip.new_list(
        st, G)
    first = ADJ if name.endswith("fast") else A
    s, v = ip.run(f, [first, g], {}, st)
    q = f"{f.qual} [{shape}]"
    if s is None:
        return ctx.bad("adjacent-elements", q, f.where,
                       "raises on every path")
    if ip.stale:
        return ctx.unsure("adjacent-elements", q,
                          "containers shared by reference", f.where)
    t = ip.toT(v, s)
    rng, ms = meshes(ctx, 4 if ctx.tier == "quick" else 20)
    cases = []
    for m in ms:
        ne = m["A"].ne
        for given in ([], [int(rng.integers(ne))],
                      list(rng.permutation(ne)[:3]),
                      list(rng.permutation(ne)[:2]) * 2, list(range(ne))):
            cases.append((m["A"], np.array(given, dtype=int)))

    def judge(c):
        sp, given = c
        base = neighbours(sp)
        for diag in ((True, False) if first is ADJ else (True,)):
            a = base.astype(float)
            if not diag:
                np.fill_diagonal(a, 0)
            d = dn.Dense({G: given if shape == "array" else list(given),
                          ADJ: Sp(a)}, ip, None, Hook({"A": sp}))
            got = d.ev(t)
            x = np.asarray(sorted(got) if isinstance(got, set) else got)
            want = np.setdiff1d(np.nonzero(base[given].any(0))[0], given)
            if x.shape != want.shape or not np.array_equal(
                    x.astype(float), want):
                return ("is not the sorted set of other elements sharing a "
                        "node with the given ones", {
                            "given": str(given), "derived": str(got),
                            "required": str(want)})
    per_case(ctx, "adjacent-elements", q, f.where, cases, judge,
             "the other elements sharing a node, sorted")


def c29(ctx):
    tm.KEEP_AXES = True
    ctx.section("elements at nodes", by_nodes, ctx)
    ctx.section("adjacency", matrices, ctx)
    ctx.section("adjacent elements", adjacent, ctx)
