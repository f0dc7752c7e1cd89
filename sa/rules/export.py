"""Exported mesh files (C36): what the export functions hand to the writer,
read over small tetrahedral and hexahedral meshes."""
from __future__ import annotations

from .. import terms as tm
from .. import dense as dn
from ..dense import np
from ..terms import T, const, sym, mk
from ..interp import State
from ..values import Dct, Meth, Obj, Tup
from . import scale
from .opt import named
from .orient import GROUP
from .scale import BASIS, BasisV, MeshV
from .tasks import Space, per_case

# corner i of the file's hexahedron is corner VTK[i] of scikit-fem's
VTK = [0, 3, 6, 2, 1, 5, 7, 4]
RULE = "exported mesh"
MESH = mk("attr", BASIS, "mesh")
RHO, THR, DE, FX, ALL = (sym("x.rho", "a"), sym("x.threshold", "s"),
                         sym("x.design", "a"), sym("x.fixed", "a"),
                         sym("x.all", "a"))
FREE = sym("x.free", "a")


class Hook(scale.Hook):
    """also the ways to take a part of a mesh"""

    def __call__(self, d, t, E):
        if t.op == "call" and isinstance(t.args[0], str):
            f = t.args[0]
            a = t.args[1:]
            if f == "isinstance":
                o = d.ev(a[0], E)
                if isinstance(o, MeshV):
                    return self.kind_of(o, a[1])
                return None
            if f in (".restrict", ".remove_elements") and len(a) == 2:
                o = d.ev(a[0], E)
                if isinstance(o, MeshV):
                    k = np.asarray(d.ev(a[1], E))
                    if k.dtype == bool:
                        k = np.nonzero(k)[0]
                    k = k.astype(int)
                    if f == ".remove_elements":
                        k = np.setdiff1d(np.arange(o.t.shape[1]), k)
                    t2 = o.t[:, k]
                    u, inv = np.unique(t2, return_inverse=True)
                    return MeshV(o.kind, o.p[:, u], inv.reshape(t2.shape),
                                 o.named)
        return super().__call__(d, t, E)

    @staticmethod
    def kind_of(o, c):
        cs = c.args if c.op in ("tuple", "list") else (c,)
        names = [str(x.args[0]).rsplit(".", 1)[-1] for x in cs
                 if x.op in ("ext", "class")]
        if len(names) != len(cs):
            raise dn.Undecided("isinstance")
        return any(n in ("Mesh", "Mesh3D", o.kind, o.kind + "1")
                   for n in names)


def writers(files):
    """models of the file writers: every written file is recorded"""
    def toT(ip, st, v):
        return None if v is None else ip.toT(v, st)

    def record(ip, st, mesh, path, how, where):
        files.append({"mesh": mesh, "path": toT(ip, st, path), "how": how,
                      "st": st.fork(), "node": where})

    def cellblock(ip, st, a, k, node):
        b = named(a, k, ["cell_type", "data", "tags"])
        return Tup([b["cell_type"], b["data"]])

    def mesh(ip, st, a, k, node):
        b = named(a, k, ["points", "cells", "point_data", "cell_data"])
        o = ip.sym_obj(st, None, "file.mesh")
        for n in ("points", "cells", "point_data", "cell_data"):
            v = b.get(n)
            if v is None or v is tm.NONE:
                v = ip.new_dict(st, {})
            st.heap[("o", o.oid, n)] = v
        st.heap[("o", o.oid, "write")] = Meth(o, "write")
        return o

    def write(ip, st, a, k, node):
        o = ip.force(a[0], st)
        if isinstance(o, Obj) and o.path == "file.mesh":
            b = named(a, k, ["self", "path_or_buf", "file_format"])
            record(ip, st, o, b.get("path_or_buf"), "meshio", node)
            return tm.NONE
        return NotImplemented

    def write2(ip, st, a, k, node):
        b = named(a, k, ["filename", "mesh", "file_format"])
        o = ip.force(b["mesh"], st)
        if isinstance(o, Obj) and o.path == "file.mesh":
            record(ip, st, o, b.get("filename"), "meshio", node)
            return tm.NONE
        return NotImplemented

    def write3(ip, st, a, k, node):
        b = named(a, k, ["filename", "points", "cells", "point_data",
                         "cell_data"])
        o = mesh(ip, st, [], {n: v for n, v in b.items()
                              if n != "filename"}, node)
        record(ip, st, o, b["filename"], "meshio", node)
        return tm.NONE

    def save(ip, st, a, k, node):
        o = ip.force(a[0], st)
        if isinstance(o, Obj) and o.path == "file.mesh":
            return NotImplemented
        b = named(a, k, ["self", "filename", "point_data", "cell_data"])
        record(ip, st, {"mesh": ip.toT(o, st),
                        "point_data": b.get("point_data"),
                        "cell_data": b.get("cell_data")},
               b.get("filename"), "skfem", node)
        return tm.NONE

    return {"meshio.Mesh": mesh, "meshio.CellBlock": cellblock,
            ".write": write, "meshio.write": write2,
            "meshio.write_points_cells": write3, ".save": save}


def items(ip, v, st):
    """(key term, value) pairs of a dictionary, or None"""
    v = ip.force(v, st)
    if isinstance(v, Dct):
        c = st.heap.get(("d", v.did))
        if isinstance(c, dict):
            return [(k if isinstance(k, T) else const(k), x)
                    for k, x in c.items()]
        return None
    if v is tm.NONE or v is None:
        return []
    return None


def blocks(ip, v, st):
    """(type, connectivity term) pairs of the cells, or None"""
    v = ip.force(v, st)
    if isinstance(v, Dct):
        r = items(ip, v, st)
        return r and [(k, ip.toT(x, st)) for k, x in r]
    its = ip.list_items(v, st)
    if its is None:
        return None
    out = []
    for b in its:
        two = ip.list_items(ip.force(b, st), st)
        if two is None or len(two) < 2:
            return None
        out.append((ip.toT(two[0], st), ip.toT(two[1], st)))
    return out


# ---------------------------------------------------------------- cases
def cases(ctx, k, want=None):
    out = []
    for j in range(k):
        rng = np.random.default_rng(900 * ctx.seed + 13 * j + 3)
        sp = Space(rng, 3, 4 if j % 2 else 8)
        kind = "MeshTet" if j % 2 else "MeshHex"
        if want and kind != want:
            continue
        ne = sp.ne
        perm = rng.permutation(ne)
        # some of the elements are not designed; at times all or none are
        nd = {0: ne, 1: 1}.get(j // 2 % 5, int(rng.integers(2, ne - 1)))
        de = perm[:nd]
        if j % 3:
            de = np.sort(de)
        thr = [0.5, 0.3, 0.71][j % 3]
        rho = rng.random(ne)
        rho[np.abs(rho - thr) < 0.02] += 0.05
        if nd > 2:
            rho[de[0]] = thr            # on the threshold: left out
        if j % 4 == 3:
            rho[:] = thr + 0.1          # everything stays
        if nd == ne and not (rho > thr).any():
            rho[0] = thr + 0.1
        out.append({
            "sp": sp, "kind": kind, "basis": BasisV(MeshV(
                kind, sp.p, sp.t, None), "element", ("given", j)),
            "env": {RHO: rho, THR: thr, DE: de, ALL: np.arange(ne),
                    FX: np.setdiff1d(np.arange(ne), de),
                    FREE: np.sort(rng.permutation(ne)[:max(ne // 2, 1)])},
            "kept": np.array([e for e in range(ne)
                              if e not in de or rho[e] > thr], int)})
    return out


def cell_ok(kind, want, got):
    """the file's row ``got`` is the cell of scikit-fem's column ``want``"""
    if kind == "MeshTet":
        return sorted(want) == sorted(got)
    if sorted(want) != sorted(got):
        return False
    back = [None] * 8
    for i, g in enumerate(got):
        back[VTK[i]] = g
    order = tuple(list(want).index(x) for x in back)
    return any(order == g for g, _ in GROUP)


def shown(c):
    return {"mesh": c["kind"], "elements": c["sp"].t.T.tolist(),
            "design_elements": c["env"][DE].tolist(),
            "rho": c["env"][RHO].round(3).tolist(),
            "threshold": c["env"][THR]}


def reader(ip, c, n=None):
    return dn.Dense(dict(c["env"]), ip, n or c["sp"].ne, Hook(c["basis"]))


def here(d, f):
    """is the file written in this reading?"""
    return all(d.truth(d.ev(x)) for x in f["st"].pc)


def c36(ctx):
    """The meshes, fields and paths given to the file writers by the export
    functions, read over small meshes and compared with the mesh and fields
    they describe."""
    tm.KEEP_AXES = True
    k = 16 if ctx.tier == "quick" else 80
    for sec in (submesh, fields, condition):
        ctx.section(sec.__name__, sec, ctx, cases(ctx, k))


def task(ip, st, ctx):
    t = ip.sym_obj(st, ctx.proj.need("sktopt.mesh.LinearElasticity"), "tsk")
    H = st.heap
    H[("o", t.oid, "basis")] = BASIS
    for n, x in (("design_elements", DE), ("all_elements", ALL),
                 ("fixed_elements", FX), ("free_elements", FREE)):
        H[("o", t.oid, n)] = ip.new_arr(st, x, n, Tup([mk("len", x)]))
    return t


def one_file(ctx, q, where, fs, d, c):
    """the file written in this reading, or a violation text"""
    if not fs:
        raise dn.Undecided("no file writer in reach")
    got = [f for f in fs if here(d, f)]
    if not got:
        return None, "no file is written"
    if len(got) > 1 and len({f["path"] for f in got}) < len(got):
        return None, "the file is written twice"
    return got[-1], None


# --------------------------------------------------------------- submesh
def submesh(ctx, cs):
    fi = ctx.proj.need("sktopt.mesh.visualization.export_submesh")
    fs = []
    ip, st = ctx.ip(writers(fs)), State()
    path = sym("x.path", "s")
    ip.types[THR] = {"float"}
    ip.types[path] = {"str"}
    ro = ip.new_arr(st, RHO, "rho", Tup([mk("len", RHO)]))
    s, _ = ip.run(fi, [task(ip, st, ctx), ro, THR, path], {}, st)
    if s is None:
        return ctx.bad(RULE, fi.qual, fi.where, "raises on every path")

    def judge(c):
        d = reader(ip, c)
        f, why = one_file(ctx, fi.qual, fi.where, fs, d, c)
        if why:
            return why, shown(c)
        if f["path"] is not path:
            if tm.kind(f["path"]) != "s" or tm.has_unk(f["path"]):
                raise dn.Undecided("path")
            return "the file is not written to the given path", {
                "path": tm.show(f["path"], 6)}
        p, rows, why = geometry(ip, d, f, c)
        if why:
            return why, shown(c)
        want = [tuple(map(tuple, c["sp"].p[:, c["sp"].t[:, e]].T))
                for e in c["kept"]]
        if len(rows) != len(want):
            return f"{len(rows)} elements are written, {len(want)} are " \
                   "solid or not designed", shown(c)
        if any(x is None or not 0 <= x < p.shape[1] for r in rows for x in r):
            return "an element of the file names a point that is not there", \
                shown(c)
        used = sorted({x for r in rows for x in r})
        if used != list(range(p.shape[1])):
            return "the file has points that belong to no element", shown(c)
        left = list(want)
        for r in rows:
            r = tuple(map(tuple, p[:, r].T))
            m = next((w for w in left if same_cell(c["kind"], w, r,
                                                   f["how"])), None)
            if m is None:
                return "an element of the file is not one of the elements " \
                       "that are kept", shown(c)
            left.remove(m)
        return None
    per_case(ctx, RULE, f"{fi.qual}", fi.where, cs, judge,
             "exactly the elements above the threshold and the undesigned "
             "ones, on their own points")


def same_cell(kind, want, got, how):
    if sorted(want) != sorted(got):
        return False
    w = list(want)
    order = [w.index(x) for x in got]
    if kind == "MeshTet":
        return True
    if how == "skfem":
        return any(tuple(order) == g for g, _ in GROUP)
    return cell_ok(kind, list(range(8)), order)


def geometry(ip, d, f, c):
    """(points as columns, rows of point numbers, violation)"""
    st = f["st"]
    if f["how"] == "skfem":
        m = d.ev(f["mesh"]["mesh"])
        if not isinstance(m, MeshV):
            raise dn.Undecided("mesh")
        if m.kind != c["kind"]:
            return None, None, f"a {c['kind']} is written as {m.kind}"
        return m.p, np.asarray(m.t).T.tolist(), None
    o = f["mesh"]
    bs = blocks(ip, st.heap[("o", o.oid, "cells")], st)
    if bs is None:
        raise dn.Undecided("cells")
    if len(bs) != 1:
        return None, None, f"{len(bs)} cell blocks for one kind of element"
    ty = d.ev(bs[0][0])
    want = {"MeshTet": "tetra", "MeshHex": "hexahedron"}[c["kind"]]
    if ty != want:
        return None, None, f"the cells of a {c['kind']} are labelled {ty!r}"
    p = np.asarray(d.ev(ip.toT(st.heap[("o", o.oid, "points")], st)))
    rows = np.asarray(d.ev(bs[0][1]))
    if rows.ndim != 2 or rows.shape[1] != c["sp"].t.shape[0]:
        return None, None, "the cells do not list one element per row"
    if p.ndim != 2 or p.shape[1] != 3:
        return None, None, "the points do not list one point per row"
    return p.T, rows.tolist(), None


def whole_mesh(ip, d, f, c):
    p, rows, why = geometry(ip, d, f, c)
    if why:
        return why
    sp = c["sp"]
    if p.shape != sp.p.shape or not np.allclose(p, sp.p):
        return "the points of the file are not the mesh's points in order"
    if len(rows) != sp.ne:
        return "the file has another number of elements"
    for e, r in enumerate(rows):
        ok = cell_ok(c["kind"], sp.t[:, e].tolist(), r) \
            if f["how"] == "meshio" else same_cell(
                c["kind"], tuple(sp.t[:, e].tolist()), tuple(r), "skfem")
        if not ok:
            if sorted(r) == sorted(sp.t[:, e].tolist()):
                return f"element {e} is tangled: its corners are not in " \
                       "the file format's order"
            return f"cell {e} of the file is not element {e}"
    return None


def data(ip, f, which):
    st = f["st"]
    v = f["mesh"].get(which) if f["how"] == "skfem" else st.heap[
        ("o", f["mesh"].oid, which)]
    r = items(ip, v, st)
    if r is None:
        raise dn.Undecided(which)
    out = {}
    for k, x in r:
        if k.op != "const":
            raise dn.Undecided("name of a field")
        out[tm.cval(k)] = x
    return out


def cell_field(ip, d, f, x):
    """cell data are a list with one array per block of cells"""
    st = f["st"]
    its = ip.list_items(ip.force(x, st), st)
    if its is None:
        v = d.ev(ip.toT(x, st))
        if isinstance(v, (list, tuple)) and len(v) == 1:
            return np.asarray(v[0])
        return np.asarray(v)[0] if np.ndim(v) == 2 else None
    if len(its) != 1:
        return None
    return np.asarray(d.ev(ip.toT(its[0], st)))


# ---------------------------------------------------------------- fields
def fields(ctx, cs):
    fi = ctx.proj.need("sktopt.core.visualization.export_mesh_with_info")
    for npt, nc in ((0, 0), (0, 1), (0, 2), (1, 0), (2, 1), (2, 3)):
        ctx.section(f"fields {npt} {nc}", one_export, ctx, fi, npt, nc, cs)


def one_export(ctx, fi, npt, nc, cs):
    fs = []
    ip, st = ctx.ip(writers(fs)), State()
    path = sym("x.path", "s")
    ip.types[path] = {"str"}
    F = [sym(f"x.field{i}", "a") for i in range(npt + nc)]
    arr = [ip.new_arr(st, x, f"field {i}", Tup([mk("len", x)]))
           for i, x in enumerate(F)]
    names = ["zeta", "alpha", "mid"]
    kw = {"filepath": path}
    if npt:
        kw["point_data_values"] = ip.new_list(st, arr[:npt])
        kw["point_data_names"] = ip.new_list(st, [
            const(n) for n in names[:npt]])
    if nc:
        kw["cell_data_values"] = ip.new_list(st, arr[npt:])
        kw["cell_data_names"] = ip.new_list(st, [
            const(n) for n in names[:nc]])
    s, _ = ip.run(fi, [MESH], kw, st)
    q = f"{fi.qual} [{npt} point fields, {nc} element fields]"
    if s is None:
        return ctx.bad(RULE, q, fi.where, "raises on every path")

    def judge(c):
        rng = np.random.default_rng(5)
        sp = c["sp"]
        env = {x: rng.random(sp.nn if i < npt else sp.ne)
               for i, x in enumerate(F)}
        c = {**c, "env": {**c["env"], **env}}
        d = reader(ip, c)
        f, why = one_file(ctx, q, fi.where, fs, d, c)
        if why:
            return why, shown(c)
        if f["path"] is not path:
            if tm.has_unk(f["path"]):
                raise dn.Undecided("path")
            return "the file is not written to the given path", {
                "path": tm.show(f["path"], 6)}
        why = whole_mesh(ip, d, f, c)
        if why:
            return why, shown(c)
        pd, cd = data(ip, f, "point_data"), data(ip, f, "cell_data")
        for have, xs, what in ((pd, F[:npt], "point"),
                               (cd, F[npt:], "element")):
            if set(have) != set(names[:len(xs)]):
                return f"the {what} fields in the file are " \
                       f"{sorted(map(str, have))}, given " \
                       f"{sorted(names[:len(xs)])}", {}
            for n, x in zip(names, xs):
                if what == "point":
                    v = np.asarray(d.ev(ip.toT(have[n], f["st"])))
                else:
                    v = cell_field(ip, d, f, have[n])
                    if v is None:
                        return f"element field {n!r} is not one array for " \
                               "the one block of cells", {}
                if v.shape != env[x].shape or not np.allclose(v, env[x]):
                    return f"{what} field {n!r} holds other values than " \
                           "those given under this name", {
                               "given": env[x].tolist(), "file": v.tolist()}
        return None
    per_case(ctx, RULE, q, fi.where, cs, judge, "the mesh in the file "
             "format's numbering, each field under its name")


# ------------------------------------------------------------- condition
NODES = {n: [sym(f"x.{n}{i}", "a") for i in range(2)]
         for n in ("neumann", "dirichlet", "robin")}
COLOUR = {"neumann": 1, "dirichlet": 2, "robin": 3}


def condition(ctx, cs):
    cls = ctx.proj.need("sktopt.mesh.FEMDomain")
    fi = cls.find("export_analysis_condition_on_mesh", ctx.proj)
    for shape in (("array", "array", None), ("list", "list", None),
                  ("array", "list", "array"), ("list", "array", "list"),
                  (None, "list", "list"), (None, "array", None)):
        ctx.section(f"condition {shape}", one_condition, ctx, fi, shape, cs)


def one_condition(ctx, fi, shape, cs):
    fs = []
    ip, st = ctx.ip(writers(fs)), State()
    path = sym("x.path", "s")
    ip.types[path] = {"str"}
    t = task(ip, st, ctx)
    on = {}
    for n, how in zip(NODES, shape):
        a = [ip.new_arr(st, x, n + " nodes", Tup([mk("len", x)]))
             for x in NODES[n]]
        st.heap[("o", t.oid, n + "_nodes")] = tm.NONE if how is None else \
            ip.new_list(st, a) if how == "list" else a[0]
        on[n] = {None: [], "list": NODES[n], "array": NODES[n][:1]}[how]
    s, _ = ip.meth(t, fi.name, [path], {}, st)
    q = f"{fi.qual} [" + ", ".join(f"{n}: {h or 'none'}" for n, h in zip(
        NODES, shape)) + "]"
    if s is None:
        return ctx.bad(RULE, q, fi.where, "raises on every path")

    def judge(c):
        sp = c["sp"]
        rng = np.random.default_rng(sp.ne * 7 + sp.nn)
        env = {x: rng.permutation(sp.nn)[:max(2, sp.nn // 5)]
               for xs in NODES.values() for x in xs}
        c = {**c, "env": {**c["env"], **env}}
        d = reader(ip, c)
        f, why = one_file(ctx, q, fi.where, fs, d, c)
        if why:
            return why, shown(c)
        why = whole_mesh(ip, d, f, c)
        if why:
            return why, shown(c)
        pd, cd = data(ip, f, "point_data"), data(ip, f, "cell_data")
        if "node_color" not in pd or "condition" not in cd:
            return "the file lacks the node colours or the element " \
                   "conditions", {}
        col = np.asarray(d.ev(ip.toT(pd["node_color"], f["st"])))
        if col.shape != (sp.nn,):
            return "not one colour per node", {}
        for i in range(sp.nn):
            may = [COLOUR[n] for n, xs in on.items()
                   if any(i in env[x] for x in xs)] or [0]
            if int(col[i]) not in may:
                return f"node {i} has colour {int(col[i])}; it belongs to " \
                       f"the regions with colours {may}", {
                           n: [env[x].tolist() for x in xs]
                           for n, xs in on.items()}
        v = cell_field(ip, d, f, cd["condition"])
        if v is None or v.shape != (sp.ne,):
            return "not one condition per element", {}
        de = set(c["env"][DE].tolist())
        for e in range(sp.ne):
            w = 3 if e in de else 2
            if int(v[e]) != w:
                return f"element {e} is marked {int(v[e])}; it is " + (
                    "designed (3)" if w == 3 else "not designed (2)"), \
                    shown(c)
        return None
    per_case(ctx, RULE, q, fi.where, cs, judge, "nodes and elements marked "
             "by their regions, on the mesh in the file format's numbering")
