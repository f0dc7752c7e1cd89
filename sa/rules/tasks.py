"""Task construction: index sets (C21), boundary loads (C22), element lookup
(C29), mesh tags (C30).

The public constructors are analysed for every shape of their arguments
(array or list, with and without Neumann and Robin regions); the derived
attributes are read over small random tetrahedral and hexahedral meshes."""
from __future__ import annotations

from .. import terms as tm
from .. import dense as dn
from ..dense import np
from ..terms import T, const, sym, mk
from ..interp import State
from ..values import Cls, Obj, Tup, MISSING
from . import fem

TC = "sktopt.mesh.task_common."
TE = "sktopt.mesh.task_elastic."
TH = "sktopt.mesh.task_heat."
MU = "sktopt.mesh.utils."
BASIS = sym("basis", "s")
MESH = mk("attr", BASIS, "mesh")
DE = sym("design_elements", "a")

TET_FACES = ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3))
HEX_FACES = ((0, 1, 4, 2), (0, 3, 6, 2), (0, 3, 5, 1), (2, 4, 7, 6),
             (1, 5, 7, 4), (3, 6, 7, 5))


class Dofs:
    """scikit-fem's DofsView of a set of nodes"""

    def __init__(self, sp, nodes):
        self.sp = sp
        self.nodes = np.unique(np.asarray(nodes, dtype=int))

    @property
    def nodal(self):
        return {n: self.sp.nodal_dofs[i][self.nodes]
                for i, n in enumerate(self.sp.names)}

    def all(self, key=None):
        if key is not None:
            return self.keep(key).all()
        return np.sort(self.sp.nodal_dofs[:, self.nodes].ravel())

    flatten = all

    def keep(self, names):
        names = [names] if isinstance(names, str) else list(names)
        r = Dofs(self.sp, self.nodes)
        r.all = r.flatten = lambda key=None: np.sort(np.concatenate(
            [self.nodal[n] for n in names]))
        return r

    def __array__(self, *a, **k):
        return self.all()


class Space:
    """a small mesh with a first-order nodal space on it"""

    def __init__(self, rng, ncomp, corners):
        self.rng = rng
        self.ncomp = ncomp
        self.names = ["u^%d" % (i + 1) for i in range(ncomp)] \
            if ncomp > 1 else ["u"]
        ne = int(rng.integers(9, 15))
        nn = int(ne * corners * rng.uniform(0.4, 0.7))
        t = []
        while len(t) < ne:
            c = rng.permutation(nn)[:corners]
            if sorted(c) not in [sorted(x) for x in t]:
                t.append(list(c))
        used = np.unique(np.array(t))
        new = {int(o): i for i, o in enumerate(used)}
        self.t = np.array([[new[int(x)] for x in c] for c in t]).T
        self.nn, self.ne = len(used), ne
        self.p = rng.random((3, self.nn)) - rng.random((3, 1))
        self.corners = corners
        fs, own, t2f = [], [], []
        for e in range(ne):
            row = []
            for f in (TET_FACES if corners == 4 else HEX_FACES):
                k = tuple(sorted(self.t[i, e] for i in f))
                if k not in fs:
                    fs.append(k)
                    own.append([e, -1])
                else:
                    own[fs.index(k)][1] = e
                row.append(fs.index(k))
            t2f.append(row)
        self.facets = np.array(fs).T
        self.t2f = np.array(t2f).T
        self.f2t = np.array(own).T
        self.nodal_dofs = np.arange(ncomp * self.nn).reshape(
            (ncomp, self.nn), order="F")
        self.N = ncomp * self.nn

    def volumes(self):
        return np.linspace(0.3, 1.1, self.ne)

    def touching(self, nodes):
        return np.nonzero(np.isin(self.t, nodes).any(0))[0]

    def some_facets(self, k):
        return self.rng.permutation(self.facets.shape[1])[:k]

    def nodes_of(self, facets):
        return np.unique(self.facets[:, facets])

    # readings -----------------------------------------------------------
    def __call__(self, d, t, E):
        if t is BASIS or t is MESH:
            return self
        if t.op == "attr":
            n = t.args[1] if not isinstance(t.args[1], T) else tm.cval(
                t.args[1])
            if t.args[0] is BASIS:
                r = {"N": self.N, "nodal_dofs": self.nodal_dofs,
                     "elem": "element", "nelems": self.ne,
                     "dofs": self}.get(n)
                if r is None:
                    raise dn.Undecided("basis." + str(n))
                return r
            if t.args[0] is MESH:
                r = {"t": self.t, "p": self.p, "facets": self.facets,
                     "nelements": self.ne, "nvertices": self.nn,
                     "nfacets": self.facets.shape[1], "t2f": self.t2f,
                     "f2t": self.f2t, "nnodes": self.nn}.get(n)
                if r is None:
                    raise dn.Undecided("mesh." + str(n))
                return r
            if n in ("nodal", "nodal_ix"):
                o = d.ev(t.args[0], E)
                if isinstance(o, Dofs):
                    return o.nodal
            return None
        if t.op == "gather":
            b = d.ev(t.args[0], E)
            if isinstance(b, str):
                return b[d.index(t.args[1], E)]
            if isinstance(b, dict) and set(b) == set(self.names):
                k = d.ev(t.args[1], E)
                if k not in b:
                    raise dn.Crash(f"KeyError: {k!r} is no component")
                return b[k]
            return None
        if t.op != "call":
            return None
        f = t.args[0]
        if f == ".get_dofs" and t.args[1] is BASIS:
            kw = {x.args[0]: d.ev(x.args[1], E) for x in t.args[2:]
                  if x.op == "kw"}
            if len(kw) == len(t.args) - 2 == 1:
                (k, v), = kw.items()
                if k == "nodes":
                    return Dofs(self, v)
                if k == "facets":
                    return Dofs(self, self.nodes_of(v))
                if k == "elements":
                    return Dofs(self, self.t[:, v])
            if len(t.args) == 3 and t.args[2].op != "kw":
                return Dofs(self, self.nodes_of(d.ev(t.args[2], E)))
            raise dn.Undecided("get_dofs")
        if f in ("np.all", ".all", ".flatten", "np.asarray", "np.array",
                 "np.ravel", ".keep") and len(t.args) > 1:
            o = d.ev(t.args[1], E)
            if isinstance(o, Dofs):
                if f == ".keep":
                    return o.keep(d.ev(t.args[2], E))
                return o.all(*[d.ev(x, E) for x in t.args[2:]])
            return None
        if f == "elements_by_nodes":
            v = d.ev(t.args[2], E)
            if isinstance(v, (list, tuple)):
                v = np.concatenate([np.asarray(x) for x in v])
            return self.touching(v)
        if f == "elements_volume":
            return self.volumes()
        if f == "isinstance":
            return self.isinstance(d, t, E)
        return None

    def isinstance(self, d, t, E):
        v = d.ev(t.args[1], E)
        c = t.args[2]
        cs = c.args if c.op in ("tuple", "list") else (c,)
        names = [str(x.args[0]).rsplit(".", 1)[-1] for x in cs
                 if x.op in ("ext", "class")]
        if len(names) != len(cs):
            raise dn.Undecided("isinstance")
        if v is self:
            mine = ("Mesh", "Mesh3D", "MeshTet" if self.corners == 4
                    else "MeshHex", "MeshTet1" if self.corners == 4
                    else "MeshHex1")
            return any(n in mine for n in names)
        mine = {list: ("list", "Sequence", "Iterable"),
                tuple: ("tuple", "Sequence", "Iterable"),
                str: ("str",), bool: ("bool", "int"),
                int: ("int", "Integral", "Number"),
                float: ("float", "Real", "Number"),
                np.ndarray: ("ndarray", "Iterable")}.get(
            type(v) if not isinstance(v, np.generic) else {
                "b": bool, "i": int, "u": int, "f": float}.get(v.dtype.kind))
        if mine is None:
            raise dn.Undecided("isinstance")
        return any(n in mine for n in names)


def models(ctx, lookup=True):
    m = fem.models(ctx)
    if lookup:
        m[MU + "get_elements_by_nodes"] = lambda ip, st, a, k, node: \
            ip.new_arr(st, mk("call", "elements_by_nodes", *[
                ip.toT(x, st) for x in list(a) + list(k.values())]),
                "elements")
    m["sktopt.fea.composer.get_elements_volume"] = \
        lambda ip, st, a, k, node: ip.new_arr(st, mk(
            "call", "elements_volume", *[ip.toT(x, st) for x in list(a)
                                         + list(k.values())]), "volumes")
    return m


def per_case(ctx, rule, construct, where, cases, judge, good):
    why, used = None, 0
    for c in cases:
        try:
            r = judge(c)
        except dn.Crash as e:
            return ctx.bad(rule, construct, where, f"raises: {e}")
        except dn.Undecided as e:
            why = why or f"{type(e).__name__}: {e}"
            continue
        used += 1
        if r is not None:
            return ctx.bad(rule, construct, where, r[0], r[1])
    if why is not None:
        return ctx.unsure(rule, construct, why, where)
    ctx.count("array readings", used)
    return ctx.ok(rule, construct, f"{good} ({used} readings)", where)


def live(d, pc):
    """does this path run, for the given values?"""
    return all(bool(d.ev(c)) for c in pc)


# ------------------------------------------------------------- task shapes
class Shape:
    """one shape of the constructor's arguments"""

    def __init__(self, name, cls, dirichlet, direction, loads=None,
                 load_dirs=None, robin=None, design_robin=None, values=None,
                 via="from_facets"):
        self.name = name
        self.cls = cls                   # "elastic" | "heat" | "domain"
        self.dirichlet = dirichlet       # None | 0 (array) | n (list)
        self.direction = direction
        self.loads = loads
        self.load_dirs = load_dirs
        self.robin = robin
        self.design_robin = design_robin
        self.values = values
        self.via = via

    @property
    def ncomp(self):
        return 1 if self.cls == "heat" else 3


def shapes():
    S = Shape
    out = []
    for d, dr in ((0, "all"), (0, "u^1"), (1, ["u^2"]), (2, ["all", "u^3"]),
                  (3, ["u^1", "u^2", "all"])):
        for l, ld in ((0, "u^3"), (1, ["u^1"]), (2, ["u^2", "u^3"]),
                      (3, ["u^1", "u^1", "u^3"])):
            out.append(S(f"elasticity, Dirichlet {kind(d)} {dr}, force "
                         f"{kind(l)} {ld}", "elastic", d, dr, l, ld))
    for d in (0, 1, 2, 3):
        for r, dz in ((None, None), (0, True), (0, False), (1, False),
                      (2, True), (2, False), (3, None)):
            if d == 3 and r not in (None, 3):
                continue
            out.append(S(f"heat, Dirichlet {kind(d)}, Robin {kind(r)}"
                         f"{'' if r is None else f' designable: {dz}'}",
                         "heat", d, None, robin=r, design_robin=dz))
    for d, l, r, dz in ((0, 0, 0, False), (2, 2, 2, False), (2, 0, 2, True),
                        (0, 2, None, None), (None, 0, 0, True)):
        out.append(S(f"domain, Dirichlet {kind(d)}, Neumann {kind(l)}, "
                     f"Robin {kind(r)} designable: {dz}", "domain", d,
                     ["all", "u^2"] if d else "all" if d == 0 else None,
                     l, ["u^1", "u^2"] if l else "u^1", r, dz))
    for d, l, r, dz in ((0, 0, 0, False), (2, 2, 2, False)):
        out.append(S(f"domain from nodes, Dirichlet {kind(d)}, Neumann "
                     f"{kind(l)}, Robin {kind(r)} designable: {dz}",
                     "domain", d, ["all", "u^2"] if d else "all", l,
                     ["u^1", "u^2"] if l else "u^1", r, dz,
                     via="from_nodes"))
    return out


def kind(n):
    return "none" if n is None else "array" if n == 0 else f"list of {n}"


CLASS = {"elastic": TE + "LinearElasticity",
         "heat": TH + "LinearHeatConduction", "domain": TC + "FEMDomain"}


class Build:
    """the constructor run on symbolic arguments of one shape"""

    space = Space

    def __init__(self, ctx, sh):
        self.ctx, self.sh = ctx, sh
        self.cls = ctx.proj.need(CLASS[sh.cls])
        self.ip = ip = ctx.ip(models(ctx))
        st = State()
        self.given = {}

        def region(n, name):
            if n is None:
                return tm.NONE, []
            ss = [sym(f"{name}{i}", "a") for i in range(max(n, 1))]
            aa = []
            for s in ss:
                a = ip.new_arr(st, s, s.args[0], Tup([mk("len", s)]))
                self.given[s] = a
                aa.append(a)
            return (ip.new_list(st, aa) if n else aa[0]), ss

        def number(n, name):
            if n is None:
                return tm.NONE, []
            ss = [sym(f"{name}{i}", "s") for i in range(max(n, 1))]
            for s in ss:
                ip.types[s] = {"float"}
            return (ip.new_list(st, ss) if n else ss[0]), ss

        def text(x):
            if isinstance(x, list):
                return ip.new_list(st, [const(y) for y in x])
            return const(x)
        w = "nodes" if sh.via == "from_nodes" else "facets"
        D, self.D = region(sh.dirichlet, f"dirichlet_{w}_")
        L, self.L = region(sh.loads, f"neumann_{w}_")
        R, self.R = region(sh.robin, f"robin_{w}_")
        de = ip.new_arr(st, DE, "design_elements", Tup([mk("len", DE)]))
        self.given[DE] = de
        dv, self.dv = number(sh.dirichlet if sh.cls == "heat" else None,
                             "dirichlet_value")
        lv, self.lv = number(sh.loads, "load")
        rh, self.rh = number(sh.robin, "robin_h")
        rt, self.rt = number(sh.robin, "robin_T")
        dz = const(sh.design_robin)
        if sh.cls == "elastic":
            kw = dict(basis=BASIS, dirichlet_facets_ids=D,
                      dirichlet_dir=text(sh.direction), force_facets_ids=L,
                      force_dir_type=text(sh.load_dirs), force_value=lv,
                      design_elements=de, E=sym("E", "s"), nu=sym("nu", "s"))
        elif sh.cls == "heat":
            kw = dict(basis=BASIS, dirichlet_facets_ids=D,
                      dirichlet_values=dv, robin_facets_ids=R,
                      robin_coefficient=rh, robin_bc_value=rt,
                      design_robin_boundary=dz, design_elements=de,
                      k=sym("k", "s"), objective=const("compliance"),
                      avg_temp_weight=sym("weight", "s"))
        else:
            kw = dict(basis=BASIS, dirichlet_dir=text(sh.direction),
                      dirichlet_values=tm.NONE,
                      neumann_dir_type=text(sh.load_dirs),
                      neumann_values=lv, robin_coefficient=rh,
                      robin_bc_value=rt, design_robin_boundary=dz,
                      design_elements=de)
            if sh.via == "from_nodes":
                kw.update(dirichlet_nodes=D, neumann_nodes=L, robin_nodes=R,
                          robin_facets_ids=tm.NONE)
            else:
                kw.update(dirichlet_facets_ids=D, neumann_facets_ids=L,
                          robin_facets_ids=R)
        self.start = st.fork()
        self.s, self.obj = ip.meth(Cls(self.cls), sh.via, [], kw, st)
        f = next((b.methods[sh.via] for b in self.cls.mro(ctx.proj)
                  if sh.via in b.methods), None)
        self.where = f.where if f is not None else self.cls.where

    def attr(self, name, s=None):
        s = s or self.s
        v = self.ip.obj_attr(self.obj, name, s, None, None)
        return None if v is MISSING else self.ip.toT(v, s)

    def cases(self, k):
        out = []
        sh = self.sh
        for j in range(k):
            rng = np.random.default_rng(1000 * self.ctx.seed + 17 * j + 3)
            sp = self.space(rng, sh.ncomp, 4 if j % 2 else 8)
            env = {DE: rng.permutation(sp.ne)[:int(rng.integers(
                max(1, sp.ne - 3), sp.ne + 1))]}
            if j % 3 == 1:
                env[DE] = np.arange(sp.ne)
            nodes = sh.via == "from_nodes"
            for regs, hi in ((self.D, 4), (self.L, 2), (self.R, 2)):
                for s in regs:
                    n = int(rng.integers(1, hi))
                    env[s] = rng.permutation(sp.nn)[:n] if nodes \
                        else sp.some_facets(n)
            for s in self.dv + self.lv + self.rh + self.rt:
                env[s] = float(rng.random()) * 5 - 1.5
            c = {"sp": sp, "env": env, "nodes": lambda s, e=env, q=sp:
                 np.unique(e[s]) if nodes else q.nodes_of(e[s])}
            self.refer(c)
            out.append(c)
        return out

    def refer(self, c):
        """the index sets the constructor must arrive at"""
        sp, sh, env = c["sp"], self.sh, c["env"]
        un = lambda xs: np.unique(np.concatenate(xs)) if xs else \
            np.array([], int)                             # noqa: E731
        dn_ = [c["nodes"](s) for s in self.D]
        dirs = sh.direction if isinstance(sh.direction, list) else [
            sh.direction] * len(dn_)
        dd = []
        for x, d in zip(dn_, dirs):
            dd.append(np.sort(sp.nodal_dofs[:, x].ravel()) if d in (
                "all", None) else sp.nodal_dofs[int(d[2:]) - 1][x])
        c["dirichlet_nodes"] = dn_
        c["dirichlet_dofs"] = dd
        c["fixed_dofs"] = un(dd)
        c["free_dofs"] = np.setdiff1d(np.arange(sp.N), c["fixed_dofs"])
        ln, rn = un([c["nodes"](s) for s in self.L]), un(
            [c["nodes"](s) for s in self.R])
        c["neumann_nodes"], c["robin_nodes"] = ln, rn
        c["dirichlet_elements"] = sp.touching(un(dn_))
        c["neumann_elements"] = sp.touching(ln)
        c["robin_elements"] = sp.touching(rn)
        out = set(c["neumann_elements"].tolist())
        if sh.design_robin is False:
            out |= set(c["robin_elements"].tolist())
        c["design_elements"] = np.array(sorted(
            set(env[DE].tolist()) - out), int)
        c["fixed_elements"] = np.setdiff1d(np.arange(sp.ne),
                                           c["design_elements"])
        c["all_elements"] = np.arange(sp.ne)
        fn = np.nonzero(np.isin(sp.nodal_dofs, c["free_dofs"]).any(0))[0]
        c["free_elements"] = sp.touching(fn)
        c["dirichlet_neumann_elements"] = un(
            [c["dirichlet_elements"], c["neumann_elements"]])
        c["elements_volume"] = sp.volumes()
        c["design_mask"] = np.isin(np.arange(sp.ne), c["design_elements"])

    def dense(self, c):
        return dn.Dense(c["env"], self.ip, None, c["sp"])

    def returns(self, c, s=None):
        d = self.dense(c)
        return all(d.truth(d.ev(x)) for x in (s or self.s).pc)

    def shown(self, c):
        return {"shape": self.sh.name, "mesh.t": c["sp"].t.tolist(),
                "mesh.facets": c["sp"].facets.tolist()} | {
            k.args[0]: np.asarray(v).tolist() for k, v in c["env"].items()}


def as_set(x):
    return set(np.asarray(x).ravel().astype(float).tolist())


def same_set(x, want):
    x = np.asarray(x)
    return as_set(x) == as_set(want)


def exact(x, want):
    """the set, every member once"""
    x = np.asarray(x)
    return same_set(x, want) and x.size == np.asarray(want).size


# ------------------------------------------------------------ C21 index sets
def c21(ctx):
    tm.KEEP_AXES = True
    for sh in shapes():
        ctx.section("index sets: " + sh.name, sets, ctx, sh)


def sets(ctx, sh):
    b = Build(ctx, sh)
    q = f"{b.cls.qual}.{sh.via} [{sh.name}]"
    if b.s is None:
        return ctx.bad("task-built", q, b.where, "raises on every path")
    cs = b.cases(6 if ctx.tier == "quick" else 30)
    empty = [c for c in cs if len(c["design_elements"]) == 0]
    good = [c for c in cs if len(c["design_elements"])]

    def built(c):
        if not b.returns(c):
            return "a valid task is refused", b.shown(c)
    per_case(ctx, "task-built", q, b.where, good, built, "is built")
    # a design set inside the excluded region
    if sh.loads is not None:
        for c in good[:2]:
            c2 = dict(c, env=dict(c["env"]))
            c2["env"][DE] = c["neumann_elements"][:2]
            empty.append(c2)

    def refused(c):
        if b.returns(c):
            return "a task without design elements is built", b.shown(c)
    if empty:
        per_case(ctx, "empty-design", q, b.where, empty, refused,
                 "refused without design elements")

    def rule(name, cmp, what, s=None, want=None, tag=""):
        t = b.attr(name, s)
        if t is None:
            return ctx.bad("index-sets", f"{q}: {name}", b.where,
                           "attribute missing")

        def judge(c):
            got = b.dense(c).ev(t)
            ref = c[want or name]
            if not cmp(got, ref):
                return f"{name} is not {what}", b.shown(c) | {
                    "derived": str(got), "required": str(ref)}
        per_case(ctx, "index-sets", f"{q}: {name}{tag}", b.where, good,
                 judge, what)

    def regions(got, ref):
        if isinstance(got, (list, tuple)):
            return len(got) == len(ref) and all(
                same_set(g, r) for g, r in zip(got, ref))
        return len(ref) == 1 and same_set(got, ref[0])
    if sh.dirichlet is not None:
        rule("dirichlet_nodes", regions, "the nodes of each region")
        if sh.cls == "elastic":
            rule("dirichlet_dofs", lambda g, r: not isinstance(
                g, (list, tuple)) and same_set(g, r), "the constrained "
                "degrees of freedom of all regions", want="fixed_dofs")
        else:
            rule("dirichlet_dofs", regions, "the constrained degrees of "
                 "freedom of each region")
        rule("dirichlet_elements", exact, "the elements at the Dirichlet "
             "boundary")
    rule("free_dofs", exact, "every degree of freedom that is not "
         "constrained")
    rule("free_elements", exact, "the elements with a free node")
    if sh.loads is not None:
        rule("neumann_elements", exact, "the loaded elements")
        if sh.via == "from_facets":
            rule("neumann_nodes", same_set, "the loaded nodes")
    if sh.robin is not None:
        rule("robin_elements", exact, "the elements at Robin boundaries")
    rule("dirichlet_neumann_elements", same_set, "the Dirichlet and loaded "
         "elements")
    rule("all_elements", exact, "every element")
    rule("design_elements", exact, "the requested elements without loaded "
         "(and fixed Robin) ones")
    rule("fixed_elements", exact, "every other element")
    rule("design_mask", lambda g, r: np.array_equal(np.asarray(
        g, dtype=bool), r), "the membership of each element")
    rule("elements_volume", lambda g, r: np.allclose(g, r),
         "the volumes of the elements")
    if sh.dirichlet is not None:
        s2 = b.s.fork()
        s2, _ = b.ip.meth(b.obj, "exlude_dirichlet_from_design", [], {}, s2)
        if s2 is None:
            return ctx.bad("index-sets", f"{q}: exlude_dirichlet_from_design",
                           b.where, "raises on every path")
        for c in good:
            x = np.setdiff1d(c["design_elements"], c["dirichlet_elements"])
            c["design2"] = x
            c["fixed2"] = np.setdiff1d(c["all_elements"], x)
            c["mask2"] = np.isin(c["all_elements"], x)
        tag = " after exlude_dirichlet_from_design"
        rule("design_elements", exact, "the design elements away from "
             "Dirichlet boundaries", s2, "design2", tag)
        rule("fixed_elements", exact, "every element that is not designable",
             s2, "fixed2", tag)
        rule("design_mask", lambda g, r: np.array_equal(np.asarray(
            g, dtype=bool), r), "the membership of each element", s2,
            "mask2", tag)
