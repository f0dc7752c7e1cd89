"""Arguments stay as they were given (C20): after every public computation
the arrays and lists the caller passed hold what they held before."""
from __future__ import annotations

from .. import terms as tm
from .. import dense as dn
from ..dense import np
from ..terms import T, const, sym, mk
from ..interp import State
from ..project import AnalysisError
from ..values import Arr, Cls, Dct, Fn, Lst, Obj, Tup
from . import fem, filt, loads, run as rn, tasks
from .opt import OptRun

RULE = "argument kept"
EDGES = ({}, {"rho": (0.0, 9e-7)}, {"rho": (0.999999, 1.0)})


def arrays(st):
    return {k: v for k, v in st.heap.items()
            if isinstance(k, tuple) and k[0] in ("a", "l", "d")}


def same_items(ip, a, b, s0, s):
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return None
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is y or x == y:
            continue
        if type(x) is type(y) and isinstance(x, (Arr, Lst, Dct, Obj)):
            k = {"Arr": "cell", "Lst": "lid", "Dct": "did", "Obj": "oid"}[
                type(x).__name__]
            if getattr(x, k) == getattr(y, k) and getattr(
                    x, "path", None) == getattr(y, "path", None):
                continue
        tx, ty = ip.toT(x, s0), ip.toT(y, s)
        if tx is ty:
            # another object with the same content
            return None
        r = tm.compare(ty, tx)
        if r[0] == "differ":
            return False
        return None
    return True


def frozen(ctx, q, where, ip, s0, s, doms=None, allowed=(), model=None,
           skip=(), reads=None, names=None):
    """every array and list alive in s0 holds the same in s"""
    n = 0
    for k, before in arrays(s0).items():
        if k in skip:
            continue
        after = s.heap.get(k)
        n += 1
        if k[0] == "a":
            label = (names or {}).get(k) or ip.arr[k[1]].label
            c = f"{q}: {label}"
            if after is before:
                ctx.ok(RULE, c, "the array is not written", where)
                continue
            if not isinstance(after, T):
                ctx.unsure(RULE, c, "no content derived", where)
                continue
            w = reads(before, after) if reads else None
            if w is not None:
                ctx.bad(RULE, c, where, "the caller's array is changed", w)
                continue
            kw = {"model": model} if model is not None else {}
            if before in fem.MATS:
                kw = {}
            for near in EDGES:
                # values at the ends of the range, where clipping acts
                at = {**(doms or {}), **near}
                if tm.compare(after, before, n=ctx.n, ranges=ctx.ranges(
                        at, (after, before)), seed=ctx.seed,
                        loops=ctx.loops, **kw)[0] == "differ":
                    doms = at
                    break
            ctx.equal(RULE, c, where, after, before, doms,
                      "the caller's array must hold what it held", **kw,
                      allowed=tuple(allowed) + tuple(fem.ALLOWED) + (
                          "call:np.sort", "store"))
        else:
            label = (names or {}).get(k) or (
                "list" if k[0] == "l" else "dict")
            c = f"{q}: {label} {k[1] if not (names or {}).get(k) else ''}"
            c = c.strip()
            if after is before:
                ctx.ok(RULE, c, "the container is not changed", where)
            elif k[0] == "l":
                r = same_items(ip, before, after, s0, s)
                if r is True:
                    ctx.ok(RULE, c, "same items", where)
                elif r is None:
                    ctx.unsure(RULE, c, "items not compared", where)
                else:
                    ctx.bad(RULE, c, where, "the caller's list is changed",
                            {"before": [tm.show(ip.toT(x, s0), 3)
                                        for x in before],
                             "after": [tm.show(ip.toT(x, s), 3)
                                       for x in after]})
            else:
                ctx.unsure(RULE, c, "dictionary changed", where)
    return n


def c20(ctx):
    """Heap contents of the caller's arrays and lists after abstract runs of
    the public functions, constructors, solves, filters and whole runs,
    against their contents before."""
    for sec in (functions, mesh_functions, filters, builders, solves):
        ctx.section(sec.__name__, sec, ctx)
    ctx.section("whole runs", whole, ctx)


# ---------------------------------------------------------------- functions
CO, DE, PR, SCH = ("sktopt.fea.composer.", "sktopt.core.derivatives.",
                   "sktopt.core.projection.", "sktopt.tools.scheduler.")
A = "array"
FUNCS = [
    (CO + "simp_interpolation", {"rho": A}, ()),
    (CO + "ramp_interpolation", {"rho": A}, ()),
    (CO + "von_mises_from_stress_tensor", {"stress_tensor": A}, ()),
    (DE + "dE_drho_simp", {"rho": A}, ()),
    (DE + "dE_drho_ramp", {"rho": A}, ()),
    (DE + "dC_drho_simp", {"rho": A, "strain_energy": A}, ()),
    (DE + "dC_drho_ramp", {"rho": A, "strain_energy": A}, ()),
    (DE + "dE_drho_ramp_inplace", {"rho": A, "out": A}, ("out",)),
    (DE + "dC_drho_ramp_inplace", {"rho": A, "strain_energy": A, "out": A},
     ("out",)),
    (PR + "heaviside_projection", {"rho": A}, ()),
    (PR + "heaviside_projection_derivative", {"rho": A}, ()),
    (PR + "heaviside_projection_inplace", {"rho": A, "out": A}, ("out",)),
    (PR + "heaviside_projection_derivative_inplace", {"rho": A, "out": A},
     ("out",)),
    (PR + "heaviside_projection_derivative_inplace", {"rho": A}, ()),
] + [(SCH + n, {"it": A, "iter": A}, ()) for n in (
    "schedule_exp_slowdown", "schedule_exp_accelerate", "schedule_step",
    "schedule_step_accelerating", "schedule_step_decelerating",
    "schedule_sawtooth_decay", "schedule_constant")]
DOMS = {"rho": (0.05, 0.95), "strain_energy": (0.1, 3.0), "p": (1.0, 5.0),
        "beta": (0.5, 8.0), "eta": (0.2, 0.8), "E0": (1.0, 5.0),
        "Emin": (1e-3, 0.1), "it": (0.0, 9.0), "iter": (0.0, 9.0)}


def functions(ctx):
    for q, arrs, outs in FUNCS:
        fi = ctx.proj.lookup(q)
        if fi is None or not hasattr(fi, "node"):
            continue
        ip, st = ctx.ip(), State()
        kws, skip = {}, []
        a = fi.node.args
        opt = {x.arg for x in (a.posonlyargs + a.args)[
            len(a.posonlyargs + a.args) - len(a.defaults):]}
        for p in fem.PARAMS(fi):
            if p in arrs:
                x = ip.new_arr(st, sym(p, "a"), p, Tup([sym("n", "s")]))
                kws[p] = x
                if p in outs:
                    skip.append(("a", x.cell))
            elif p not in opt:
                kws[p] = v = sym(p, "s")
                ip.types[v] = {"float"}
        s, _ = ip.run(Fn(fi), [], kws, st.fork())
        if s is None:
            ctx.unsure(RULE, q, "raises on every path", fi.where)
            continue
        frozen(ctx, q, fi.where, ip, st, s, DOMS, skip=skip)


# ------------------------------------------------------------- mesh functions
MU = "sktopt.mesh.utils."


def some(seed):
    """small integer and float arrays for symbols"""
    rng = np.random.default_rng(seed)

    def reads(ip, envs):
        def f(before, after):
            for e in envs:
                try:
                    b = dn.Dense(e, ip).ev(before)
                    x = dn.Dense(e, ip).ev(after)
                except dn.Undecided:
                    continue
                b, x = np.asarray(b), np.asarray(x)
                if b.shape != x.shape or not np.allclose(
                        b.astype(float), x.astype(float)):
                    return {"before": b.tolist(), "after": x.tolist()}
            return None
        return f
    return rng, reads


def mesh_functions(ctx):
    """mesh and index arrays handed to the mesh utilities"""
    rng, reads = some(ctx.seed)
    tsy, psy, ids = sym("m.t", "a"), sym("m.p", "a"), sym("ids", "a")
    ids2 = sym("ids2", "a")
    envs = []
    for k in range(4):
        sp = tasks.Space(rng, 1, 4 if k % 2 else 8)
        t = sp.t.copy()
        # elements of both orientations
        a, b = (1, 2) if k % 2 else ([1, 4], [3, 6])
        e = rng.permutation(sp.ne)[:sp.ne // 2]
        t[np.ix_(np.r_[a, b], e)] = t[np.ix_(np.r_[b, a], e)]
        envs.append({tsy: t, psy: sp.p, sym("m.nelements", "s"): sp.ne,
                     sym("m.nvertices", "s"): sp.p.shape[1],
                     ids: rng.permutation(sp.ne)[:4],
                     ids2: rng.permutation(sp.ne)[:3]})

    def mesh(ip, st, kind):
        o = ip.sym_obj(st, None, "m")
        ne, nn = sym("m.nelements", "s"), sym("m.nvertices", "s")
        st.heap[("o", o.oid, "t")] = ip.new_arr(
            st, tsy, "mesh.t", Tup([const(4 if kind == "tet" else 8), ne]))
        st.heap[("o", o.oid, "p")] = ip.new_arr(
            st, psy, "mesh.p", Tup([const(3), nn]))
        return o

    def arr(ip, st, x, n):
        return ip.new_arr(st, x, n, Tup([mk("len", x)]))
    calls = []
    for kind in ("tet", "hex"):
        full = "tetrahedron" if kind == "tet" else "hexahedron"
        for sfx in ("", "_numba") if kind == "tet" else ("",):
            calls.append((f"fix_{full}_orientation{sfx}", kind,
                          lambda ip, st, m: [st.heap[("o", m.oid, "t")],
                                             st.heap[("o", m.oid, "p")]]))
    calls += [
        ("get_elements_by_nodes", "tet",
         lambda ip, st, m: [m, arr(ip, st, ids, "target_nodes")]),
        ("get_elements_by_nodes", "hex", lambda ip, st, m: [
            m, ip.new_list(st, [arr(ip, st, ids, "target_nodes[0]"),
                                arr(ip, st, ids2, "target_nodes[1]")])]),
        ("build_element_adjacency_matrix", "tet", lambda ip, st, m: [m]),
        ("build_element_adjacency_matrix_fast", "tet",
         lambda ip, st, m: [m]),
        ("get_adjacent_elements", "tet",
         lambda ip, st, m: [m, arr(ip, st, ids, "element_indices")]),
        ("get_adjacent_elements_fast", "tet",
         lambda ip, st, m: [sym("adjacency", "a"),
                            arr(ip, st, ids, "element_indices")]),
    ]
    for name, kind, mkargs in calls:
        fi = ctx.proj.lookup(MU + name)
        if fi is None:
            continue
        ip, st = ctx.ip(), State()
        m = mesh(ip, st, kind)
        a = mkargs(ip, st, m)
        s, _ = ip.run(Fn(fi), a, {}, st.fork())
        q = f"{MU}{name} ({kind})"
        if s is None:
            ctx.unsure(RULE, q, "raises on every path", fi.where)
            continue
        frozen(ctx, q, fi.where, ip, st, s, reads=reads(ip, envs))


# ------------------------------------------------------------------- filters
def filters(ctx):
    for cls in (filt.SP + "SpacialFilter", filt.HN + "HelmholtzFilterNodal"):
        for mask in (False, True):
            r = filt.FilterRun(ctx, cls, mask)
            ip, tag = r.ip, " with a mask" if mask else ""
            cases = filt.spatial_cases(ctx, mask, 4) if "spacial" in cls \
                else filt.hcases(ctx, mask)[:4]

            def reads(before, after):
                for c in cases:
                    try:
                        b = np.asarray(filt.read(before, c, ip), float)
                        x = np.asarray(filt.read(after, c, ip), float)
                    except dn.Undecided:
                        continue
                    x = np.broadcast_to(x, b.shape) if x.ndim < b.ndim else x
                    if b.shape != x.shape or not np.array_equal(b, x):
                        return {"before": b.tolist(), "after": x.tolist()}
            s = r.st
            for meth, x in (("forward", filt.RHO), ("gradient", filt.V),
                            ("forward", filt.RHO), ("update_radius", None)):
                f = r.cls.find(meth, ctx.proj)
                if f is None:
                    continue
                s0 = s.fork()
                a = [sym("radius.later", "s")] if x is None else [ip.new_arr(
                    s0, x, "rho" if x is filt.RHO else "v",
                    Tup([mk("len", x)]))]
                s1, _ = ip.meth(r.obj, meth, a, {}, s0.fork())
                q = f"{f.qual}{tag}"
                if s1 is None:
                    ctx.unsure(RULE, q, "raises on every path", f.where)
                    break
                mine = {k: v for k, v in s0.heap.items() if k[0] == "a" and
                        ip.arr[k[1]].label in ("rho", "v", "volumes", "mask")}
                keep = State()
                keep.heap = dict(mine)
                frozen(ctx, q, f.where, ip, keep, s1, reads=reads)
                s = s1


# ------------------------------------------------------------------ builders
def builders(ctx):
    for sh in tasks.shapes():
        ctx.section("builders: " + sh.name, one_builder, ctx, sh)


def one_builder(ctx, sh):
    b = tasks.Build(ctx, sh)
    q = f"{b.cls.qual}.{sh.via} [{sh.name}]"
    if b.s is None:
        return ctx.unsure(RULE, q, "raises on every path", b.where)
    cs = b.cases(4)

    def reads(before, after):
        for c in cs:
            d = b.dense(c)
            try:
                if not b.returns(c):
                    continue
                x, y = np.asarray(d.ev(before)), np.asarray(d.ev(after))
            except dn.Undecided:
                continue
            if x.shape != y.shape or not np.array_equal(x, y):
                return {"before": x.tolist(), "after": y.tolist()} | \
                    b.shown(c)
    frozen(ctx, q, b.where, b.ip, b.start, b.s, reads=reads)


# -------------------------------------------------------------------- solves
def solves(ctx):
    for n in (1, 2, 3):
        ctx.section(f"elastic solve {n}", elastic, ctx, n)
        for obj in ("compliance", "averaged_temp", "heat_exchange"):
            for robin in (("none",) if obj != "heat_exchange" else ()) + (
                    "1",) + (("2",) if n == 2 else ()):
                ctx.section(f"heat solve {n} {obj} {robin}", heat, ctx, n,
                            obj, robin)
    for i in range(2):
        ctx.section("entry points", entry_points, ctx, bool(i))
    for name in ("solve_scipy_heat_multi_enforce", "solve_scipy",
                 "solve_heat_system_multi", "solve_multi_load",
                 "heat_energy_skfem", "heat_energy_skfem_multi",
                 "heat_exchange_grad_density_multi"):
        for n in (1, 2):
            for robin in ("list", "csr"):
                if robin == "csr" and name != "solve_multi_load":
                    continue
                ctx.section(f"heat entry {name} {n} {robin}", heat_entry,
                            ctx, name, n, robin)


def after_solves(ctx, run, q, meths, rho, **kws):
    """several computations one after the other: nothing given changes"""
    ip = run.ip
    s = run.built.fork()
    ra = ip.new_arr(s, fem.RHO, "rho", Tup([sym("n_elements", "s")]))
    skip = [("a", run.u.cell)]
    for m in meths:
        f = run.cls.find(m, ctx.proj)
        if f is None:
            continue
        s0 = s.fork()
        kw = kws if m == "objectives_multi_load" else {}
        s1, _ = ip.meth(run.fem, m, [ra, fem.P, run.u], kw, s0.fork())
        if s1 is None:
            ctx.unsure(RULE, f"{f.qual} [{q}]", "raises on every path",
                       f.where)
            return
        keep = State()
        keep.heap = {k: v for k, v in s0.heap.items() if k in run.given
                     or k == ("a", ra.cell)
                     or k in skip and m != "objectives_multi_load"}
        frozen(ctx, f"{f.qual} [{q}]", f.where, ip, keep, s1, fem.DOMS,
               model=run.alg)
        s = s1


def elastic(ctx, n):
    F = [sym(f"F{i}", "a") for i in range(n)]
    for solver in ("spsolve", "petsc") + (("cg_pyamg",) if n == 1
                                          else ()):
        run = fem.FemRun(ctx, "elastic", n, solver, task={
            "neumann_linear": lambda ip, st: ip.new_list(st, [ip.new_arr(
                st, x, f"load {i}", Tup([sym("n_dof", "s")]))
                for i, x in enumerate(F)]),
            "dirichlet_dofs": lambda ip, st: ip.new_arr(st, fem.D,
                                                        "dirichlet_dofs"),
            "free_dofs": lambda ip, st: ip.new_arr(st, fem.FREE_D,
                                                   "free_dofs")})
        after_solves(ctx, run, f"{n} load cases, {solver}",
                     ("objectives_multi_load", "energy_multi_load",
                      "objectives_multi_load"), fem.RHO,
                     force_scale=fem.FS)


def heat(ctx, n, obj, robin):
    t, N, Tv, RB, RL = fem.heat_task(n, obj, robin, False)
    run = fem.FemRun(ctx, "heat", n, task=t, types={
        **fem.FLT, **{x: {"float"} for x in Tv}})
    after_solves(ctx, run, f"{n} cases, {obj}, Robin {robin}",
                 ("objectives_multi_load", "energy_multi_load",
                  "compliance_sensitivity_multi_load",
                  "objectives_multi_load"), fem.RHO)


def entry_points(ctx, multi):
    b, nu = sym("basis", "s"), sym("nu", "s")
    for name in ("compute_compliance_simp_basis", "compute_compliance_basis",
                 "solve_multi_load", "compute_compliance_basis_multi_load"):
        many = "multi" in name
        if many != multi:
            continue
        fi = ctx.proj.lookup("sktopt.fea.solver." + name)
        if fi is None:
            continue
        F = [sym(f"F{i}", "a") for i in range(2 if multi else 1)]
        ip, st = ctx.ip(fem.models(ctx)), State()
        ip.types.update({nu: {"float"}, fem.E0S: {"float"},
                         fem.EMIN: {"float"}})
        u0 = sym("u.before", "a")
        fem.COLS.add(u0)
        nd = Tup([sym("n_dof", "s")])
        ua = ip.new_arr(st, u0, "u", Tup([sym("n_dof", "s"),
                                          const(len(F))]))
        alg = fem.Algebra(fem.Tensor(True))
        alg.n = len(F)
        Fa = [ip.new_arr(st, x, f"load {i}", nd) for i, x in enumerate(F)]
        a = [b, ip.new_arr(st, fem.FREE_D, "free_dofs"),
             ip.new_arr(st, fem.D, "dirichlet_dofs"),
             ip.new_list(st, Fa) if multi else Fa[0], fem.E0S, fem.EMIN,
             fem.P, nu, ip.new_arr(st, fem.RHO, "rho")] + (
                 [ua] if multi else [])
        kw = {} if "simp" in name else {"elem_func": fem.material()}
        s, _ = ip.run(Fn(fi), a, kw, st.fork())
        if s is None:
            ctx.unsure(RULE, fi.qual, "raises on every path", fi.where)
            continue
        frozen(ctx, fi.qual, fi.where, ip, st, s, fem.DOMS, model=alg,
               skip=[("a", ua.cell)])


def heat_entry(ctx, name, n, robin):
    """the heat solvers called directly with the caller's own lists"""
    fi = ctx.proj.lookup("sktopt.fea.solver_heat." + name)
    if fi is None:
        return
    ip, st = ctx.ip(fem.models(ctx)), State()
    u0 = sym("u.before", "a")
    fem.COLS.add(u0)
    D = [sym(f"D{i}", "a") for i in range(n)]
    Tv = [sym(f"T{i}", "s") for i in range(n)]
    RB = [sym(f"RB{i}", "a") for i in range(2)]
    RL = [sym(f"RL{i}", "a") for i in range(2)]
    KC, em = sym("K.in", "a"), sym("emit.in", "a")
    fem.MATS.update(RB)
    fem.MATS.add(KC)
    ip.types.update({x: {"float"} for x in Tv})
    nd = Tup([sym("n_dof", "s")])

    def lst(xs, label):
        return ip.new_list(st, [ip.new_arr(st, x, f"{label} {i}")
                                for i, x in enumerate(xs)])

    def dofs(i):
        o = ip.sym_obj(st, None, f"dofs{i}")
        return o
    u = ip.new_arr(st, u0, "u", Tup([sym("n_dof", "s"), const(n)]))
    mat = ip.new_arr(st, RB[0], "robin_bilinear")
    vec = ip.new_arr(st, RL[0], "robin_linear", nd)
    if robin == "csr":
        ip.arr[mat.cell].types = {"scipy.sparse.csr_matrix"}
    have = {
        "basis": lambda: sym("basis", "s"),
        "K_csr": lambda: ip.new_arr(st, KC, "K_csr"),
        "emit": lambda: ip.new_arr(st, em, "emit", nd),
        "free_dofs": lambda: ip.new_arr(st, fem.FREE_D, "free_dofs"),
        "dirichlet_nodes_list": lambda: lst(D, "nodes"),
        "dirichlet_dofs_list": lambda: ip.new_list(
            st, [dofs(i) for i in range(n)]),
        "dirichlet_values_list": lambda: ip.new_list(st, list(Tv)),
        "robin_bilinear": lambda: mat if robin == "csr" else lst(
            RB, "robin_bilinear"),
        "robin_linear": lambda: vec if robin == "csr" else lst(
            RL, "robin_linear"),
        "k0": lambda: fem.E0S, "kmin": lambda: fem.EMIN, "p": lambda: fem.P,
        "rho": lambda: ip.new_arr(st, fem.RHO, "rho"), "u_all": lambda: u,
        "elem_func": fem.material,
        "T_all": lambda: u, "T": lambda: ip.new_arr(st, em, "T", nd),
        "\u03bb_all": lambda: ip.new_arr(st, KC, "adjoints"),
        "U": lambda: u,
    }
    kw = {}
    for x in fem.PARAMS(fi):
        if x in have:
            kw[x] = have[x]()
        elif x == "solver_config":
            sc = ctx.proj.need("sktopt.fea.solver_elastic.LinearSolverConfig")
            kw[x] = o = ip.sym_obj(st, sc, "solver")
            st.heap[("o", o.oid, "solver")] = const("spsolve")
    alg = fem.Algebra(fem.Tensor(False))
    alg.n = n
    q = f"{fi.qual} [{n} cases, Robin {robin}]"
    ip.types.update({fem.E0S: {"float"}, fem.EMIN: {"float"}})
    s, _ = ip.run(Fn(fi), [], kw, st.fork())
    if s is None:
        return ctx.unsure(RULE, q, "raises on every path", fi.where)
    skip = [("a", u.cell)] if "u_all" in kw else []
    frozen(ctx, q, fi.where, ip, st, s, fem.DOMS, model=alg, skip=skip)


# ---------------------------------------------------------------- whole runs
def whole(ctx):
    """the arrays of the task and the configuration after a run"""
    for opt, task, dd in (("OC", "elastic", True), ("OC", "heat", False),
                          ("LogMOC", "elastic", False),
                          ("LogMOC", "heat", True)):
        ctx.section(f"{opt}/{task}", one_run, ctx, opt, task, dd)


def one_run(ctx, opt, task, dd):
    names = {}

    def given(name):
        def f(ip, st):
            a = ip.new_arr(st, sym("tsk." + name, "a"), "task." + name)
            names[("a", a.cell)] = "task." + name
            return a
        return f
    arrs = ["design_elements", "fixed_elements", "all_elements",
            "dirichlet_elements", "free_dofs", "elements_volume",
            "neumann_elements", "free_elements"]
    r = OptRun(ctx, opt, task, cfg_fixed={
        "design_dirichlet": dd, "check_convergence": True,
        "max_iters": rn.NI, "record_times": rn.RT},
        task_fixed={n: given(n) for n in arrs})
    L = f"{opt}/{task}"
    if r.after is None:
        return ctx.unsure(RULE, L, "the run raises on every path")
    W = r.loop.where if r.loop else ""
    s0 = State()
    s0.heap = {k: sym(n.replace("task.", "tsk."), "a")
               for k, n in names.items()}
    frozen(ctx, f"{L}: a whole run", W, r.ip, s0, r.after, rn.DOMS,
           names=names, allowed=("call:ran", "call:broke", "call:more",
                                 "call:fem.objectives", "call:fem.energy",
                                 "call:sched", "call:filter.F"))
