"""Abstract run of a density optimizer, from its public entry points.

``OptRun`` builds an optimizer from a symbolic configuration and a symbolic
problem, analyses ``parameterize()`` and ``optimize()`` (or
``optimize_steps``), and keeps what the analysis derived: the main loop, the
value of every array at its header and after one iteration, and the calls
made to the FE solver, the filter, the recorder and the file system.

Stand-ins (uninterpreted, analysed on their own by other properties):
  * FE solver: objectives/energies/adjoint sensitivities are functions of the
    density, p and the displacement buffer, which the solve overwrites;
  * filter: forward/gradient are functions of the radius and the argument;
  * one schedule's value is a function of its configuration and iteration.
"""
from __future__ import annotations

from .. import terms as tm
from ..terms import T, mk, const, sym
from ..interp import State, Flow
from ..project import AnalysisError, ClsInfo, FnInfo
from ..values import Arr, Obj, Bound, Fn

CD = "sktopt.core.optimizers.common_density."
KINDS = {
    "OC": ("sktopt.core.optimizers.oc.OC_Config",
           "sktopt.core.optimizers.oc.OC_Optimizer"),
    "LogMOC": ("sktopt.core.optimizers.logmoc.LogMOC_Config",
               "sktopt.core.optimizers.logmoc.LogMOC_Optimizer"),
}
TASKS = {"elastic": "sktopt.mesh.LinearElasticity",
         "heat": "sktopt.mesh.LinearHeatConduction"}
FEMS = {"elastic": "sktopt.fea.FEM_SimpLinearElasticity",
        "heat": "sktopt.fea.FEM_SimpLinearHeatConduction"}


def named(args, kws, names):
    """positional/keyword arguments by parameter name"""
    out = dict(zip(names, args))
    out.update(kws)
    return out


def find_method(proj, cls, name):
    return cls.find(name, proj)


class OptRun:
    def __init__(self, ctx, opt="OC", task="elastic", entry="optimize",
                 cfg_fixed=None, steps=None, filt="helmholtz",
                 restart=False, sched_types=None, extra_models=None,
                 types=None, assume=(), unstub=(), until=None, fail=False,
                 task_fixed=None):
        self.fail = fail
        self.ctx = ctx
        proj = ctx.proj
        self.kind, self.task = opt, task
        cfgc, optc = (proj.need(n) for n in KINDS[opt])
        tskc = proj.need(TASKS[task])
        self.femc = proj.need(FEMS[task])
        self.optc = optc
        models = {k: f for k, f in self.models(proj).items()
                  if not any(u in k for u in unstub)}
        self.ip = ip = ctx.ip(models={**models, **(extra_models or {})})
        ip.types.update(types or {})
        self.st = st = State()
        self.calls = []
        cfg = ip.sym_obj(st, cfgc, "cfg")
        tsk = ip.sym_obj(st, tskc, "tsk")
        self.cfg, self.tsk = cfg, tsk

        def setc(n, v):
            st.heap[("o", cfg.oid, n)] = v
        setc("scaling", const(False))
        setc("filter_type", const(filt))
        setc("restart", const(restart))
        setc("interpolation", const("SIMP"))
        for k, v in (cfg_fixed or {}).items():
            v = v(ip, st) if callable(v) else v
            if isinstance(v, T) and v.op == "sym" and v not in ip.types:
                ip.types[v] = {"float"}
            setc(k, v if not isinstance(v, (bool, int, float, str))
                 else const(v))
        schc = proj.need("sktopt.tools.SchedulerConfig")
        for f in ("eta", "p", "vol_frac", "beta", "move_limit", "percentile",
                  "filter_radius", "neumann_scale"):
            if ("o", cfg.oid, f) in st.heap:
                continue
            o = ip.sym_obj(st, schc, f"cfg.{f}")
            st.heap[("o", o.oid, "scheduler_type")] = const(
                (sched_types or {}).get(f, "ConstantOne"))
            setc(f, o)
        if filt == "helmholtz":
            self.filtc = proj.need("sktopt.filters.HelmholtzFilterNodal")
        else:
            self.filtc = proj.need("sktopt.filters.SpacialFilter")
        self.NT = sym("tsk.n_tasks", "s")
        st.heap[("o", tsk.oid, "n_tasks")] = self.NT
        for k, v in (task_fixed or {}).items():
            st.heap[("o", tsk.oid, k)] = v(ip, st) if callable(v) else v
        s, o = self.ip.run(self.cls_value(optc), [cfg, tsk], {}, st)
        if s is None:
            raise RuntimeError(f"{optc.qual} cannot be constructed: "
                               f"{self.why()}")
        self.opt = o
        self.built = s.fork()
        if until == "built":
            return
        s, _ = ip.meth(o, "parameterize", [], {}, s)
        if s is None:
            raise RuntimeError("parameterize raises on every path: "
                               f"{self.why()}")
        self.before = s.fork()
        self.mark = len(ip.trace)
        args = [] if entry == "optimize" else [
            steps if steps is not None else sym("num_steps", "s")]
        for c in assume:
            s.assume(c)
        self.entry_st = s.fork()
        s, _ = ip.meth(o, entry, args, {}, s)
        self.after = s
        self.find_loop()

    @staticmethod
    def cls_value(c):
        from ..values import Cls
        return Cls(c)

    # -------------------------------------------------------------- models
    def models(self, proj):
        m = {}

        def on(cls, name, f):
            fn = cls.find(name, proj) if isinstance(cls, ClsInfo) else None
            if fn is None:
                raise AnalysisError(f"anchor vanished: {cls.qual}.{name}")
            m[fn.qual] = f

        def ev(ip, name, st, node, args, extra, result=None):
            ip.event("call", name, st, node, args=args, result=result,
                     extra=extra)

        timer = proj.need("sktopt.tools.SectionTimer")
        on(timer, "section",
           lambda ip, st, a, k, node: tm.call("timer-section"))
        for n in ("report", "save_plot", "stats"):
            if timer.find(n, proj):
                on(timer, n, lambda ip, st, a, k, node, n=n: tm.call(
                    "timer." + n))

        femc = self.femc

        def solve(ip, st, a, k, node):
            b = named(a, k, ["self", "rho", "p", "u_dofs", "timer",
                             "force_scale"])
            rho = ip.toT(b["rho"], st)
            p = ip.toT(b["p"], st)
            fs = ip.toT(b.get("force_scale", const(1.0)), st)
            u = b["u_dofs"]
            r = tm.call("fem.objectives", rho, p, fs)
            ut = tm.call("fem.u", rho, p, fs)
            if isinstance(u, Arr):
                ip.write(u, ut, st, node, "solve")
            ev(ip, "fem.objectives", st, node, [b["rho"]],
               {"rho": rho, "p": p, "fs": fs, "u": u, "heap": st.heap.copy()
                if self.fail else None}, r)
            if self.fail:
                ip.raise_sinks[-1].append(Flow(
                    "raise", st.fork(sym("the solver fails", "s")),
                    mk("exc", "any"), node))
            return ip.new_arr(st, mk("call", "fem.objectives", rho, p, fs),
                              "objectives")

        def energy(ip, st, a, k, node):
            b = named(a, k, ["self", "rho", "p", "u_dofs"])
            rho, p, u = (ip.toT(b[x], st) for x in ("rho", "p", "u_dofs"))
            r = tm.call("fem.energy", rho, p, u)
            ev(ip, "fem.energy", st, node, [b["rho"]],
               {"rho": rho, "p": p, "u": u}, r)
            return ip.new_arr(st, r, "energy")

        def sens(ip, st, a, k, node):
            b = named(a, k, ["self", "rho", "p", "u_dofs"])
            rho, p, u = (ip.toT(b[x], st) for x in ("rho", "p", "u_dofs"))
            r = tm.call("fem.sensitivity", rho, p, u)
            ev(ip, "fem.sensitivity", st, node, [b["rho"]],
               {"rho": rho, "p": p, "u": u}, r)
            return ip.new_arr(st, r, "sensitivity")

        on(femc, "objectives_multi_load", solve)
        on(femc, "energy_multi_load", energy)
        if femc.find("compliance_sensitivity_multi_load", proj):
            on(femc, "compliance_sensitivity_multi_load", sens)

        for fc in ("sktopt.filters.HelmholtzFilterNodal",
                   "sktopt.filters.SpacialFilter"):
            c = proj.need(fc)

            def make(ip, st, a, k, node, c=c):
                args = a[1:] if a and not isinstance(a[0], T) and \
                    a[0].__class__.__name__ == "Cls" else a
                b = named(args, k, ["mesh", "elements_volume", "radius",
                                    "design_mask"])
                o = ip.sym_obj(st, c, "filter")
                r = b.get("radius", const(0.3))
                st.heap[("o", o.oid, "radius")] = ip.toT(r, st)
                ev(ip, "filter.new", st, node, list(a),
                   {kk: ip.toT(v, st) for kk, v in b.items()})
                return o

            def upd(ip, st, a, k, node):
                b = named(a, k, ["self", "radius"])
                r = ip.toT(b["radius"], st)
                o = ip.force(b["self"], st)
                st.heap[("o", o.oid, "radius")] = r
                ev(ip, "filter.update", st, node, list(a), {"radius": r})
                return tm.NONE

            def fwd(ip, st, a, k, node, which="F"):
                o = ip.force(a[0], st)
                r = st.heap.get(("o", o.oid, "radius"), tm.unk("radius"))
                v = a[1] if len(a) > 1 else next(iter(k.values()))
                x = ip.toT(v, st)
                t = mk("call", "filter." + which, r, x)
                ev(ip, "filter." + which, st, node, list(a),
                   {"radius": r, "x": x, "arg": v}, t)
                return ip.new_arr(st, t, "filter." + which)
            on(c, "from_defaults", make)
            on(c, "update_radius", upd)
            on(c, "forward", fwd)
            on(c, "gradient",
               lambda ip, st, a, k, node: fwd(ip, st, a, k, node, "G"))

        sch = proj.need("sktopt.tools.scheduler.Scheduler")
        schs = proj.need("sktopt.tools.Schedulers")

        def from_config(ip, st, a, k, node):
            b = named(a, k, ["cls", "cfg"])
            cfg = ip.force(b["cfg"], st)
            o = ip.new_obj(st, sch)
            nm = ip.getattr(cfg, "name", st, ip.stack[-1], node)
            st.heap[("o", o.oid, "name")] = nm
            st.heap[("o", o.oid, "_src")] = const(
                cfg.path if isinstance(cfg, Obj) else tm.show(
                    ip.toT(cfg, st)))
            st.heap[("o", o.oid, "iters_max")] = tm.NONE
            return o

        def value(ip, st, a, k, node):
            o = ip.force(a[0], st)
            it = ip.toT(a[1] if len(a) > 1 else next(iter(k.values())), st)
            src = st.heap.get(("o", o.oid, "_src"))
            if src is None:
                src = mk("tuple", *[ip.toT(st.heap.get(
                    ("o", o.oid, n), tm.NONE), st) for n in (
                        "init_value", "target_value", "num_steps")])
            im = ip.toT(st.heap.get(("o", o.oid, "iters_max"), tm.NONE), st)
            t = mk("call", "sched", src, im, it)
            if src is const("cfg.percentile"):
                tm.MAYBE_NONE.add(t)
            return t
        on(sch, "from_config", from_config)
        on(sch, "value", value)
        on(schs, "export", lambda ip, st, a, k, node: tm.NONE)

        hist = proj.need("sktopt.tools.HistoryCollection")

        def feed(ip, st, a, k, node):
            b = named(a, k, ["self", "name", "data"])
            d = ip.toT(b["data"], st)
            ev(ip, "feed", st, node, list(a),
               {"name": ip.toT(b["name"], st), "data": d})
            return tm.NONE
        on(hist, "feed_data", feed)
        on(hist, "latest", lambda ip, st, a, k, node: mk(
            "call", "recorder.latest", ip.toT(a[1] if len(a) > 1 else next(
                iter(k.values())), st)))
        for n in ("print", "export_progress", "export_histories",
                  "import_histories", "add"):
            def rec(ip, st, a, k, node, n=n):
                ev(ip, "recorder." + n, st, node, list(a), {
                    "targs": [ip.toT(x, st) for x in a[1:]],
                    "tkws": {kk: ip.toT(x, st) for kk, x in k.items()}})
                return tm.NONE
            on(hist, n, rec)

        dom = proj.need("sktopt.mesh.FEMDomain")
        on(dom, "export_analysis_condition_on_mesh",
           lambda ip, st, a, k, node: tm.NONE)

        for mn in ("sktopt.core.visualization", "sktopt.mesh.visualization"):
            mod = proj.modules.get(mn)
            if mod is None:
                continue
            for f in mod.functions():
                def viz(ip, st, a, k, node, q=f.qual):
                    ev(ip, q, st, node, list(a), {
                        "heap": dict(st.heap),
                        "targs": [ip.toT(x, st) for x in a],
                        "tkws": {kk: ip.toT(x, st) for kk, x in k.items()}})
                    return tm.NONE
                m[f.qual] = viz
        return m

    def why(self):
        return [(e.kind, e.name, e.where, e.line) for e in self.ip.trace
                if e.kind in ("raise", "no-attr", "none-attr", "bad-call",
                              "unbound")][-4:]

    # ------------------------------------------------------------ results
    def events(self, name, kind="call"):
        return [e for e in self.ip.trace[self.mark:]
                if e.kind == kind and e.name == name]

    def find_loop(self):
        """the loop that solves the state problem"""
        ip = self.ip
        ids = set()
        for e in self.events("fem.objectives"):
            if e.loops:
                ids.add(e.loops[0])
        self.loop = None
        for l in ip.loops:
            if l.id in ids:
                self.loop = l       # last pass wins
        self.n_loops = len(ids)
        if self.loop is not None:
            self.ctx.main_loops.add(self.loop.id)
            self.unrolled = tm.unrolled(ip.loops, self.ctx.main_loops)
            self.ctx.loops.update(self.unrolled)

    def last_pass(self, name, kind="call"):
        """events of the final (fixpoint) pass over the loop body"""
        ev = self.events(name, kind)
        if not ev:
            return ev
        by = {}
        for e in ev:
            by.setdefault((id(e.node), e.stack), []).append(e)
        return [v[-1] for v in by.values()]

    # -------------------------------------------------------------- roles
    def objective_event(self):
        ev = self.last_pass("fem.objectives")
        return ev[0] if len(ev) == 1 else None

    def roles(self):
        """(key, mu) of the design density: what the filter is applied to on
        the way to the state solve; the iteration number and its bound"""
        if hasattr(self, "rho_key"):
            return True
        e = self.objective_event()
        self.rho_key = None
        if e is None or self.loop is None:
            return False
        rho = e.extra["rho"]
        fs = tm.calls(rho, "filter.F")
        if len(fs) != 1:
            return False
        x = fs[0].args[2]
        self.radius_t = fs[0].args[1]
        D = self.before.heap.get(("o", self.tsk.oid, "design_elements"))
        if D is None:
            D = self.ip.obj_attr(self.tsk, "design_elements", self.before,
                                 None, None)
        self.D = self.ip.toT(D, self.before)
        own = []        # arrays whose design part an iteration rewrites
        for k, v in self.loop.mu.items():
            if v is x:
                self.rho_key, self.mu_rho = k, x
            t = self.loop.next.get(k)
            while isinstance(t, T) and t.op == "store":
                i = t.args[1]
                while i.op == "aidx":
                    i = i.args[0]
                if i is self.D and t.args[0] is v:
                    own.append((k, v))
                t = t.args[0]
        if len(own) == 1:
            self.rho_key, self.mu_rho = own[0]
        s = [c for c in tm.calls(e.extra["p"], "sched")
             if c.args[1] is const("cfg.p")]
        if self.rho_key is None:
            return False
        self.iter = s[0].args[3] if s else None
        self.imax = s[0].args[2] if s else None
        return self.iter is not None

    def sched(self, name):
        return mk("call", "sched", const("cfg." + name), self.imax,
                  self.iter)

    @property
    def rho_next(self):
        return self.loop.next[self.rho_key]

    @property
    def rho_init(self):
        return self.loop.init[self.rho_key]

    def worlds(self, *ts):
        """first pass (lazily made buffers absent) and later passes"""
        fl = set()
        for t in ts:
            for x in tm.subterms(t):
                if x.op == "mu" and str(x.args[1]).endswith(
                        ("?later", "?set")):
                    fl.add(x)
        if not fl:
            yield ("every iteration", *ts)
            return
        for nm, v in (("first iteration", tm.FALSE),
                      ("later iterations", tm.TRUE)):
            yield (nm, *[tm.subst(t, {f: v for f in fl}) for t in ts])

    def fed(self, name):
        return [e for e in self.last_pass("feed")
                if e.extra["name"] is const(name)]

    def update_event(self):
        """entry of the density update, last pass"""
        q = f"{self.optc.qual}.rho_update"
        fn = self.optc.find("rho_update", self.ctx.proj)
        if fn is None:
            raise AnalysisError(f"anchor vanished: {q}")
        ev = self.last_pass(fn.qual, "enter")
        return ev[0] if len(ev) == 1 else None

    def tag(self):
        return f"{self.kind}/{self.task}"


_CACHE = {}


def opt_run(ctx, opt="OC", task="elastic", **kw):
    k = (id(ctx), opt, task, repr(sorted(kw.items(), key=lambda x: x[0])))
    if k not in _CACHE:
        _CACHE[k] = OptRun(ctx, opt, task, **kw)
    return _CACHE[k]


def all_runs(ctx, **kw):
    for opt in KINDS:
        for task in TASKS:
            for dd in (False, True):
                kws = dict(kw)
                fixed = dict(kws.pop("cfg_fixed", {}) or {})
                fixed["design_dirichlet"] = dd
                r = opt_run(ctx, opt, task, cfg_fixed=fixed, **kws)
                r.label = f"{opt}/{task}/design_dirichlet={dd}"
                yield r
