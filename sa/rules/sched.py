"""C09 (schedule values) and C10 (who gets which schedule)."""
from .. import terms as tm
from ..terms import const, sym, mk
from ..ctx import Dom
from ..interp import State
from ..values import Cls
from . import steps
from .opt import opt_run, KINDS
from .update import FREE

A, B, NS, TOTAL, IT, CV = (sym(n, "s") for n in (
    "init_value", "target_value", "num_steps", "iters_max", "iter",
    "curvature"))
M_ = sym("len_step", "s")
TOOLS = "sktopt.tools.scheduler."

STEP = {"Step": None, "StepAccelerating": "acc", "StepDecelerating": "dec",
        "StepToOne": None, "StepAcceleratingToOne": "acc",
        "StepDeceleratingToOne": "dec"}
FACTORY = {"Step": "step", "StepAccelerating": "step_accelerating",
           "StepDecelerating": "step_decelerating",
           "StepToOne": "step_to_one",
           "StepAcceleratingToOne": "step_accelerating_to_one",
           "StepDeceleratingToOne": "step_decelerating_to_one",
           "SawtoothDecay": "sawtooth_decay", "Constant": "constant",
           "ConstantOne": "constant_one", "None": "none"}
CLASS = {k: "Scheduler" + k for k in list(STEP) + ["SawtoothDecay"]}


def whole(lo, hi):
    """whole numbers lo..hi"""
    def r(it, lo=lo, hi=hi):
        u = it.leaf(("int", lo, hi), (0.0, 1.0))
        return lo + int(u * (hi - lo + 1)) % (hi - lo + 1)
    return r


def named_whole(name, lo, hi):
    def r(it):
        u = it.leaf(("int", name), (0.0, 1.0))
        return lo + int(u * (hi - lo + 1)) % (hi - lo + 1)
    return r


def fl(x):
    return mk("int", x) if False else tm.mk("floordiv", x, const(1))


def spec(kind):
    """the documented schedule for 1 <= iter"""
    a, b = A, B
    if kind.endswith("One"):
        b = const(1.0)
        a = tm.div(const(1.0), NS)
    if kind == "None":
        return tm.NONE
    if kind in ("Constant", "ConstantOne"):
        return b
    length = tm.div(TOTAL, NS)
    if kind in STEP:
        idx = tm.tmin(mk("floordiv", IT, length), tm.sub(NS, const(1)))
        al = tm.div(idx, tm.sub(NS, const(1)))
        how = STEP[kind]
        if how == "acc":
            al = tm.pow_(al, CV)
        elif how == "dec":
            al = tm.sub(const(1), tm.pow_(tm.sub(const(1), al), CV))
        one = tm.cmp_("le", NS, const(1))
    else:
        i0 = tm.sub(IT, const(1))
        k = mk("floordiv", i0, length)
        al = tm.div(tm.sub(i0, tm.mul(k, length)), length)
        one = tm.cmp_("lt", NS, const(0))
    v = tm.add(tm.mul(tm.sub(const(1), al), a), tm.mul(al, b))
    return tm.ite(tm.or_(one, tm.cmp_("ge", IT, TOTAL)), b, v)


def doms(exact):
    d = {"init_value": Dom(0.1, 6.0), "target_value": Dom(0.1, 6.0),
         "curvature": Dom(0.4, 4.0)}
    if exact:
        d.update(num_steps=named_whole("ns", 1, 6),
                 len_step=named_whole("m", 2, 5),
                 iter=named_whole("it", 1, 40))
    else:
        d.update(num_steps=named_whole("ns", 1, 6),
                 iters_max=Dom(7.3, 40.7), iter=Dom(1.0, 45.0))
    return d


def types(ip):
    for s, t in ((A, "float"), (B, "float"), (NS, "int"), (TOTAL, "int"),
                 (IT, "int"), (CV, "float")):
        ip.types[s] = {t}


OLD = sym("horizon_in_the_configuration", "s")


def route(ctx, kind, how, preset=False):
    """value(iter) of one schedule built in one of the public ways"""
    ip = ctx.ip()
    st = State()
    types(ip)
    cfgc = ctx.proj.need("sktopt.tools.SchedulerConfig")
    colc = ctx.proj.need("sktopt.tools.Schedulers")
    k = {"name": const("x")}
    if kind in STEP or kind == "SawtoothDecay":
        k["num_steps"] = NS
        if not kind.endswith("One"):
            k.update(init_value=A, target_value=B)
        if STEP.get(kind):
            k["curvature"] = CV
    if kind == "Constant":
        k["target_value"] = B
    if preset:
        k["iters_max"] = OLD
        ip.types[OLD] = {"int"}
    if how == "class":
        c = ctx.proj.need(TOOLS + CLASS[kind])
        k["iters_max"] = TOTAL
        s, o = ip.run(Cls(c), [], k, st)
        if s is None:
            return ip, None, None, c.where if hasattr(c, "where") else kind
        s, v = ip.meth(o, "value", [IT], {}, s)
        return ip, s, v, kind
    if how == "factory":
        if kind == "None":
            k = {}
        f = ip.getattr(Cls(cfgc), FACTORY[kind], st, None, None)
        s, cfg = ip.run(f, [], k, st)
    elif how == "from_defaults":
        f = ip.getattr(Cls(cfgc), "from_defaults", st, None, None)
        s, cfg = ip.run(f, [], dict(k, scheduler_type=const(kind)), st)
    else:
        s, cfg = ip.run(Cls(cfgc), [], dict(k, scheduler_type=const(kind)),
                        st)
    if s is None:
        return ip, None, None, kind
    s, col = ip.run(Cls(colc), [const("dst")], {}, s)
    s, _ = ip.meth(col, "add_object_from_config", [cfg, const("par")], {}, s)
    if s is None:
        return ip, None, None, kind
    s, _ = ip.meth(col, "set_iters_max", [TOTAL], {}, s)
    s, v = ip.meth(col, "value_on_a_scheduler", [const("par"), IT], {}, s)
    return ip, s, v, kind


def c09(ctx):
    """Value numbering of every schedule's value(iter), for each public way
    to build it, against the documented schedule."""
    for kind in FACTORY:
        for how in ("factory", "from_defaults", "config", "class"):
            if how == "class" and kind not in CLASS:
                continue
            ctx.section(f"{kind}/{how}", c09_one, ctx, kind, how)
    ctx.section("refused", c09_refuse, ctx)


def c09_one(ctx, kind, how):
    ip, s, v, w = route(ctx, kind, how)
    fn = ctx.proj.need("sktopt.tools.scheduler.Scheduler").find(
        "value", ctx.proj)
    W = fn.where
    c = f"{kind} ({how})"
    rule = "schedule value"
    if s is None:
        r = [e for e in ip.trace if e.kind in ("raise", "no-attr",
                                               "none-attr", "bad-call")]
        if r and all(e.kind == "raise" or True for e in r):
            return ctx.bad(rule, c, W, "a complete configuration of this "
                           f"type has no value: {r[-1].kind} {r[-1].name} "
                           f"at {r[-1].where}:{r[-1].line}")
        return ctx.unsure(rule, c, "no value derived", W)
    got, want = ip.toT(v, s), spec(kind)
    for exact in (False, True):
        g, w_ = got, want
        if exact:
            sub = {TOTAL: tm.mul(NS, M_)}
            g, w_ = tm.subst(g, sub), tm.subst(w_, sub)
        ctx.equal(rule, f"{c}, {'plateau borders' if exact else 'generic'}",
                  W, g, w_, doms(exact), f"{kind} schedule",
                  n=max(ctx.n, 60) * 3)
    if kind in ("Constant", "ConstantOne", "None"):
        return
    a, b = (A, B) if not kind.endswith("One") else (
        tm.div(const(1.0), NS), const(1.0))
    d = doms(True)
    d["num_steps"] = named_whole("ns", 2, 6)
    sub = {TOTAL: tm.mul(NS, M_)}
    first = tm.subst(tm.subst(got, sub), {IT: const(1)})
    ctx.equal("schedule starts at init_value", c, W, first, a, d,
              "value of the first iteration")
    last = tm.subst(got, {IT: TOTAL})
    ctx.equal("schedule ends at target_value", c, W, last, b, doms(False),
              "value of the last iteration")
    late = tm.subst(got, {IT: tm.add(TOTAL, const(3))})
    ctx.equal("schedule ends at target_value", c + " beyond", W, late, b,
              doms(False), "value after the last iteration")


def c09_refuse(ctx):
    cfgc = ctx.proj.need("sktopt.tools.SchedulerConfig")
    need = {"Constant": ["target_value"]}
    for k in STEP:
        need[k] = ["num_steps"]
        if not k.endswith("One"):
            need[k] += ["init_value", "target_value"]
        if STEP[k]:
            need[k].append("curvature")
    need["SawtoothDecay"] = ["num_steps", "init_value", "target_value"]
    W = cfgc.find("from_defaults", ctx.proj).where
    full = dict(num_steps=NS, init_value=A, target_value=B, curvature=CV)

    def attempt(kw):
        ip = ctx.ip()
        st = State()
        types(ip)
        f = ip.getattr(Cls(cfgc), "from_defaults", st, None, None)
        s, _ = ip.run(f, [], kw, st)
        return s is None
    for k, names in need.items():
        for n in names:
            kw = {m: full[m] for m in names if m != n}
            kw["scheduler_type"] = const(k)
            ctx.fact(attempt(kw), "incomplete schedule refused",
                     f"{k} without {n}", W, "every path raises",
                     "accepted without " + n)
        if k.endswith("One"):
            kw = {m: full[m] for m in names}
            kw.update(scheduler_type=const(k), target_value=const(0.5))
            ctx.fact(attempt(kw), "contradictory schedule refused",
                     f"{k} with target 0.5", W, "every path raises",
                     "accepted although the target must be 1")
            kw = {m: full[m] for m in names}
            kw.update(scheduler_type=const(k), num_steps=const(0))
            ctx.fact(attempt(kw), "contradictory schedule refused",
                     f"{k} with num_steps 0", W, "every path raises",
                     "accepted although 1/num_steps is undefined")
    ctx.fact(attempt({"scheduler_type": const("Unheard-of"), **full}),
             "unknown schedule type refused", "from_defaults", W,
             "every path raises", "accepted")
    ip = ctx.ip()
    st = State()
    s, cfg = ip.run(Cls(cfgc), [], dict(
        full, scheduler_type=const("Unheard-of")), st)
    sc = ctx.proj.need("sktopt.tools.scheduler.Scheduler")
    s, _ = ip.run(ip.getattr(Cls(sc), "from_config", s, None, None), [cfg],
                  {}, s)
    ctx.fact(s is None, "unknown schedule type refused", "from_config", W,
             "every path raises", "accepted")


# ------------------------------------------------------------------- C10
NAMES = ["p", "vol_frac", "beta", "move_limit", "eta", "percentile",
         "filter_radius", "neumann_scale"]


def c10(ctx):
    """Look-up of schedules by name, and which configuration, horizon and
    iteration every scheduled parameter of an optimizer comes from."""
    ctx.section("lookup", c10_lookup, ctx)
    ctx.section("horizon", c10_horizon, ctx)
    steps.c10(ctx)
    for opt in KINDS:
        for eta in ("schedule", "number"):
            ctx.section(f"{opt}/{eta}", c10_opt, ctx, opt, eta)
        ctx.section(f"{opt}/restarted", c10_opt, ctx, opt, "schedule", True)


def c10_horizon(ctx):
    """a horizon already present in a configuration gives way to the one of
    the run"""
    W = ctx.proj.need("sktopt.tools.Schedulers").find(
        "set_iters_max", ctx.proj).where
    for kind in FACTORY:
        if kind == "None":
            continue
        ip, s, v, _ = route(ctx, kind, "config", preset=True)
        c = f"{kind} with a horizon of its own"
        if s is None:
            ctx.unsure("schedules span the whole run", c, "no value", W)
            continue
        d = doms(False)
        d[OLD.args[0]] = Dom(50.0, 90.0)
        ctx.equal("schedules span the whole run", c, W, ip.toT(v, s),
                  spec(kind), d, f"{kind} schedule over the run's horizon",
                  n=max(ctx.n, 60) * 3)


def c10_lookup(ctx):
    colc = ctx.proj.need("sktopt.tools.Schedulers")
    cfgc = ctx.proj.need("sktopt.tools.SchedulerConfig")
    W = colc.find("values_as_list", ctx.proj).where
    vals = {n: sym("value_" + n, "s") for n in ("p", "q", "r")}

    def make(order):
        ip = ctx.ip()
        st = State()
        s, col = ip.run(Cls(colc), [const("dst")], {}, st)
        for n in order:
            s, cfg = ip.run(Cls(cfgc), [], dict(
                name=const("x"), target_value=vals[n],
                scheduler_type=const("Constant")), s)
            for v in vals.values():
                ip.types[v] = {"float"}
            s, _ = ip.meth(col, "add_object_from_config", [cfg, const(n)],
                           {}, s)
        return ip, s, col
    rule = "schedule found by name"
    for reg in (["p", "q", "r"], ["r", "p", "q"]):
        for ask in (["q", "p"], ["r", "q", "p"], ["p"]):
            for log in (True, False):
                ip, s, col = make(reg)
                items = ip.new_list(s, [const(a) for a in ask])
                s, v = ip.meth(col, "values_as_list", [IT, items],
                               {"export_log": const(log)}, s)
                c = f"registered {reg}, asked {ask}, log={log}"
                if s is None:
                    ctx.bad(rule, c, W, "raises on every path")
                    continue
                got = ip.list_items(v, s)
                if got is None or len(got) != len(ask):
                    ctx.unsure(rule, c, "result not a list of known length",
                               W)
                    continue
                for g, a in zip(got, ask):
                    ctx.equal(rule, f"{c}: {a}", W, ip.toT(g, s), vals[a],
                              None, f"value returned for {a!r}")
    ip, s, col = make(["p", "q"])
    s, _ = ip.meth(col, "values_as_list", [IT, ip.new_list(
        s, [const("nowhere")])], {}, s)
    ctx.fact(s is None, "unknown schedule name refused", "values_as_list", W,
             "every path raises", "an unknown name is accepted")


def c10_opt(ctx, opt, eta, restart=False):
    fixed = {"design_dirichlet": False}
    if eta == "number":
        fixed["eta"] = sym("cfg.eta", "s")
    run = opt_run(ctx, opt, "elastic", cfg_fixed=fixed, restart=restart)
    rule = "parameter comes from its own schedule"
    L = f"{opt}/eta {eta}" + ("/restarted" if restart else "")
    if run.loop is None or not run.roles():
        return ctx.unsure(rule, L, "main loop not identified")
    W = run.loop.where
    imax = sym("cfg.max_iters", "s")
    it = run.iter
    ctx.equal("schedules span the whole run", L, W, run.imax, imax, None,
              "horizon of the schedules")

    if run.loop.itv is not None and not restart:
        ctx.equal("schedules follow the iteration number", L, W, it,
                  tm.add(const(1), run.loop.itv), None,
                  "iteration number the schedules are asked for")

    def want(n):
        if n == "eta" and eta == "number":
            e = sym("cfg.eta", "s")
            return mk("call", "sched", mk("tuple", e, e, const(-1)), imax,
                      it)
        return mk("call", "sched", const("cfg." + n), imax, it)
    got = {}
    e = run.objective_event()
    got["p"], got["neumann_scale"] = e.extra["p"], e.extra["fs"]
    got["filter_radius"] = run.radius_t
    u = run.update_event()
    if u is not None:
        tv = u.extra["tvals"]
        for n in ("vol_frac", "beta", "move_limit", "eta", "percentile"):
            if n in tv:
                got[n] = tv[n]
    for n in NAMES:
        if n in got:
            ctx.equal(rule, f"{L}: {n}", W, got[n], want(n),
                      None, f"{n} used in an iteration", allowed=FREE)
        else:
            ctx.unsure(rule, f"{L}: {n}", "not identified", W)
    if eta == "number" or restart:
        return
    # a load factor that does not end at one is refused
    c = f"{opt}: neumann_scale of another kind"
    cfgc = ctx.proj.need("sktopt.tools.SchedulerConfig")
    for kind in ("Constant", "Step", "SawtoothDecay"):
        try:
            from .opt import OptRun

            class Probe(OptRun):
                def find_loop(self):
                    self.loop = None
            r = Probe(ctx, opt, "elastic", cfg_fixed=fixed,
                      sched_types={"neumann_scale": kind})
            ctx.fact(r.after is None, "load factor must end at one",
                     f"{c}: {kind}", W, "every path raises",
                     f"a {kind} load factor is accepted")
        except RuntimeError as ex:
            ctx.unsure("load factor must end at one", f"{c}: {kind}",
                       str(ex), W)
