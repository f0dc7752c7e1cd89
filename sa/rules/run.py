"""Whole runs of an optimizer: restart (C12), stepwise runs (C11), early stop
(C15), snapshots (C34)."""
import re

from .. import terms as tm
from ..terms import T, const, sym, mk
from ..ctx import Dom
from ..interp import State
from ..project import AnalysisError
from .opt import OptRun, opt_run, CD
from .sched import named_whole
from .update import FREE

NI = sym("cfg.max_iters", "s")
RT = sym("cfg.record_times", "s")
RF = sym("cfg.restart_from", "s")
K = sym("k", "s")
DOMS = {"cfg.max_iters": named_whole("max_iters", 1, 12),
        "cfg.record_times": named_whole("record_times", 1, 6),
        "cfg.restart_from": named_whole("restart_from", -1, 9),
        "k": named_whole("k", 1, 9),
        "cfg.tol_rho_change": Dom(0.0, 1.2),
        "cfg.tol_kkt_residual": Dom(0.0, 1.2)}
CASES = [("OC", "elastic", False), ("LogMOC", "heat", True)]


class NoText(Exception):
    pass


def symbols(t):
    return tm.find(t, lambda x: x.op == "sym")


def text(t, it, env):
    """the character string a path expression stands for, with ``env`` giving
    symbols' values and ``it`` deciding conditions"""
    if t in env:
        return env[t]
    if t.op == "const":
        v = tm.cval(t)
        return v if isinstance(v, str) else number(v)
    if t.op == "fstr":
        return "".join(str(text(x, it, env)) for x in t.args)
    if t.op == "ite":
        return text(t.args[1 if it.truth(t.args[0]) else 2], it, env)
    if t.op == "fmt":
        v, spec = text(t.args[0], it, env), t.args[1]
        return format(v, "" if spec is tm.NONE else text(spec, it, env))
    if t.op == "call":
        f, a = str(t.args[0]), [x for x in t.args[1:] if not (
            isinstance(x, T) and x.op == "kw")]
        xs = [text(x, it, env) for x in a] if f in (
            "os.path.join", "str", ".zfill", "pathlib.Path", "format",
            "os.fspath", ".rjust", "os.path.normpath", ".format") else None
        if f in ("os.path.join",):
            return "/".join(x.rstrip("/") if i < len(xs) - 1 else x
                            for i, x in enumerate(xs))
        if f in ("str", "pathlib.Path", "os.fspath", "os.path.normpath"):
            return str(xs[0])
        if f == ".zfill":
            return str(xs[0]).zfill(int(xs[1]))
        if f == ".rjust":
            return str(xs[0]).rjust(int(xs[1]), *xs[2:])
        if f == "format":
            return format(*xs)
        if f == ".format":
            return xs[0].format(*xs[1:])
    if t.op == "str":
        return str(text(t.args[0], it, env))
    if t.op in ("add", "div") and any(is_text(x) for x in t.args):
        a, b = (text(x, it, env) for x in t.args)
        return a + b if t.op == "add" else f"{a}/{b}"
    if t.op == "mod" and is_text(t.args[0]) or \
            t.op == "call" and str(t.args[0]) == "%":
        a, b = t.args[-2:]
        b = tuple(text(x, it, env) for x in b.args) if b.op == "tuple" \
            else text(b, it, env)
        return text(a, it, env) % b
    if tm.kind(t) == "s" and t.op in tm._NUM | {"int": 0}.keys():
        return number(it.num(t))
    if t.op in ("sym", "mu", "it"):
        return number(it.num(t))
    raise NoText(f"path expression {tm.show(t, 4)}")


def number(v):
    if isinstance(v, float) and v == int(v):
        return int(v)
    return v


def is_text(t):
    return t.op == "fstr" or t.op == "const" and isinstance(
        tm.cval(t), str) or t.op == "call" and t.args[0] in (
            "os.path.join", "str", ".zfill", "pathlib.Path")


def interps(ctx, doms, n=12):
    for k in range(n):
        yield tm.Interp(tm._h(ctx.seed, "run", k), ctx.ranges(doms, ()))


def fixed_run(ctx, opt, task, dd, **kw):
    fixed = dict(kw.pop("cfg_fixed", {}) or {})
    fixed["design_dirichlet"] = dd
    r = opt_run(ctx, opt, task, cfg_fixed=fixed, **kw)
    r.label = f"{opt}/{task}"
    return r


SAVERS = ("np.savez_compressed", "np.savez", "np.save")


def snapshot_events(run):
    return [e for n in SAVERS for e in run.last_pass(n)
            if run.loop and run.loop.id in e.loops]


def body_pc(run, e):
    """conditions on the path from the loop head to an event"""
    n = len(run.loop.entry_pc)
    return [c for c in e.pc[n:] if not (c.op == "call" and c.args[0] ==
                                        "more")]


def reached(run, e):
    """condition under which an iteration reaches an event, given that the
    density update of that iteration completes"""
    base = set()
    for x in run.last_pass("feed"):
        if x.extra["name"] is const("neumann_scale"):
            base |= set(x.pc)
    return tm.and_(*[c for c in body_pc(run, e) if c not in base])


def converged(run):
    """both criteria, from the iteration's own values"""
    ev = run.fed("rho_change_max")
    kk = run.fed("kkt_residual")
    if len(ev) != 1 or len(kk) != 1:
        return None
    r, k = ev[0].extra["data"], kk[0].extra["data"]
    return tm.and_(
        tm.cmp_("lt", r, sym("cfg.tol_rho_change", "s")),
        mk("isfinite", k),
        tm.cmp_("lt", mk("abs", k), sym("cfg.tol_kkt_residual", "s")))


def limit(run, steps):
    """the first iteration number a call does not reach"""
    end = tm.add(NI, const(1))
    if steps is None:
        return end
    if run.loop.itv is None:
        raise tm.Undecided("iteration numbers not recognised")
    first = tm.subst(run.iter, {run.loop.itv: const(0)})
    return tm.tmin(tm.add(first, steps), end)


def due(it, lim, conv):
    """when an iteration leaves a snapshot"""
    every = tm.tmax(mk("floordiv", NI, RT), const(1))
    return tm.or_(tm.cmp_("eq", mk("mod", it, every), const(0)),
                  tm.cmp_("eq", it, const(1)), conv,
                  tm.cmp_("eq", it, tm.sub(lim, const(1))))


def runs(ctx, **kw):
    for opt, task, dd in CASES:
        for check in (False, True):
            for steps in (None, K):
                r = fixed_run(ctx, opt, task, dd, cfg_fixed={
                    "check_convergence": check, "max_iters": NI,
                    "record_times": RT},
                    entry="optimize" if steps is None else "optimize_steps",
                    steps=steps, **kw)
                r.label += f"/check={check}/" + (
                    "full" if steps is None else "steps")
                r.ip.types[K] = {"int"}
                yield r, check, steps


# ------------------------------------------------------------------- C34
def c34(ctx):
    """Path condition of the snapshot, the mesh output and the loop's end in
    a generic iteration, against the documented recording schedule."""
    for run, check, steps in runs(ctx):
        ctx.section(run.label, c34_run, ctx, run, check, steps)


def c34_run(ctx, run, check, steps):
    rule = "snapshot schedule"
    L = run.label
    if run.loop is None or not run.roles():
        return ctx.unsure(rule, L, "main loop not identified")
    W = run.loop.where
    ev = snapshot_events(run)
    if not ev:
        return ctx.bad(rule, L, W, "no density snapshot is written")
    if len(ev) > 1:
        return ctx.unsure(rule, L, "several snapshot writes", W)
    e = ev[0]
    conv = converged(run)
    if conv is None:
        return ctx.unsure(rule, L, "convergence values not recorded", W)
    want = due(run.iter, limit(run, steps), conv if check else tm.FALSE)
    d = dict(DOMS)
    n = max(ctx.n, 200)
    ctx.equal(rule, f"{L}: when a snapshot is written", W, reached(run, e),
              want, d, "a snapshot is due at the first and last iteration, "
              "every max_iters//record_times iterations and on convergence",
              n=n, allowed=FREE)
    # what is in it
    kws = e.extra["tkws"]
    got = kws.get("rho_design_elements")
    if got is None:
        ctx.unsure(rule, f"{L}: content", "content not identified", W)
    else:
        ctx.equal("snapshot content", f"{L}: rho_design_elements", W, got,
                  tm.gather(run.rho_next, run.D), DOMS,
                  "the snapshot must hold the design densities of the "
                  "iteration", allowed=FREE)
    # the mesh file of the same iteration, with that iteration's fields
    viz = [x for x in run.last_pass("sktopt.core.visualization."
                                    "export_mesh_with_info")
           if run.loop.id in x.loops]
    o = run.objective_event()
    for x in viz:
        ctx.equal(rule, f"{L}: when the mesh file is written", W,
                  reached(run, x), want, d, "mesh output and snapshot belong "
                  "together", n=n, allowed=FREE)
        t = x.extra["tkws"].get("cell_data_values")
        nm = x.extra["tkws"].get("cell_data_names")
        if t is None or nm is None or t.op not in ("list", "tuple") or \
                len(t.args) != len(nm.args):
            ctx.unsure(rule, f"{L}: mesh fields", "fields not identified", W)
            continue
        got = {tm.cval(a): b for a, b in zip(nm.args, t.args)
               if tm.is_const(a)}
        en = run.fed("energy")
        ws = {"rho_projected": o.extra["rho"]}
        if len(en) == 1:
            ws["energy"] = en[0].extra["data"]
        for k, w in ws.items():
            if k in got:
                ctx.equal("snapshot content", f"{L}: mesh field {k}", W,
                          got[k], w, DOMS, f"mesh field {k} of the "
                          "iteration", allowed=FREE)
            else:
                ctx.bad("snapshot content", f"{L}: mesh field {k}", W,
                        f"{k} is missing from the mesh file")


    final_files(ctx, run)


def final_files(ctx, run):
    """what is exported after the last iteration"""
    L, W = run.label, run.loop.where
    if run.after is None or run.rho_key[0] != "a":
        return
    cell = run.rho_key
    for q, what in (("sktopt.mesh.visualization.export_submesh", "submesh"),
                    ("sktopt.core.visualization.rho_histo_plot",
                     "histogram")):
        for e in run.events(q):
            if run.loop.id in e.loops or "heap" not in e.extra:
                continue
            now = e.extra["heap"].get(cell)
            got = [t for t in e.extra["targs"] + list(
                e.extra["tkws"].values()) if tm.kind(t) == "a"
                and t.op not in ("sym", "attr", "obj")]
            if now is None or len(got) != 1:
                ctx.unsure("final files", f"{L}: {what}",
                           "content not identified", W)
                continue
            want = now if what == "submesh" else tm.gather(now, run.D)
            ctx.equal("final files", f"{L}: {what} at line {e.line}", W,
                      got[0], want, DOMS, "the final files hold the final "
                      "density", allowed=FREE | ENDS)


# ------------------------------------------------------------------- C15
def c15(ctx):
    """Path conditions of every way out of the iteration loop, and what a
    later call does after completion."""
    for run, check, steps in runs(ctx):
        ctx.section(run.label, c15_run, ctx, run, check, steps)
    for opt, task, dd in CASES:
        r = fixed_run(ctx, opt, task, dd, restart=True, cfg_fixed={
            "check_convergence": False, "max_iters": NI, "record_times": RT,
            "restart_from": RF})
        c = f"{opt}/{task}/restarted"
        if r.loop is None or not r.roles() or r.loop.itv is None:
            ctx.unsure("iteration numbers", c, "main loop not identified")
            continue
        first = tm.subst(r.iter, {r.loop.itv: const(0)})
        ctx.equal("iteration numbers", f"{c}: last", r.loop.where,
                  tm.add(first, r.loop.bound), tm.add(NI, const(1)), DOMS,
                  "a restarted run must end at max_iters", allowed=FREE)


def c15_run(ctx, run, check, steps):
    rule = "early stop"
    L = run.label
    if run.loop is None or not run.roles():
        return ctx.unsure(rule, L, "main loop not identified")
    W = run.loop.where
    conv = converged(run)
    if conv is None:
        return ctx.unsure(rule, L, "convergence values not recorded", W)
    base = set()
    for x in run.last_pass("feed"):
        if x.extra["name"] is const("neumann_scale"):
            base |= set(x.pc)
    n0 = len(run.loop.entry_pc)

    def cond(b):
        return tm.and_(*[c for c in b.pc[n0:] if c not in base
                         and not (c.op == "call" and c.args[0] in (
                             "more", "broke"))])
    stop = tm.or_(*[cond(b) for b in run.loop.breaks])
    n = max(ctx.n, 200)
    # the two measured values, whatever they are; a residual may be nan
    Rv, Kv = sym("change~", "s"), sym("residual~", "s")
    m = {run.fed("rho_change_max")[0].extra["data"]: Rv,
         run.fed("kkt_residual")[0].extra["data"]: Kv}
    d = dict(DOMS, **{"change~": Dom(0.0, 1.2), "residual~": Dom(0.0, 1.2)})
    stop, conv = tm.subst(stop, m), tm.subst(conv, m)
    for fin in (True, False):
        ctx.equal(rule, f"{L}: when the loop is left before its end"
                  + ("" if fin else " (residual not finite)"), W, stop,
                  conv if check else tm.FALSE, d,
                  "the loop may only end early when convergence checking is "
                  "on and both criteria hold in this iteration, and must end "
                  "then", n=n, fixed={mk("isfinite", Kv): fin},
                  allowed=FREE | ENDS)
    # iterations a call makes
    ctx.section("iteration range", c15_range, ctx, run, steps, n)
    # finishing: once, at the end or on convergence
    lim = limit(run, steps)
    ex = run.events("recorder.export_histories")
    if not ex:
        return ctx.bad("finishing", f"{L}: histories", W, "the histories are "
                       "never written")
    go = tm.and_(tm.cmp_("ge", NI, const(1)), tm.cmp_("ge", K, const(1)))
    for b in ((False, True) if check else (False,)):
        nm = "converged" if b else "ran to its limit"
        # after the loop: an event is reached when its own conditions hold
        got = tm.or_(*[tm.and_(*[after_loop(c, run, b) for c in e.pc
                                 if c not in run.loop.entry_pc])
                       for e in ex])
        want = tm.TRUE if b else tm.cmp_("ge", lim, tm.add(NI, const(1)))
        ctx.equal("finishing", f"{L}: results are written when the run "
                  f"{nm}", W, got, want, DOMS, "results are written when the "
                  "run converged or reached max_iters, and only then", n=n,
                  assume=go, allowed=FREE | ENDS)
    # nothing happens any more after completion
    if run.after is None:
        return
    st = run.after.fork()
    mark = len(run.ip.trace)
    run.ip.meth(run.opt, "optimize", [], {}, st)
    again = [e for e in run.ip.trace[mark:] if e.kind == "call" and e.name in
             ("fem.objectives", "recorder.export_histories", "feed")]
    del run.ip.trace[mark:]
    for b in ((False, True) if check else (False,)):
        c = f"{L}: call after " + ("convergence" if b else "the end")
        done = tm.TRUE if b else tm.cmp_("ge", lim, tm.add(NI, const(1)))
        live = tm.or_(*[tm.and_(*[
            after_loop(x, run, b) for x in e.pc
            if x not in run.loop.entry_pc and not inside(x, again)])
            for e in again if e.name != "feed"])
        ctx.equal("finishing", c, W, live, tm.FALSE, DOMS,
                  "a call after completion must not solve, record or write "
                  "again", n=n, assume=tm.and_(go, done),
                  allowed=FREE | ENDS)


def c15_range(ctx, run, steps, n):
    L, W = run.label, run.loop.where
    lim = limit(run, steps)
    first = tm.subst(run.iter, {run.loop.itv: const(0)})
    ctx.equal("iteration range", f"{L}: number of iterations", W,
              tm.tmax(run.loop.bound, const(0)),
              tm.tmax(tm.sub(lim, first), const(0)), DOMS,
              "iterations run up to max_iters", n=n)
    ctx.equal("iteration range", f"{L}: iteration numbers", W, run.iter,
              tm.add(first, run.loop.itv), DOMS, "iterations are numbered "
              "one after the other", n=n)
    ctx.equal("iteration range", f"{L}: first iteration", W, first,
              const(1), DOMS, "the first iteration is 1")


ENDS = {"broke", "ran", "more", "uninit", "call:truth", "call:broke",
        "call:ran"}


def inside(c, evs):
    return False


def after_loop(c, run, b):
    """a condition met after the main loop, given whether it was left early"""
    lid = run.loop.id

    def of_loop(x, name):
        return x.op == "call" and x.args[0] == name and \
            x.args[1] is const(lid) or x.op == "call" and \
            x.args[0] == name and str(getattr(
                x.args[1], "args", (x.args[1],))[0]) == lid
    m = {}
    for x in tm.subterms(c):
        if of_loop(x, "broke"):
            m[x] = tm.TRUE if b else tm.FALSE
            m[mk("call", "truth", x)] = m[x]
        elif of_loop(x, "ran") and b:
            m[x] = tm.TRUE
        elif of_loop(x, "more"):
            pass
    for x in tm.subterms(c):
        if x.op == "or" and any(
                y.op == "not" and of_loop(y.args[0], "broke")
                for y in x.args):
            m[x] = tm.TRUE      # the two ways out of the loop
    c = tm.subst(c, m)
    m = {x: tm.cmp_("lt", const(0), x.args[2]) for x in tm.subterms(c)
         if x.op == "call" and x.args[0] == "more"}
    return tm.subst(c, m)


# ------------------------------------------------------------------- C11
def c11(ctx):
    """Two consecutive calls (some steps, then the rest) against one: state
    handed over, iteration numbers, schedule horizon, one iteration's
    values."""
    for opt, task, dd in CASES:
        for check in (False, True):
            ctx.section(f"{opt}/{task}", c11_run, ctx, opt, task, dd, check)


def observables(run):
    """what an iteration shows: solves, updates, records, snapshots"""
    out = {}
    e = run.objective_event()
    for k in ("rho", "p", "fs"):
        out[f"state solve: {k}"] = e.extra[k]
    for x in run.last_pass("feed"):
        n = x.extra["name"]
        out[f"record: {tm.cval(n) if tm.is_const(n) else 'objective'}"] = \
            x.extra["data"]
    for x in snapshot_events(run):
        for k, v in x.extra["tkws"].items():
            out[f"snapshot: {k}"] = v
    out["next density"] = run.rho_next
    return out


def c11_run(ctx, opt, task, dd, check):
    rule = "stepwise run"
    L = f"{opt}/{task}/check={check}"
    ip_types = {K: {"int"}}
    cf = {"design_dirichlet": dd, "check_convergence": check,
          "max_iters": NI, "record_times": RT}
    one = fixed_run(ctx, opt, task, dd, cfg_fixed=dict(cf))
    r = OptRun(ctx, opt, task, entry="optimize_steps", steps=K,
               cfg_fixed=cf, types=ip_types,
               assume=[tm.cmp_("gt", K, const(0)),
                       tm.not_(tm.cmp_("ge", const(1), tm.add(NI, const(
                           1)))), tm.not_(tm.cmp_("le", K, const(0)))])
    if r.loop is None or not r.roles() or not one.roles():
        return ctx.unsure(rule, L, "main loop not identified")
    W = r.loop.where
    # one call: what an iteration does, stepping or not
    m = {one.iter: r.iter}
    pair = {}
    for k, v in one.loop.mu.items():
        lab = (k[0], one.loop.labels.get(k))
        pair.setdefault(lab, []).append(v)
    for k, v in r.loop.mu.items():
        lab = (k[0], r.loop.labels.get(k))
        o = pair.get(lab, [])
        if len(o) == 1 and isinstance(o[0], T) and isinstance(v, T):
            m[o[0]] = v
    a, b = observables(one), observables(r)
    ctx.equal(rule, f"{L}: schedule horizon", W, r.imax, one.imax, DOMS,
              "schedules must run over max_iters in a partial run too")
    # two calls
    st = r.after
    if st is None:
        return ctx.bad(rule, L, W, "a partial run raises on every path")
    after1 = st.fork()
    nl = len(r.ip.loops)
    mark = len(r.ip.trace)
    first_iter, first_bound, mu1 = r.iter, r.loop.bound, dict(r.loop.mu)
    lab1 = dict(r.loop.labels)
    r.mark = mark
    s, _ = r.ip.meth(r.opt, "optimize", [], {}, st)
    ids = {e.loops[0] for e in r.events("fem.objectives") if e.loops}
    ls = [x for x in r.ip.loops[nl:] if x.id in ids]
    if not ls:
        return ctx.bad(rule, f"{L}: second call", W, "a call after a partial "
                       "run never iterates")
    two = Second(r, ls[-1])
    if not two.roles():
        return ctx.unsure(rule, f"{L}: second call", "loop not identified",
                          W)
    start = tm.subst(two.iter, {two.loop.itv: const(0)})
    go = tm.cmp_("ge", NI, const(1))
    done = tm.add(tm.subst(first_iter, {r.loop.itv: const(0)}),
                  tm.tmax(first_bound, const(0)))
    broke = {x: False for x in tm.find(start, lambda y: y.op == "call"
                                       and y.args[0] == "broke")}
    ctx.equal(rule, f"{L}: iteration the second call starts at", W, start,
              done, DOMS, "the second call must continue at the next "
              "iteration", assume=go, fixed=broke, n=max(ctx.n, 100),
              allowed=FREE | {"ran", "broke"})
    ctx.equal(rule, f"{L}: last iteration of the second call", W,
              tm.add(start, two.loop.bound), tm.add(NI, const(1)), DOMS,
              "the second call must run to max_iters", assume=go,
              fixed=broke, n=max(ctx.n, 100), allowed=FREE | {"ran",
                                                             "broke"})
    ctx.equal(rule, f"{L}: schedule horizon of the second call", W,
              two.imax, r.imax, DOMS, "schedule horizon")
    fine = tm.and_(go, tm.cmp_("le", done, NI))
    ctx.equal(rule, f"{L}: second call iterates", W, tm.and_(*[
        after_loop(c, r, False) for c in ls[-1].entry_pc
        if c not in r.loop.entry_pc]), tm.TRUE, DOMS, "a call after a partial "
        "run that stopped before max_iters must continue", assume=fine,
        n=max(ctx.n, 100), allowed=FREE | ENDS)
    # two partial calls
    st2 = after1.fork()
    K2 = sym("k2", "s")
    r.ip.types[K2] = {"int"}
    st2.assume(tm.cmp_("gt", K2, const(0)))
    nl2, m2 = len(r.ip.loops), len(r.ip.trace)
    r.ip.meth(r.opt, "optimize_steps", [K2], {}, st2)
    ids2 = {e.loops[0] for e in r.ip.trace[m2:] if e.kind == "call"
            and e.name == "fem.objectives" and e.loops}
    l2 = [x for x in r.ip.loops[nl2:] if x.id in ids2]
    if l2:
        ctx.equal(rule, f"{L}: iterations of a second partial call", W,
                  after_loop(l2[-1].bound, r, False),
                  tm.tmin(K2, tm.sub(tm.add(NI, const(1)), done)),
                  dict(DOMS, k2=named_whole("k2", 1, 9)),
                  "every partial call makes the requested number of "
                  "iterations, up to max_iters", assume=tm.and_(
                      fine, tm.cmp_("ge", K2, const(1))),
                  n=max(ctx.n, 100), allowed=FREE | ENDS)
    else:
        ctx.bad(rule, f"{L}: second partial call", W, "a second partial run "
                "never iterates")
    del r.ip.loops[nl2:], r.ip.trace[m2:]
    # live carried values
    obs = observables(two)
    live, todo = set(), list(obs.values())
    bykey = {}
    for k, v in two.loop.mu.items():
        for x in mus_of(v, two, k):
            bykey[x] = k
    while todo:
        t = todo.pop()
        for x in tm.subterms(t):
            if x.op == "mu" and x in bykey and bykey[x] not in live:
                k = bykey[x]
                live.add(k)
                nx = two.loop.next.get(k)
                if isinstance(nx, T):
                    todo.append(nx)
    byname = {(k[0], lab1.get(k)): k for k in mu1}
    for k in sorted(live, key=str):
        name = two.loop.labels.get(k)
        c = f"{L}: {name} handed over to the second call"
        init = two.loop.init.get(k)
        k1 = k if k in mu1 else byname.get((k[0], name))
        if not isinstance(init, T):
            continue
        init = tm.subst(init, {})
        want = mu1.get(k1) if k1 is not None else None
        if want is None:
            # not carried by the first call's loop
            ctx.unsure(rule, c, "not carried by the first call", W)
            continue
        if not isinstance(want, T):
            continue
        fx = {x: False for x in tm.find(init, lambda y: y.op == "call" and
                                        y.args[0] == "broke")}
        # values are kept from the first call's end, or (nothing can be
        # observed of them) from its start
        ctx.equal(rule, c, W, init, want, DOMS, f"{name} must keep its value "
                  "between two calls", assume=go, fixed=fx,
                  allowed=FREE | {"ran", "broke"})
    ctx.fact(bool(live), rule, f"{L}: carried values", W,
             f"{len(live)} live values carried over",
             "nothing is carried from one iteration to the next")
    # same iteration
    back = {two.iter: first_iter}
    for k, v in two.loop.mu.items():
        k1 = k if k in mu1 else byname.get((k[0], two.loop.labels.get(k)))
        v1 = mu1.get(k1)
        if isinstance(v, T) and isinstance(v1, T):
            back[v] = v1
    for nm, t in obs.items():
        if nm not in b:
            ctx.bad(rule, f"{L}: {nm}", W, f"{nm} only in one of two calls")
            continue
        ctx.equal(rule, f"{L}: {nm} in the second call", W,
                  later(tm.subst(t, back)), later(b[nm]), DOMS,
                  f"{nm} must not depend on how the run is split",
                  n=8, allowed=FREE | {"ran", "broke"})
    sv, cv = snapshot_events(two), converged(two)
    if len(sv) == 1 and cv is not None:
        # the second call leaves the snapshots an uninterrupted run leaves
        NO = sym("iteration~", "s")
        end = tm.add(NI, const(1))
        ctx.equal(rule, f"{L}: snapshots of the second call", W,
                  after_loop(tm.subst(reached(two, sv[0]), {two.iter: NO}),
                             r, False),
                  due(NO, end, tm.subst(cv, {two.iter: NO}) if check
                      else tm.FALSE),
                  dict(DOMS, **{"iteration~": named_whole(
                      "iteration~", 1, 12)}),
                  "which iterations leave a snapshot must not depend on how "
                  "the run is split", assume=tm.and_(
                      go, tm.cmp_("ge", NO, done), tm.cmp_("le", NO, NI)),
                  n=max(ctx.n, 200), allowed=FREE | ENDS)
    for nm, t in a.items():
        if nm in b:
            ctx.equal(rule, f"{L}: {nm} in a partial run", W,
                      later(tm.subst(t, m)), later(b[nm]), DOMS,
                      f"{nm} must be the same in partial and full runs",
                      n=8, allowed=FREE)


def later(t):
    """an iteration's value once lazily made buffers exist"""
    m = {}
    for x in tm.subterms(t):
        if x.op == "mu" and str(x.args[1]).endswith(("?later", "?set")):
            m[x] = tm.TRUE
        elif x.op == "is" and x.args[1] is tm.NONE and x.args[0].op == "mu":
            m[x] = tm.FALSE
    return tm.subst(t, m)


def mus_of(v, run, k):
    if isinstance(v, T):
        return [v] if v.op == "mu" else [
            x for x in tm.subterms(v) if x.op == "mu"
            and x.args[0] == run.loop.id]
    return []


class Second:
    """the loop of a second call, seen through OptRun's accessors"""

    def __init__(self, run, loop):
        self.__dict__.update(run.__dict__)
        for k in ("rho_key",):
            self.__dict__.pop(k, None)
        self.loop = loop
        self.ctx.main_loops.add(loop.id)

    def __getattr__(self, name):
        f = getattr(OptRun, name)
        if isinstance(f, property):
            return f.fget(self)
        return f.__get__(self)


# ------------------------------------------------------------------- C12
def c12(ctx):
    """Writer and reader of the restart file: names, content, numbering;
    choice of the latest snapshot."""
    for opt, task, dd in CASES:
        ctx.section(f"{opt}/{task}", c12_run, ctx, opt, task, dd)
    ctx.section("latest snapshot", c12_latest, ctx)


def c12_run(ctx, opt, task, dd):
    rule = "restart"
    L = f"{opt}/{task}"
    cf = {"check_convergence": False, "max_iters": NI, "record_times": RT}
    w = fixed_run(ctx, opt, task, dd, cfg_fixed=dict(cf))
    r = fixed_run(ctx, opt, task, dd, cfg_fixed=dict(cf, restart_from=RF),
                  restart=True)
    if w.loop is None or not w.roles():
        return ctx.unsure(rule, L, "main loop not identified")
    if r.loop is None or not r.roles():
        return ctx.unsure(rule, L, "main loop of a restarted run not "
                          "identified")
    W = "common_density.py:initialize_density"
    sv = snapshot_events(w)
    if len(sv) != 1:
        return ctx.unsure(rule, L, "snapshot write not identified")
    sv = sv[0]
    ld = [e for e in r.ip.trace if e.kind == "call" and e.name == "np.load"]
    if not ld:
        return ctx.bad(rule, L, W, "a restarted run loads no snapshot")
    path_w = sv.extra["targs"][0]
    dst = sym("cfg.dst_path", "s")
    dsts = [x for x in symbols(path_w) if "dst_path" in str(x.args[0])]
    env = {x: "DST" for x in dsts}
    first = tm.subst(r.iter, {r.loop.itv: const(0)})
    latest = ("LATESTNO", "LATESTFILE")
    del dst, latest
    ok_names = True
    seen = 0
    for it in interps(ctx, DOMS, 40):
        k = int(it.num(RF))
        act = []
        for e in ld:
            pc = [c for c in e.pc if RF in symbols(c)]
            if all(it.truth(c) for c in pc):
                act.append(e)
        if k <= 0:
            continue
        seen += 1
        if len(act) != 1:
            return ctx.unsure(rule, f"{L}: snapshot read", "load not unique",
                              W)
        e = {x: "DST" for x in symbols(act[0].extra["targs"][0])
             if "dst_path" in str(x.args[0])}
        try:
            got = text(act[0].extra["targs"][0], it, e)
            itw = dict(env)
            itw[w.iter] = k
            want = text(path_w, it, itw)
        except NoText as x:
            return ctx.unsure(rule, f"{L}: snapshot name", str(x), W)
        if got != want:
            ok_names = False
            ctx.bad(rule, f"{L}: snapshot name", W, f"restart from iteration "
                    f"{k} reads {got}, iteration {k} wrote {want}")
            break
        f = it.num(first)
        if f != k + 1:
            ctx.bad(rule, f"{L}: first iteration after a restart", W,
                    f"restart from iteration {k} starts at iteration {f}")
            ok_names = False
            break
    if ok_names:
        ctx.fact(seen > 0, rule, f"{L}: snapshot name and first iteration", W,
                 f"reader and writer agree ({seen} iteration numbers)",
                 "no restart iteration explored")
    last = tm.add(first, r.loop.bound)
    ctx.equal(rule, f"{L}: end of a restarted run", W, last,
              tm.add(NI, const(1)), DOMS, "a restarted run must end at "
              "max_iters")
    # content
    keys = sv.extra["tkws"]
    init = r.rho_init
    loads = tm.find(init, lambda x: x.op in ("gather", "getitem") and any(
        y.op == "call" and y.args[0] == "np.load"
        for y in tm.subterms(x.args[0])) and tm.is_const(x.args[1]))
    used = {tm.cval(x.args[1]) for x in loads}
    ctx.fact(used <= set(keys) and bool(used), rule,
             f"{L}: entry read from the snapshot", W,
             f"reads {sorted(map(str, used))}",
             f"the restart reads entries {sorted(map(str, used))}, the "
             f"snapshot holds {sorted(keys)}")
    if len(used) == 1 and next(iter(used)) in keys:
        name = next(iter(used))
        whole = [x for x in loads]
        X = sym("stored~", "a")
        got = init
        for x in whole:
            got = tm.subst(got, {x: X})
        D, N = r.D, attr_set(r, dd)
        F = attr_set(r, None)
        base = tm.store(sym("any~", "a"), D, X)
        solid = tm.store(tm.ite(mk("is", N, tm.NONE), base, tm.store(
            base, N, const(1.0))), F, const(1.0))
        del name
        ctx.equal(rule, f"{L}: densities of the design elements", W,
                  got, solid, DOMS,
                  "a restarted run must start from the stored design "
                  "densities", members={D: True}, allowed=FREE)
        ctx.equal(rule, f"{L}: small densities of the design elements", W,
                  got, solid, dict(DOMS, **{"stored~": Dom(1e-4, 9e-3)}),
                  "a restarted run must start from the stored design "
                  "densities", members={D: True}, allowed=FREE)
    # histories come before the first record; nothing is wiped
    imp = [e for e in r.ip.trace if e.kind == "call" and
           e.name == "recorder.import_histories"]
    feeds = [e for e in r.ip.trace if e.kind == "call" and e.name == "feed"]
    ctx.fact(bool(imp) and all(i.order < f.order for i in imp
                               for f in feeds), rule,
             f"{L}: histories continue", W, "imported before the first record",
             "the stored histories are not imported before the first record")
    for what in ("shutil.rmtree", "os.remove", "os.unlink", "os.rmdir"):
        bad = [e for e in r.ip.trace if e.kind == "call" and e.name == what]
        ctx.fact(not bad, rule, f"{L}: {what} in a restarted run", W,
                 "not reached", f"a restarted run deletes files ("
                 f"{what} at {bad[0].where}:{bad[0].line})" if bad else "")
    imp_w = [e for e in w.ip.trace if e.kind == "call" and
             e.name in ("recorder.import_histories", "np.load")]
    ctx.fact(not imp_w, rule, f"{L}: fresh run", W, "loads nothing",
             "a fresh run loads stored data")


def attr_set(r, dd):
    if dd is None:
        n = "fixed_elements"
    elif dd:
        n = "neumann_elements"
    else:
        n = "dirichlet_neumann_elements"
    return r.ip.toT(r.ip.obj_attr(r.tsk, n, r.before, None, None), r.before)


def c12_latest(ctx):
    """the loop over the directory listing, unrolled over unknown names"""
    rule = "latest snapshot"
    cf = {"check_convergence": False, "max_iters": NI, "record_times": RT,
          "restart_from": -1}
    for n in (1, 2, 3):
        names = [sym(f"file{i}", "s") for i in range(n)]

        def listing(ip, st, a, k, node, names=names):
            return ip.new_list(st, list(names))
        r = OptRun(ctx, "OC", "elastic", restart=True, cfg_fixed=dict(
            cf, design_dirichlet=False), extra_models={
                "os.listdir": listing}, types={x: {"str"} for x in names})
        c = f"{n} files"
        if r.loop is None or not r.roles():
            ctx.unsure(rule, c, "main loop not identified")
            continue
        ld = [e for e in r.ip.trace if e.kind == "call"
              and e.name == "np.load"]
        if len(ld) != 1:
            ctx.unsure(rule, c, "load not identified")
            continue
        W = f"{ld[0].where}:{ld[0].line}"
        first = tm.subst(r.iter, {r.loop.itv: const(0)})
        match, num = {}, {}
        for t in (first, ld[0].extra["targs"][0]):
            for x in tm.subterms(t):
                for i, f in enumerate(names):
                    if x.op == "call" and str(x.args[0]) in (
                            ".match", ".fullmatch", ".search", "re.match",
                            "re.fullmatch", "re.search", ".endswith",
                            ".startswith") and f in x.args:
                        match.setdefault(i, set()).add(x)
                    if x.op == "int" and f in symbols(x) or \
                            x.op == "call" and x.args[0] == "int" and \
                            f in symbols(x):
                        num.setdefault(i, set()).add(x)
        if len(match) != n or len(num) != n or any(
                len(v) != 1 for v in list(match.values()) + list(
                    num.values())):
            ctx.unsure(rule, c, "matching of the names not identified", W)
            continue
        ms = [next(iter(match[i])) for i in range(n)]
        ns = [next(iter(num[i])) for i in range(n)]
        bad = None
        tried = 0
        for it in interps(ctx, DOMS, 60):
            hit = [bool(tm._h(it.seed, "hit", i) & 8) for i in range(n)]
            nos = [5 + (tm._h(it.seed, "no", i) % 400) * 3 + i
                   for i in range(n)]
            it.fixed = {**{x: v for x, v in zip(ns, nos)},
                        **{mk("call", "truth", x): h
                           for x, h in zip(ms, hit)},
                        **{x: (1 if h else None) for x, h in zip(ms, hit)},
                        **{tm.mk("call", "truth", x): True for x in names},
                        **{x: 1 for x in names},
                        **{tm.mk("is", x, tm.NONE): not h
                           for x, h in zip(ms, hit)},
                        **{tm.mk("isnot", x, tm.NONE): h
                           for x, h in zip(ms, hit)}}
            env = {x: f"F{i}" for i, x in enumerate(names)}
            for x in symbols(ld[0].extra["targs"][0]):
                if "dst_path" in str(x.args[0]):
                    env[x] = "DST"
            if not any(hit):
                continue
            tried += 1
            best = max(range(n), key=lambda i: (hit[i], nos[i]))
            try:
                g = it.num(first)
                p = text(ld[0].extra["targs"][0], it, env)
            except (NoText, tm.Undecided) as e:
                bad = ("?", str(e))
                break
            if g != nos[best] + 1 or p != f"DST/data/F{best}":
                bad = ("!", f"with snapshots "
                       f"{[x for x, h in zip(nos, hit) if h]} the run starts "
                       f"at {g} from {p}; file of iteration {nos[best]} is "
                       f"DST/data/F{best}")
                break
        if bad and bad[0] == "?":
            ctx.unsure(rule, c, bad[1], W)
        else:
            ctx.fact(bad is None, rule, f"{c}: largest iteration is taken", W,
                     f"{tried} listings", bad[1] if bad else "")
        # the pattern accepts what the writer produces
        pats = {str(tm.cval(y)) for x in ms for y in tm.subterms(x)
                if y.op == "const" and isinstance(tm.cval(y), str)}
        rx = [p for p in pats if "\\d" in p or "[0-9]" in p]
        w = fixed_run(ctx, "OC", "elastic", False, cfg_fixed={
            "check_convergence": False, "max_iters": NI, "record_times": RT})
        if n == 1 and w.roles() and rx:
            sv = snapshot_events(w)
            it = next(interps(ctx, DOMS, 1))
            for k in (1, 7, 10, 123, 99999, 999999):
                env = {x: "DST" for x in symbols(sv[0].extra["targs"][0])
                       if "dst_path" in str(x.args[0])}
                env[w.iter] = k
                try:
                    nm = text(sv[0].extra["targs"][0], it, env).split("/")[-1]
                except NoText as e:
                    ctx.unsure(rule, "name pattern", str(e), W)
                    break
                full = any("fullmatch" in str(x.args[0]) for x in ms)
                m = (re.fullmatch if full else re.match)(rx[0], nm)
                g = [x for x in (m.groups() if m else ())]
                ctx.fact(m is not None and (not g or any(
                    x is not None and x.isdigit() and int(x) == k
                    for x in g)), rule, f"name of iteration {k}", W,
                    f"{nm} is recognised", f"the snapshot {nm} of iteration "
                    f"{k} is not recognised by {rx[0]}")
