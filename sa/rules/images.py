"""C44: rendered images, and animations of them."""
from __future__ import annotations
import ast
import copy
import fnmatch
import random

from .. import terms as tm
from ..terms import T, sym, mk, const
from ..interp import State
from ..dense import np, Undecided, Crash
from . import iterate as I
from .run import fixed_run, reached, interps, text, NoText, DOMS
from .update import FREE

VIS = "sktopt.core.visualization."
IMG = VIS + "write_mesh_with_info_as_image"
FIELDS = ("rho_projected", "energy")
NUMBERS = (1, 2, 9, 10, 11, 99, 100, 999, 1000, 12345)


def bound(ctx, q, e):
    """arguments of a recorded call by parameter name"""
    f = ctx.proj.need(q)
    names = [a.arg for a in f.node.args.args]
    out = dict(zip(names, e.extra["targs"]))
    out.update(e.extra["tkws"])
    return out


def c44(ctx):
    for opt, task, dd in (("OC", "elastic", False), ("LogMOC", "heat", True)):
        run = fixed_run(ctx, opt, task, dd, cfg_fixed={"export_img": True})
        ctx.section(run.label, images, ctx, run)
        off = fixed_run(ctx, opt, task, dd, cfg_fixed={"export_img": False})
        if off.loop is not None:
            ev = off.last_pass(IMG)
            ctx.fact(not ev, "images only when asked for", off.label,
                     off.loop.where, "no image without export_img",
                     "an image is rendered although export_img is off")
    ctx.section("renderer", renderer, ctx)
    ctx.section("animation", animation, ctx)


def images(ctx, run):
    L = run.label
    rule = "image shows its field and iteration"
    if run.loop is None or not run.roles():
        return ctx.unsure(rule, L, "main loop not identified")
    W = run.loop.where
    viz = [x for x in run.last_pass(VIS + "export_mesh_with_info")
           if run.loop.id in x.loops]
    # every image of the last pass over the loop, unrolled loops included
    ev = [x for x in run.events(IMG) if run.loop.id in x.loops]
    order = run.ip.trace[run.mark:]
    if len(viz) == 1:
        pos = {id(x): i for i, x in enumerate(order)}
        later = [x for x in ev if pos[id(x)] > pos[id(viz[0])]]
        ev = later or [x for x in run.last_pass(IMG)
                       if run.loop.id in x.loops]
    if len(viz) != 1:
        return ctx.unsure(rule, L, "mesh output not identified", W)
    if not ev:
        return ctx.bad(rule, L, W, "no image is rendered with export_img")
    mesh = viz[0]
    mb = bound(ctx, VIS + "export_mesh_with_info", mesh)
    values = fields_of(mb)
    seen, paths, known = {}, {}, True
    for e in ev:
        b = bound(ctx, IMG, e)
        n = b.get("mesh_scalar_name")
        if n is None or not tm.is_const(n):
            ctx.unsure(rule, f"{L}: line {e.line}", "field not identified",
                       W)
            known = False
            continue
        n = tm.cval(n)
        c = f"{L}: image of {n}"
        if values is not None and n not in values:
            ctx.bad(rule, c, W, f"the mesh file holds no field {n!r}")
            continue
        seen[n] = seen.get(n, 0) + 1
        ctx.equal("images when due", c, W, reached(run, e),
                  reached(run, mesh), DOMS, "one image with each mesh file",
                  n=max(ctx.n, 100), allowed=FREE)
        ctx.fact(pos[id(mesh)] < pos[id(e)], rule,
                 f"{c}: order", W, "rendered after the file is written",
                 "rendered before the mesh file is written")
        same_file(ctx, run, c, W, b.get("mesh_path"), mb.get("filepath"))
        ps = texts(ctx, run, b.get("image_path"))
        if ps is None:
            ctx.unsure(rule, f"{c}: file", "path not identified", W)
        else:
            paths[n] = ps
        clim(ctx, run, c, W, n, b.get("clim"), values)
    for n in FIELDS:
        if values is not None and n in values and known:
            ctx.fact(seen.get(n, 0) == 1, rule, f"{L}: images of {n}", W,
                     "one", f"{seen.get(n, 0)} images of {n} are rendered")
    allp = [p for ps in paths.values() for p in ps]
    if paths:
        ctx.fact(len(set(allp)) == len(allp), "images have their own file",
                 L, W, f"{len(allp)} fields and iterations, as many files",
                 "two images are written to the same file")
    pats = pattern(ctx)
    for n, ps in paths.items():
        ctx.fact(sorted(ps) == ps, "images sort by iteration",
                 f"{L}: {n}", W, "file names sort in iteration order",
                 f"file names do not sort in iteration order: {ps[:4]}")
        pat = pats.get(n)
        if pat is None:
            ctx.unsure("animation finds the images", f"{L}: {n}",
                       "file pattern not identified", W)
            continue
        other = [p for m, qs in paths.items() if m != n for p in qs]
        ctx.fact(all(fnmatch.fnmatchcase(p, pat) for p in ps) and not any(
            fnmatch.fnmatchcase(p, pat) for p in other),
            "animation finds the images", f"{L}: {n}", W,
            "its pattern matches the images of the field only",
            f"{pat!r} does not select the images of {n}")


def fields_of(mb):
    v, n = mb.get("cell_data_values"), mb.get("cell_data_names")
    if v is None or n is None or v.op not in ("list", "tuple") or \
            n.op not in ("list", "tuple") or len(v.args) != len(n.args):
        return None
    return {tm.cval(a): b for a, b in zip(n.args, v.args) if tm.is_const(a)}


def texts(ctx, run, t):
    """what a path says for some iteration numbers"""
    if t is None:
        return None
    out = []
    for k in NUMBERS:
        for it in interps(ctx, DOMS, 1):
            try:
                env = {sym("cfg.dst_path", "s"): "DST", run.iter: k}
                s = text(tm.subst(t, {run.iter: sym("k", "s")}), it,
                         {sym("cfg.dst_path", "s"): "DST",
                          sym("k", "s"): k, **env})
            except NoText:
                return None
            out.append(str(s))
    return out


def same_file(ctx, run, c, W, got, want):
    rule = "image shows its field and iteration"
    a, b = texts(ctx, run, got), texts(ctx, run, want)
    if a is None or b is None:
        return ctx.unsure(rule, f"{c}: mesh file", "path not identified", W)
    ctx.fact(a == b, rule, f"{c}: mesh file", W, "the file just written",
             f"rendered from {next(x for x, y in zip(a, b) if x != y)}"
             if a != b else "")


def clim(ctx, run, c, W, n, t, values):
    """the colour range over small meshes"""
    rule = "colour range covers the field"
    if t is None or t.op not in ("tuple", "list") or len(t.args) != 2:
        return ctx.unsure(rule, c, "range not identified", W)
    bad, why, used = None, None, 0
    for j in range(6 if ctx.tier == "quick" else 40):
        case = I.Case(run, random.Random(f"{ctx.seed}/{c}/{j}"))
        try:
            for it in I.iterations(run, case, 2):
                lo, hi = (float(np.asarray(it(x))) for x in t.args)
                used += 1
                if not lo < hi:
                    bad = f"empty colour range [{lo:.6g}, {hi:.6g}]"
                if n == "rho_projected":
                    if (lo, hi) != (0.0, 1.0):
                        bad = f"densities are shown on [{lo:.4g}, " \
                              f"{hi:.4g}], not on [0, 1]"
                elif values is not None and n in values:
                    v = np.asarray(it(values[n]), float)
                    e = 1e-9 * max(1.0, np.abs(v).max())
                    if v.min() < lo - e or v.max() > hi + e:
                        bad = f"the values [{v.min():.6g}, {v.max():.6g}] " \
                              f"leave the colour range [{lo:.6g}, {hi:.6g}]"
        except (Undecided, Crash, TypeError, ValueError) as e:
            why = str(e)
    if bad:
        ctx.bad(rule, c, W, bad)
    elif why or not used:
        ctx.unsure(rule, c, why or "not read", W)
    else:
        ctx.ok(rule, c, f"read in {used} iterations", W)


def pattern(ctx):
    """file pattern the animation looks for, per field"""
    f = ctx.proj.lookup(VIS + "images2gif")
    out = {}
    if f is None:
        return out
    for n in FIELDS:
        seen = []

        def gl(ip, st, a, k, node):
            seen.append(ip.toT(a[0], st))
            return ip.new_list(st, [])
        ip = ctx.ip({"glob.glob": gl})
        ip.run(f, [const("DST")], {"prefix": const(n)}, State())
        if len(seen) == 1 and tm.is_const(seen[0]):
            out[n] = tm.cval(seen[0])
    return out


def recorder(log, names):
    def rec(n):
        def f(ip, st, a, k, node):
            log.append((n, [ip.toT(x, st) for x in a],
                        {q: ip.toT(x, st) for q, x in k.items()}))
            return mk("call", n, *[ip.toT(x, st) for x in a])
        return f
    return {n: rec(n) for n in names}


def renderer(ctx):
    rule = "renderer draws what it is told"
    f = ctx.proj.need(IMG)
    W = f.where
    log = []
    P, N, CL, IP, TI = (sym(n, "s") for n in (
        "mesh_path", "mesh_scalar_name", "clim", "image_path",
        "image_title"))
    ip = ctx.ip(recorder(log, (
        "pyvista.read", "pyvista.Plotter", ".add_mesh", ".screenshot",
        ".add_text", ".close", ".show")))
    s, v = ip.run(f, [], {"mesh_path": P, "mesh_scalar_name": N, "clim": CL,
                          "image_path": IP, "image_title": TI}, State())
    if s is None:
        return ctx.bad(rule, f.qual, W, "raises on every path")

    def calls(n):
        return [x for x in log if x[0] == n]
    rd, am, sh = calls("pyvista.read"), calls(".add_mesh"), \
        calls(".screenshot")
    if len(rd) != 1 or len(am) != 1 or not sh:
        # another plotting interface: nothing to compare with
        return ctx.unsure(rule, f.qual, "renderer calls not identified", W)
    ctx.fact(rd[0][1] and rd[0][1][0] is P, rule, "mesh file read", W,
             "the file named", f"reads {tm.show(rd[0][1][0], 3)}")
    kw = am[0][2]
    ctx.fact(any(x.op == "call" and x.args[0] == "pyvista.read"
                 for x in am[0][1] + list(kw.values())), rule,
             "mesh drawn", W, "the mesh that was read", "another mesh")
    for k, w in (("scalars", N), ("clim", CL)):
        if k in kw:
            ctx.fact(kw[k] is w, rule, k, W, tm.show(w),
                     f"{k} is {tm.show(kw[k], 3)}, not {tm.show(w)}")
        else:
            ctx.bad(rule, k, W, f"{k} is not passed on")
    out = sh[-1][1][1:] + list(sh[-1][2].values())
    ctx.fact(any(x is IP for x in out), rule, "image file", W,
             "the file named", f"writes {[tm.show(x, 3) for x in out]}")
    names = [x[0] for x in log]
    ctx.fact(names.index(".add_mesh") < names.index(".screenshot"), rule,
             "order of drawing", W, "drawn, then saved",
             "saved before it is drawn")
    # a missing display or missing library must not stop a run: one handler
    # at a time
    n = max([len(x.handlers) for x in ast.walk(f.node)
             if isinstance(x, ast.Try)] or [0])
    for k in range(n):
        g = single(ctx, f, k)
        ip = ctx.ip({})
        s, v = ip.run(g, [], {"mesh_path": P, "mesh_scalar_name": N,
                              "clim": CL, "image_path": IP,
                              "image_title": TI}, State())
        failure(ctx, f, f"handler {k + 1}", s, v, P)


def single(ctx, f, k):
    """the renderer with the k-th exception handler only"""
    mod = ctx.proj.modules[f.qual.rsplit(".", 1)[0]]
    tree = copy.deepcopy(mod.tree)
    for n in ast.walk(tree):
        if isinstance(n, ast.Try) and len(n.handlers) > k:
            n.handlers = [n.handlers[k]]
    return ctx.program(f"renderer{k}", ast.unparse(tree),
                       f.qual.rsplit(".", 1)[1])


def failure(ctx, f, c, s, v, P):
    rule, W = "no display, no image", f.where
    ex = mk("call", "os.path.exists", P)
    if s is None:
        return ctx.unsure(rule, c, "no value", W)
    exc = set()
    for t in list(s.pc) + ([v] if isinstance(v, T) else []):
        exc |= {x for x in tm.subterms(t) if x.op == "sym" and str(
            x.args[0]).startswith("exc@")}
    if len(exc) > 1 or not isinstance(v, T):
        return ctx.unsure(rule, c, "failure path not identified", W)
    x = exc.pop() if exc else const(0)
    sub = {x: tm.TRUE, ex: tm.TRUE}
    pcs = [tm.subst(c_, sub) for c_ in s.pc]
    ctx.fact(not any(c_ is tm.FALSE for c_ in pcs), rule, f"{c}: run goes "
             "on", W, "a missing display or library is a warning",
             "a missing display or library raises")
    if any(c_ is tm.FALSE for c_ in pcs):
        return
    r = tm.subst(v, sub)
    if tm.is_const(r):
        ctx.fact(r is tm.FALSE, rule, f"{c}: result", W, "False is "
                 "returned", "success is reported without an image")
    else:
        ctx.unsure(rule, f"{c}: result", tm.show(r, 3), W)
    r = tm.subst(v, {x: tm.FALSE, ex: tm.TRUE})
    if tm.is_const(r):
        ctx.fact(r is tm.TRUE, rule, f"{c}: result with a display", W,
                 "True is returned", "failure is reported although the "
                 "image is written")
    else:
        ctx.unsure(rule, f"{c}: result with a display", tm.show(r, 3), W)


def animation(ctx):
    rule = "animation runs through the images"
    f = ctx.proj.lookup(VIS + "images2gif")
    if f is None:
        return
    W = f.where
    nums = (10, 2, 1, 30, 4, 100)
    names = ["DST/mesh_rho/info_energy-%08d.jpg" % i for i in nums]
    for skip in (0, 1, 2, 7):
        log = []

        def gl(ip, st, a, k, node):
            return ip.new_list(st, [const(n) for n in names])
        ip = ctx.ip({"glob.glob": gl, **recorder(log, (
            "imageio.v2.imread", ".append_data", "imageio.imread"))})
        s, _ = ip.run(f, [const("DST")], {
            "prefix": const("energy"), "skip_frame": const(skip)}, State())
        c = f"skip_frame={skip}"
        if s is None:
            ctx.bad(rule, c, W, "raises on every path")
            continue
        got = []
        for n, a, k in log:
            if n != ".append_data":
                continue
            src = [tm.cval(x.args[1]) for t in a for x in tm.subterms(t)
                   if x.op == "call" and str(x.args[0]).endswith("imread")
                   and tm.is_const(x.args[1])]
            if len(set(src)) == 1:
                got.append(src[0])
            else:
                got = None
                break
        if not got:
            ctx.unsure(rule, c, "frames not identified", W)
            continue
        want = sorted(names)[::skip + 1]
        ctx.fact(got == want, rule, c, W, f"{len(want)} frames in order",
                 "frames " + ", ".join(x[-7:-4] for x in got) + " instead "
                 "of " + ", ".join(x[-7:-4] for x in want))
