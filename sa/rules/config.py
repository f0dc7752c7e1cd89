"""Output containment (C31), configuration round trip (C13), sensitivity mode
(C17) and wiring of the configuration into the FE solver (C08)."""
import posixpath

from .. import terms as tm
from ..terms import T, const, sym, mk
from ..interp import State
from ..project import AnalysisError
from ..values import Obj, Arr, Cls, Dct, Lst, Tup, Gate, Bound, Fn
from .opt import OptRun, opt_run, KINDS, TASKS, FEMS, CD, named
from .run import (text, NoText, NI, RT, RF, DOMS, interps)
from .update import FREE

UNSTUB = ("visualization", "Schedulers.export", "HistoryCollection",
          "export_analysis", "save_plot")

# file system effects: name -> (kind, index of the path, keyword)
WRITE = {"np.save": 0, "np.savez": 0, "np.savez_compressed": 0,
         "np.savetxt": 0, "os.makedirs": 0, "os.mkdir": 0,
         "plt.savefig": 0, "matplotlib.pyplot.savefig": 0,
         "json.dump": None, ".savefig": 1, ".save": 1, ".screenshot": 1,
         ".export_html": 1, ".write_text": None, "meshio.write": 0,
         ".mkdir": None, ".tofile": 1}
DELETE = {"shutil.rmtree": (0,), "os.remove": (0,), "os.unlink": (0,),
          "os.rmdir": (0,), "os.removedirs": (0,), "os.rename": (0, 1),
          "os.replace": (0, 1), "shutil.move": (0, 1),
          "os.truncate": (0,), ".unlink": (0,), ".rmdir": (0,)}
COPY = {"shutil.copy": 1, "shutil.copyfile": 1, "shutil.copy2": 1,
        "shutil.copytree": 1}
DST = sym("cfg.dst_path", "s")


def arg(e, i, kw=()):
    if not isinstance(e.extra, dict):
        return None
    a = e.extra.get("targs") or []
    if i is not None and i < len(a):
        return a[i]
    for k in kw:
        if k in (e.extra.get("tkws") or {}):
            return e.extra["tkws"][k]
    return None


def effects(run, ip=None):
    """(what, event, path term or None) of everything that touches files"""
    ip = ip or run.ip
    for e in ip.trace:
        if e.kind != "call":
            continue
        n = e.name
        if n == "open":
            m = arg(e, 1, ("mode",))
            if m is None or tm.is_const(m) and not set(
                    str(tm.cval(m))) & set("wax+"):
                continue
            yield "write", e, arg(e, 0, ("file",))
        elif n == ".write":
            f = arg(e, 0)
            if f is not None and f.op == "call" and f.args[0] == "open":
                continue
            if f is not None and f.op == "call" and str(
                    f.args[0]).startswith(("sys.", "io.")):
                continue
            yield "write", e, arg(e, 1, ("filename",))
        elif n in DELETE:
            for i in DELETE[n]:
                yield "delete", e, arg(e, i, ("path", "src", "dst"))
        elif n in COPY:
            yield "write", e, arg(e, COPY[n], ("dst",))
        elif n in WRITE:
            i = WRITE[n]
            if i is None:
                continue
            yield "write", e, arg(e, i, ("file", "filename", "fname", "name",
                                         "path", "uri"))


# ------------------------------------------------------------------- C31
def c31(ctx):
    """Every file-affecting call reachable from construction to the end of a
    run, with its path expression evaluated to text."""
    for opt, task, dd in (("OC", "elastic", False), ("LogMOC", "heat", True)):
        for restart in (False, True):
            ctx.section(f"{opt}/{task}/restart={restart}", c31_run, ctx, opt,
                        task, dd, restart)


def c31_run(ctx, opt, task, dd, restart):
    L = f"{opt}/{task}/restart={restart}"
    r = OptRun(ctx, opt, task, cfg_fixed={
        "design_dirichlet": dd, "max_iters": NI, "record_times": RT,
        "restart_from": RF, "export_img": True}, restart=restart,
        unstub=UNSTUB)
    r.ip.types[RF] = {"int"}
    if r.after is None:
        return ctx.unsure("containment", L, "run not analysable: " + str(
            r.why()))
    seen = {}
    for what, e, p in effects(r):
        seen.setdefault((what, e.name, e.where, e.line), []).append((e, p))
    if not any(k[0] == "write" for k in seen):
        return ctx.bad("containment", L, "", "nothing is written")
    writes = []
    for (what, name, where, line), eps in sorted(seen.items(), key=str):
        c = f"{L}: {name} at {where.split('/')[-1]}"
        paths = set()
        for e, p in eps:
            if p is None:
                continue
            for it in interps(ctx, DOMS, 12):
                try:
                    x = text(p, it, {DST: "DST"})
                except NoText as err:
                    paths.add(None)
                    continue
                except Exception:
                    paths.add(None)
                    continue
                paths.add(str(x))
        if not paths:
            ctx.unsure("containment", c, "path not identified", where)
            continue
        if paths == {None}:
            # not evaluable: does it start from the output directory?
            ctx.unsure("containment", c, "path expression not evaluable: "
                       + tm.show(eps[0][1], 4), where)
            continue
        ps = sorted(x for x in paths if x is not None)
        norm = [posixpath.normpath(x) for x in ps]
        if what == "delete":
            out = [x for x in norm if not (
                x == "DST/mesh_rho" or x.startswith("DST/mesh_rho/"))]
            ctx.fact(not out, "deletes only old snapshots", c, where,
                     f"{ps[:2]}", f"deletes {out[:2]}, beyond the run's own "
                     "mesh_rho folder")
            ctx.fact(not restart, "a restart deletes nothing", c, where,
                     "fresh run", f"a restart deletes {ps[:2]}")
        else:
            out = [x for x in norm if not (x == "DST" or x.startswith(
                "DST/"))]
            ctx.fact(not out, "containment", c, where, f"{ps[:2]}",
                     f"writes {out[:2]}, outside the configured output "
                     "directory")
            for e, p in eps:
                writes.append((e, norm))
        ctx.count("file operations")
    # nothing written before is deleted afterwards
    for what, e, p in effects(r):
        if what != "delete":
            continue
        late = [w for w, norm in writes if w.order < e.order and any(
            x.startswith("DST/mesh_rho/") for x in norm)]
        ctx.fact(not late, "deletion comes first",
                 f"{L}: {e.name}", e.where, "before any output of the run",
                 "output written earlier in this run is deleted")


# ------------------------------------------------------------------- C13
class NotJson(Exception):
    pass


def freeze(ip, v, st):
    """the JSON document of a value (dict/list/leaf); leaves are terms"""
    v = ip.force(v, st)
    if isinstance(v, Dct):
        out = {}
        if not isinstance(st.heap[("d", v.did)], dict):
            raise AnalysisError("the exported document is not a plain dict")
        for k, x in st.heap[("d", v.did)].items():
            out[k if not isinstance(k, T) else tm.cval(k)] = freeze(
                ip, x, st)
        return out
    if isinstance(v, Lst):
        items = st.heap[("l", v.lid)]
        return [freeze(ip, x, st) for x in items]
    if isinstance(v, Tup):
        return [freeze(ip, x, st) for x in v.items]
    if isinstance(v, Gate):
        a, b = freeze(ip, v.a, st), freeze(ip, v.b, st)
        return a if a is b else Pick(v.cond, a, b)
    if isinstance(v, T):
        if v.op == "obj":
            raise NotJson(tm.show(v))
        return v
    if isinstance(v, Obj):
        raise NotJson(f"{v.cls.name if v.cls else 'object'} object")
    raise NotJson(type(v).__name__)


class Pick:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


def thaw(ip, d, st):
    if isinstance(d, dict):
        return ip.new_dict(st, {k: thaw(ip, x, st) for k, x in d.items()})
    if isinstance(d, list):
        return ip.new_list(st, [thaw(ip, x, st) for x in d])
    if isinstance(d, Pick):
        return Gate(d.c, thaw(ip, d.a, st), thaw(ip, d.b, st))
    return d


def c13(ctx):
    """The configuration's export and import are composed in the abstract:
    what json.dump is given is what json.load returns."""
    for kind in KINDS:
        for so in ("spsolve", "cg_pyamg", "petsc", "petsc_spdirect"):
            for k, o in enumerate(petsc_cases(so)):
                ctx.section(f"{kind}/{so}", c13_one, ctx, kind, so, False, o)
        ctx.section(f"{kind}/number as eta", c13_one, ctx, kind, "spsolve",
                    True)


PETSC = "sktopt.fea.solver_petsc.PETScOptions"


def petsc_cases(so):
    """PETSc options a configuration may be given: everything left alone,
    everything symbolic, and (direct solves fix two of them) all
    combinations"""
    if so != "petsc_spdirect":
        return [{}, None]
    out = [{}, {"ksp_type": const("preonly"), "pc_type": const("lu")}]
    for f in (tm.NONE, PF):
        for p in (tm.NONE, PP):
            for u in (True, False):
                out.append({"pc_factor_mat_solver_type": f,
                            "options_prefix": p,
                            "use_set_from_options": const(u)})
    return out


PF, PP = sym("factor_solver", "s"), sym("prefix", "s")


def c13_one(ctx, kind, so, plain, petsc=None):
    L = f"{kind}/solver_option={so}" + ("/eta is a number" if plain else "")
    if petsc is not None:
        L += "/petsc(" + ",".join(f"{k}={tm.show(v)}" for k, v in
                                  petsc.items()) + ")"
    rule = "configuration round trip"
    proj = ctx.proj
    cfgc = proj.need(KINDS[kind][0])
    W = f"{cfgc.mod.rel}:{cfgc.name}"
    schc = proj.need("sktopt.tools.SchedulerConfig")
    box = {}

    def dump(ip, st, a, k, node):
        b = named(a, k, ["obj", "fp"])
        ip.event("call", "json.dump", st, node, args=list(a))
        box["doc"] = freeze(ip, b["obj"], st)
        box["to"] = ip.toT(b["fp"], st) if "fp" in b else None
        return tm.NONE

    def load(ip, st, a, k, node):
        box["from"] = ip.toT(a[0], st) if a else None
        return thaw(ip, box["doc"], st)

    def dumps(ip, st, a, k, node):
        box["doc"] = freeze(ip, a[0], st)
        return tm.call("json.text")

    def loads(ip, st, a, k, node):
        return thaw(ip, box["doc"], st)

    ip = ctx.ip({"json.dump": dump, "json.load": load, "json.dumps": dumps,
                 "json.loads": loads})
    ip.unroll_cap = 200
    ip.types[PF] = ip.types[PP] = {"str"}
    st = State()
    kws = {}
    fields_ = cfgc.all_fields(proj)
    for n, c, d in fields_:
        ann = c_ann(c, n)
        ty, cls = ip.ann_types(ann, c.mod)
        if n == "solver_option":
            kws[n] = const(so)
        elif cls is not None:
            if plain and n == "eta":
                kws[n] = sym("eta", "s")
                ip.types[kws[n]] = {"float"}
                continue
            if n == "petsc_options" and petsc is not None:
                _, kws[n] = ip.run(Cls(cls), [], dict(petsc), st)
                continue
            kws[n] = ip.sym_obj(st, cls, f"cfg.{n}")
        else:
            kws[n] = ip.sym_value(st, f"cfg.{n}", ty)
    s, cfg = ip.run(Cls(cfgc), [], kws, st)
    if s is None:
        return ctx.unsure(rule, L, "configuration cannot be built", W)
    # the values a caller sees before the export
    names = [n for n, _, _ in fields_]
    s0 = s.fork()
    try:
        s, _ = ip.meth(cfg, "export", [const("D")], {}, s)
    except NotJson as e:
        return ctx.bad(rule, f"{L}: export", W,
                       f"the exported document holds a {e}, which JSON "
                       "cannot represent")
    if s is None or "doc" not in box:
        return ctx.bad(rule, f"{L}: export", W,
                       "export writes no document") if s is None else \
            ctx.unsure(rule, f"{L}: export", "no JSON document seen", W)
    imp = cfgc.find("import_from", proj)
    if imp is None:
        raise AnalysisError(f"anchor vanished: {cfgc.qual}.import_from")
    ev0 = len(ip.trace)
    s, new = ip.run(Bound(Fn(imp), Cls(cfgc)), [const("D")], {}, s)
    W = imp.where
    if s is None:
        return ctx.bad(rule, f"{L}: import", W,
                       "an exported configuration cannot be imported")
    opened = [e for e in ip.trace if e.kind == "call" and e.name == "open"]
    ctx.count("fields", len(names))
    if len(opened) == 2:
        a, b = (arg(e, 0, ("file",)) for e in opened)
        ctx.fact(a is b, "same file", L, W, tm.show(a),
                 f"exported to {tm.show(a)} but imported from {tm.show(b)}")
    new = ip.force(new, s)
    if isinstance(new, Obj):
        ctx.fact(new.cls is cfgc, rule, f"{L}: class", W, cfgc.name,
                 f"imported as {new.cls.name if new.cls else '?'}")
    for n in names + ["solver_config"]:
        same_field(ctx, ip, rule, f"{L}: {n}", W, cfg, s0, new, s, n)


def c_ann(c, n):
    import ast
    for b in c.node.body:
        if isinstance(b, ast.AnnAssign) and isinstance(
                b.target, ast.Name) and b.target.id == n:
            return b.annotation
    return None


def same_field(ctx, ip, rule, name, W, a, sa, b, sb, n, depth=0):
    va = ip.force(ip.getattr(a, n, sa, None, None), sa)
    vb = ip.force(ip.getattr(b, n, sb, None, None), sb)
    same_value(ctx, ip, rule, name, W, va, sa, vb, sb, depth)


def same_value(ctx, ip, rule, name, W, va, sa, vb, sb, depth=0):
    va, vb = ip.force(va, sa), ip.force(vb, sb)
    if isinstance(va, Gate):
        sa1, sa2 = sa.fork(va.cond), sa.fork(tm.not_(va.cond))
        same_value(ctx, ip, rule, name + " (one case)", W, va.a, sa1, vb, sb,
                   depth)
        same_value(ctx, ip, rule, name + " (other case)", W, va.b, sa2, vb,
                   sb, depth)
        return
    if isinstance(va, Obj):
        if va is vb or isinstance(vb, Obj) and va.oid == vb.oid:
            ctx.ok(rule, name, "same object", W)
            return
        if isinstance(vb, Gate):
            ctx.unsure(rule, name, "imported as alternatives", W)
            return
        if not isinstance(vb, Obj) or vb.cls is not va.cls:
            kind = "a dict" if isinstance(vb, Dct) else (
                vb.cls.name if isinstance(vb, Obj) and vb.cls else
                "a plain value")
            ctx.bad(rule, name, W, f"exported as "
                    f"{va.cls.name if va.cls else '?'} but imported as {kind}")
            return
        if depth < 3 and va.cls is not None:
            for n, _, _ in va.cls.all_fields(ctx.proj):
                same_field(ctx, ip, rule, f"{name}.{n}", W, va, sa, vb, sb, n,
                           depth + 1)
        return
    if isinstance(vb, (Dct, Lst)) or isinstance(va, (Dct, Lst)):
        ctx.unsure(rule, name, "container", W)
        return
    ta, tb = ip.toT(va, sa), ip.toT(vb, sb)
    ctx.equal(rule, name, W, tb, ta, {}, "the imported value must be the "
              "exported one", allowed=FREE | {"call:str", "str", "bool"})


# ------------------------------------------------------------------- C17
ENVV = "SCITOPT_SENSITIVITY_MODE"
GLOBAL = {"os.chdir", "os.umask", "os.putenv", "os.unsetenv",
          "np.random.seed", "random.seed", "np.seterr", "os.environ.clear",
          "os.setuid", "locale.setlocale", "os.fchdir"}


def env_key(k):
    return ("y", mk("ext", "os.environ").id, const(k).id)


def c17(ctx):
    """Environment variables at every normal and exceptional exit of the run
    entry points, with a state solve that may fail in any iteration."""
    for kind, task in (("OC", "elastic"), ("LogMOC", "heat")):
        for entry in ("optimize", "optimize_steps"):
            ctx.section(f"{kind}/{entry}", c17_run, ctx, kind, task, entry)
    ctx.section("modes", c17_modes, ctx)


def c17_run(ctx, kind, task, entry):
    L = f"{kind}.{entry}"
    rule = "process environment restored"
    r = OptRun(ctx, kind, task, cfg_fixed={"design_dirichlet": False},
               entry=entry, fail=True)
    fn = r.optc.find(entry, ctx.proj)
    W = fn.where
    ee = mk("ext", "os.environ")
    exits = []
    if r.after is not None:
        exits.append(("normal return", r.after))
    n0 = len(exits)
    for f in r.ip.raise_sinks[0]:
        if f.kind == "raise" and any(
                x.op == "sym" and x.args[0] == "the solver fails"
                for c in f.st.pc for x in tm.subterms(c)):
            exits.append(("a failing state solve", f.st))
    if len(exits) == n0:
        ctx.unsure(rule, L, "no exceptional exit seen", W)
    keys = {}
    for _, st in exits:
        for k in st.heap:
            if k[0] == "y" and k[1] == ee.id:
                keys[k] = None
    for e in r.ip.trace:
        if e.kind == "call" and e.name in GLOBAL:
            ctx.bad("no other global state", f"{L}: {e.name}", e.where,
                    f"a run calls {e.name} and does not undo it")
    for k in keys:
        name = env_name(k, r.ip)
        init = sym(f"env[{tm.show(const(name))}]", "s")   # value at entry
        for i, (how, st) in enumerate(exits):
            v = st.heap.get(k, init)
            v = r.ip.toT(v, st)
            c = f"{L}: {name} after {how}"
            if v is init:
                ctx.ok(rule, c, "the value found at entry", W)
                continue
            # worlds: variable unset / empty / set at entry
            for world, x in (("unset", None), ("set to ''", ""),
                             ("set to 'physical'", "physical"),
                             ("set to 'anything'", "anything")):
                w = {init: const(x)}
                if any(tm.subst(p, w) is tm.FALSE for p in st.pc):
                    continue
                y = tm.subst(v, w)
                if not tm.is_const(y):
                    ctx.unsure(rule, c, "not derived: " + tm.show(v, 3), W)
                    break
                ctx.fact(tm.cval(y) == x, rule, f"{c} ({world} before)", W,
                         "as found", f"{name} was {world} and is left as "
                         f"{tm.show(y, 3)}")
    if not keys:
        ctx.ok(rule, L, "no environment variable is touched", W)


def env_name(k, ip):
    names = {ENVV}
    for t in list(ip.types):
        if t.op == "sym" and str(t.args[0]).startswith("env["):
            names.add(str(t.args[0])[5:-2])
    for e in ip.trace:
        for a in e.args or ():
            if isinstance(a, T) and tm.is_const(a) and isinstance(
                    tm.cval(a), str):
                names.add(tm.cval(a))
    for n in names:
        if const(n).id == k[2]:
            return n
    return "?"


def c17_modes(ctx):
    """documented names of the sensitivity mode select it, others are
    refused"""
    fn = ctx.proj.lookup("sktopt.core.derivatives._sensitivity_mode")
    if fn is None:
        return
    rule = "sensitivity mode"
    for raw, want in ((None, "current"), ("current", "current"),
                      ("default", "current"), ("physical", "current"),
                      ("scaled", "current"), (" Current ", "current"),
                      ("PHYSICAL", "current"), ("adjoint", None),
                      ("", None)):
        ip = ctx.ip()
        st = State()
        st.heap[env_key(ENVV)] = tm.NONE if raw is None else const(raw)
        s, v = ip.run(fn, [], {}, st)
        c = f"{fn.qual}[{raw!r}]"
        if want is None:
            ctx.fact(s is None, rule, c, fn.where, "every path raises",
                     f"{raw!r} is accepted")
        elif s is None:
            ctx.bad(rule, c, fn.where, f"{raw!r} is refused")
        else:
            ctx.equal(rule, c, fn.where, ip.toT(v, s), const(want), {})
