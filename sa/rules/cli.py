"""C43: what the command lines of the optimizers hand to the configuration."""
from __future__ import annotations
import ast

from .. import terms as tm
from ..terms import T, sym, const
from ..interp import State
from ..values import Obj

MISC = "sktopt.core.misc."
SCHEDULED = {"filter_radius": "Step", "move_limit": "SawtoothDecay",
             "vol_frac": "Step", "p": "Step", "beta": "StepAccelerating",
             "percentile": "Step"}
CONFIGS = (("sktopt.core.optimizers.oc", "OC_Config"),
           ("sktopt.core.optimizers.logmoc", "LogMOC_Config"))
FIELDS = ("init_value", "target_value", "num_steps", "curvature",
          "scheduler_type")


class Option:
    def __init__(self, name, kws, where):
        self.name, self.kws, self.where = name, kws, where

    @property
    def kind(self):
        t = self.kws.get("type")
        a = self.kws.get("action")
        if a is not None:
            return str(a).rsplit(".", 1)[-1]
        return str(t).rsplit(".", 1)[-1] if t is not None else "str"


def literal(n):
    try:
        return ast.literal_eval(n)
    except ValueError:
        return ast.unparse(n)


def options(ctx):
    """every command-line option the package declares: dest -> Option"""
    out = {}
    for m in list(ctx.proj.modules.values()):
        if not m.name.startswith("sktopt"):
            continue
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute)
                    and n.func.attr == "add_argument" and n.args):
                continue
            flags = [a.value for a in n.args if isinstance(a, ast.Constant)]
            kws = {k.arg: literal(k.value) for k in n.keywords}
            long = [f for f in flags if str(f).startswith("--")]
            dest = kws.get("dest") or (long or flags)[0].lstrip("-").replace(
                "-", "_")
            out.setdefault((m.name, dest), Option(
                dest, kws, f"{m.name}:{n.lineno}"))
    return out


def fields(ctx, cls, seen=()):
    """field name -> annotation text, inherited ones included"""
    out = {}
    for b in cls.mro(ctx.proj)[::-1] if hasattr(cls, "mro") else [cls]:
        for n in b.node.body:
            if isinstance(n, ast.AnnAssign) and isinstance(
                    n.target, ast.Name):
                out[n.target.id] = ast.unparse(n.annotation)
    return out


def program(ctx, mod, cls):
    return ctx.program("command_line", f"""
from sktopt.core import misc
from {mod} import {cls}
def config(args):
    return {cls}.from_defaults(**misc.args2OC_Config_dict(args))
""", "config")


def read(ip, st, obj, path):
    for a in path.split("."):
        obj = ip.getattr(obj, a, st, None, None)
    return obj


def c43(ctx):
    opts = options(ctx)
    common = {d: o for (m, d), o in opts.items() if m == MISC[:-1]}
    f = ctx.proj.need(MISC + "args2OC_Config_dict")
    for mod, cls in CONFIGS:
        c = ctx.proj.lookup(f"{mod}.{cls}")
        if c is None:
            continue
        mine = {**common, **{d: o for (m, d), o in opts.items()
                             if m == mod}}
        ctx.section(cls, one, ctx, f, mod, c, mine)
    ctx.section("words", words, ctx)


def typed(ip, s, kind):
    t = {"float": "float", "float_or_none": "float", "int": "int",
         "str2bool": "bool", "BooleanOptionalAction": "bool",
         "store_true": "bool", "str": "str"}.get(kind)
    if t:
        ip.types[s] = {t}


def one(ctx, f, mod, cls, opts):
    fs = fields(ctx, cls)
    W = f.where
    ctx.fact(len([o for o in opts if o in fs]) > 5, "option reaches its "
             "field", cls.name, W, f"{len(opts)} options read",
             "hardly any option is a configuration field")
    zero = {"float": 0.0, "float_or_none": 0.0, "int": 0, "str2bool": False,
            "BooleanOptionalAction": False, "store_true": False}
    for perc in (False, True, "zeros"):
        ip = ctx.ip({})
        ip.implicit, ip.unroll_cap = False, 200
        st = State()
        vals = {n: sym("--" + n, "s") for n in opts}
        for n, s in vals.items():
            typed(ip, s, opts[n].kind)
        if not perc:
            vals["percentile"] = tm.NONE
        else:
            vals["percentile"] = const(87.5)
        if perc == "zeros":     # 0 and False are values like any other
            vals = {n: const(zero[o.kind]) if o.kind in zero else const(
                "word of " + n) for n, o in opts.items()}
        # no value of --solver_option that rewrites other fields
        vals["solver_option"] = const("spsolve")
        s, cfg = ip.run(program(ctx, mod, cls.name),
                        [ip.new_dict(st, dict(vals))], {}, st)
        lab = f"{cls.name}" + {
            False: "", True: ", with --percentile"}.get(
                perc, ", zero and False everywhere")
        if s is None:
            ctx.bad("option reaches its field", lab, W,
                    "every set of options is refused")
            continue
        for n in sorted(opts):
            if n not in fs:
                continue
            if n in SCHEDULED:
                sched(ctx, ip, s, cfg, n, vals, lab, W)
                continue
            got = read(ip, s, cfg, n)
            c = f"{lab}: --{n}"
            if isinstance(got, T) and tm.is_const(got) and tm.is_const(
                    vals[n]):
                a, b = tm.cval(got), tm.cval(vals[n])
                ctx.fact(a == b and (a is None) == (b is None),
                         "option reaches its field", c, W, f"{b!r}",
                         f"{a!r} instead of {b!r}")
            elif isinstance(got, T):
                ctx.equal("option reaches its field", c, W, got, vals[n],
                          None, f"configuration field {n}")
            else:
                ctx.unsure("option reaches its field", c, "no plain value",
                           W)
    for n, o in sorted(opts.items()):
        a = fs.get(n)
        if a in ("bool", "int", "float"):
            ok = {"bool": ("str2bool", "BooleanOptionalAction", "store_true",
                           "store_false"),
                  "int": ("int",),
                  "float": ("float", "float_or_none", "int")}[a]
            bad = {"bool": ("bool", "str", "int", "float"),
                   "int": ("str", "float", "bool"),
                   "float": ("str", "bool")}[a]
            c = f"{cls.name}: type of --{n}"
            if o.kind in ok:
                ctx.ok("option is read as its field's type", c,
                       f"{o.kind} for a field of type {a}", o.where)
            elif o.kind in bad:
                ctx.bad("option is read as its field's type", c, o.where,
                        f"--{n} is read with {o.kind}, the field is {a}")
            else:
                ctx.unsure("option is read as its field's type", c,
                           f"reader {o.kind}", o.where)
    # the defaults alone
    ip = ctx.ip({})
    ip.unroll_cap = 200
    st = State()
    d = {}
    for n, o in opts.items():
        v = o.kws.get("default")
        d[n] = tm.NONE if v is None else const(v)
    s, cfg = ip.run(program(ctx, mod, cls.name), [ip.new_dict(st, d)], {},
                    st)
    ctx.fact(s is not None, "defaults are a valid configuration", cls.name,
             W, "accepted", "the command line without options is refused")


def sched(ctx, ip, s, cfg, n, vals, lab, W):
    c = f"{lab}: --{n}"
    obj = read(ip, s, cfg, n)
    if not isinstance(obj, Obj):
        return ctx.unsure("option reaches its schedule", c, "no single "
                          "schedule configuration", W)
    want = {"init_value": vals[n + "_init"], "target_value": vals[n],
            "num_steps": vals[n + "_step"],
            "scheduler_type": const(SCHEDULED[n])}
    if n == "beta":
        want["curvature"] = vals["beta_curvature"]
    if vals[n] is tm.NONE:
        want = {"scheduler_type": const("None")}
    for k, w in want.items():
        got = read(ip, s, obj, k)
        if not isinstance(got, T):
            got = ip.toT(got, s)
        if tm.is_const(got) and tm.is_const(w):
            ctx.fact(tm.cval(got) == tm.cval(w), "option reaches its "
                     "schedule", f"{c}: {k}", W, f"{tm.cval(w)}",
                     f"{tm.cval(got)} instead of {tm.cval(w)}")
            continue
        ctx.equal("option reaches its schedule", f"{c}: {k}", W, got, w,
                  None, f"{k} of the {n} schedule")


def words(ctx):
    """how a word on the command line is read"""
    def result(name, word):
        fn = ctx.proj.lookup(MISC + name)
        if fn is None:
            return None
        ip = ctx.ip({})
        st = State()
        s, v = ip.run(fn, [const(word)], {}, st)
        if s is None:
            return fn, "refused"
        t = ip.toT(v, s)
        if t.op == "float" and tm.is_const(t.args[0]):
            try:
                return fn, float(tm.cval(t.args[0]))
            except ValueError:
                return fn, "refused"
        return fn, tm.cval(t) if tm.is_const(t) else t
    table = {"str2bool": {"true": True, "True": True, "t": True, "T": True,
                          "TRUE": True, "false": False, "False": False,
                          "f": False, "F": False, "FALSE": False,
                          "maybe": "refused", "": "refused", True: True,
                          False: False},
             "float_or_none": {"none": None, "None": None, "NULL": None,
                               "nan": None, "2.5": 2.5, "-1": -1.0}}
    for name, ws in table.items():
        for w, want in ws.items():
            r = result(name, w)
            if r is None:
                continue
            fn, got = r
            c = f"{name}({w!r})"
            if isinstance(got, T):
                ctx.unsure("word is read as meant", c, tm.show(got, 3),
                           fn.where)
                continue
            ctx.fact(got == want and type(got) is type(want),
                     "word is read as meant", c, fn.where, f"{want!r}",
                     f"{got!r} instead of {want!r}")
