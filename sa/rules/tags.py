"""Boundary tags of a mesh file (C30): which facets from_mesh_tags hands to
from_facets, for concrete sets of tag names."""
from __future__ import annotations

from .. import terms as tm
from ..terms import const, sym, mk
from ..interp import State
from ..values import Cls, Tup
from .tasks import BASIS, TE, TH, models

DESIGN = sym("subdomain:design", "a")

# every order of the dict, numbers with more than one digit, gaps, names that
# only look similar
ELASTIC = [
    (("dirichlet", "neumann"),),
    (("neumann", "dirichlet"),),
    (("dirichlet_1", "neumann_1"),),
    (("dirichlet_10", "dirichlet_2", "dirichlet_1", "neumann_1",
      "neumann_11", "neumann_9"),),
    (("neumann_2", "neumann_10", "neumann_1", "dirichlet_3", "dirichlet_12",
      "dirichlet_20"),),
    (("dirichlet_0", "dirichlet_100", "dirichlet_20", "neumann"),),
    (("dirichlet", "neumann_2", "neumann_1"),),
    (("dirichlet", "dirichlet_2", "dirichlet_1", "neumann", "neumann_1"),),
    (("my_dirichlet_1", "dirichlet_1_old", "dirichlet_a", "dirichlet",
      "neumann_b", "old_neumann", "neumann", "dirichlet_"),),
    (("dirichlet_2b", "dirichlet_11", "dirichlet_3", "neumann_5x",
      "neumann_3", "neumann_21"),),
]


def heat_sets():
    out = []
    for (names,) in ELASTIC:
        out.append(tuple(n.replace("neumann", "robin") for n in names))
    out.append(("dirichlet",))
    out.append(("dirichlet_1", "dirichlet_2", "neumann_1"))
    return out


def numbered(names, stem):
    """the regions of one kind, in the order of their numbers"""
    own = sorted((int(n[len(stem) + 1:]), n) for n in names
                 if n.startswith(stem + "_")
                 and n[len(stem) + 1:].isdigit())
    if own:
        return [n for _, n in own]
    return [stem] if stem in names else None


def c30(ctx):
    tm.KEEP_AXES = True
    for names in [x[0] for x in ELASTIC]:
        ctx.section("tags " + ", ".join(names), tags, ctx,
                    TE + "LinearElasticity", names, ("dirichlet", "neumann"))
    for names in heat_sets():
        ctx.section("tags " + ", ".join(names), tags, ctx,
                    TH + "LinearHeatConduction", names,
                    ("dirichlet", "robin"))


def tags(ctx, cname, names, stems):
    cls = ctx.proj.need(cname)
    own = next((b for b in cls.mro(ctx.proj)
                if "from_mesh_tags" in b.methods), None)
    if own is None:
        return ctx.bad("tags", cls.qual, cls.where, "no from_mesh_tags")
    f = own.methods["from_mesh_tags"]
    tgt = next(b.methods["from_facets"] for b in cls.mro(ctx.proj)
               if "from_facets" in b.methods)
    got = []

    def stub(ip, st, a, k, node):
        a = list(a)
        if a and isinstance(a[0], Cls):
            a = a[1:]
        d = dict(zip([p for p in arg_names(tgt) if p not in ("cls", "self")], a))
        d.update(k)
        got.append((d, st.fork()))
        return mk("call", "built")
    ip = ctx.ip({**models(ctx), tgt.qual: stub})
    ip.attr_hooks["boundaries"] = lambda ip, v, st: ip.new_dict(st, {
        n: ip.new_arr(st, sym("tag:" + n, "a"), n) for n in names})
    ip.attr_hooks["subdomains"] = lambda ip, v, st: ip.new_dict(st, {
        "void": ip.new_arr(st, sym("subdomain:void", "a"), "void"),
        "design": ip.new_arr(st, DESIGN, "design")})
    st = State()
    kw = {}
    for p in arg_names(f):
        if p in ("cls", "self"):
            continue
        kw[p] = BASIS if p == "basis" else sym("given " + p, "?")
    q = f"{cls.qual}.from_mesh_tags [{', '.join(names)}]"
    s, v = ip.meth(Cls(cls), "from_mesh_tags", [], kw, st)
    if s is None:
        return ctx.bad("tags", q, f.where, "raises on every path")
    if len(got) != 1:
        return ctx.unsure("tags", q, f"{len(got)} calls of from_facets",
                          f.where)
    d, st = got[0]
    alias = {"neumann": ("force_facets_ids", "neumann_facets_ids")}
    for stem in stems:
        want = numbered(names, stem)
        if want is None:
            continue
        key = next((k for k in alias.get(stem, (stem + "_facets_ids",))
                    if k in d), None)
        if key is None:
            ctx.unsure("tags", f"{q}: {stem}", "argument not found", f.where)
            continue
        its = ip.list_items(d[key], st)
        its = [d[key]] if its is None else its
        ts = [ip.toT(x, st) for x in its]
        ws = [sym("tag:" + n, "a") for n in want]
        if any(t not in [sym("tag:" + n, "a") for n in names] for t in ts):
            ctx.unsure("tags", f"{q}: {stem}", "regions not resolved: "
                       + ", ".join(tm.show(t, 3) for t in ts)[:200], f.where)
            continue
        ctx.fact(ts == ws, "tags", f"{q}: {stem}", f.where,
                 "the tagged regions in the order of their numbers",
                 "regions " + str([t.args[0][4:] for t in ts])
                 + " instead of " + str(want))
    ctx.fact(ip.toT(d.get("design_elements"), st) is DESIGN, "tags",
             f"{q}: design_elements", f.where, "the design subdomain",
             "not the elements tagged design")
    ren = {"neumann_dir_type": "force_dir_type",
           "neumann_values": "force_value"}
    for p, x in kw.items():
        t = d.get(p, d.get(ren.get(p)))
        if t is None:
            ctx.unsure("tags", f"{q}: {p}", "argument not found", f.where)
            continue
        ctx.fact(ip.toT(t, st) is x, "tags", f"{q}: {p}", f.where,
                 "handed on", f"{p} is not handed on to from_facets")


def arg_names(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
