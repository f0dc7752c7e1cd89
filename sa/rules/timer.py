"""Section timings (C18): programs of nested sections, put through the value
graph of the timer with unknown work between the events and compared with
the durations, statistics and charts they have to give."""
from __future__ import annotations

import random

from .. import terms as tm
from .. import dense as dn
from ..dense import np
from ..terms import T, const, sym, mk
from ..interp import State
from ..values import Model, Obj, Tup
from .opt import named
from .tasks import live, per_case

RULE = "section timing"
KEYS = ("total", "avg", "max", "count", "name")


class Plan:
    """a random program of sections: its text, and a run over given work"""

    def __init__(self, rng, size, resets=True, flat=False):
        self.rng, self.resets, self.nw, self.nf = rng, resets, 0, 0
        self.body = self.block(3, size, True)
        if not flat:
            # every program has a nested section and a repeated one
            self.body = [("sec", "a", [self.work(), ("sec", "b", [
                self.work(), ("sec", "a", [self.work()], None),
                ("sec", "c", [self.work()], None)], None), ("sec", "ab", [self.work()], None)],
                None)] + self.body + ([("reset", None if resets == "all" else
                                        "a")] if resets else []) + [
                ("sec", "a", [("sec", "b", [self.work()], None)], None)]

    def work(self):
        self.nw += 1
        return ("work", self.nw - 1)

    def block(self, depth, n, top=False):
        r = self.rng
        out = []
        for _ in range(n):
            k = r.random()
            name = r.choice(["a", "b", "ab", "c"])
            if depth == 0 or k < 0.15:
                out.append(self.work())
            elif k < 0.55:
                out.append(("sec", name, self.block(
                    depth - 1, r.randint(1, 2)), None))
            elif k < 0.68:
                inner = ("sec", r.choice("abc"), [self.work()], "raise")
                if r.random() < 0.6:
                    inner = ("sec", name, [self.work(), inner], None)
                out.append(("try", [inner]))
            elif k < 0.78:
                self.nf += 1
                out.append(("wrap", self.nf, name, self.block(
                    depth - 1, 1), r.random() < 0.3))
            elif k < 0.86:
                self.nf += 1
                out.append(("ret", self.nf, name, [self.work()]))
            elif k < 0.92:
                out.append(("loop", r.randint(2, 3), name, [self.work()]))
            elif k < 0.96 and self.resets and top:
                out.append(("reset", r.choice([None, "a", "b", "zz"])))
            else:
                self.nw += 1
                out.append(("add", name, self.nw - 1))
        return out

    def text(self):
        out = ["from sktopt.tools import SectionTimer", "",
               "def program(clock, work, given, keep, **opts):",
               "    t = SectionTimer(clock=clock, **opts)"]
        self.emit(self.body, out, 1)
        return "\n".join(out + ["    return t", ""])

    def emit(self, body, out, d):
        p = "    " * d
        for s in body:
            if s[0] == "work":
                out.append(f"{p}work({s[1]})")
            elif s[0] == "sec":
                out.append(f"{p}with t.section({s[1]!r}):")
                self.emit(s[2], out, d + 1)
                if s[3]:
                    out.append(f"{p}    raise ValueError('stop')")
            elif s[0] == "try":
                out.append(f"{p}try:")
                self.emit(s[1], out, d + 1)
                out += [f"{p}except ValueError:", f"{p}    pass"]
            elif s[0] == "wrap":
                f = f"f{s[1]}"
                if s[4]:
                    out.append(f"{p}@t.wrap({s[2]!r})")
                out.append(f"{p}def {f}(x, y=0):")
                self.emit(s[3], out, d + 1)
                out.append(f"{p}    return (x, y)")
                if not s[4]:
                    out.append(f"{p}{f} = t.wrap({s[2]!r})({f})")
                out.append(f"{p}keep({s[1]}, {f}({s[1]}, y={s[1]} + 1))")
            elif s[0] == "ret":
                f = f"g{s[1]}"
                out += [f"{p}def {f}():", f"{p}    with t.section({s[2]!r}):"]
                self.emit(s[3], out, d + 2)
                out += [f"{p}        return ({s[1]}, {s[1]} + 1)",
                        f"{p}keep({s[1]}, {f}())"]
            elif s[0] == "loop":
                out += [f"{p}for i in range({s[1]} + 2):",
                        f"{p}    if i == {s[1]}:", f"{p}        break",
                        f"{p}    with t.section({s[2]!r}):"]
                self.emit(s[3], out, d + 2)
                out += [f"{p}        continue"]
            elif s[0] == "reset":
                out.append(f"{p}t.reset({s[1]!r})" if s[1]
                           else f"{p}t.reset()")
            elif s[0] == "add":
                out.append(f"{p}t.add({s[1]!r}, given({s[2]}))")

    def run(self, w, hier, sep):
        """name -> durations, for the given work"""
        self.now, self.rec, self.stack = 0.0, {}, []
        self.w, self.hier, self.sep = w, hier, sep
        self.go(self.body)
        return self.rec

    def section(self, name, body):
        full = self.sep.join([*self.stack, name]) if self.hier else name
        self.stack.append(name)
        t0 = self.now
        self.go(body)
        self.stack.pop()
        self.rec.setdefault(full, []).append(self.now - t0)

    def go(self, body):
        for s in body:
            if s[0] == "work":
                self.now += self.w[s[1]]
            elif s[0] == "sec":
                self.section(s[1], s[2])
            elif s[0] == "try":
                self.go(s[1])
            elif s[0] in ("wrap", "ret"):
                self.section(s[2], s[3])
            elif s[0] == "loop":
                for _ in range(s[1]):
                    self.section(s[2], s[3])
            elif s[0] == "reset":
                if s[1] is None:
                    self.rec.clear()
                else:
                    self.rec.pop(s[1], None)
            elif s[0] == "add":
                self.rec.setdefault(s[1], []).append(self.w[s[2]])


def W(i):
    return sym(f"x.work{i}", "s")


class Run:
    """a program put through the timer's value graph"""

    def __init__(self, ctx, plan, hier, sep=None, extra=None):
        self.ctx, self.plan, self.hier, self.sep = ctx, plan, hier, sep or ">"
        self.kept = {}
        self.ip = ip = ctx.ip({})
        ip.implicit = False
        self.st = st = State()
        for i in range(plan.nw):
            ip.types[W(i)] = {"float"}
        now = ip.sym_obj(st, None, "clock")
        k = ("o", now.oid, "now")
        st.heap[k] = const(0.0)

        def clock(ip, st, a, kw, node):
            return st.heap[k]

        def work(ip, st, a, kw, node):
            st.heap[k] = mk("add", st.heap[k], W(tm.cval(a[0])))
            return tm.NONE

        def given(ip, st, a, kw, node):
            return W(tm.cval(a[0]))

        def keep(ip, st, a, kw, node):
            self.kept.setdefault(tm.cval(a[0]), []).append(
                (st.pc, ip.toT(a[1], st)))
            return tm.NONE
        self.clock_model, self.work = Model(clock, "clock"), Model(
            work, "work")
        fn = ctx.program("sections", plan.text(), "program")
        kws = {"hierarchical": const(bool(hier))}
        if sep:
            kws["sep"] = const(sep)
        self.s, self.t = ip.run(fn, [
            self.clock_model, self.work, Model(given, "given"),
            Model(keep, "keep")], kws, st)

    def env(self, rng):
        return {W(i): float(rng.uniform(0.05, 1.0))
                for i in range(self.plan.nw)}

    def cases(self, n):
        return [self.env(np.random.default_rng(31 * j + self.ctx.seed))
                for j in range(n)]

    def want(self, env):
        return self.plan.run([env[W(i)] for i in range(self.plan.nw)],
                             self.hier, self.sep)

    def reader(self, env):
        return dn.Dense(dict(env), self.ip, 1, lambda d, t, E: None)

    def rows(self, d, v, s):
        """the statistics in a returned list"""
        its = self.ip.list_items(self.ip.force(v, s), s)
        if its is None:
            raise dn.Undecided("list of statistics")
        out = []
        for x in its:
            o = self.ip.force(x, s)
            if not isinstance(o, Obj):
                raise dn.Undecided("entry of the statistics")
            r = {}
            for n in KEYS:
                x = s.heap.get(("o", o.oid, n))
                if x is None:
                    raise dn.Undecided("field of the statistics")
                r[n] = d.ev(self.ip.toT(x, s))
            out.append(r)
        return out


def stats_of(rec):
    return {n: {"name": n, "count": len(v), "total": sum(v),
                "avg": sum(v) / len(v), "max": max(v)}
            for n, v in rec.items() if v}


def self_of(st, sep):
    """each section's time without its direct children"""
    out = {}
    for n, s in st.items():
        kids = sum(x["total"] for m, x in st.items()
                   if sep in m and m.rsplit(sep, 1)[0] == n)
        v = max(s["total"] - kids, 0.0)
        out[n] = {**s, "total": v, "avg": v / s["count"], "max": v}
    return out


def close(a, b):
    return isinstance(a, str) and a == b if isinstance(b, str) else \
        not isinstance(a, str) and abs(a - b) <= 1e-9 * (1 + abs(b))


def differs(rows, want, fields):
    names = [r["name"] for r in rows]
    if sorted(map(str, names)) != sorted(want):
        return f"sections {sorted(map(str, names))} are reported, " \
               f"{sorted(want)} were timed"
    for r in rows:
        for f in fields:
            if not close(r[f], want[r["name"]][f]):
                return f"section {r['name']!r}: {f} is {float(r[f]):.6g}, " \
                       f"{want[r['name']][f]:.6g} was measured"
    return None


def out_of_order(rows, key, desc):
    ks = [r[key] for r in rows]
    for a, b in zip(ks, ks[1:]):
        if a != b and (a < b) == bool(desc) and (isinstance(
                a, str) or abs(a - b) > 1e-9):
            return f"sorted by {key}, {'largest' if desc else 'smallest'} " \
                   f"first, {a!r} comes before {b!r}"
    return None


def c18(ctx):
    """Random programs of nested, failing, repeated and wrapped sections put
    through the timer's value graph; statistics and charts are compared with
    the durations the programs spend."""
    tm.KEEP_AXES = True
    k = 12 if ctx.tier == "quick" else 60
    runs = []
    for j in range(k):
        rng = random.Random(1000 * ctx.seed + j)
        plan = Plan(rng, 4 + j % 4, [False, "all", "a", True][j % 4],
                    flat=j % 4 == 3)
        hier = j % 4 != 2
        sep = [None, None, None, None, "/", "::"][j % 6]
        ctx.section(f"program {j}", one_program, ctx, j, plan, hier, sep,
                    runs)
    for j, r in runs[:3 if ctx.tier == "quick" else 12]:
        ctx.section(f"order {j}", ordering, ctx, j, r)
        ctx.section(f"charts {j}", charts, ctx, j, r)
    ctx.section("running averages", averages, ctx)
    ctx.section("unknown keys", unknown, ctx, runs)


def where(ctx, name):
    cls = ctx.proj.need("sktopt.tools.SectionTimer")
    fi = cls.find(name, ctx.proj)
    return (fi or cls).where, (fi.qual if fi else cls.qual)


def label(j, r):
    return f"program {j}, " + ("nested names" if r.hier else "plain names")


def one_program(ctx, j, plan, hier, sep, runs):
    r = Run(ctx, plan, hier, sep)
    w, q = where(ctx, "section")
    lab = label(j, r)
    if r.s is None:
        return ctx.bad(RULE, f"{q} [{lab}]", w, "the timer raises",
                       {"program": plan.text()})
    runs.append((j, r))
    for n, (pc, t) in [(n, x) for n, xs in r.kept.items() for x in xs]:
        if t != mk("tuple", const(n), const(n + 1)) and pc == r.s.pc[:len(
                pc)]:
            return ctx.bad(RULE, f"{q} [{lab}]", w, "a timed function does "
                           "not get its arguments or give its result",
                           {"program": plan.text(), "result": tm.show(t, 4)})
    w, q = where(ctx, "stats")
    s, v = r.ip.meth(r.t, "stats", [], {}, r.s.fork())
    if s is None:
        return ctx.bad(RULE, f"{q} [{lab}]", w, "raises")

    def judge(env):
        why = differs(r.rows(r.reader(env), v, s), stats_of(r.want(env)),
                      ("count", "total", "avg", "max"))
        return why and (why, {"program": plan.text()})
    per_case(ctx, RULE, f"{q} [{lab}]", w, r.cases(3), judge,
             "count, total, mean and maximum of every section as spent")


def ordering(ctx, j, r):
    for meth, fields in (("summary", ("count", "total", "avg", "max")),
                         ("summary_self_time", ("count", "total", "avg"))):
        for key in KEYS:
            for desc in (None, True, False):
                w, q = where(ctx, meth)
                kw = {} if desc is None else {"descending": const(desc)}
                if key != "total" or desc is not None:
                    kw["sort_by"] = const(key)
                s, v = r.ip.meth(r.t, meth, [], kw, r.s.fork())
                c = f"{q} [{label(j, r)}, {key}, descending={desc}]"
                if s is None:
                    ctx.bad(RULE, c, w, "raises")
                    continue

                def judge(env):
                    rows = r.rows(r.reader(env), v, s)
                    want = stats_of(r.want(env))
                    if meth != "summary":
                        want = self_of(want, r.sep)
                    why = differs(rows, want, fields) or out_of_order(
                        rows, key, desc is not False)
                    return why and (why, {"program": r.plan.text()})
                per_case(ctx, RULE, c, w, r.cases(3), judge,
                         "every section with its figures, in the order asked")


class Axes:
    """a stand-in for the plot: what is drawn is kept"""

    def __init__(self, ip, st):
        self.o = ip.sym_obj(st, None, "ax")
        self.seen = []
        for n in ("barh", "bar", "pie", "set_yticks", "set_yticklabels",
                  "legend"):
            st.heap[("o", self.o.oid, n)] = Model(getattr(self, "m_" + n), n)

    def m_barh(self, ip, st, a, k, node):
        b = named(a, k, ["y", "width", "height", "left"])
        self.seen.append((st.pc, "bar", {n: ip.toT(v, st)
                                         for n, v in b.items()}))
        return tm.unk("bars")
    m_bar = m_barh

    def m_pie(self, ip, st, a, k, node):
        b = named(a, k, ["x", "explode", "labels", "colors", "autopct"])
        self.seen.append((st.pc, "pie", {
            n: ip.toT(b[n], st) for n in ("x", "labels") if n in b}))
        return Tup([tm.unk("wedges"), tm.unk("texts"), tm.unk("autotexts")])

    def m_set_yticks(self, ip, st, a, k, node):
        b = named(a, k, ["ticks", "labels"])
        self.seen.append((st.pc, "ticks", {n: ip.toT(v, st)
                                           for n, v in b.items()}))
        return tm.NONE

    def m_set_yticklabels(self, ip, st, a, k, node):
        b = named(a, k, ["labels"])
        self.seen.append((st.pc, "ticks", {n: ip.toT(v, st)
                                           for n, v in b.items()}))
        return tm.NONE

    def m_legend(self, ip, st, a, k, node):
        b = named(a, k, ["handles", "labels"])
        if "labels" in b:
            self.seen.append((st.pc, "ticks", {
                "legend": ip.toT(b["labels"], st)}))
        return tm.NONE

    def has(self, kind):
        return any(k == kind for _, k, _ in self.seen)

    def at(self, d):
        """what is drawn for given durations: bars, pies, ticks"""
        got = [(k, x) for pc, k, x in self.seen if live(d, pc)]
        ticks = {}
        for k, x in got:
            if k == "ticks":
                ticks.update(x)
        return [x for k, x in got if k == "bar"], \
            [x for k, x in got if k == "pie"], ticks


def charts(ctx, j, r):
    if r.hier:
        ctx.section(f"stacked {j}", stacked, ctx, j, r)
    for value in ("total", "avg", "max", "count"):
        for own in (False, True):
            for key, desc in (("total", True), ("name", False)):
                kw = {"sort_by": const(key), "value": const(value),
                      "descending": const(desc),
                      "use_self_time": const(own)}
                bar(ctx, j, r, kw, value, own)
                if value in ("total", "avg"):
                    bar(ctx, j, r, {**kw, "format_nested": const(False)},
                        value, own)
                pie(ctx, j, r, kw, value, own)


def call(r, meth, kw):
    st = r.s.fork()
    ax = Axes(r.ip, st)
    s, _ = r.ip.meth(r.t, meth, [], {**kw, "ax": ax.o}, st)
    return ax, s


def asked(kw):
    return ", ".join(f"{k}={tm.cval(v)}" for k, v in kw.items())


def chart_want(r, env, kw, own):
    want = stats_of(r.want(env))
    return self_of(want, r.sep) if own else want


def in_order(want, kw):
    """the names in the order asked, or None when two are equal"""
    key, desc = tm.cval(kw["sort_by"]), tm.cval(kw["descending"])
    ks = [x[key] for x in want.values()]
    if key != "name" and any(abs(a - b) < 1e-9 for i, a in enumerate(ks)
                             for b in ks[:i]):
        return None
    return [x["name"] for x in sorted(want.values(), key=lambda x: x[key],
                                      reverse=desc)]


def flat(d, t):
    v = d.ev(t)
    return [v] if isinstance(v, (str, float, int, np.number)) else list(v)


def bar(ctx, j, r, kw, value, own):
    w, q = where(ctx, "plot_bar")
    c = f"{q} [{label(j, r)}, {asked(kw)}]"
    ax, s = call(r, "plot_bar", kw)
    if s is None:
        return ctx.bad(RULE, c, w, "raises")
    if not ax.has("bar"):
        return ctx.unsure(RULE, c, "no bars in reach", w)

    def judge(env):
        d = r.reader(env)
        want = chart_want(r, env, kw, own)
        bars, _, ticks = ax.at(d)
        ys, xs = [], []
        for b in bars:
            if set(b) & {"left"} or "width" not in b or "y" not in b:
                raise dn.Undecided("bars")
            y, x = flat(d, b["y"]), flat(d, b["width"])
            if len(y) != len(x):
                raise dn.Undecided("bars")
            ys += y
            xs += x
        more = {"program": r.plan.text(), "bars": [
            [str(y), round(float(x), 6)] for y, x in zip(ys, xs)]}
        if len(set(ys)) < len(ys):
            n = next(y for y in ys if ys.count(y) > 1)
            return f"two sections share the bar at {n!r}", more
        if len(xs) != len(want):
            return f"{len(xs)} bars for {len(want)} sections", more
        names = ys
        if not isinstance(ys[0], str):
            lab = next((b["tick_label"] for b in bars
                        if "tick_label" in b), ticks.get("labels"))
            if lab is None:
                raise dn.Undecided("labels of the bars")
            pos = flat(d, ticks["ticks"]) if "ticks" in ticks else ys
            lab = flat(d, lab)
            if len(lab) != len(pos) or sorted(pos) != sorted(ys):
                raise dn.Undecided("labels of the bars")
            at = dict(zip(pos, lab))
            names = [at[y] for y in ys]
        order = in_order(want, kw)
        if order is None:
            return None
        for n, x, full in zip(names, xs, order):
            last = full.split(r.sep)[-1]
            if str(n).strip() not in (full, last):
                return f"the bar at the place of {full!r} is labelled " \
                       f"{n!r}", more
            if not close(float(x), want[full][value]):
                return f"the bar of {full!r} shows {float(x):.6g}, its " \
                       f"{value} is {want[full][value]:.6g}", more
        return None
    per_case(ctx, RULE, c, w, r.cases(2), judge,
             "one bar per section, with its figure")


def stacked(ctx, j, r):
    """a top section's bar: its own time and its direct children, end to
    end"""
    kw = {"sort_by": const("name"), "descending": const(False),
          "stacked_nested": const(True)}
    w, q = where(ctx, "plot_bar")
    c = f"{q} [{label(j, r)}, {asked(kw)}]"
    ax, s = call(r, "plot_bar", kw)
    any_nested = any(r.sep in n for n in stats_of(r.want(r.cases(1)[0])))
    if not any_nested:
        return
    if s is None:
        return ctx.bad(RULE, c, w, "raises")
    if not ax.has("bar"):
        return ctx.unsure(RULE, c, "no bars in reach", w)

    def judge(env):
        d = r.reader(env)
        want = stats_of(r.want(env))
        tops = sorted(n for n in want if r.sep not in n)
        segs = {}
        bars, _, ticks = ax.at(d)
        for b in bars:
            if "left" not in b or "width" not in b or "y" not in b:
                raise dn.Undecided("bars")
            ys, xs, ls = (flat(d, b[n]) for n in ("y", "width", "left"))
            if not len(ys) == len(xs) == len(ls):
                raise dn.Undecided("bars")
            for y, x, l in zip(ys, xs, ls):
                segs.setdefault(y, []).append((float(l), float(x)))
        pos = flat(d, ticks["ticks"]) if "ticks" in ticks else None
        lab = flat(d, ticks["labels"]) if "labels" in ticks else None
        if pos is None or lab is None or len(pos) != len(lab):
            raise dn.Undecided("labels of the bars")
        more = {"program": r.plan.text(), "bars": {
            str(n): segs.get(y) for y, n in zip(pos, lab)}}
        if sorted(lab) != tops or sorted(segs) != sorted(pos):
            return f"bars for {lab}, the outer sections are {tops}", more
        for y, n in zip(pos, lab):
            kids = [want[m]["total"] for m in want
                    if r.sep in m and m.rsplit(r.sep, 1)[0] == n]
            parts = sorted([max(want[n]["total"] - sum(kids), 0.0)] + kids)
            got = sorted(x for _, x in segs[y])
            while len(got) > len(parts) and got[0] < 1e-12:
                got = got[1:]
            if len(got) != len(parts) or not all(
                    close(a, b) for a, b in zip(got, parts)):
                return f"the bar of {n!r} has the parts " \
                       f"{[round(x, 6) for x in got]}, its own time and " \
                       "its children take " \
                       f"{[round(x, 6) for x in parts]}", more
            end = 0.0
            for l, x in sorted(segs[y]):
                if not close(l, end):
                    return f"the parts of the bar of {n!r} overlap or " \
                           "leave a gap", more
                end = l + x
        return None
    per_case(ctx, RULE, c, w, r.cases(2), judge,
             "own time and direct children, end to end")


def pie(ctx, j, r, kw, value, own):
    w, q = where(ctx, "plot_pie")
    c = f"{q} [{label(j, r)}, {asked(kw)}]"
    ax, s = call(r, "plot_pie", kw)
    if s is None:
        return ctx.bad(RULE, c, w, "raises")
    if not ax.has("pie"):
        return ctx.unsure(RULE, c, "no pie in reach", w)

    def judge(env):
        d = r.reader(env)
        want = chart_want(r, env, kw, own)
        _, pies, ticks = ax.at(d)
        if not pies:
            raise dn.Undecided("pie")
        p = pies[-1]
        xs = flat(d, p["x"])
        more = {"program": r.plan.text(), "wedges": [
            round(float(x), 6) for x in xs]}
        if len(xs) != len(want):
            return f"{len(xs)} wedges for {len(want)} sections", more
        order = in_order(want, kw)
        if order is None:
            return None
        for i, (x, full) in enumerate(zip(xs, order)):
            if not close(float(x), want[full][value]):
                return f"the wedge of {full!r} shows {float(x):.6g}, its " \
                       f"{value} is {want[full][value]:.6g}", more
        lab = flat(d, p["labels"]) if "labels" in p else [""] * len(xs)
        leg = flat(d, ticks["legend"]) if "legend" in ticks else lab
        if len(lab) != len(xs) or len(leg) != len(xs):
            return "not one label per wedge", more
        for n, m, full in zip(lab, leg, order):
            if n not in ("", full) or not str(m).startswith(full) and m:
                return f"the wedge of {full!r} is labelled {n!r}, " \
                       f"{m!r}", more
        return None
    per_case(ctx, RULE, c, w, r.cases(2), judge,
             "one wedge per section, with its figure and name")


ROUNDS = '''from sktopt.tools import SectionTimer

def program(clock, work, ax, meth):
    t = SectionTimer(clock=clock, hierarchical=True)
    n = 0
    for i in range(4):
        if i == 2:
            t.reset("x>solve")
        for name in ("x", "y"):
            with t.section(name):
                work(n)
                n = n + 1
                with t.section("solve"):
                    work(n)
                    n = n + 1
        getattr(t, meth)(ax=ax, sort_by="name", descending=False,
                         moving_average=True)
    return t
'''


def averages(ctx):
    """the running average of a section is the mean of what was plotted for
    it, whatever its neighbours are called"""
    for meth in ("plot_pie", "plot_bar"):
        ctx.section(f"running averages {meth}", one_average, ctx, meth)


def one_average(ctx, meth):
    ip = ctx.ip({})
    ip.implicit = False
    st = State()
    ax = Axes(ip, st)
    now = ip.sym_obj(st, None, "clock")
    k = ("o", now.oid, "now")
    st.heap[k] = const(0.0)
    for i in range(16):
        ip.types[W(i)] = {"float"}

    def clock(ip, st, a, kw, node):
        return st.heap[k]

    def work(ip, st, a, kw, node):
        st.heap[k] = mk("add", st.heap[k], W(tm.cval(a[0])))
        return tm.NONE
    fn = ctx.program("rounds", ROUNDS, "program")
    s, _ = ip.run(fn, [Model(clock, "clock"), Model(work, "work"), ax.o,
                       const(meth)], {}, st)
    w, q = where(ctx, meth)
    c = f"{q} [four rounds, running averages]"
    if s is None:
        return ctx.bad(RULE, c, w, "raises")

    def judge(env):
        d = dn.Dense(dict(env), ip, 1, lambda d, t, E: None)
        wk = [env[W(i)] for i in range(16)]
        bars, pies, _ = ax.at(d)
        got = bars if meth == "plot_bar" else pies
        if len(got) != 4:
            raise dn.Undecided(f"{len(got)} drawings")
        tot = {n: [] for n in ("x", "x>solve", "y", "y>solve")}
        seen = {n: [] for n in tot}
        for i in range(4):
            if i == 2:
                tot["x>solve"], seen["x>solve"] = [], []
            for z, n in enumerate("xy"):
                a, b = wk[4 * i + 2 * z], wk[4 * i + 2 * z + 1]
                tot[n].append(a + b)
                tot[n + ">solve"].append(b)
            for n in tot:
                seen[n].append(sum(tot[n]))
            xs = flat(d, got[i]["width" if meth == "plot_bar" else "x"])
            want = [sum(v) / len(v) for n, v in sorted(seen.items())]
            if len(xs) != 4:
                raise dn.Undecided("drawing")
            for n, x, y in zip(sorted(seen), xs, want):
                if not close(float(x), y):
                    return f"round {i + 1}: section {n!r} is drawn with " \
                           f"{float(x):.6g}, the mean of its values is " \
                           f"{y:.6g}", {"program": ROUNDS}
        return None
    cs = [{W(i): float(v) for i, v in enumerate(np.random.default_rng(
        j + 5 * ctx.seed).uniform(0.05, 1, 16))} for j in range(3)]
    per_case(ctx, RULE, c, w, cs, judge, "every section's own mean")


def unknown(ctx, runs):
    """an unknown sort key, value or chart is refused"""
    for j, r in runs[:1]:
        for meth, kw in (("summary", {"sort_by": const("sum")}),
                         ("summary_self_time", {"sort_by": const("time")}),
                         ("plot_bar", {"value": const("name")}),
                         ("plot_pie", {"value": const("mean")})):
            w, q = where(ctx, meth)
            s, _ = r.ip.meth(r.t, meth, [], kw, r.s.fork())
            c = f"{q} [{asked(kw)}]"
            if s is not None and s.pc != r.s.pc:
                ctx.unsure(RULE, c, "refused on some paths", w)
            elif s is not None:
                ctx.bad(RULE, c, w, "an unknown choice is accepted")
            else:
                ctx.ok(RULE, c, "refused", w)
