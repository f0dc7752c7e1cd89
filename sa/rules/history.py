"""Recorded series (C14): programs that feed, export, import and read a
collection of histories, put through its value graph with unknown values and
compared with what was fed."""
from __future__ import annotations

import random

from .. import terms as tm
from .. import dense as dn
from ..dense import np
from ..terms import T, const, sym, mk
from ..interp import State
from ..values import Arr, Dct, Model, Obj, Tup
from .opt import named
from .tasks import live, per_case

RULE = "recorded series"
OUT = "out"
KINDS = ("value", "min-max-mean", "min-max-mean-std")

USER = '''
from sktopt.tools import HistoryCollection
from sktopt.tools.history import HistorySeries


class Npz:
    def __init__(self, items):
        self.held = items
        self.files = list(items)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def __getitem__(self, k):
        return self.held[k]

    def get(self, k, default=None):
        return self.held.get(k, default)

    def __contains__(self, k):
        return k in self.held

    def __iter__(self):
        return iter(self.files)

    def __len__(self):
        return len(self.files)

    def keys(self):
        return self.files

    def items(self):
        return [(k, self.held[k]) for k in self.files]

    def values(self):
        return [self.held[k] for k in self.files]


def npz(items):
    return Npz(items)


class Panel:
    def __init__(self, page, row, col):
        self.page = page
        self.row = row
        self.col = col


class Grid:
    def __init__(self, page, rows, cols, make):
        self.rows = [[make(page, i, j) for j in range(cols)]
                     for i in range(rows)]
        self.flat = [x for r in self.rows for x in r]
        self.ndim = 2
        self.shape = (rows, cols)
        self.size = rows * cols

    def __getitem__(self, k):
        if isinstance(k, tuple):
            return self.rows[k[0]][k[1]]
        return self.rows[k]

    def ravel(self):
        return self.flat

    def flatten(self):
        return self.flat


def grid(page, rows, cols, make):
    return Grid(page, rows, cols, make)
'''


class Series:
    def __init__(self, name, kind, ylog=False, constants=None, names=None,
                 data=None):
        self.name, self.kind, self.ylog = name, kind, ylog
        self.constants, self.names = constants, names
        self.data = list(data or [])

    def copy(self):
        return Series(self.name, self.kind, self.ylog, self.constants,
                      self.names, self.data)


def entry(kind, v):
    """what one fed value leaves in the series"""
    if isinstance(v, np.ndarray) and v.shape:
        r = [v.min(), v.mean(), v.max()]
        return r + [v.std()] if kind == "min-max-mean-std" else r
    return float(v)


class Plan:
    """a random history: its text, and what it must leave"""

    def __init__(self, rng, size, k):
        self.rng = rng
        self.vals = []               # kind of each unknown value
        self.names = rng.sample(["compliance", "vol_error", "rho_projected",
                                 "u_max", "energy", "dL", "-dC", "x"], k)
        self.what = {}
        ops = []
        for n in self.names:
            ops.append(self.register(n))
        for n in self.names[:-1] if rng.random() < 0.3 else self.names:
            ops.append(self.feed(n))
        for _ in range(size):
            r = rng.random()
            n = rng.choice(self.names)
            if r < 0.62:
                ops.append(self.feed(n))
            elif r < 0.7:
                ops.append(("latest", n))
            elif r < 0.82:
                ops.append(("export", rng.choice(
                    [None, "histories.npz", "a.npz"])))
            elif r < 0.88:
                ops.append(("import", rng.choice([None, "a.npz"])))
            elif r < 0.92:
                ops.append(self.register(n))
            elif r < 0.96:
                ops.append(("print",))
            else:
                ops.append(self.restart("histories.npz"))
        if rng.random() < 0.5:      # a run taken up again from its file
            f = rng.choice(["histories.npz", "b.npz"])
            ops += [("export", f), self.restart(f)]
            for n in self.names[:2]:
                ops.append(self.feed(n))
        self.ops = ops

    def restart(self, f):
        c = self.rng.choice([None, (0.4, 2.0)])
        return ("restart", f, c, ("low", "high") if c else None,
                [n for n in self.names if self.rng.random() < 0.8])

    def register(self, n):
        r = self.rng
        kind = r.choice(KINDS)
        # what is fed to one series keeps its form: numbers, or arrays
        self.what[n] = "array" if kind != "value" and r.random() < 0.75 or \
            r.random() < 0.15 else "number"
        c = r.choice([None, None, (0.4, 2.0)])
        init = []
        if self.what[n] == "number" and r.random() < 0.25:
            init = [0.5, 0.25]
        return ("add", n, kind, r.random() < 0.5, c,
                ("low", "high") if c else None, init)

    def feed(self, n):
        r = self.rng
        if self.what[n] == "array":
            k = r.choice(["array", "array", "matrix"])
        else:
            k = r.choice(["float", "float", "float", "zero-d", "int"])
        self.vals.append(k)
        return ("feed", n, len(self.vals) - 1)

    def text(self):
        out = [USER, "", "def program(dst, value, keep):",
               "    h = HistoryCollection(dst)"]
        for i, o in enumerate(self.ops):
            if o[0] == "add":
                kw = f"plot_type={o[2]!r}, ylog={o[3]}"
                if o[2] == "value" and i % 2:
                    kw = f"ylog={o[3]}"
                if o[4]:
                    kw += f", constants={list(o[4])}, " \
                          f"constant_names={list(o[5])}"
                if o[6]:
                    kw += f", data={o[6]}"
                out.append(f"    h.add({o[1]!r}, {kw})")
            elif o[0] == "feed":
                # the series may not be known after a change of collection
                out.append(f"    if {o[1]!r} in h.histories:")
                out.append(f"        h.feed_data({o[1]!r}, value({o[2]}))")
            elif o[0] == "latest":
                out.append(f"    if {o[1]!r} in h.histories and "
                           f"h.histories[{o[1]!r}].exists():")
                out.append(f"        keep({i}, h.latest({o[1]!r}))")
            elif o[0] in ("export", "import"):
                a = repr(o[1]) if o[1] else ""
                out.append(f"    h.{o[0]}_histories({a})")
            elif o[0] == "print":
                out.append("    h.print()")
            elif o[0] == "restart":
                out.append("    h = HistoryCollection(dst)")
                kw = f", constants={list(o[2])}, constant_names=" \
                     f"{list(o[3])}" if o[2] else ""
                for n in o[4]:
                    out.append(f"    h.add({n!r}, ylog=True{kw})")
                out.append(f"    h.import_histories({o[1]!r})")
        return "\n".join(out + ["    return h", ""])

    def run(self, vals):
        cur, files, kept = {}, {}, {}
        for i, o in enumerate(self.ops):
            if o[0] == "add":
                cur[o[1]] = Series(o[1], o[2], o[3], o[4], o[5], o[6])
            elif o[0] == "feed" and o[1] in cur:
                s = cur[o[1]]
                s.data.append(entry(s.kind, vals[o[2]]))
            elif o[0] == "latest":
                if o[1] in cur and cur[o[1]].data:
                    kept[i] = cur[o[1]].data[-1]
            elif o[0] in ("export", "import"):
                f = o[1] or "histories.npz"
                if o[0] == "export":
                    if not any(s.data for s in cur.values()):
                        continue
                    files[f] = {n: s.copy() for n, s in cur.items()
                                if s.data}
                cur = self.load(cur, files, f)
            elif o[0] == "restart":
                cur = {n: Series(n, "value", True, o[2], o[3])
                       for n in o[4]}
                cur = self.load(cur, files, o[1])
        return cur, files, kept

    @staticmethod
    def load(cur, files, f):
        if f not in files:
            return cur
        new = {}
        for n, s in files[f].items():
            e = cur.get(n)
            new[n] = Series(n, s.kind, e.ylog if e else False,
                            e.constants if e else None,
                            e.names if e else None, s.data)
        return new


def is_path(name):
    return name if name.endswith(".npz") else name + ".npz"


class World:
    """the collection with a stand-in for files and figures"""

    def __init__(self, ctx, kinds):
        self.ctx, self.kinds = ctx, kinds
        self.kept = {}
        self.ip = ip = ctx.ip({})
        ip.nd = True
        ip.implicit = False
        self.st = st = State()
        self.vals = []
        self.draw = []
        self.pages = 0
        for i, k in enumerate(kinds):
            if k in ("float", "int"):
                t = sym(f"x.value{i}", "s")
                ip.types[t] = {k}
                self.vals.append(t)
            else:
                t = sym(f"x.value{i}", "a")
                sh = {"array": ["n"], "matrix": ["n", "m"], "zero-d": []}[k]
                self.vals.append(ip.new_arr(st, t, f"value {i}", Tup(
                    [sym(f"x.{x}{i}", "s") for x in sh])))
        self.store = ip.new_dict(st, {})
        ip.models.update({
            "np.savez": self.savez, "np.savez_compressed": self.savez,
            "np.load": self.load, "os.path.exists": self.exists,
            "os.path.isfile": self.exists, "os.path.join": self.join,
            "os.makedirs": lambda *a: tm.NONE,
            "matplotlib.pyplot.subplots": self.subplots,
            "np.atleast_2d": self.same, "np.reshape": self.same,
            "np.ravel": self.flat})

    def value(self):
        def get(ip, st, a, kw, node):
            return self.vals[tm.cval(a[0])]
        return Model(get, "value")

    def keep(self):
        def put(ip, st, a, kw, node):
            self.kept.setdefault(tm.cval(a[0]), []).append(
                (st.pc, ip.toT(a[1], st)))
            return tm.NONE
        return Model(put, "keep")

    # ------------------------------------------------------------- files
    def path(self, v, st):
        t = self.ip.toT(v, st)
        if not tm.is_const(t) or not isinstance(tm.cval(t), str):
            raise RuntimeError(f"file name: {tm.show(t, 3)}")
        return tm.cval(t)

    def join(self, ip, st, a, kw, node):
        return const("/".join(self.path(x, st) for x in a))

    def savez(self, ip, st, a, kw, node):
        p = is_path(self.path(a[0], st))
        items = {}
        for k, v in kw.items():
            x = ip.numpy("array", [v], {}, st, None, node)
            if not isinstance(x, Arr):
                raise RuntimeError(f"saved value is not followed: {tm.show(ip.toT(v, st), 5)}")
            items[k] = x
        for i, v in enumerate(a[1:]):
            items[f"arr_{i}"] = ip.numpy("array", [v], {}, st, None, node)
        d = ip.new_dict(st, items)
        ip.setitem(self.store, const(p), const(p), d, st, None, node)
        return tm.NONE

    def exists(self, ip, st, a, kw, node):
        return ip.member(const(self.path(a[0], st)), self.store, st)

    def load(self, ip, st, a, kw, node):
        p = self.path(a[0], st)
        held = st.heap.get(("d", self.store.did))
        if not isinstance(held, dict):
            raise RuntimeError("files are not known")
        if p not in held:
            ip.do_raise(st, mk("ext", "builtins.FileNotFoundError"), node)
        d = ip.force(held[p], st)
        c = ip.new_dict(st, {k: ip.copy_value(v, st) for k, v in
                             st.heap[("d", d.did)].items()})
        return ip.call(ip.to_value(self.npz, st), [c], {}, st, None, node)

    # ------------------------------------------------------------ figures
    def same(self, ip, st, a, kw, node):
        v = ip.force(a[0], st)
        return v if isinstance(v, Obj) else NotImplemented

    def flat(self, ip, st, a, kw, node):
        v = ip.force(a[0], st)
        return ip.obj_attr(v, "flat", st, None, node) if isinstance(
            v, Obj) else NotImplemented

    def subplots(self, ip, st, a, kw, node):
        b = named(a, kw, ["nrows", "ncols"])
        n = [tm.cval(ip.toT(b[k], st)) if k in b else 1
             for k in ("nrows", "ncols")]
        if not all(isinstance(x, int) for x in n):
            raise RuntimeError("size of the page")
        page = self.pages
        self.pages += 1
        fig = ip.sym_obj(st, None, f"figure{page}")

        def save(ip, st, a, kw, node):
            self.draw.append(("save", page, self.path(a[0], st), None,
                              st.pc))
            return tm.NONE
        st.heap[("o", fig.oid, "savefig")] = Model(save, "savefig")
        g = ip.call(ip.to_value(self.grid, st), [
            const(page), const(n[0]), const(n[1]),
            Model(self.panel, "panel")], {}, st, None, node)
        return Tup([fig, g])

    def panel(self, ip, st, a, kw, node):
        p = tuple(tm.cval(x) for x in a)
        o = ip.sym_obj(st, None, f"panel{p}")

        def note(what, names):
            def f(ip, st, a, kw, node):
                b = named(a, kw, names)
                self.draw.append((what, p, {k: ip.toT(v, st)
                                            for k, v in b.items()},
                                  [ip.toT(x, st) for x in a], st.pc))
                return ip.new_list(st, [tm.unk("artist")])
            return Model(f, what)
        for what, names in (
                ("plot", ["x", "y"]), ("semilogy", ["x", "y"]),
                ("fill_between", ["x", "y1", "y2"]),
                ("set_xlabel", ["xlabel"]), ("set_ylabel", ["ylabel"]),
                ("set_yscale", ["value"]), ("set_title", ["label"]),
                ("axis", ["arg"]), ("set_axis_off", []), ("legend", [
                    "labels"])):
            st.heap[("o", o.oid, what)] = note(what, names)
        return o

    # ---------------------------------------------------------------- run
    def run(self, text, name, args):
        fn = self.ctx.program(name, text, "program")
        mod = self.ctx.proj.modules["user_" + name]
        self.npz, self.grid = mod.names["npz"], mod.names["grid"]
        return self.ip.run(fn, args, {}, self.st)

    def env(self, j):
        rng = np.random.default_rng(101 * j + self.ctx.seed)
        env = {}
        for i, k in enumerate(self.kinds):
            if k == "float":
                v = float(rng.normal())
            elif k == "int":
                v = int(rng.integers(-3, 9))
            elif k == "zero-d":
                v = np.array(rng.normal())
            elif k == "array":
                v = rng.normal(size=int(rng.integers(1, 5)))
            else:
                v = rng.normal(size=(int(rng.integers(1, 4)), 2))
            env[sym(f"x.value{i}", "s" if k in ("float", "int") else "a")] = v
        return env

    def given(self, env):
        return [env[sym(f"x.value{i}", "s" if k in ("float", "int")
                        else "a")] for i, k in enumerate(self.kinds)]

    def reader(self, env):
        return dn.Dense(dict(env), self.ip, 1, lambda d, t, E: None)


def where(ctx, name, cls="sktopt.tools.HistoryCollection"):
    c = ctx.proj.need(cls)
    fi = c.find(name, ctx.proj)
    return (fi or c).where, (fi.qual if fi else c.qual)


def same(got, want):
    try:
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    except (TypeError, ValueError):
        return False
    return g.shape == w.shape and bool(np.allclose(g, w, rtol=1e-9,
                                                   atol=1e-12))


def read(d, w, v, s):
    return d.ev(w.ip.toT(w.ip.force(v, s), s))


def held(w, h, s):
    """name -> series object of the collection"""
    o = s.heap.get(("o", h.oid, "histories"))
    c = s.heap.get(("d", o.did)) if isinstance(o, Dct) else None
    if not isinstance(c, dict) or any(isinstance(k, T) for k in c):
        raise dn.Undecided("the series of the collection")
    return {k: w.ip.force(v, s) for k, v in c.items()}


FIELDS = (("plot_type", "kind"), ("ylog", "ylog"), ("constants", "constants"),
          ("constant_names", "names"), ("name", "name"))


def compare(w, h, s, d, cur):
    got = held(w, h, s)
    if set(got) != set(cur):
        return f"the collection holds {sorted(got)}, recorded were " \
               f"{sorted(cur)}"
    for n, o in got.items():
        if not isinstance(o, Obj):
            raise dn.Undecided("a series")
        data = w.ip.list_items(s.heap.get(("o", o.oid, "data")), s)
        if data is None:
            raise dn.Undecided("the values of a series")
        want = cur[n].data
        if len(data) != len(want):
            return f"{n!r} holds {len(data)} values, {len(want)} were fed"
        for i, (x, y) in enumerate(zip(data, want)):
            g = read(d, w, x, s)
            if not same(g, y):
                return f"value {i} of {n!r} is {short(g)}, fed was {short(y)}"
        for f, k in FIELDS:
            x = s.heap.get(("o", o.oid, f))
            if x is None:
                raise dn.Undecided(f"attribute {f}")
            g = read(d, w, x, s)
            y = getattr(cur[n], k)
            g = tuple(g) if isinstance(g, (list, tuple, np.ndarray)) else g
            if g != y and not (isinstance(y, tuple) and list(g or ()) ==
                               list(y)):
                return f"{f} of {n!r} is {g!r}, given was {y!r}"
    return None


def on_disk(w, s, d, files):
    """the files hold the series as they were exported"""
    got = s.heap.get(("d", w.store.did))
    if not isinstance(got, dict) or any(isinstance(k, T) for k in got):
        raise dn.Undecided("files")
    want = {f"{OUT}/{f}": x for f, x in files.items()}
    if set(got) != set(want):
        return f"files {sorted(got)}, exported were {sorted(want)}"
    for f, series in want.items():
        v = w.ip.force(got[f], s)
        c = s.heap.get(("d", v.did)) if isinstance(v, Dct) else None
        if not isinstance(c, dict) or any(isinstance(k, T) for k in c):
            raise dn.Undecided("content of a file")
        for n, x in series.items():
            if n not in c:
                raise dn.Undecided("names in a file")
            a = stacked(x.data)
            g = np.asarray(read(d, w, c[n], s))
            if sorted(g.shape) != sorted(a.shape) or not same(
                    np.sort(g, axis=None), np.sort(a, axis=None)):
                return f"{f} holds {short(g)} for {n!r}, recorded was " \
                       f"{short(a)}"
    return None


def short(x):
    return str(np.round(np.asarray(x, dtype=float), 6).tolist())[:80]


def c14(ctx):
    """Random histories of feeding, exporting, importing and reading, put
    through the collection's value graph; what it holds, gives and draws is
    compared with what was fed."""
    tm.KEEP_AXES = True
    k = 16 if ctx.tier == "quick" else 80
    for j in range(k):
        rng = random.Random(7000 * ctx.seed + j)
        plan = Plan(rng, 8 + j % 5, 2 + j % 4)
        ctx.section(f"history {j}", one, ctx, j, plan)
    for n in (8, 9, 17) if ctx.tier == "quick" else range(6, 26):
        ctx.section(f"{n} series", many, ctx, n)
    ctx.section("comparison", comparison, ctx)


class Many(Plan):
    """a given number of series, fed twice or not at all"""

    def __init__(self, rng, n):
        self.rng, self.vals, self.what = rng, [], {}
        self.names = [f"q{i}" for i in range(n)]
        self.ops = [self.register(m) for m in self.names]
        for i, m in enumerate(self.names * 2):
            if i % n != n // 2:
                self.ops.append(self.feed(m))


def many(ctx, n):
    plan = Many(random.Random(90 * ctx.seed + n), n)
    w = World(ctx, plan.vals)
    s, h = w.run(plan.text(), f"many{n}", [const(OUT), w.value(), w.keep()])
    if s is None:
        wh, q = where(ctx, "feed_data")
        return ctx.bad(RULE, f"{q} [{n} series]", wh, "the history raises")
    charts(ctx, plan, w, s, h, f"{n} series", [w.env(i) for i in range(2)])


PAIR = USER + '''

def program(value, kind, other, names, left, right):
    from sktopt.tools.history import compare_histories_data_and_plot_type
    a = {}
    b = {}
    for n in names[0]:
        a[n] = HistorySeries(n, plot_type=kind)
        for i in left:
            a[n].add(value(i))
    for n in names[1]:
        b[n] = HistorySeries(n, plot_type=other)
        for i in right:
            b[n].add(value(i))
    return compare_histories_data_and_plot_type(a, b)
'''


def comparison(ctx):
    """two collections are equal when names, kinds and values are"""
    f = "sktopt.tools.history.compare_histories_data_and_plot_type"
    fi = ctx.proj.lookup(f)
    if fi is None:
        return
    m = "min-max-mean"
    for j, (what, kind, other, n1, n2, left, right, form, want) in enumerate((
            ("the same", m, m, "ab", "ab", (0, 1), (0, 1), "array", True),
            ("the same numbers", "value", "value", "ab", "ab", (0, 1, 2),
             (0, 1, 2), "float", True),
            ("another order", m, m, "ab", "ba", (0, 1), (0, 1), "float",
             True),
            ("no values", m, m, "ab", "ab", (), (), "float", True),
            ("other values", m, m, "ab", "ab", (0, 1), (1, 2), "float",
             False),
            ("another first value", m, m, "a", "a", (0, 1, 2), (3, 1, 2),
             "float", False),
            ("another last value", m, m, "a", "a", (0, 1, 2), (0, 1, 3),
             "float", False),
            ("other arrays", m, m, "a", "a", (0, 1), (0, 2), "array", False),
            ("one value more", m, m, "a", "a", (0, 1), (0, 1, 2), "float",
             False),
            ("one array less", m, m, "a", "a", (0, 1, 2), (0, 1), "array",
             False),
            ("no values on one side", m, m, "a", "a", (), (0, 1), "float",
             False),
            ("another kind", m, KINDS[2], "a", "a", (0, 1), (0, 1), "float",
             False),
            ("another name", m, m, "ab", "ac", (0, 1), (0, 1), "float",
             False),
            ("one series less", m, m, "ab", "a", (0, 1), (0, 1), "float",
             False),
            ("one series more", m, m, "a", "ab", (0, 1), (0, 1), "float",
             False))):
        w = World(ctx, [form] * 8)
        s, v = w.run(PAIR, f"pair{j}", [
            w.value(), const(kind), const(other),
            Tup([const(tuple(n1)), const(tuple(n2))]),
            const(left), const(right)])
        c = f"{f} [{what}]"
        if s is None:
            ctx.bad(RULE, c, fi.where, "raises")
            continue

        def judge(env):
            d = w.reader(env)
            try:
                if not live(d, s.pc):
                    return f"comparing collections with {what} raises", {}
                g = read(d, w, v, s)
            except dn.Raises as e:
                if "broadcast" not in str(e):
                    raise
                return f"comparing collections with {what} raises: {e}", {}
            return None if bool(g) is want else (
                f"collections with {what} are "
                f"{'equal' if g else 'different'}", {})
        per_case(ctx, RULE, c, fi.where, [w.env(i) for i in range(3)], judge,
                 f"{'equal' if want else 'different'}")


def one(ctx, j, plan):
    w = World(ctx, plan.vals)
    wh, q = where(ctx, "feed_data")
    lab = f"history {j}"
    s, h = w.run(plan.text(), f"history{j}", [const(OUT), w.value(),
                                              w.keep()])
    info = {"program": plan.text().split("def program")[1]}
    if s is None:
        return ctx.bad(RULE, f"{q} [{lab}]", wh, "the history raises", info)
    if not isinstance(h, Obj):
        return ctx.unsure(RULE, f"{q} [{lab}]", "no collection")
    envs = [w.env(i) for i in range(3)]

    def judge(env):
        d = w.reader(env)
        cur, files, kept = plan.run(w.given(env))
        for i, y in kept.items():
            seen = [t for pc, t in w.kept.get(i, ()) if live(d, pc)]
            if not seen:
                return "the latest value is not given", info
            g = d.ev(seen[-1])
            if not same(g, y):
                return f"the latest value of {plan.ops[i][1]!r} is " \
                       f"{short(g)}, fed was {short(y)}", info
        why = compare(w, h, s, d, cur) or on_disk(w, s, d, files)
        return why and (why, info)
    per_case(ctx, RULE, f"{q} [{lab}]", wh, envs, judge,
             "every fed value kept in order, through export and import")
    ctx.section(f"reading {j}", reading, ctx, plan, w, s, h, lab, envs)
    ctx.section(f"charts {j}", charts, ctx, plan, w, s, h, lab, envs)


def stacked(data):
    """the series as one array, or None when its entries differ in form"""
    try:
        return np.array(data, dtype=float)
    except ValueError:
        return None


def reading(ctx, plan, w, s, h, lab, envs):
    cls = "sktopt.tools.history.HistorySeries"
    obj = held(w, h, s)
    info = {"program": plan.text().split("def program")[1]}
    now = plan.run(w.given(envs[0]))[0]
    full = all(x.data for x in now.values())
    for n, o in obj.items():
        if not now[n].data:
            continue
        for f, kind in (("data_np_array", "a"), ("data_to_array", "h"),
                        ("latest", "l"), ("exists", "e")):
            wh, q = where(ctx, f, cls)
            c = f"{q} [{lab}, {n}]"
            s2 = s.fork()
            if f == "data_np_array":
                v = w.ip.obj_attr(o, f, s2, None, None)
            else:
                s2, v = w.ip.meth(o, f, [], {}, s2)
            if s2 is None:
                ctx.bad(RULE, c, wh, "raises", info)
                continue

            def judge(env, n=n, v=v, s2=s2, kind=kind):
                d = w.reader(env)
                x = plan.run(w.given(env))[0][n]
                g = read(d, w, v, s2)
                a = stacked(x.data)
                if kind == "e":
                    return None if g else ("a fed series does not exist",
                                           info)
                if kind == "l":
                    want = x.data[-1]
                elif kind == "a":
                    want = a
                else:
                    want = a.T[:4 if x.kind == "min-max-mean-std" else 3] \
                        if a.ndim == 2 else a
                    if list(g[1]) != [x.name, x.kind]:
                        return f"the header of {n!r} is {list(g[1])}", info
                    g = g[0]
                if not same(g, want):
                    return f"{n!r} is given as {short(g)}, recorded was " \
                           f"{short(want)}", info
            per_case(ctx, RULE, c, wh, envs, judge, "what was recorded")
    for f in ("as_object", "as_object_latest") if full else ():
        wh, q = where(ctx, f)
        s2, v = w.ip.meth(h, f, [], {}, s.fork())
        c = f"{q} [{lab}]"
        if s2 is None:
            ctx.bad(RULE, c, wh, "raises", info)
            continue
        if not isinstance(v, Obj):
            ctx.unsure(RULE, c, "no object")
            continue

        def judge(env, v=v, s2=s2, f=f):
            d = w.reader(env)
            for n, x in plan.run(w.given(env))[0].items():
                t = s2.heap.get(("o", v.oid, n))
                if t is None:
                    return f"no attribute {n!r}", info
                g = read(d, w, t, s2)
                want = stacked(x.data) if f == "as_object" else x.data[-1]
                if not same(g, want):
                    return f"{n!r} is given as {short(g)}, recorded was " \
                           f"{short(want)}", info
        per_case(ctx, RULE, c, wh, envs, judge, "every series by its name")
    wh, q = where(ctx, "histories_to_array")
    s2, v = w.ip.meth(h, "histories_to_array", [], {}, s.fork())
    c = f"{q} [{lab}]"
    if s2 is None:
        ctx.bad(RULE, c, wh, "raises", info)
    elif isinstance(v, Dct) and isinstance(s2.heap.get(("d", v.did)), dict):
        got = s2.heap[("d", v.did)]

        def judge(env):
            d = w.reader(env)
            cur = {n: x for n, x in plan.run(w.given(env))[0].items()
                   if x.data}
            if set(got) != {k for n in cur for k in (n, n + "_header")}:
                return f"entries {sorted(map(str, got))}", info
            for n, x in cur.items():
                a = stacked(x.data)
                g = read(d, w, got[n], s2)
                if not same(g, a.T[:4 if x.kind == "min-max-mean-std" else 3]
                            if a.ndim == 2 else a):
                    return f"{n!r} is given as {short(g)}", info
                hd = read(d, w, got[n + "_header"], s2)
                if list(hd) != [x.name, x.kind]:
                    return f"the header of {n!r} is {list(hd)}", info
        per_case(ctx, RULE, c, wh, envs, judge, "every series that has values")
    else:
        ctx.unsure(RULE, c, "the arrays")
    missing(ctx, w, s, h, lab, info)


def missing(ctx, w, s, h, lab, info):
    """series that are not there, or have no values"""
    wh, q = where(ctx, "latest")
    s2, v = w.ip.meth(h, "latest", [const("not there")], {}, s.fork())
    if s2 is None or s2.pc == s.pc:
        ctx.fact(s2 is None, RULE, f"{q} [{lab}, unknown name]", wh,
                 "an unknown series is refused",
                 "an unknown series is answered")
    s2 = s.fork()
    s2, _ = w.ip.meth(h, "add", [const("empty")], {}, s2)
    if s2 is not None:
        pc = s2.pc
        s2, v = w.ip.meth(h, "latest", [const("empty")], {}, s2)
        if s2 is not None and s2.pc != pc:
            return
        ctx.fact(s2 is None, RULE, f"{q} [{lab}, no values]", wh,
                 "a series without values is refused",
                 "a series without values is answered")


def charts(ctx, plan, w, s, h, lab, envs):
    wh, q = where(ctx, "export_progress")
    c = f"{q} [{lab}]"
    info = {"program": plan.text().split("def program")[1]}
    w.draw.clear()
    w.pages = 0
    s2, _ = w.ip.meth(h, "export_progress", [], {}, s.fork())
    if s2 is None:
        return ctx.bad(RULE, c, wh, "raises", info)
    draw = list(w.draw)

    def judge(env):
        why = drawn(w.reader(env), draw, plan.run(w.given(env))[0])
        return why and (why, info)
    per_case(ctx, RULE, c, wh, envs, judge,
             "every series on its own panel of a saved page")


def drawn(d, draw, cur):
    saved, panels, off = {}, {}, set()
    for e in draw:
        if not live(d, e[4]):
            continue
        if e[0] == "save":
            if e[2] in saved.values():
                return f"two pages are saved as {e[2]}"
            saved[e[1]] = e[2]
        elif e[0] == "axis":
            off.add(e[1])
        elif e[0] == "set_axis_off":
            off.add(e[1])
        else:
            if e[1][0] in saved:
                return "a page is saved before everything is drawn"
            panels.setdefault(e[1], []).append(e)
    seen = {}
    for p, es in panels.items():
        if p in off and any(e[0] == "plot" for e in es):
            return "a panel with a series is switched off"
        lab = [d.ev(e[2]["ylabel"]) for e in es if e[0] == "set_ylabel"]
        if any(e[0] in ("plot", "semilogy") for e in es):
            if not lab:
                raise dn.Undecided("which series a panel shows")
            if lab[-1] in seen:
                return f"{lab[-1]!r} is on two panels"
            if p[0] not in saved:
                return f"the page of {lab[-1]!r} is not saved"
            seen[lab[-1]] = es
    want = {n: x for n, x in cur.items() if x.data}
    if set(seen) != set(want):
        return f"drawn are {sorted(seen)}, recorded were {sorted(want)}"
    for n, es in seen.items():
        x = want[n]
        a = stacked(x.data)
        lines, band, scale, title = [], [], "linear", None
        for e in es:
            if e[0] in ("plot", "semilogy"):
                xs = [d.ev(t) for t in e[3]]
                xs = [v for v in xs if not isinstance(v, str)]
                if len(xs) == 1:
                    xs = [np.arange(len(np.atleast_1d(xs[0])))] + xs
                if len(xs) != 2:
                    raise dn.Undecided("a drawn line")
                lines.append(xs)
                if e[0] == "semilogy":
                    scale = "log"
            elif e[0] == "fill_between":
                band.append([d.ev(e[2][k]) for k in ("x", "y1", "y2")])
            elif e[0] == "set_yscale":
                scale = d.ev(e[2]["value"])
            elif e[0] == "set_title":
                title = d.ev(e[2]["label"])
        rows = [a] if a.ndim == 1 else list(a.T[:3])
        it = np.arange(len(a))
        for xs in lines:
            if not same(xs[0], it):
                return f"{n!r} is drawn against {short(xs[0])}"
        if len(lines) != len(rows):
            return f"{n!r} is drawn with {len(lines)} lines, it has " \
                   f"{len(rows)} figures"
        for r in rows:
            if not any(same(xs[1], r) for xs in lines):
                return f"{short(r)} of {n!r} is not drawn"
        if a.ndim == 2 and x.kind == "min-max-mean-std":
            if not any(same(b[1], a[:, 1] - a[:, 3]) and
                       same(b[2], a[:, 1] + a[:, 3]) or
                       same(b[2], a[:, 1] - a[:, 3]) and
                       same(b[1], a[:, 1] + a[:, 3]) for b in band):
                return f"the spread of {n!r} is not drawn"
        if scale != ("log" if x.ylog else "linear"):
            return f"{n!r} is drawn on a {scale} scale"
        if title is not None and n not in str(title):
            return f"the panel of {n!r} is called {title!r}"
    return None
