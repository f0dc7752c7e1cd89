"""Value graphs read over small concrete arrays.

The point-wise interpretation of ``terms.Interp`` has no notion of position:
it cannot tell ``x[ids]`` from ``x`` re-ordered, or a connectivity array from
any other array.  For the parts of the code whose meaning *is* indexing
(filters, cell volumes, element and node sets, surface loads) a derived term
is read here over random small arrays, with numpy's own index semantics; a
loop value ``mu`` is the fixed number of applications of the loop's derived
step.  Two value graphs that differ on one such input compute different
values there (random interpretation again); the input is the witness."""
from __future__ import annotations
import math
import sys

from . import terms as tm
from .terms import T

try:
    import numpy as np
except ImportError:
    import glob
    for _p in (glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages")
               + glob.glob("/opt/venv/lib/python3*/site-packages")):
        sys.path.append(_p)
    import numpy as np

np.seterr(all="ignore")


class Undecided(Exception):
    pass


class Raises(Undecided):
    """the term has no value: indexing or shapes do not fit"""


class Crash(Undecided):
    """the analysed code raises on this input"""


UNINIT = object()


class Passes:
    """what became of a loop: bindings of every pass, how it ended"""

    def __init__(self):
        self.passes = []
        self.values = {}
        self.broke = False


class KD:
    def __init__(self, pts):
        self.pts = np.asarray(pts, dtype=float)

    def dist(self, x):
        return np.sqrt(((self.pts - np.asarray(x)) ** 2).sum(axis=-1))

    def query_ball_point(self, x, r, **kw):
        x = np.asarray(x, dtype=float)
        if x.ndim == 1:
            return list(map(int, np.nonzero(self.dist(x) <= r)[0]))
        return [self.query_ball_point(y, r) for y in x]

    def query(self, x, k=1, **kw):
        x = np.asarray(x, dtype=float)
        if x.ndim == 1:
            d = self.dist(x)
            o = np.argsort(d, kind="stable")
            if k == 1:
                return d[o[0]], int(o[0])
            return d[o[:k]], o[:k]
        rs = [self.query(y, k) for y in x]
        return np.array([r[0] for r in rs]), np.array([r[1] for r in rs])


def coo(a, kw):
    x = a[0]
    shape = kw.get("shape", a[1] if len(a) > 1 else None)
    if isinstance(x, tuple) and len(x) == 2 and isinstance(
            x[1], (tuple, list)):
        d, (r, c) = x
        r, c = np.asarray(r, dtype=int), np.asarray(c, dtype=int)
        d = np.broadcast_to(np.asarray(d, dtype=float), r.shape)
        if shape is None:
            shape = (r.max() + 1, c.max() + 1)
        m = np.zeros(shape)
        if r.size and (r.max() >= shape[0] or c.max() >= shape[1]
                       or min(r.min(), c.min()) < 0):
            raise Crash("sparse matrix entry outside its shape")
        np.add.at(m, (r, c), d)
        return m
    if isinstance(x, tuple):
        return np.zeros(x)
    return np.asarray(x, dtype=float)


def diags(a, kw):
    v = np.asarray(a[0], dtype=float)
    off = kw.get("offsets", a[1] if len(a) > 1 else 0)
    if v.ndim == 1 and off == 0:
        return np.diag(v)
    raise Undecided("diags")


CALLS = {
    "scipy.spatial.cKDTree": lambda a, kw: KD(a[0]),
    "scipy.spatial.KDTree": lambda a, kw: KD(a[0]),
    "scipy.sparse.diags": diags, "scipy.sparse.diags_array": diags,
    "scipy.sparse.spdiags": None,
    "np.where1": lambda a, kw: np.nonzero(a[0]),
    "np.nonzero1": lambda a, kw: np.nonzero(a[0])[0],
    "array_of": lambda a, kw: np.array(a[0]),
    "filtered": lambda a, kw: a[1],
    "range_len": lambda a, kw: len(range(*map(int, a))),
    "minlen": lambda a, kw: min(a),
    "list_last": lambda a, kw: a[0][-1],
    "list_pop": lambda a, kw: a[0][:-1],
    "extend": lambda a, kw: list(a[0]) + list(a[1]),
    "range": lambda a, kw: list(range(*map(int, a))),
    "enumerate": lambda a, kw: list(enumerate(*a)),
    "zip": lambda a, kw: list(zip(*a)),
    "sortorder": lambda a, kw: sorted(
        range(len(a[0])), key=lambda i: a[0][i], reverse=bool(a[1])),
    "sorted": lambda a, kw: sorted(a[0], reverse=bool(kw.get("reverse"))),
    "chain": lambda a, kw: [y for x in a[0] for y in x],
    "list": lambda a, kw: list(*a), "tuple": lambda a, kw: tuple(*a),
    "set": lambda a, kw: set(*a), "sum": lambda a, kw: sum(*a),
    "any": lambda a, kw: any(*a), "all": lambda a, kw: all(*a),
    "len": lambda a, kw: len(a[0]),
    "frozenset": lambda a, kw: set(*a),
    "set.add": lambda a, kw: set(a[0]) | {a[1]},
    "set.discard": lambda a, kw: set(a[0]) - {a[1]},
    "set.update": lambda a, kw: set(a[0]).union(*a[1:]),
    "set.sub": lambda a, kw: set(a[0]).difference(*a[1:]),
    "set.and": lambda a, kw: set(a[0]).intersection(*a[1:]),
    "set.xor": lambda a, kw: set(a[0]) ^ set(a[1]),
    "set.issubset": lambda a, kw: set(a[0]) <= set(a[1]),
    "set.issuperset": lambda a, kw: set(a[0]) >= set(a[1]),
    "set.isdisjoint": lambda a, kw: not (set(a[0]) & set(a[1])),
    "dict.setdefault": lambda a, kw: {**a[0], a[1]: a[0].get(a[1], a[2])},
    "dict.pop": lambda a, kw: {k: v for k, v in a[0].items() if k != a[1]},
    "dict.update": lambda a, kw: {**a[0], **dict(*a[1:], **kw)},
    "dict": lambda a, kw: dict(*a, **kw),
    "np.fromiter": lambda a, kw: np.array(
        sorted(a[0]) if isinstance(a[0], set) else list(a[0])),
    "math.sqrt": lambda a, kw: math.sqrt(a[0]),
    "math.isclose": lambda a, kw: math.isclose(*a, **kw),
    "np.linalg.solve": lambda a, kw: np.linalg.solve(*a),
    "lin.solve": lambda a, kw: np.linalg.solve(*a),
}
for _n in ("coo_matrix", "csr_matrix", "csc_matrix", "lil_matrix",
           "coo_array", "csr_array", "csc_array", "dok_matrix"):
    CALLS["scipy.sparse." + _n] = coo

KWS = {"scipy.spatial.cKDTree": {"leafsize", "balanced_tree",
                                 "compact_nodes"},
       "sorted": {"reverse"}, "math.isclose": {"rel_tol", "abs_tol"},
       "filtered": set(), "np.linalg.solve": set()}
KWS["scipy.spatial.KDTree"] = KWS["scipy.spatial.cKDTree"]
for _n in CALLS:
    if _n.startswith("scipy.sparse."):
        KWS[_n] = {"shape", "format", "copy", "offsets"}

# methods that leave a dense reading as it is
SAME = {".tocsr", ".tocsc", ".tocoo", ".tolil", ".copy", ".toarray",
        ".todense", ".A", ".tobytes"}

_UF = {
    "add": np.add, "sub": np.subtract, "mul": np.multiply,
    "div": np.true_divide, "pow": np.power, "neg": np.negative,
    "mod": np.mod, "floordiv": np.floor_divide, "min": np.minimum,
    "max": np.maximum, "abs": np.abs, "exp": np.exp, "log": np.log,
    "log1p": np.log1p, "expm1": np.expm1, "tanh": np.tanh, "sqrt": np.sqrt,
    "cosh": np.cosh, "sinh": np.sinh, "sin": np.sin, "cos": np.cos,
    "sign": np.sign, "floor": np.floor, "ceil": np.ceil,
    "log10": np.log10, "log2": np.log2, "isfinite": np.isfinite,
    "isnan": np.isnan, "lt": np.less, "le": np.less_equal,
    "gt": np.greater, "ge": np.greater_equal,
}


class Dense:
    """one input: ``env`` maps symbols (terms) to arrays and numbers"""

    def __init__(self, env, ip=None, n=None, hook=None):
        self.env = {k.id: v for k, v in env.items()}
        self.loops = {}
        self.infos = {}
        self.searches = {}
        self.hints = ip.hints if ip is not None else {}
        for l in (ip.loops if ip is not None else ()):
            self.infos[l.id] = l
            for m, i, x in l.terms:
                self.loops.setdefault(m.id, []).append((l, m))
                if l.breaks and l.kind == "for":
                    # the value at the start of the last pass
                    m2 = tm.mk("mu", l.id, str(m.args[1]) + "'", m.args[2])
                    self.loops.setdefault(m2.id, []).append((l, m))
        self.n = n
        self.hook = hook
        self.memo = {}
        self.deps_ = {}
        self.outer_ = {}
        self.open_ = {}
        self.ver = 0

    # what a term depends on
    def outer(self, l):
        """what a loop's values depend on besides the loop itself"""
        r = self.outer_.get(id(l))
        if r is not None:
            return r
        if id(l) in self.open_:
            return frozenset()
        self.open_[id(l)] = {}
        own = set()
        inner = set()
        ts = [y for _, i, x in l.terms for y in (i, x)]
        end, brk = self.leaving(l)
        ts += end + [c for cs in brk for c in cs]
        if l.bound is not None:
            ts.append(l.bound)
        for y in ts:
            inner |= self.deps(y)
        for m2, _, _ in l.terms:
            own.add(m2.id)
        if l.itv is not None:
            own.add(l.itv.id)
        del self.open_[id(l)]
        r = frozenset(inner - own)
        if not self.open_:
            self.outer_[id(l)] = r
        return r

    def deps(self, t):
        memo = next(reversed(self.open_.values())) if self.open_ \
            else self.deps_
        r = memo.get(t.id)
        if r is not None:
            return r
        out = set()
        if t.op in ("it", "mu"):
            out.add(t.id)
        if t.op == "call" and t.args[0] == "broke" and tm.cval(
                t.args[1]) in self.infos:
            out |= self.outer(self.infos[tm.cval(t.args[1])])
        if t.op == "mu" and t.id in self.loops:
            for l, m in self.loops[t.id]:
                out |= self.outer(l)
        for a in t.args:
            if isinstance(a, T):
                out |= self.deps(a)
        if t.op in ("comp", "compif", "colmap", "fold"):
            v = t.args[3 if t.op == "fold" else 1]
            out.discard(v.id)
        r = memo[t.id] = frozenset(out)
        return r

    def ev(self, t, E=None):
        E = E or {}
        if not isinstance(t, T):
            return t
        d = self.deps(t)
        key = (t.id, tuple(sorted((x, E[x][0]) for x in d if x in E)))
        if key in self.memo:
            r = self.memo[key]
            if isinstance(r, Undecided):
                raise r
            return r
        try:
            r = self._ev(t, E)
        except Undecided as e:
            self.memo[key] = e
            raise
        except RecursionError:
            raise Undecided("recursion")
        except (IndexError, ValueError, TypeError, KeyError,
                AttributeError, np.linalg.LinAlgError, OverflowError) as e:
            u = Raises(f"{type(e).__name__}: {e}: {tm.show(t, 2)}")
            self.memo[key] = u
            raise u
        self.memo[key] = r
        return r

    def bind(self, E, pairs):
        E = dict(E)
        for t, v in pairs:
            self.ver += 1
            E[t.id] = (self.ver, v)
        return E

    def truth(self, x):
        if isinstance(x, np.ndarray):
            if x.size == 1:
                return bool(x.reshape(-1)[0])
            raise Raises("truth of an array")
        return bool(x)

    def loop(self, t, E):
        cands = self.loops.get(t.id)
        if not cands:
            raise Undecided("loop value " + str(t.args[1]))
        l, m = cands[-1]
        if l.kind == "while" or l.breaks:
            r = self.search(l, E).values[m.id]
            if r is UNINIT:
                raise Undecided("value not set")
            return r
        if l.kind != "for" or l.bound is None or l.itv is None:
            raise Undecided("loop " + l.id)
        n = int(self.ev(l.bound, E))
        if n > 4096:
            raise Undecided("long loop")
        todo, need = [t.id], {t.id}
        steps = {m.id: (m, i, x) for m, i, x in l.terms}
        while todo:
            _, _, x = steps[todo.pop()]
            for d in self.deps(x):
                if d in steps and d not in need:
                    need.add(d)
                    todo.append(d)
        def start(m, x):
            if x.op == "uninit":
                return UNINIT
            try:
                return self.based(m, self.ev(x, E), E)
            except (Raises, Crash):
                raise
            except Undecided as e:
                if n and "value not set" in str(e):
                    return UNINIT       # set before it is read
                raise
        cur = {k: start(*steps[k][:2]) for k in need}
        for k in range(n):
            E2 = self.bind(E, [(l.itv, k)] + [(steps[m][0], v)
                                              for m, v in cur.items()])
            cur = {m: self.ev(steps[m][2], E2) for m in need}
        if cur[t.id] is UNINIT:
            raise Undecided("value not set")
        return cur[t.id]

    @staticmethod
    def leaving(l):
        """the condition the loop ends on, those of its breaks"""
        if l.kind != "while" and not l.breaks:
            return [], []
        n = len(l.entry_pc)
        skip = ("broke", "more")

        def own(c):
            while c.op == "not":
                c = c.args[0]
            return not (c.op == "call" and c.args[0] in skip)
        brk = [[c for c in b.pc[n:] if own(c)] for b in l.breaks]
        end = [l.exit_cond] if l.kind == "while" and isinstance(
            l.exit_cond, T) else []
        return end, brk

    def search(self, l, E):
        """a loop that stops on a condition: its passes one by one"""
        d = set()
        for m, i, x in l.terms:
            d |= self.deps(m)
        key = (id(l), tuple(sorted((x, E[x][0]) for x in d if x in E)))
        r = self.searches.get(key)
        if r is None:
            r = self.searches[key] = self._search(l, E)
        return r

    def _search(self, l, E):
        end, brk = self.leaving(l)
        steps = [(m, i, x) for m, i, x in l.terms]

        def val(m, x, E):
            if x.op == "uninit":
                return UNINIT
            try:
                return self.based(m, self.ev(x, E), E)
            except Crash:
                raise
            except Undecided:
                return UNINIT
        cur = {m.id: val(m, i, E) for m, i, x in steps}
        n = None
        if l.kind == "for":
            if l.bound is None or l.itv is None:
                raise Undecided("loop " + l.id)
            n = int(self.ev(l.bound, E))
        out = Passes()
        k = 0
        while True:
            if n is not None and k >= n:
                break
            if k > 3000:
                raise Undecided("long loop")
            pairs = [(m, cur[m.id]) for m, _, _ in steps]
            if n is not None:
                pairs.append((l.itv, k))
            E2 = self.bind(E, pairs)
            out.passes.append(E2)
            out.values = cur
            if end and self.truth(self.ev(end[0], E2)):
                return out
            for cs in brk:
                if all(self.truth(self.ev(c, E2)) for c in cs):
                    out.broke = True
                    return out
            cur = {m.id: val(m, x, E2) for m, i, x in steps}
            k += 1
        if not out.passes:
            out.values = cur
        return out

    def based(self, t, v, E):
        """a scalar standing for a whole array, at its full size"""
        sh = self.hints.get(t)
        if sh is not None and isinstance(v, (int, float, bool)) and \
                v is not UNINIT:
            try:
                s = self.ev(sh, E)
                if not isinstance(s, tuple):
                    s = (int(s),)
                return np.full(tuple(int(x) for x in s), v)
            except Undecided:
                pass
        return v

    def array(self, v, n=None):
        if isinstance(v, np.ndarray) and v.ndim:
            return v
        n = n or self.n
        if n is None:
            raise Undecided("size of an array")
        return np.full(n, v)

    def index(self, i, E):
        if i.op == "idx":
            return tuple(self.index(x, E) for x in i.args)
        if i.op == "slice":
            return slice(*[None if x is tm.NONE else int(self.ev(x, E))
                           for x in i.args])
        if i.op == "ellipsis":
            return Ellipsis
        v = self.ev(i, E)
        if isinstance(v, (list, tuple)):
            return np.asarray(v, dtype=None if len(v) else int)
        if isinstance(v, (bool, np.bool_)):
            return slice(None) if v else slice(0, 0)
        if isinstance(v, np.ndarray) and v.size == 0 and v.dtype.kind == "f":
            return v.astype(int)
        return v

    def _ev(self, t, E):
        op, a = t.op, t.args
        if t.id in E:
            v = E[t.id][1]
            if v is UNINIT:
                raise Undecided("value not set: " + tm.show(t, 1))
            return v
        if t.id in self.env:
            return self.env[t.id]
        if self.hook is not None:
            r = self.hook(self, t, E)
            if r is not None:
                return r
        ev = lambda x: self.ev(x, E)                     # noqa: E731
        if op == "const":
            return a[0]
        if op == "mu":
            return self.loop(t, E)
        if op == "unk":
            raise Undecided(f"unmodelled: {a[0]}")
        if op in _UF:
            xs = [ev(x) for x in a]
            if any(isinstance(x, str) for x in xs) and len(xs) == 2:
                x, y = xs
                if op == "add" and isinstance(x, str) and isinstance(y, str):
                    return x + y
                if op == "mul" and isinstance(
                        y if isinstance(x, str) else x, (int, np.integer)):
                    return x * y
            if any(x is None or isinstance(x, str) for x in xs):
                raise Raises(op)
            xs = [np.asarray(x) if isinstance(x, (list, tuple)) else x
                  for x in xs]
            if op == "pow" and len(xs) == 2:
                xs[0] = np.asarray(xs[0], dtype=float)[()]
            if op in ("neg", "sub") and any(
                    isinstance(x, (bool, np.bool_)) for x in xs):
                xs = [float(x) if isinstance(x, (bool, np.bool_)) else x
                      for x in xs]
            if op == "add" and all(isinstance(x, (bool, np.bool_))
                                   for x in xs):
                xs = [int(x) for x in xs]
            return _UF[op](*xs)
        if op in ("eq", "ne"):
            x, y = ev(a[0]), ev(a[1])
            if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
                r = np.asarray(x) == np.asarray(y)
            else:
                r = x == y
            return r if op == "eq" else np.logical_not(r) if isinstance(
                r, np.ndarray) else not r
        if op in ("is", "isnot"):
            x, y = ev(a[0]), ev(a[1])
            if not (x is None or y is None or isinstance(x, bool)
                    or isinstance(y, bool)):
                raise Undecided("identity")
            r = x is y
            return r if op == "is" else not r
        if op in ("and", "or"):
            vs = []
            for x in a:
                v = ev(x)
                if isinstance(v, (set, dict)):
                    raise Undecided("and/or of containers")
                if not isinstance(v, np.ndarray) or v.ndim == 0:
                    v = self.truth(v)
                    if v is (op == "or"):
                        return v
                vs.append(v)
            r = vs[0]
            for v in vs[1:]:
                r = (np.logical_and if op == "and" else np.logical_or)(r, v)
            return r
        if op == "not":
            v = ev(a[0])
            return np.logical_not(v) if isinstance(
                v, np.ndarray) else not v
        if op == "ite":
            c = ev(a[0])
            if isinstance(c, np.ndarray) and c.ndim:
                return np.where(c, ev(a[1]), ev(a[2]))
            return ev(a[1] if self.truth(c) else a[2])
        if op == "gather":
            b = ev(a[0])
            if isinstance(b, dict):
                k = self.key(ev(a[1]))
                if isinstance(k, np.ndarray):       # each of them
                    return np.array([b[x] for x in k.ravel().tolist()]
                                    ).reshape(k.shape)
                return b[k]
            if isinstance(b, set):
                b = sorted(b)       # one of the orders it may have
            i = self.index(a[1], E)
            if isinstance(b, (list, tuple)):
                if isinstance(i, (int, np.integer, slice)):
                    return b[i]
                b = np.asarray(b)
            if isinstance(b, np.ndarray) and b.ndim:
                return b[i]
            if isinstance(b, (int, float, np.generic, np.ndarray)):
                return self.spread(b, i)
            raise Raises("index of " + tm.show(a[0], 1))
        if op == "store" and isinstance(ev(a[0]), dict):
            b = dict(ev(a[0]))
            b[self.key(ev(a[1]))] = ev(a[2])
            return b
        if op == "dict":
            b = {}
            for x in a:
                if x.op != "pair":
                    raise Undecided("dict")
                b[self.key(ev(x.args[0]))] = ev(x.args[1])
            return b
        if op == "dictof":
            return dict(ev(a[0]))
        if op == "store":
            b, i, v = ev(a[0]), self.index(a[1], E), ev(a[2])
            return self.put(t, b, i, v, E)
        if op == "aidx":
            v = ev(a[0])
            return np.asarray(v) if isinstance(v, (list, tuple)) else v
        if op == "full":
            s = ev(a[1])
            return np.full(s if isinstance(s, tuple) else int(s), ev(a[0]))
        if op == "tuple":
            return tuple(self.items(a, E))
        if op == "list":
            return self.items(a, E)
        if op == "set":
            return set(self.items(a, E))
        if op == "fstr":
            out = []
            for x in a:
                if x.op == "fmt":
                    if x.args[1].op != "const" or tm.cval(
                            x.args[1]) is None:
                        raise Undecided("text of a value")
                    out.append(format(ev(x.args[0]), tm.cval(x.args[1])))
                else:
                    v = ev(x)
                    if not isinstance(v, (str, int, np.integer)):
                        raise Undecided("text of a value")
                    out.append(str(v))
            return "".join(out)
        if op == "append":
            return list(ev(a[0])) + [ev(a[1])]
        if op == "float":
            return float(ev(a[0]))
        if op == "int":
            return int(ev(a[0]))
        if op == "bool":
            return self.truth(ev(a[0]))
        if op == "len":
            v = ev(a[0])
            if isinstance(v, (bool, int, float, np.generic)):
                return self.n
            return len(v)
        if op == "in":
            return ev(a[0]) in ev(a[1])
        if op == "notin":
            return ev(a[0]) not in ev(a[1])
        if op == "comp":
            n = int(ev(a[2]))
            return [self.ev(a[0], self.bind(E, [(a[1], k)]))
                    for k in range(n)]
        if op == "compif":
            out = []
            for k in range(int(ev(a[2]))):
                E2 = self.bind(E, [(a[1], k)])
                if self.truth(self.ev(a[3], E2)):
                    out.append(self.ev(a[0], E2))
            return out
        if op == "colmap":
            n = int(ev(a[2]))
            base = self.based(t, ev(a[3]), E)
            cols = [self.ev(a[0], self.bind(E, [(a[1], k)]))
                    for k in range(n)]
            if isinstance(base, np.ndarray) and base.ndim == 2:
                base = base.astype(float)
                for k, c in enumerate(cols):
                    base[:, k] = c
                return base
            return np.stack(cols, axis=-1)
        if op == "fold" and a[0] in ("add", tm.const("add")):
            n = int(ev(a[4]))
            r = ev(a[1])
            for k in range(n):
                r = r + self.ev(a[2], self.bind(E, [(a[3], k)]))
            return r
        if op == "matmul":
            return ev(a[0]) @ ev(a[1])
        if op == "attr":
            return self.attr(ev(a[0]), a[1].args[0] if isinstance(
                a[1], T) else a[1])
        if op == "call":
            return self.call(t, E)
        if op == "ext" and a[0] in TYPES:
            return TYPES[a[0]]
        if op == "nd":
            return np.array([self.ev(x, E) for x in a[1:]]).reshape(
                tm.cval(a[0]))
        if op == "uninit":
            raise Undecided("value not set")
        raise Undecided(f"no meaning for {op} {tm.show(t, 1)[:60]}")

    def items(self, a, E):
        out = []
        for x in a:
            if x.op == "star":
                out.extend(self.ev(x.args[0], E))
            elif x.op == "maybe":
                if self.truth(self.ev(x.args[0], E)):
                    out.append(self.ev(x.args[1], E))
            else:
                out.append(self.ev(x, E))
        return out

    @staticmethod
    def key(k):
        if isinstance(k, np.ndarray) and k.ndim == 0:
            return k[()]
        return k

    def spread(self, b, i):
        """an entry of an array that is the same everywhere"""
        if isinstance(i, tuple):
            raise Undecided("shape of an array")
        if isinstance(i, np.ndarray) and i.ndim:
            return np.full(int(i.sum()) if i.dtype == bool else i.shape, b)
        return b

    def put(self, t, b, i, v, E):
        if isinstance(b, list):
            b = list(b)
            b[i] = v
            return b
        if isinstance(b, dict):
            b = dict(b)
            b[i] = v
            return b
        b = self.based(t, b, E)
        if not (isinstance(b, np.ndarray) and b.ndim):
            if isinstance(i, np.ndarray) and i.dtype == bool:
                b = self.array(b, len(i))
            elif isinstance(i, tuple):
                raise Undecided("shape of an array")
            else:
                b = self.array(b)
        v = np.asarray(v)
        dt = np.result_type(b.dtype, v.dtype)
        b = b.astype(dt)
        b[i] = v
        return b

    def attr(self, v, n):
        if isinstance(v, (list, tuple)) and n in ("size", "shape", "T"):
            v = np.asarray(v)
        if isinstance(v, (np.ndarray, np.generic)) and n in (
                "shape", "size", "ndim", "T", "dtype"):
            return getattr(v, n)
        if isinstance(v, (int, float)) and n in ("size", "shape"):
            if self.n is None:
                raise Undecided("size of an array")
            return self.n if n == "size" else (self.n,)
        raise Undecided("attribute " + str(n))

    def call(self, t, E):
        f = t.args[0]
        pos, kw = [], {}
        for x in t.args[1:]:
            if isinstance(x, T) and x.op == "kw":
                if x.args[0] == "dtype":
                    continue
                kw[x.args[0]] = self.ev(x.args[1], E)
            elif isinstance(x, T) and x.op == "star":
                pos.extend(self.ev(x.args[0], E))
            else:
                pos.append(self.ev(x, E))
        if f == "scatter_add":
            b = self.based(t, pos[0], E)
            i = self.index(t.args[2], E)
            b = np.array(self.array(b), dtype=float)
            np.add.at(b, i, pos[2])
            return b
        if f in ("np.nonzero1", "np.where1", "np.nonzero", "np.flatnonzero"):
            pos = [self.array(pos[0])]
        if f in ("np.sum", "np.prod", "np.cumsum", "np.dot",
                 "np.linalg.norm", "np.concatenate", "np.tile",
                 "np.repeat", "np.unique", "np.bincount", "np.std") and \
                pos and not isinstance(pos[0], (list, tuple, str)) and \
                np.ndim(pos[0]) == 0:
            raise Undecided("size of an array")
        if f == "truth":
            return self.truth(pos[0])
        if f == "broke" and pos[0] in self.infos:
            return self.search(self.infos[pos[0]], E).broke
        g = CALLS.get(f)
        if g is not None:
            if kw and not KWS.get(f, {"copy"}) >= set(kw):
                raise Undecided(f"{f} with {sorted(kw)}")
            if f.startswith(("set", "dict", "frozenset")):
                pos = [x[()] if isinstance(x, np.ndarray) and x.ndim == 0
                       else x for x in pos]
            return g(pos, kw)
        if f in SAME:
            return pos[0]
        if f.startswith("np."):
            g = np
            for p in f[3:].split("."):
                g = getattr(g, p, None)
            if g is None or not callable(g) or f[3:].split(".")[0] in (
                    "random", "save", "load", "savez", "fromfile", "memmap",
                    "lib", "ctypeslib", "f2py", "testing"):
                raise Undecided(f)
            return g(*pos, **kw)
        if f.startswith("."):
            o, n = pos[0], f[1:]
            if isinstance(o, KD) and n in ("query", "query_ball_point"):
                return getattr(o, n)(*pos[1:], **kw)
            if isinstance(o, (list, tuple)) and n in ("index", "count"):
                return getattr(o, n)(*pos[1:])
            if isinstance(o, dict) and n in ("get", "keys", "values",
                                             "items"):
                if n == "get" and isinstance(pos[1], np.ndarray):
                    k = pos[1]
                    return np.array([o.get(x, *pos[2:]) for x in
                                     k.ravel().tolist()]).reshape(k.shape)
                r = getattr(o, n)(*pos[1:])
                return list(r) if n != "get" else r
            if isinstance(o, (list, tuple)):
                o = np.asarray(o)
            if isinstance(o, np.ndarray) and n == "multiply":
                return o * pos[1]
            if isinstance(o, np.ndarray) and n == "T":
                return o.T
            if isinstance(o, (np.ndarray, np.generic)) and n in METHODS:
                return getattr(o, n)(*pos[1:], **kw)
            if isinstance(o, str) and hasattr(str, n):
                return getattr(o, n)(*pos[1:], **kw)
        raise Undecided("call " + str(f))


METHODS = {"sum", "mean", "max", "min", "any", "all", "prod", "ravel",
           "flatten", "reshape", "transpose", "dot", "astype", "nonzero",
           "argmin", "argmax", "argsort", "cumsum", "item", "tolist",
           "repeat", "take", "squeeze", "diagonal", "std",
           "clip", "round", "power"}


TYPES = {"builtins.int": int, "builtins.float": float,
         "builtins.bool": bool, "np.int64": int, "np.int32": int,
         "np.float64": float, "np.bool_": bool, "np.inf": math.inf,
         "np.pi": math.pi, "np.nan": math.nan, "np.newaxis": None}


def close(x, y, tol=1e-9):
    try:
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    except (TypeError, ValueError):
        return x == y
    try:
        x, y = np.broadcast_arrays(x, y)
    except ValueError:
        return False
    nx, ny = np.isnan(x), np.isnan(y)
    if (nx != ny).any():
        return False
    d = np.abs(x - y)[~nx]
    return bool((d <= tol * np.maximum(1.0, np.abs(y[~nx]))).all())
