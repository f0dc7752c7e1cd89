"""Hash-consed terms: the value domain of the abstract interpreter.

A term denotes the value a Python/numpy expression computes, as a function of
the inputs of the analysed entry point.  Array terms are read point-wise: the
term of an array is the value it has at one generic element.
"""
from __future__ import annotations
import math
import itertools

_TAB: dict = {}


class T:
    __slots__ = ("op", "args", "id", "_unk")

    def __repr__(self):
        return show(self)


_counter = itertools.count(1)


def mk(op, *args) -> T:
    key = (op, tuple(
        ("c", type(a).__name__, a) if not isinstance(a, T) else a.id
        for a in args))
    try:
        t = _TAB.get(key)
    except TypeError:
        key = (op, tuple(
            ("c", type(a).__name__, repr(a)) if not isinstance(a, T) else a.id
            for a in args))
        t = _TAB.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = next(_counter)
        t._unk = op == "unk" or any(
            isinstance(a, T) and a._unk for a in args)
        _TAB[key] = t
    return t


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def sym(name, kind="?"):
    """kind: 's' scalar, 'a' array, '?' unknown"""
    return mk("sym", name, kind)


_unk_n = itertools.count(1)


def unk(reason):
    return mk("unk", str(reason), next(_unk_n))


def is_const(t):
    return isinstance(t, T) and t.op == "const"


def cval(t):
    return t.args[0]


def has_unk(t):
    return t._unk


# ---------------------------------------------------------------- kinds

ELEMENTWISE = {
    "add", "sub", "mul", "div", "pow", "neg", "mod", "floordiv", "min", "max",
    "abs", "exp", "log", "log1p", "expm1", "tanh", "sqrt", "cosh", "sinh",
    "sin", "cos", "sign", "floor", "ceil", "lt", "le", "gt", "ge", "eq", "ne",
    "and", "or", "not", "isfinite", "isnan", "ite", "log10", "log2",
}
REDUCTIONS = {
    "np.sum", "np.mean", "np.max", "np.min", "np.any", "np.all",
    "np.percentile", "np.linalg.norm", "np.std", "np.median", "np.dot",
    "np.allclose", "np.prod", "np.quantile", "np.array_equal", "np.ptp",
    "np.vdot", "np.isclose",
}
_kind_cache: dict = {}


def kind(t) -> str:
    k = _kind_cache.get(t.id)
    if k is None:
        k = _kind(t)
        _kind_cache[t.id] = k
    return k


def _kind(t):
    if t.op == "const":
        return "s"
    if t.op in ("sym",):
        return t.args[1]
    if t.op == "mu":
        return t.args[2]
    if t.op == "it":
        return "s"
    if t.op == "nd":
        return "a"
    if t.op in ("is", "isnot", "in", "notin", "len", "str", "fstr", "int",
                "float", "bool"):
        return "s"
    if t.op == "ite":
        ks = {kind(t.args[1]), kind(t.args[2])}
        if kind(t.args[0]) == "a":
            return "a"
    elif t.op in ELEMENTWISE or t.op in ("and", "or", "not"):
        ks = {kind(a) for a in t.args if isinstance(a, T)}
    elif t.op == "store":
        return "a"
    elif t.op == "gather":
        b, i = t.args
        if i.op == "idx":
            return "a" if any(
                isinstance(x, T) and (x.op == "slice" or kind(x) != "s")
                for x in i.args) else "?"
        return "a" if kind(i) == "a" else "?"
    elif t.op == "call":
        f = t.args[0]
        if f in REDUCTIONS:
            return "a" if any(
                isinstance(a, T) and a.op == "kw" and a.args[0] in (
                    "axis",) and a.args[1] is not NONE
                for a in t.args[1:]) else "s"
        if f == "form.assemble":
            return "s" if t.args[1] is const("Functional") else "a"
        if f in ARRAY_CALLS:
            return "a"
        if f in SCALAR_CALLS:
            return "s"
        if f in ("isinstance", "hasattr", "callable", "type", "len", "id"):
            return "s"
        return "?"
    elif t.op in ("full", "aidx", "colmap"):
        return "a"
    else:
        return "?"
    if "a" in ks:
        return "a"
    if ks <= {"s"}:
        return "s"
    return "?"


ARRAY_CALLS = {
    "np.arange", "np.concatenate", "np.column_stack", "np.unique", "np.isin",
    "np.setdiff1d", "np.tile", "np.repeat", "np.linspace", "np.where1",
    "np.cross", "np.vstack", "np.hstack", "np.stack", "np.nonzero",
    "np.searchsorted", "np.argsort", "np.sort", "np.cumsum", "np.ravel",
    "np.reshape", "np.transpose", "np.bincount", "np.intersect1d",
    "np.union1d", "np.einsum", "array_of", "filter.F", "filter.G", "fem.u",
    "fem.energy", "fem.sensitivity", "fem.objectives", "np.flatnonzero",
    ".get_dofs", "lin.solve", "enforced", "form.elemental", "scatter_add",
    ".interpolate", "stiffness.of",
}
SCALAR_CALLS = {"sched", "recorder.latest", "more", "ran", "broke"}


# ---------------------------------------------------------- constructors

def _num(t):
    return is_const(t) and isinstance(cval(t), (int, float)) \
        and not isinstance(cval(t), bool)


def add(a, b):
    if _num(a) and _num(b):
        return const(cval(a) + cval(b))
    if is_const(a) and is_const(b) and isinstance(cval(a), str) \
            and isinstance(cval(b), str):
        return const(cval(a) + cval(b))
    if _num(a) and cval(a) == 0:
        return b
    if _num(b) and cval(b) == 0:
        return a
    return mk("add", a, b)


def sub(a, b):
    if _num(a) and _num(b):
        return const(cval(a) - cval(b))
    if _num(b) and cval(b) == 0:
        return a
    return mk("sub", a, b)


def mul(a, b):
    if _num(a) and _num(b):
        return const(cval(a) * cval(b))
    if _num(a) and cval(a) == 1:
        return b
    if _num(b) and cval(b) == 1:
        return a
    return mk("mul", a, b)


def div(a, b):
    if _num(a) and _num(b) and cval(b) != 0:
        return const(cval(a) / cval(b))
    if _num(b) and cval(b) == 1:
        return a
    return mk("div", a, b)


def pow_(a, b):
    if _num(a) and _num(b):
        try:
            return const(cval(a) ** cval(b))
        except Exception:
            pass
    return mk("pow", a, b)


def neg(a):
    if _num(a):
        return const(-cval(a))
    if a.op == "neg":
        return a.args[0]
    return mk("neg", a)


def tmin(a, b):
    if a is b:
        return a
    if _num(a) and _num(b):
        return const(min(cval(a), cval(b)))
    return mk("min", a, b)


def tmax(a, b):
    if a is b:
        return a
    if _num(a) and _num(b):
        return const(max(cval(a), cval(b)))
    return mk("max", a, b)


def not_(a):
    if is_const(a):
        return const(not cval(a))
    if a.op == "not":
        return a.args[0]
    if a.op == "is":
        return mk("isnot", *a.args)
    if a.op == "isnot":
        return mk("is", *a.args)
    return mk("not", a)


def and_(*xs):
    out = []
    for x in xs:
        if is_const(x):
            if not cval(x):
                return FALSE
            continue
        if x.op == "and":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    if not out:
        return TRUE
    for x in out:
        if not_(x) in out:
            return FALSE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def or_(*xs):
    out = []
    for x in xs:
        if is_const(x):
            if cval(x):
                return TRUE
            continue
        if x.op == "or":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    if not out:
        return FALSE
    for x in out:
        if not_(x) in out:
            return TRUE
    if len(out) == 1:
        return out[0]
    return mk("or", *out)


def ite(c, a, b):
    if is_const(c):
        return a if cval(c) else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if b is FALSE:
        return and_(c, a)
    if a is TRUE:
        return or_(c, b)
    if c.op == "isnot":
        return ite(mk("is", *c.args), b, a)
    if c.op == "is" and (c.args == (b, a) or c.args == (a, b)):
        return b        # x if x is not None else None
    # nested same condition
    if isinstance(a, T) and a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, T) and b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", c, a, b)


_CMP = {
    "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
    "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b,
    "eq": lambda a, b: a == b, "ne": lambda a, b: a != b,
}


def cmp_(op, a, b):
    if is_const(a) and is_const(b):
        try:
            return const(bool(_CMP[op](cval(a), cval(b))))
        except Exception:
            return unk("cmp")
    if a is b and op in ("eq", "le", "ge"):
        return TRUE
    if a is b and op in ("ne", "lt", "gt"):
        return FALSE
    if op in ("eq", "ne") and a.id > b.id:
        a, b = b, a
    return mk(op, a, b)


def kw(name, v):
    return mk("kw", name, v)


def call(fname, *args, **kws):
    return mk("call", fname, *args,
              *[kw(k, v) for k, v in sorted(kws.items())])


FULL = mk("slice", NONE, NONE, NONE)


# do added axes matter?  Not when arrays are read point-wise; they do when
# they are read as arrays (dense)
KEEP_AXES = False


def is_full_index(i):
    if i is FULL:
        return True
    return i.op == "idx" and all(
        x is FULL or x is NONE and not KEEP_AXES or (x.op == "const" and cval(x) is Ellipsis)
        for x in i.args)


def it_(tag):
    """the index variable of the loop (or comprehension) at depth ``tag``"""
    return mk("it", tag)


def _last(i):
    """j for the column index [:, j]"""
    if i.op == "idx" and len(i.args) == 2 and i.args[0] is FULL:
        j = i.args[1]
        if j.op == "list" and len(j.args) == 1:
            return j.args[0]
        return j
    return None


def gather(a, i):
    if is_full_index(i):
        return a
    if a.op == "comp" and i.op not in ("slice", "idx") and kind(i) == "s":
        return subst(a.args[0], {a.args[1]: i})
    if a.op == "call" and a.args[0] == "np.column_stack" and len(
            a.args) == 2:
        j = _last(i)
        if j is not None and j.op != "slice" and a.args[1].op in (
                "comp", "list", "tuple") and kind(j) == "s":
            return gather(a.args[1], j)
    if a.op == "colmap":
        j = _last(i)
        if j is not None and j.op != "slice" and kind(j) == "s":
            return subst(a.args[0], {a.args[1]: j})
    while a.op == "store":
        if a.args[1] is i:
            return a.args[2]
        # definitely distinct constant positions
        if _distinct_pos(a.args[1], i):
            a = a.args[0]
            continue
        break
    if a.op in ("tuple", "list") and is_const(i) and isinstance(cval(i), int):
        try:
            return a.args[cval(i)]
        except IndexError:
            pass
    if a.op == "ite" and kind(a.args[0]) == "s" and any(
            isinstance(x, T) and x.op in ("store", "tuple", "list")
            for x in a.args[1:]):
        return ite(a.args[0], gather(a.args[1], i), gather(a.args[2], i))
    if a.op == "const" and isinstance(cval(a), (int, float)):
        return a
    return mk("gather", a, i)


def _distinct_pos(i, j):
    def flat(x):
        return x.args if x.op == "idx" else (x,)
    fi, fj = flat(i), flat(j)
    if len(fi) != len(fj):
        return False
    for x, y in zip(fi, fj):
        if is_const(x) and is_const(y) and cval(x) != cval(y):
            return True
    return False


def store(a, i, v):
    if is_full_index(i):
        return v
    if a.op == "store" and a.args[1] is i:
        a = a.args[0]
    return mk("store", a, i, v)


# ------------------------------------------------------------- utilities

def subterms(t, seen=None):
    """all distinct sub-terms, post-order"""
    out = []
    seen = set()
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if done:
            out.append(x)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        stack.append((x, True))
        for a in x.args:
            if isinstance(a, T) and a.id not in seen:
                stack.append((a, False))
    return out


def find(t, pred):
    return [x for x in subterms(t) if pred(x)]


def syms(t):
    return {x.args[0] for x in subterms(t) if x.op == "sym"}


def calls(t, fname=None):
    return [x for x in subterms(t)
            if x.op == "call" and (fname is None or x.args[0] == fname)]


def rebuild(op, args):
    f = {
        "add": add, "sub": sub, "mul": mul, "div": div, "pow": pow_,
        "neg": neg, "min": tmin, "max": tmax, "not": not_, "ite": ite,
        "gather": gather, "store": store, "and": and_, "or": or_,
    }.get(op)
    if f:
        return f(*args)
    if op in _CMP:
        return cmp_(op, *args)
    if op in ("is", "isnot") and all(is_const(a) for a in args) and any(
            cval(a) is None or isinstance(cval(a), bool) for a in args):
        return const((cval(args[0]) is cval(args[1])) == (op == "is"))
    if op == "call" and args[0] == "truth" and is_const(args[1]):
        return const(bool(cval(args[1])))
    return mk(op, *args)


def subst(t, mapping):
    """mapping: T -> T"""
    memo = {k.id: v for k, v in mapping.items()}
    for x in subterms(t):
        if x.id in memo:
            continue
        new = [memo[a.id] if isinstance(a, T) else a for a in x.args]
        if all(n is o for n, o in zip(new, x.args)):
            memo[x.id] = x
        else:
            memo[x.id] = rebuild(x.op, new)
    return memo[t.id]


_INFIX = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**",
          "lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==",
          "ne": "!=", "is": " is ", "isnot": " is not ", "mod": "%",
          "floordiv": "//", "matmul": "@"}


def show(t, depth=7):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    if t.op == "const":
        return repr(t.args[0])
    if t.op == "sym":
        return t.args[0]
    if t.op == "mu":
        return f"µ{t.args[0]}.{t.args[1]}"
    if t.op == "unk":
        return f"?{t.args[0]}"
    if t.op in _INFIX and len(t.args) == 2:
        return f"({show(t.args[0], d)}{_INFIX[t.op]}{show(t.args[1], d)})"
    if t.op == "neg":
        return f"-{show(t.args[0], d)}"
    if t.op == "kw":
        return f"{t.args[0]}={show(t.args[1], d)}"
    if t.op == "call":
        return f"{t.args[0]}({', '.join(show(a, d) for a in t.args[1:])})"
    if t.op == "gather":
        return f"{show(t.args[0], d)}[{show(t.args[1], d)}]"
    if t.op == "store":
        return (f"{show(t.args[0], d)}{{[{show(t.args[1], d)}]:="
                f"{show(t.args[2], d)}}}")
    if t.op == "idx":
        return ",".join(show(a, d) for a in t.args)
    if t.op == "slice":
        return ":".join("" if a is NONE else show(a, d) for a in t.args[:2])
    return f"{t.op}({', '.join(show(a, d) for a in t.args)})"


# ----------------------------------------------- symbolic differentiation

def diff(t, x, memo=None):
    """d t / d x for point-wise terms; None when t is not differentiable here"""
    if memo is None:
        memo = {}
    if t.id in memo:
        return memo[t.id]
    r = _diff(t, x, memo)
    memo[t.id] = r
    return r


def _dep(t, x):
    return any(s is x for s in subterms(t))


def _diff(t, x, m):
    if t is x:
        return ONE
    if not _dep(t, x):
        return ZERO
    o, a = t.op, t.args
    if o == "add":
        return add(diff(a[0], x, m), diff(a[1], x, m))
    if o == "sub":
        return sub(diff(a[0], x, m), diff(a[1], x, m))
    if o == "neg":
        return neg(diff(a[0], x, m))
    if o == "mul":
        return add(mul(diff(a[0], x, m), a[1]), mul(a[0], diff(a[1], x, m)))
    if o == "div":
        return div(sub(mul(diff(a[0], x, m), a[1]),
                       mul(a[0], diff(a[1], x, m))), mul(a[1], a[1]))
    if o == "pow":
        if not _dep(a[1], x):
            return mul(mul(a[1], pow_(a[0], sub(a[1], ONE))),
                       diff(a[0], x, m))
        ln = mk("log", a[0])
        return mul(t, add(mul(diff(a[1], x, m), ln),
                          div(mul(a[1], diff(a[0], x, m)), a[0])))
    if o == "exp":
        return mul(t, diff(a[0], x, m))
    if o == "log":
        return div(diff(a[0], x, m), a[0])
    if o == "tanh":
        return mul(sub(ONE, mul(t, t)), diff(a[0], x, m))
    if o == "sqrt":
        return div(diff(a[0], x, m), mul(const(2), t))
    if o == "cosh":
        return mul(mk("sinh", a[0]), diff(a[0], x, m))
    if o == "sinh":
        return mul(mk("cosh", a[0]), diff(a[0], x, m))
    if o in ("max", "min"):
        c = cmp_("ge" if o == "max" else "le", a[0], a[1])
        return ite(c, diff(a[0], x, m), diff(a[1], x, m))
    if o == "ite":
        return ite(a[0], diff(a[1], x, m), diff(a[2], x, m))
    if o == "gather":
        return gather(diff(a[0], x, m), a[1])
    return unk(f"d/dx {o}")


# -------------------------------------- random interpretation (equality)

class Undecided(Exception):
    pass


_MASK = (1 << 61) - 1


def _h(*xs):
    h = 1469598103934665603
    for x in xs:
        if isinstance(x, float):
            # absorb rounding noise: 9 significant digits
            x = float("%.9g" % x) if x == x and abs(x) != math.inf else repr(x)
        h = (h * 1099511628211) ^ (hash_stable(x))
        h &= (1 << 64) - 1
    h ^= h >> 33
    h = (h * 0xff51afd7ed558ccd) & ((1 << 64) - 1)
    h ^= h >> 29
    return h


_hs_cache: dict = {}


def hash_stable(x):
    if isinstance(x, bool):
        return 3 + int(x)
    if isinstance(x, int):
        return x & ((1 << 64) - 1)
    s = repr(x)
    v = _hs_cache.get(s)
    if v is None:
        v = 14695981039346656037
        for ch in s.encode():
            v = ((v ^ ch) * 1099511628211) & ((1 << 64) - 1)
        _hs_cache[s] = v
    return v


def _unit(h):
    return (h % 1000003) / 1000003.0


K_ELEM = 4


class Interp:
    """One random interpretation: every free symbol and every uninterpreted
    function gets a random meaning; arithmetic keeps its own.  Two terms that
    differ under one interpretation are different value numbers (Gulwani &
    Necula, random interpretation).

    Arrays have K_ELEM generic elements; an array term is evaluated at one of
    them, index sets are random subsets, and reductions and filters range
    over the elements, so that their algebra (linearity, set operations)
    holds in every interpretation."""

    def __init__(self, seed, ranges=None, members=None, fixed=None,
                 model=None, default=(0.15, 0.93), signed=None,
                 memterms=None, loops=None):
        self.loops = loops or {}
        self.seed = seed
        self.ranges = ranges or {}
        self.members = members if members is not None else {}
        self.memterms = memterms or {}
        self.fixed = fixed or {}
        self.model = model
        self.memo = {}
        self.default = default
        self.elem = 0
        self.fam = {0: self}
        self.signed = bool(_h(seed, "signed") & 2) if signed is None \
            else signed

    def at(self, j):
        it = self.fam.get(j)
        if it is None:
            it = Interp(self.seed, self.ranges, self.members, self.fixed,
                        self.model, self.default, self.signed,
                        self.memterms, self.loops)
            it.elem = j
            it.fam = self.fam
            self.fam[j] = it
        return it

    def elems(self):
        return [self.at(j) for j in range(K_ELEM)]

    def leaf(self, key, rng=None):
        lo, hi = rng or self.default
        return lo + (hi - lo) * _unit(_h(self.seed, key))

    def aleaf(self, key, t, rng=None):
        """a leaf that differs between elements when t is an array"""
        if self.elem and kind(t) == "a":
            key = (key, "@", self.elem)
        return self.leaf(key, rng)

    def sleaf(self, key, t):
        """leaf for the result of an unknown function: any sign"""
        v = self.aleaf(key, t)
        if self.signed and _h(self.seed, "sgn", key, self.elem if kind(
                t) == "a" else 0) & 4:
            return -v
        return v

    def member(self, idx):
        """does this element belong to the index set (or mask)?"""
        while idx.op in ("aidx", "full"):
            idx = idx.args[0]
        if idx in self.memterms:
            return self.memterms[idx]
        if idx.op in _CMP or idx.op in ("and", "or", "not"):
            return self.truth(idx)
        if idx.op == "ite" and kind(idx.args[0]) == "s":
            return self.member(idx.args[1 if self.truth(idx.args[0]) else 2])
        if idx.op == "store":
            return self.truth(idx)
        if idx.op == "const" and isinstance(idx.args[0], bool):
            return idx.args[0]
        if idx.op == "gather" and is_set_index(idx.args[1]):
            return self.member(idx.args[0]) and self.member(idx.args[1])
        if idx.op == "gather" and idx.args[1] is ZERO and \
                idx.args[0].op == "call" and idx.args[0].args[0] in (
                    "np.nonzero", "np.where"):
            return self.member(idx.args[0].args[1])
        if idx.op == "call":
            f, a = idx.args[0], [x for x in idx.args[1:]
                                 if not (isinstance(x, T) and x.op == "kw")]
            if f == "np.isin" and len(a) == 2:
                r = self.member(a[1])
                if any(isinstance(x, T) and x.op == "kw" and x.args[0] ==
                       "invert" and x.args[1] is TRUE for x in idx.args):
                    r = not r
                return r
            if f == "np.setdiff1d" and len(a) >= 2:
                return self.member(a[0]) and not self.member(a[1])
            if f == "np.union1d" and len(a) == 2:
                return self.member(a[0]) or self.member(a[1])
            if f == "np.intersect1d" and len(a) >= 2:
                return self.member(a[0]) and self.member(a[1])
            if f in ("np.unique", "np.sort", "np.flatnonzero", "np.nonzero1",
                     "np.array", "np.copy", "np.ravel",
                     "np.asarray", "np.logical_not") and len(a) >= 1:
                r = self.member(a[0])
                return not r if f == "np.logical_not" else r
            if f in ("np.concatenate", "np.hstack") and a and a[0].op in (
                    "tuple", "list") and not any(
                        x.op == "star" for x in a[0].args):
                return any(self.member(x) for x in a[0].args)
            if f == "np.arange":
                return True
        k = self.idx_key(idx)
        if k in self.members:
            return self.members[k]
        return bool(_h(self.seed, "member", k, self.elem) & 16)

    def idx_key(self, idx):
        while idx.op == "aidx":
            idx = idx.args[0]
        return _h("idx", self.fp(idx))

    def fp(self, t):
        """finger print of a whole value: all its elements"""
        if kind(t) == "s" or t.op == "const":
            return self.ev(t)
        vs = [i.ev(t) for i in self.elems()]
        if all(v is vs[0] or (type(v) is type(vs[0]) and v == vs[0])
               for v in vs):
            return vs[0]
        return _h("fp", *vs)

    def domain(self, t):
        """the elements a compressed array still has"""
        conds = []

        def go(x):
            if x.op == "gather" and is_set_index(x.args[1]):
                conds.append(x.args[1])
                go(x.args[0])
            elif x.op == "ite" and kind(x.args[0]) == "s":
                go(x.args[1 if self.truth(x.args[0]) else 2])
            elif x.op in ELEMENTWISE:
                for y in x.args:
                    if isinstance(y, T):
                        go(y)
            elif x.op == "store":
                go(x.args[0])
        go(t)
        es = [e for e in self.elems() if all(e.member(c) for c in conds)]
        return es

    def values(self, t):
        return [e.num(t) for e in self.domain(t)]

    def ev(self, t):
        m = self.memo
        if t.id in m:
            return m[t.id]
        if self.elem and kind(t) == "s":
            v = self.fam[0].ev(t)
        else:
            v = self._ev(t)
        m[t.id] = v
        return v

    def _ev(self, t):
        op, a = t.op, t.args
        if t in self.fixed:
            return self.fixed[t]
        if self.model is not None:
            r = self.model(self, t)
            if r is not None:
                return r
        if op == "const":
            v = a[0]
            if isinstance(v, bool) or v is None or isinstance(v, str):
                return v
            if isinstance(v, (int, float)):
                return v
            return _h("const", repr(v))
        if op == "sym":
            if a[0] in COUNTS:
                return 1 + _h(self.seed, "len", a[0]) % 3
            if a[0] in self.ranges:
                r = self.ranges[a[0]]
                if callable(r):
                    return r(self)
                return self.aleaf(("sym", a[0]), t, r)
            return self.aleaf(("sym", a[0]), t)
        if op == "mu" and t in self.loops:
            u = self.loops[t].after(t, self)
            if u is not None:
                return self.ev(u)
        if op == "mu":
            k = ("mu", a[0], a[1])
            for kk in (f"µ{a[0]}.{a[1]}", a[1]):
                if kk in self.ranges:
                    r = self.ranges[kk]
                    return r(self) if callable(r) else self.aleaf(k, t, r)
            return self.aleaf(k, t)
        if op == "unk":
            raise Undecided(f"unmodelled: {a[0]}")
        f = _NUM.get(op)
        if f is not None:
            xs = [self.num(x) for x in a]
            try:
                return f(*xs)
            except ZeroDivisionError:
                return math.nan
            except (ValueError, OverflowError):
                return math.nan
        if op in _CMP:
            x, y = self.ev(a[0]), self.ev(a[1])
            if op in ("eq", "ne"):
                r = (x == y) or (
                    isinstance(x, float) and isinstance(y, (int, float))
                    and not isinstance(y, bool)
                    and abs(x - y) <= 1e-12 * max(1, abs(x)))
                return r if op == "eq" else not r
            try:
                return bool(_CMP[op](self.num(a[0]), self.num(a[1])))
            except TypeError:
                return bool(_h("cmp", op, x, y) & 4)
        if op == "and":
            return all(self.truth(x) for x in a)
        if op == "or":
            return any(self.truth(x) for x in a)
        if op == "not":
            return not self.truth(a[0])
        if op in ("is", "isnot"):
            x, y = self.ev(a[0]), self.ev(a[1])
            r = (x is None and y is None) if (x is None or y is None) \
                else x == y
            # an input that may be None
            if a[1] is NONE and a[0].op not in ("const",) and x is not None:
                r = bool(_h(self.seed, "none", self.fp(a[0])) % 5 == 0) \
                    if maybe_none(a[0]) else False
            return r if op == "is" else not r
        if op == "ite":
            return self.ev(a[1] if self.truth(a[0]) else a[2])
        if op == "gather":
            b, i = a
            if is_set_index(i):
                return self.ev(b)
            return self.aleaf(("g", self.fp(b), self.fp(i)), t)
        if op == "store":
            b, i, v = a
            if is_set_index(i):
                return self.ev(v) if self.member(i) else self.ev(b)
            return self.aleaf(("st", self.fp(b), self.fp(i), self.fp(v)), t)
        if op == "isfinite":
            return True
        if op == "isnan":
            return False
        if op == "kw":
            return _h("kw", a[0], self.fp(a[1]))
        if op == "call" and a[0] == "ran" and len(a) > 2:
            return self.num(a[2]) > 0
        if op == "call":
            r = self.known_call(t)
            if r is not None:
                return r
        if op == "fold" and a[0] == "add":
            r = self.fold_sum(t)
            if r is not None:
                return r
        if op == "call" and a[0] in ("isinstance", "hasattr", "callable"):
            return bool(_h(self.seed, *[
                self.fp(x) if isinstance(x, T) else x for x in a]) & 8)
        if op == "call" and (a[0] in BOOL_CALLS):
            return bool(_h(self.seed, *[
                self.fp(x) if isinstance(x, T) else x for x in a]) & 8)
        if op == "it":
            return _h(self.seed, "it", a[0]) % 4
        if op in ("aidx", "full"):
            return self.ev(a[0])
        if op in ("comp", "colmap", "fold"):
            return self.sleaf((op, *[
                self.fp(x) if isinstance(x, T) else x for x in a]), t)
        if op in ("tuple", "list", "dict", "idx", "slice", "fstr", "set",
                  "call", "comp", "form", "func", "class", "module", "attr",
                  "len", "in", "notin", "full", "int", "float", "str",
                  "bool", "star", "matmul", "obj", "ext", "lambda",
                  "uninit", "mod_", "exit"):
            if op in ("float",) and len(a) == 1:
                return self.num(a[0])
            h = (op, *[self.fp(x) if isinstance(x, T) else x for x in a])
            if op in ("in", "notin"):
                r = bool(_h(self.seed, "in", *h[1:]) & 8)
                return r if op == "in" else not r
            if op in ("fstr", "tuple", "list", "dict", "idx", "slice", "set",
                      "obj", "func", "class", "ext", "module"):
                return _h(*h)
            if op == "call":
                return self.sleaf(h, t)
            return self.aleaf(h, t)
        raise Undecided(f"no meaning for {op}")

    def known_call(self, t):
        """reductions over the elements, linear filters, set operations"""
        f, a = t.args[0], t.args[1:]
        pos = [x for x in a if isinstance(x, T) and x.op != "kw"]
        kws = {x.args[0]: x.args[1] for x in a
               if isinstance(x, T) and x.op == "kw"}
        if f in LINEAR and len(pos) == 2:
            k = self.fp(pos[0])
            return sum((self.leaf((f, k, self.elem, e.elem), (0.05, 0.6))
                        * e.num(pos[1])) for e in self.elems())
        if f == "np.isin" and len(pos) == 2 and kind(pos[1]) == "a":
            return self.member(t)
        if f in ("np.sum", "np.mean", "np.max", "np.min") and \
                kind(t) == "a" and len(pos) == 1 and set(kws) == {"axis"} \
                and is_const(kws["axis"]) and cval(kws["axis"]) in (1, -1):
            xs = self.columns(pos[0])
            if xs:
                return {"np.sum": sum(xs), "np.mean": sum(xs) / len(xs),
                        "np.max": max(xs), "np.min": min(xs)}[f]
            return None
        if f not in REDUCTIONS or not pos or kind(t) != "s":
            return None
        if kind(pos[0]) != "a" and not (len(pos) > 1 and kind(
                pos[1]) == "a"):
            return None
        if f == "np.dot" and len(pos) == 2 and not kws:
            if kind(pos[0]) == "a" and kind(pos[1]) == "a":
                vs = self.values(mul(pos[0], pos[1]))
                return sum(vs)
            return None
        if any(k not in ("ord", "axis") for k in kws):
            return None
        if f in ("np.any", "np.all"):
            vs = [e.truth(pos[0]) for e in self.domain(pos[0])]
            return any(vs) if f == "np.any" else all(vs)
        if f in ("np.allclose", "np.array_equal", "np.isclose", "np.vdot"):
            return None
        vs = self.values(pos[0])
        if any(v != v for v in vs):
            return math.nan
        if f == "np.sum":
            return sum(vs)
        if f == "np.prod":
            return math.prod(vs)
        if not vs:
            return self.leaf(("empty", f))
        n = len(vs)
        if f == "np.mean":
            return sum(vs) / n
        if f == "np.max":
            return max(vs)
        if f == "np.min":
            return min(vs)
        if f == "np.ptp":
            return max(vs) - min(vs)
        if f in ("np.std",):
            m = sum(vs) / n
            return math.sqrt(sum((v - m) ** 2 for v in vs) / n)
        if f in ("np.median", "np.percentile", "np.quantile"):
            q = 50.0 if f == "np.median" else (
                self.num(pos[1]) if len(pos) > 1 else None)
            if q is None:
                return None
            if f == "np.quantile":
                q *= 100
            w = sorted(vs)
            x = max(0.0, min(1.0, q / 100.0)) * (n - 1)
            i = min(int(x), n - 1)
            j = min(i + 1, n - 1)
            return w[i] + (w[j] - w[i]) * (x - i)
        if f == "np.linalg.norm":
            o = kws.get("ord", pos[1] if len(pos) > 1 else NONE)
            if o is NONE or (is_const(o) and cval(o) == 2):
                return math.sqrt(sum(v * v for v in vs))
            if is_const(o) and cval(o) == math.inf or o.op == "ext" and \
                    "inf" in str(o.args[0]):
                return max(abs(v) for v in vs)
            return None
        return None

    def columns(self, t):
        """values of this row of a matrix with one column per load case"""
        base = [x for x in subterms(t) if x.op == "call"
                and x.args[0] in COLUMNS]
        if not base:
            return None
        n = self.small(sym(COLUMNS[base[0].args[0]], "s"))
        return [self.num(subst(t, {b: gather(b, mk(
            "idx", FULL, const(k))) for b in base})) for k in range(n)]

    def fold_sum(self, t):
        """sum over an index range, expanded for a random small length"""
        _, init, body, itv, n = t.args
        ln = self.small(n)
        if ln is None:
            return None
        tot = self.num(init)
        for k in range(ln):
            tot += self.num(subst(body, {itv: const(k)}))
        return tot

    def small(self, n):
        if is_const(n):
            v = cval(n)
            return v if isinstance(v, int) and 0 <= v <= 8 else None
        if n in self.fixed:
            return int(self.fixed[n])
        if n.op == "sym" and n.args[0] in COUNTS:
            return self.ev(n)
        return 1 + _h(self.seed, "len", self.fp(n)) % 3

    def truth(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if t.op in ("call", "attr", "sym", "mu", "gather"):
            return bool(_h(self.seed, "truth", v) & 8)
        if isinstance(v, str):
            return bool(v)
        return bool(v)

    def num(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return float(v)
        if isinstance(v, (int, float)):
            if isinstance(v, int) and abs(v) > 1 << 53:
                return self.leaf(("big", v))
            return v
        return self.leaf(("nn", v))


BOOL_CALLS = {"np.any", "np.all", "np.allclose", "np.array_equal"}
# symbols that count things: small integers in an interpretation
COUNTS = {"tsk.n_tasks"}
# matrices with one column per load case -> the count of columns
COLUMNS = {"fem.energy": "tsk.n_tasks", "fem.sensitivity": "tsk.n_tasks",
           "fem.u": "tsk.n_tasks"}
# linear operators on element arrays: (parameter, array)
LINEAR = {"filter.F", "filter.G"}


MAYBE_NONE: set = set()


def maybe_none(t):
    return t in MAYBE_NONE or t.op in ("attr", "call", "gather", "ite") or (
        t.op in ("sym", "mu") and t in MAYBE_NONE)


def is_set_index(i):
    while i.op == "aidx":
        i = i.args[0]
    return kind(i) == "a" and i.op not in ("idx", "slice")


_si_cache: dict = {}


def set_indices(t):
    r = _si_cache.get(t.id)
    if r is None:
        r = []
        for x in subterms(t):
            if x.op in ("gather", "store") and is_set_index(x.args[1]):
                if not any(y is x.args[1] for y in r):
                    r.append(x.args[1])
        _si_cache[t.id] = r
    return r


def _pow(x, y):
    if x == 0 and y < 0:
        return math.inf
    if x < 0 and y != int(y):
        return math.nan
    return float(x) ** y


def _sdiv(x, y):
    if y == 0:
        return math.nan if x == 0 else math.copysign(math.inf, x)
    return x / y


def _min(x, y):
    if x != x or y != y:
        return math.nan
    return min(x, y)


def _max(x, y):
    if x != x or y != y:
        return math.nan
    return max(x, y)


_NUM = {
    "add": lambda x, y: x + y, "sub": lambda x, y: x - y,
    "mul": lambda x, y: x * y, "div": _sdiv, "neg": lambda x: -x,
    "pow": _pow, "min": _min, "max": _max, "abs": abs,
    "exp": lambda x: math.exp(x) if x < 700 else math.inf,
    "log": lambda x: math.log(x) if x > 0 else (
        -math.inf if x == 0 else math.nan),
    "log1p": math.log1p, "expm1": math.expm1, "tanh": math.tanh,
    "sqrt": lambda x: math.sqrt(x) if x >= 0 else math.nan,
    "cosh": math.cosh, "sinh": math.sinh, "sin": math.sin, "cos": math.cos,
    "sign": lambda x: (x > 0) - (x < 0), "floor": math.floor,
    "ceil": math.ceil, "log10": math.log10, "log2": math.log2,
    "mod": lambda x, y: x % y, "floordiv": lambda x, y: x // y,
    "int": lambda x: int(x),
}


def close(x, y, tol=1e-7):
    if isinstance(x, (int, float)) and isinstance(y, (int, float)) \
            and not isinstance(x, bool) and not isinstance(y, bool):
        if x != x or y != y:
            return (x != x) == (y != y)
        if x == y:
            return True
        return abs(x - y) <= tol * max(1e-6, abs(x), abs(y))
    if isinstance(x, bool) and isinstance(y, (int, float)):
        return x == bool(y)
    return x == y


class Unroll:
    """what a for loop carries, after as many passes as it makes"""

    def __init__(self, info, itv):
        self.bound, self.it = info.bound, itv
        self.init, self.next = {}, {}
        for m, i, x in info.terms:
            if m not in self.init:
                self.init[m], self.next[m] = i, x
        self.cache = {0: self.init}

    def after(self, mu, it):
        if mu not in self.init:
            return None
        n = it.small(self.bound)
        if n is None:
            return None
        for k in range(1, n + 1):
            if k not in self.cache:
                env = dict(self.cache[k - 1])
                env[self.it] = const(k - 1)
                self.cache[k] = {m: subst(x, env)
                                 for m, x in self.next.items()}
        return self.cache[n][mu]


def unrolled(loops, main=()):
    """mu -> Unroll for the plain for loops among ``loops``"""
    out, clash = {}, set()
    for l in loops:
        if l.id in main or l.kind != "for" or l.breaks or l.bound is None \
                or getattr(l, "itv", None) is None:
            continue
        u = Unroll(l, l.itv)
        for m in u.init:
            if m in out and (out[m].init[m] is not u.init[m]
                             or out[m].next[m] is not u.next[m]):
                clash.add(m)
            out[m] = u
    for m in clash:
        del out[m]
    return out


def compare(a, b, n=24, ranges=None, members=None, model=None, seed=1,
            assume=None, tol=1e-7, fixed=None, loops=None):
    """'same' | ('differ', interpretation, va, vb) | ('undecided', why)

    ``members`` maps index terms to booleans.  ``assume``: a predicate term
    that must hold in an interpretation for it to count.
    """
    if a is b:
        return ("same",)
    used = 0
    for k in range(n * 8):
        it = Interp(_h(seed, k), ranges, None, fixed, model, loops=loops)
        if members:
            it.memterms = dict(members)
            it.members = {it.idx_key(i): v for i, v in members.items()
                          if i.op in ("sym", "mu", "attr", "obj")}
        try:
            if assume is not None and not it.truth(assume):
                continue
            va, vb = it.ev(a), it.ev(b)
        except Undecided as e:
            return ("undecided", str(e))
        except RecursionError:
            return ("undecided", "recursion")
        used += 1
        if not close(va, vb, tol):
            return ("differ", it, va, vb)
        if used >= n:
            break
    if used == 0:
        return ("undecided", "no interpretation satisfies the assumption")
    return ("same",)


def same(a, b, **k):
    return compare(a, b, **k)[0] == "same"
