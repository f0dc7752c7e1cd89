"""Order-domain reasoning over terms: bounds and monotonicity.

``Order.le(a, b)`` derives a <= b for all values of the inputs from the
structure of the terms (min/max/ite/exp/log) and, at the leaves, from the
sign of a rational function of non-negative quantities.  It never answers
"no": what it cannot derive is left to a counterexample search by the caller.
"""
from __future__ import annotations
from fractions import Fraction

from . import terms as tm
from .terms import T, mk, const

MONO_UP = {"exp", "log", "tanh", "sqrt", "sinh", "log1p", "expm1", "floor",
           "ceil", "sign", "float"}


# --------------------------------------------------------------- pointwise
def strip(i):
    while isinstance(i, T) and i.op == "aidx":
        i = i.args[0]
    return i


class Opaque(Exception):
    pass


def pointwise(t, inside, outside=(), base=None, memo=None):
    """the value ``t`` has at an element that belongs to the index sets
    ``inside`` and to none of ``outside``.  Raises Opaque when that depends
    on an index set about which nothing is known."""
    memo = {} if memo is None else memo
    ins = {strip(i).id for i in inside}
    outs = {strip(i).id for i in outside}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = memo[x.id] = go_(x)
        return r

    def go_(x):
        if x.op in ("const", "sym", "mu", "it"):
            return x
        if x.op == "store":
            b, i, v = x.args
            i = strip(i)
            if tm.is_set_index(i):
                if i.id in ins:
                    return go(v)
                if i.id in outs:
                    return go(b)
                if tm.kind(i) == "a" and i.op in tm._CMP or i.op in (
                        "and", "or", "not"):
                    return tm.ite(go(i), go(v), go(b))
                raise Opaque(f"unknown index set {tm.show(i, 4)}")
            raise Opaque(f"store at {tm.show(i, 3)}")
        if x.op == "gather" and tm.is_set_index(strip(x.args[1])):
            i = strip(x.args[1])
            if i.op in tm._CMP or i.op in ("and", "or", "not") \
                    or i.id in ins:
                return go(x.args[0])
            raise Opaque(f"gather over {tm.show(i, 4)}")
        if x.op in tm.ELEMENTWISE and tm.kind(x) != "s":
            return tm.rebuild(x.op, [go(a) if isinstance(a, T) else a
                                     for a in x.args])
        return x
    return go(t)


# --------------------------------------------------------- rational forms
class Rat:
    """quotient of polynomials over atoms"""
    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n, self.d = n, d


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for k, e in q.items():
            d = dict(m)
            for a, x in k:
                d[a] = d.get(a, 0) + x
            key = tuple(sorted(d.items()))
            r[key] = r.get(key, 0) + c * e
            if r[key] == 0:
                del r[key]
    return r


ONE = {(): Fraction(1)}


def push_exp(t, memo=None):
    """rewrite exp/log so that they cancel: exp(log x + log y) = x*y, ..."""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x.id)
        if r is None:
            a = [go(y) if isinstance(y, T) else y for y in x.args]
            r = tm.rebuild(x.op, a) if any(
                p is not q for p, q in zip(a, x.args)) else x
            if r.op == "exp":
                r = ex(r.args[0])
            elif r.op == "log" and r.args[0].op == "exp":
                r = r.args[0].args[0]
            memo[x.id] = r
        return r

    def ex(y):
        o, a = y.op, y.args
        if o == "log":
            return a[0]
        if o == "log1p":
            return tm.add(tm.ONE, a[0])
        if o == "add":
            return tm.mul(ex(a[0]), ex(a[1]))
        if o == "sub":
            return tm.div(ex(a[0]), ex(a[1]))
        if o == "neg":
            return tm.div(tm.ONE, ex(a[0]))
        if o == "mul":
            for c, z in ((a[0], a[1]), (a[1], a[0])):
                if tm.is_const(c) and float(tm.cval(c)).is_integer() \
                        and abs(tm.cval(c)) < 5:
                    return tm.pow_(ex(z), const(int(tm.cval(c))))
        if o == "min":
            return tm.tmin(ex(a[0]), ex(a[1]))
        if o == "max":
            return tm.tmax(ex(a[0]), ex(a[1]))
        if o == "ite":
            return tm.ite(a[0], ex(a[1]), ex(a[2]))
        return mk("exp", y)
    return go(t)


class Order:
    """``slack``: term -> polynomial (as term) in non-negative symbols;
    ``nonneg``: predicate on atoms known to be >= 0; ``pos``: known > 0"""

    def __init__(self, slack=None, nonneg=(), facts=(), limit=40000):
        self.slack = slack or {}
        self.nonneg = {t.id for t in nonneg}
        self.facts = list(facts)
        self.limit = limit
        self.steps = 0

    # ------------------------------------------------------------- signs
    def rat(self, t, depth=0):
        o, a = t.op, t.args
        s = self.slack.get(t)
        if s is not None:
            return self.rat(s)
        if o == "const":
            v = tm.cval(t)
            if isinstance(v, (int, float)) and not isinstance(v, bool) \
                    and v == v and abs(v) != float("inf"):
                c = Fraction(v)
                return Rat({(): c} if c else {}, ONE)
        if o in ("add", "sub"):
            x, y = self.rat(a[0]), self.rat(a[1])
            sg = 1 if o == "add" else -1
            if x.d == y.d:
                return Rat(padd(x.n, y.n, sg), x.d)
            return Rat(padd(pmul(x.n, y.d), pmul(y.n, x.d), sg),
                       pmul(x.d, y.d))
        if o == "mul":
            x, y = self.rat(a[0]), self.rat(a[1])
            return Rat(pmul(x.n, y.n), pmul(x.d, y.d))
        if o == "div":
            x, y = self.rat(a[0]), self.rat(a[1])
            if y.n:
                return Rat(pmul(x.n, y.d), pmul(x.d, y.n))
        if o == "neg":
            x = self.rat(a[0])
            return Rat({m: -c for m, c in x.n.items()}, x.d)
        if o == "float" and len(a) == 1:
            return self.rat(a[0])
        if o == "pow" and tm.is_const(a[1]) and isinstance(
                tm.cval(a[1]), (int, float)) and float(
                    tm.cval(a[1])).is_integer() and \
                0 <= abs(tm.cval(a[1])) <= 4:
            x = self.rat(a[0])
            n = int(tm.cval(a[1]))
            if n < 0:
                x = Rat(x.d, x.n)
            r = Rat(ONE, ONE)
            for _ in range(abs(n)):
                r = Rat(pmul(r.n, x.n), pmul(r.d, x.d))
            return r
        return Rat({((t.id, 1),): Fraction(1)}, ONE)

    def atom_nonneg(self, tid):
        return tid in self.nonneg or tid in self._sl

    @property
    def _sl(self):
        if not hasattr(self, "_slids"):
            ids = set()
            for s in self.slack.values():
                for x in tm.subterms(s):
                    if x.op in ("sym", "mu"):
                        ids.add(x.id)
            self._slids = ids
        return self._slids

    def psign(self, p):
        """+1 every coefficient >= 0 over non-negative atoms, -1, 0, None"""
        if not p:
            return 0
        for m in p:
            for aid, e in m:
                if e % 2 and not self.atom_nonneg(aid):
                    return None
        if all(c > 0 for c in p.values()):
            return 1
        if all(c < 0 for c in p.values()):
            return -1
        return None

    def nonneg_poly(self, t):
        r = self.rat(t)
        n, d = self.psign(r.n), self.psign(r.d)
        if n == 0:
            return True
        if n is None or d is None:
            return False
        return n * d > 0

    # ------------------------------------------------------------- order
    def le(self, a, b):
        self.steps = 0
        a, b = self.simplify(push_exp(a)), self.simplify(push_exp(b))
        return self._le(a, b, tuple(self.facts), 0)

    def simplify(self, t, memo=None):
        """drop the branches of min/max that are never taken"""
        memo = {} if memo is None else memo

        def go(x):
            r = memo.get(x.id)
            if r is not None:
                return r
            r = x
            if x.op in tm.ELEMENTWISE:
                a = [go(y) if isinstance(y, T) else y for y in x.args]
                if any(p is not q for p, q in zip(a, x.args)):
                    r = tm.rebuild(x.op, a)
            if r.op in ("min", "max"):
                p, q = r.args
                if self.quick(p, q):
                    r = p if r.op == "min" else q
                elif self.quick(q, p):
                    r = q if r.op == "min" else p
            memo[x.id] = r
            return r
        return go(t)

    def quick(self, a, b):
        n, lim = self.steps, self.limit
        self.steps, self.limit = 0, 60
        r = self._le(a, b, tuple(self.facts), 0)
        self.steps, self.limit = n, lim
        return r

    def ge0(self, t):
        return self.le(tm.ZERO, t)

    def _le(self, a, b, facts, depth):
        self.steps += 1
        if self.steps > self.limit or depth > 60:
            return False
        if a is b:
            return True
        d = depth + 1
        if a.op == "max":
            return self._le(a.args[0], b, facts, d) and self._le(
                a.args[1], b, facts, d)
        if b.op == "min":
            return self._le(a, b.args[0], facts, d) and self._le(
                a, b.args[1], facts, d)
        c = inner_cond(a) or inner_cond(b)
        if c is not None:
            return all(self._le(given(a, c, v), given(b, c, v),
                                facts + learn(c, v), d)
                       for v in (True, False))
        if a.op == "min":
            if any(self._le(x, b, facts, d) for x in a.args):
                return True
        if b.op == "max":
            if any(self._le(a, x, facts, d) for x in b.args):
                return True
        if self.nonneg_poly(tm.sub(b, a)):
            return True
        for x, y in facts:
            if y is b and x is not a and (x is not b) and self._near(
                    a, x, facts, d, (x, y)):
                return True
            if x is a and self._near(y, b, facts, d, (x, y)):
                return True
            if x is a and y is b:
                return True
        if a.op == b.op and a.op in MONO_UP:
            return self._le(a.args[0], b.args[0], facts, d)
        if a.op == "abs" and self._le(a.args[0], b, facts, d) and self._le(
                tm.neg(a.args[0]), b, facts, d):
            return True
        # lower bounds of non negative operations
        if tm.is_const(a) and tm.cval(a) == 0:
            return self._ge0(b, facts, d)
        return self._arith(a, b, facts, d)

    def _near(self, a, b, facts, d, used):
        rest = tuple(f for f in facts if f is not used)
        return a is b or self.nonneg_poly(tm.sub(b, a)) or self._le(
            a, b, rest, d + 10)

    def _ge0(self, b, facts, d):
        o, a = b.op, b.args
        if o in ("abs", "exp", "sqrt", "cosh"):
            return True
        if b.id in self.nonneg:
            return True
        Z = tm.ZERO
        if o == "pow":
            return self._le(Z, a[0], facts, d)
        if o in ("mul", "div"):
            if a[0] is a[1] and o == "mul":
                return True
            return (self._le(Z, a[0], facts, d)
                    and self._le(Z, a[1], facts, d)) or (
                self._le(a[0], Z, facts, d) and self._le(a[1], Z, facts, d))
        if o == "add":
            return self._le(Z, a[0], facts, d) and self._le(Z, a[1], facts,
                                                            d)
        if o == "neg":
            return self._le(a[0], Z, facts, d)
        if o == "sub":
            return self._le(a[1], a[0], facts, d)
        if o in ("tanh", "sinh", "log1p", "float"):
            return self._le(Z, a[0], facts, d)
        if o == "log":
            return self._le(tm.ONE, a[0], facts, d)
        return False

    def _arith(self, a, b, facts, d):
        """a <= b by comparing the parts of sums and scalings"""
        Z = tm.ZERO
        if tm.is_const(b) and tm.cval(b) == 0:
            if a.op == "neg":
                return self._le(Z, a.args[0], facts, d)
            if a.op == "sub":
                return self._le(a.args[0], a.args[1], facts, d)
            if a.op in ("mul", "div"):
                x, y = a.args
                return (self._le(x, Z, facts, d) and self._le(
                    Z, y, facts, d)) or (self._le(Z, x, facts, d)
                                         and self._le(y, Z, facts, d))
            return False
        if a.op == "add" and b.op == "add":
            (p, q), (r, s) = a.args, b.args
            if (self._le(p, r, facts, d) and self._le(q, s, facts, d)):
                return True
        if a.op == "sub" and b.op == "sub":
            (p, q), (r, s) = a.args, b.args
            if self._le(p, r, facts, d) and self._le(s, q, facts, d):
                return True
        if a.op == "mul" and b.op == "mul":
            for x, y in (a.args, a.args[::-1]):
                for u, v in (b.args, b.args[::-1]):
                    if x is u and self._le(Z, x, facts, d) and self._le(
                            y, v, facts, d):
                        return True
        # a half-sum lies between its parts
        for t, up in ((a, True), (b, False)):
            h = half_sum(t)
            if h:
                x, y = h
                if up and self._le(x, b, facts, d) and self._le(
                        y, b, facts, d):
                    return True
                if not up and self._le(a, x, facts, d) and self._le(
                        a, y, facts, d):
                    return True
        c = convex(a)
        if c and all(self._le(x, b, facts, d) for x in c):
            return True
        c = convex(b)
        if c and all(self._le(a, x, facts, d) for x in c):
            return True
        return False


ARITH = {"add", "sub", "mul", "div", "neg", "exp", "log", "pow", "float",
         "min", "max"}


def inner_cond(t):
    """condition of an ite on the arithmetic skeleton of t"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite":
            return x.args[0]
        if x.op in ARITH:
            st += [a for a in x.args if isinstance(a, T)]
    return None


def given(t, c, v):
    """t when condition c has truth value v"""
    return tm.subst(t, {c: const(v), tm.not_(c): const(not v)})


def half_sum(t):
    if t.op == "mul":
        for c, z in (t.args, t.args[::-1]):
            if tm.is_const(c) and tm.cval(c) == 0.5 and z.op == "add":
                return z.args
    if t.op == "div" and tm.is_const(t.args[1]) and tm.cval(
            t.args[1]) == 2 and t.args[0].op == "add":
        return t.args[0].args
    return None


def convex(t):
    """(1-c)*x + c*y with constant c in [0, 1]"""
    if t.op != "add":
        return None
    out = []
    tot = 0.0
    for z in t.args:
        if z.op != "mul":
            return None
        for c, w in (z.args, z.args[::-1]):
            if tm.is_const(c) and isinstance(tm.cval(c), (int, float)):
                tot += tm.cval(c)
                if not 0 <= tm.cval(c) <= 1:
                    return None
                out.append(w)
                break
        else:
            return None
    return out if abs(tot - 1.0) < 1e-12 else None


def learn(c, val):
    """(x, y) pairs with x <= y that a condition gives"""
    if c.op == "not":
        return learn(c.args[0], not val)
    if c.op == "and" and val:
        return sum((learn(x, True) for x in c.args), ())
    if c.op == "or" and not val:
        return sum((learn(x, False) for x in c.args), ())
    if c.op in ("lt", "le", "gt", "ge"):
        x, y = c.args
        up = c.op in ("lt", "le")
        if not val:
            up = not up
        return ((x, y),) if up else ((y, x),)
    if c.op == "eq" and val or c.op == "ne" and not val:
        return ((c.args[0], c.args[1]), (c.args[1], c.args[0]))
    return ()


# ------------------------------------------------------------ monotonicity
def mono(t, x, order, memo=None):
    """+1 non-decreasing in x, -1 non-increasing, 0 independent, None"""
    memo = {} if memo is None else memo

    def join(a, b):
        if a is None or b is None:
            return None
        if a == 0:
            return b
        if b == 0 or a == b:
            return a
        return None

    def go(t):
        if t.id in memo:
            return memo[t.id]
        r = memo[t.id] = go_(t)
        return r

    def go_(t):
        if t is x:
            return 1
        o, a = t.op, t.args
        if not any(s is x for s in tm.subterms(t)):
            return 0
        if o in ("add", "min", "max"):
            return join(go(a[0]), go(a[1]))
        if o == "sub":
            b = go(a[1])
            return join(go(a[0]), None if b is None else -b)
        if o == "neg":
            b = go(a[0])
            return None if b is None else -b
        if o in MONO_UP:
            return go(a[0])
        if o == "mul":
            p, q = go(a[0]), go(a[1])
            if p is None or q is None:
                return None
            r = 0
            for s, other in ((p, a[1]), (q, a[0])):
                if s == 0:
                    continue
                if order.ge0(other):
                    r = join(r, s)
                elif order.le(other, tm.ZERO):
                    r = join(r, -s)
                else:
                    return None
            return r
        if o == "div":
            p, q = go(a[0]), go(a[1])
            if p is None or q is None:
                return None
            if not order.ge0(a[1]):
                return None
            if q == 0:
                return p
            if p == 0 and order.ge0(a[0]):
                return -q
            if p == 0 and order.le(a[0], tm.ZERO):
                return q
            return None
        if o == "pow":
            p, q = go(a[0]), go(a[1])
            if q == 0 and order.ge0(a[1]) and order.ge0(a[0]):
                return p
            return None
        if o == "ite" and go(a[0]) == 0:
            return join(go(a[1]), go(a[2]))
        if o == "gather" and go(a[1]) == 0:
            return go(a[0])
        return None
    return go(t)
