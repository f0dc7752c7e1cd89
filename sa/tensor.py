"""Meaning of weak-form integrands in a random interpretation.

A field (trial/test function, or ``basis.interpolate(u)``) has a random value
and gradient per element, linear in its dof values; ``skfem.helpers`` and the
broadcasting numpy operations keep their tensor algebra.  An assembled vector
is a random linear functional of its integrand, an elemental value a random
multiple of it, a matrix entry a random functional of a bilinear integrand:
two forms are told apart exactly when their integrands differ."""
from __future__ import annotations
import math

from . import terms as tm
from .terms import T, K_ELEM

H = "skfem.helpers."


class NotTensor(Exception):
    pass


def bcast(f, *xs):
    if any(isinstance(x, list) for x in xs):
        n = {len(x) for x in xs if isinstance(x, list)}
        if len(n) != 1:
            raise NotTensor("shapes")
        n = n.pop()
        return [bcast(f, *[x[i] if isinstance(x, list) else x for x in xs])
                for i in range(n)]
    return f(*xs)


def rank(x):
    return 1 + rank(x[0]) if isinstance(x, list) else 0


def flat(x):
    return [v for y in x for v in flat(y)] if isinstance(x, list) else [x]


def dotp(a, b):
    if rank(a) == 0 and rank(b) == 0:
        return a * b
    if rank(a) != 1 or rank(b) != 1 or len(a) != len(b):
        raise NotTensor("dot")
    return sum(x * y for x, y in zip(a, b))


def ddotp(a, b):
    if rank(a) != 2 or rank(b) != 2:
        raise NotTensor("ddot")
    return sum(x * y for r, s in zip(a, b) for x, y in zip(r, s))


def transp(a):
    if rank(a) != 2:
        raise NotTensor("transpose")
    return [list(r) for r in zip(*a)]


def einsum(spec, ops):
    spec = spec.replace(" ", "").replace("...", "")
    if "->" not in spec:
        raise NotTensor("einsum")
    lhs, out = spec.split("->")
    ins = lhs.split(",")
    if len(ins) != len(ops):
        raise NotTensor("einsum")
    size = {}
    for s, x in zip(ins, ops):
        r = rank(x)
        if r != len(s):
            raise NotTensor("einsum rank")
        for c in s:
            if size.setdefault(c, len(x)) != len(x):
                raise NotTensor("einsum size")
            x = x[0]
    letters = list(size)

    def build(i, env):
        if i == len(out):
            rest = [c for c in letters if c not in out]
            return total(rest, env)
        return [build(i + 1, {**env, out[i]: k})
                for k in range(size[out[i]])]

    def total(rest, env):
        if not rest:
            r = 1.0
            for s, x in zip(ins, ops):
                for c in s:
                    x = x[env[c]]
                r *= x
            return r
        return sum(total(rest[1:], {**env, rest[0]: k})
                   for k in range(size[rest[0]]))
    return build(0, {})


PASS = {"np.tile", "np.reshape", "np.asarray", "np.array",
        "np.ascontiguousarray", "np.copy", "np.broadcast_to", "np.atleast_1d",
        ".reshape", ".T", "np.expand_dims", "np.repeat"}


class Tensor:
    def __init__(self, vector, dim=3):
        self.vector = vector
        self.dim = dim
        self.cache = {}
        self.has = {}

    # fields
    def is_field(self, t):
        return t.op == "sym" and t.args[0] in ("form.U", "form.V") or \
            t.op == "call" and t.args[0] == ".interpolate" and len(
                t.args) == 3

    def holds_field(self, t):
        r = self.has.get(t.id)
        if r is None:
            r = self.has[t.id] = any(self.is_field(x) or x.op == "sym" and
                                     str(x.args[0]).startswith("form.")
                                     for x in tm.subterms(t))
        return r

    def basis_fp(self, it, b):
        return it.fam[0].fp(b)

    def shape_fun(self, it, key, comp):
        """weights of the K_ELEM dofs in one component at this element"""
        return [it.leaf(("shape", key, comp, it.elem, j), (-1.0, 1.0))
                for j in range(K_ELEM)]

    def dofs(self, it, u):
        return [e.num(u) for e in it.fam[0].elems()]

    def field(self, it, F, what):
        k = (it.seed, it.elem, F.id, what)
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = self._field(it, F, what)
        return r

    def _field(self, it, F, what):
        d = self.dim
        if F.op == "sym":
            key = ("test", F.args[0])

            def comp(c, kind):
                return it.leaf((key, it.elem, c), (-1.0, 1.0) if kind
                               else (0.2, 0.9))
        else:
            b = self.basis_fp(it, F.args[1])
            u = self.dofs(it, F.args[2])

            def comp(c, kind):
                w = self.shape_fun(it, b, c)
                if kind == "grad":
                    m = sum(w) / len(w)
                    w = [x - m for x in w]
                else:
                    w = [x + 1.05 for x in w]
                    m = sum(w)
                    w = [x / m for x in w]
                return sum(x * y for x, y in zip(w, u))
        if what == "value":
            if self.vector:
                return [comp(("v", i), "") for i in range(d)]
            return comp("v", "")
        if self.vector:
            return [[comp(("g", i, j), "grad") for j in range(d)]
                    for i in range(d)]
        return [comp(("g", i), "grad") for i in range(d)]

    # integrands
    def ev(self, it, t):
        k = (it.seed, it.elem, t.id)
        if k in self.cache:
            return self.cache[k]
        r = self.cache[k] = self._ev(it, t)
        return r

    def _ev(self, it, t):
        if self.is_field(t):
            return self.field(it, t, "value")
        if not self.holds_field(t):
            if t.op == "call" and t.args[0] in PASS:
                return self.ev(it, t.args[1])
            if t.op == "gather" and self.spread(t.args[1]):
                return self.ev(it, t.args[0])
            if t.op in tm._NUM:
                return bcast(tm._NUM[t.op], *[self.ev(it, x)
                                              for x in t.args])
            return it.num(t)
        ev = lambda x: self.ev(it, x)      # noqa: E731
        if t.op == "attr":
            o, n = t.args[0], t.args[1]
            n = n.args[0] if isinstance(n, T) else n
            if self.is_field(o):
                if n == "grad":
                    return self.field(it, o, "grad")
                if n == "value":
                    return self.field(it, o, "value")
            if n == "T" and rank(ev(o)) == 0:
                return ev(o)
            raise NotTensor("attr " + str(n))
        if t.op in tm._NUM:
            return bcast(tm._NUM[t.op], *[ev(x) for x in t.args])
        if t.op in ("abs", "sqrt", "exp", "tanh", "neg", "pow", "max",
                    "min") and t.op in tm._NUM:
            return bcast(tm._NUM[t.op], *[ev(x) for x in t.args])
        if t.op == "ite" and tm.kind(t.args[0]) == "s":
            return ev(t.args[1 if it.truth(t.args[0]) else 2])
        if t.op == "matmul":
            a, b = ev(t.args[0]), ev(t.args[1])
            raise NotTensor("matmul")
        if t.op == "gather":
            b, i = t.args
            if self.spread(i):
                return ev(b)
            x = ev(b)
            ix = i.args if i.op == "idx" else (i,)
            for j in ix:
                if tm.is_const(j) and isinstance(tm.cval(j), int):
                    if not isinstance(x, list):
                        raise NotTensor("component of a scalar")
                    x = x[tm.cval(j)]
                elif j is tm.FULL:
                    break
                else:
                    raise NotTensor("index")
            return x
        if t.op == "call":
            f = t.args[0]
            a = [x for x in t.args[1:] if not (isinstance(x, T)
                                               and x.op == "kw")]
            kw = {x.args[0]: x.args[1] for x in t.args[1:]
                  if isinstance(x, T) and x.op == "kw"}
            if f.startswith(H):
                return self.helper(it, f[len(H):], a, kw)
            if f in PASS:
                x = ev(a[0])
                if f in (".T",) and rank(x):
                    raise NotTensor(".T of a tensor")
                return x
            if f in ("np.mean", "np.max", "np.min", ".mean", ".max",
                     ".min") and len(a) == 1 and not kw:
                # one number of the whole field, not a local value
                vs = [v for e in it.fam[0].elems()
                      for v in flat(self.ev(e, a[0]))]
                return {"mean": sum(vs) / len(vs), "max": max(vs),
                        "min": min(vs)}[f.split(".")[-1]]
            if f in ("np.sum", ".sum"):
                x = ev(a[0])
                ax = kw.get("axis", a[1] if len(a) > 1 else None)
                if ax is None:
                    raise NotTensor("total sum")
                if ax.op in ("tuple", "list"):
                    ax = [tm.cval(y) for y in ax.args]
                else:
                    ax = [tm.cval(ax)]
                if sorted(ax) == list(range(len(ax))) and len(ax) <= \
                        rank(x):
                    for _ in ax:
                        y = x[0]
                        for z in x[1:]:
                            y = bcast(lambda p, q: p + q, y, z)
                        x = y
                    return x
                raise NotTensor("sum axis")
            if f == "np.einsum" and a and tm.is_const(a[0]):
                return einsum(tm.cval(a[0]), [ev(x) for x in a[1:]])
            if f in ("np.square",):
                return bcast(lambda v: v * v, ev(a[0]))
        raise NotTensor(tm.show(t, 2))

    @staticmethod
    def spread(i):
        """an index that only adds axes"""
        ix = i.args if i.op == "idx" else (i,)
        return all(x is tm.NONE or x is tm.FULL or x.op == "slice" and all(
            y is tm.NONE for y in x.args) or x.op == "const" and
            x.args[0] is Ellipsis or x.op == "ellipsis" for x in ix)

    def helper(self, it, n, a, kw):
        ev = lambda x: self.ev(it, x)      # noqa: E731

        def grad_of(F):
            if not self.is_field(F):
                raise NotTensor("gradient of an expression")
            return self.field(it, F, "grad")
        if n in ("grad", "d"):
            return grad_of(a[0])
        if n == "sym_grad":
            g = grad_of(a[0])
            return bcast(lambda x, y: 0.5 * (x + y), g, transp(g))
        if n == "div":
            g = grad_of(a[0])
            return sum(g[i][i] for i in range(len(g)))
        if n == "transpose":
            return transp(ev(a[0]))
        if n == "trace":
            m = ev(a[0])
            if rank(m) != 2:
                raise NotTensor("trace")
            return sum(m[i][i] for i in range(len(m)))
        if n in ("eye", "identity"):
            w = ev(a[0])
            if n == "identity":
                w = 1.0
            if rank(w):
                raise NotTensor("eye")
            k = self.dim
            return [[w if i == j else 0.0 for j in range(k)]
                    for i in range(k)]
        if n == "dot":
            return dotp(ev(a[0]), ev(a[1]))
        if n == "ddot":
            return ddotp(ev(a[0]), ev(a[1]))
        if n == "inner":
            x, y = ev(a[0]), ev(a[1])
            return (ddotp if rank(x) == 2 else dotp)(x, y)
        if n == "mul":
            A, x = ev(a[0]), ev(a[1])
            if rank(A) == 2 and rank(x) == 1:
                return [dotp(r, x) for r in A]
            if rank(A) == 2 and rank(x) == 2:
                return [[dotp(r, c) for c in transp(x)] for r in A]
        if n == "prod":
            x, y = ev(a[0]), ev(a[1])
            if rank(x) == rank(y) == 1 and len(a) == 2:
                return [[p * q for q in y] for p in x]
        raise NotTensor("helper " + n)

    # assembled results
    def weight(self, it, *key):
        return it.leaf(("quad",) + key, (0.2, 1.0))

    def per_element(self, it, integ):
        r = [self.ev(e, integ) for e in it.fam[0].elems()]
        if any(rank(x) for x in r):
            raise NotTensor("tensor valued integrand")
        if any(isinstance(x, float) and not math.isfinite(x) for x in r):
            raise NotTensor("not finite")
        return r

    def elemental(self, it, integ, basis):
        v = self.ev(it, integ)
        if rank(v):
            raise NotTensor("tensor valued integrand")
        return self.weight(it, "elem", self.basis_fp(it, basis), it.elem) * v

    def vector_entry(self, it, integ, basis):
        b = self.basis_fp(it, basis)
        return sum(self.weight(it, "vec", b, e, it.elem) * v for e, v in
                   enumerate(self.per_element(it, integ)))

    def scalar(self, it, integ, basis):
        b = self.basis_fp(it, basis)
        return sum(self.weight(it, "elem", b, e) * v for e, v in
                   enumerate(self.per_element(it, integ)))

    def matrix(self, it, integ, basis):
        b = self.basis_fp(it, basis)
        vs = self.per_element(it, integ)
        R = range(K_ELEM)
        return [[sum(self.weight(it, "mat", b, e, min(i, j), max(i, j)) * v
                     * (4.0 if i == j else 1.0) for e, v in enumerate(vs)) for j in R] for i in R]
