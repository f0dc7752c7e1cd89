"""The finite element layer: state solves, objectives, energies, adjoints
(C19, C23), material wiring (C08), solver choice (C27), PETSc options (C28),
weak forms (C32).

Stand-ins: assembled matrices are functions of everything handed to the
assembly; ``skfem.enforce`` and the linear solvers keep their algebra, which
a random interpretation evaluates on K_ELEM degrees of freedom."""
from __future__ import annotations

import itertools

from .. import terms as tm
from ..tensor import Tensor, NotTensor
from ..terms import T, const, sym, mk, call, K_ELEM
from ..interp import State
from ..project import AnalysisError
from ..values import Obj, Arr, Cls, Dct, Lst, Tup, Gate, Bound, Fn, Model
from .chain import modulus
from .opt import named, FEMS, TASKS, KINDS, OptRun

FULL = tm.FULL
COMP = "sktopt.fea.composer."


# ------------------------------------------------------------- algebra
class NotAlg(Exception):
    pass


MAT_CALLS = {"K", "enforced", "scipy.sparse.csr_matrix",
             "scipy.sparse.coo_matrix"}
VEC = "V"


def is_const_idx(i):
    return i.op == "idx" and len(i.args) == 2 and i.args[0] is FULL and \
        tm.is_const(i.args[1]) and isinstance(tm.cval(i.args[1]), int)


def kind_of(t):
    """M: dof x dof, C: dof x load, L: per load, V: dof, S: scalar"""
    r = _kinds.get(t.id)
    if r is None:
        r = _kinds[t.id] = _kind(t)
    return r


_kinds: dict = {}
MATS: set = set()
COLS: set = set()
LOADS: set = set()


def seq_of(t):
    if t.op in ("list", "tuple"):
        return t.args
    if t.op == "call" and t.args[0] in ("array_of", "np.array",
                                        "np.asarray", "np.stack"):
        return seq_of(t.args[1])
    return None


def axis_of(t):
    """the axis of a reduction (None: all axes; "?": not a constant)"""
    for x in t.args[2:]:
        if x.op == "kw" and x.args[0] == "axis":
            return tm.cval(x.args[1]) if tm.is_const(x.args[1]) else "?"
        if x.op != "kw":
            return tm.cval(x) if tm.is_const(x) else "?"
    return None


AXES = {"M": "dd", "C": "dl", "V": "d", "L": "l", "S": ""}


def ein(t):
    """(letters of each operand, letters of the result, axis kind of each
    letter) of an einsum over matrices, columns and vectors"""
    spec = t.args[1]
    if not tm.is_const(spec) or not isinstance(tm.cval(spec), str):
        return None
    spec = tm.cval(spec).replace(" ", "")
    if "->" not in spec or "." in spec:
        return None
    ins, out = spec.split("->")
    ins = ins.split(",")
    if len(ins) != len(t.args) - 2:
        return None
    ax = {}
    for w, x in zip(ins, t.args[2:]):
        k = AXES.get(kind_of(x))
        if k is None or len(k) != len(w):
            return None
        for c, d in zip(w, k):
            if ax.setdefault(c, d) != d:
                return None
    if any(c not in ax for c in out):
        return None
    return ins, out, ax


def ein_kind(t):
    e = ein(t)
    if e is None:
        return "?"
    w = "".join(e[2][c] for c in e[1])
    return next((k for k, v in AXES.items() if v == w), "?")


def _kind(t):
    if t in MATS:
        return "M"
    if t in COLS:
        return "C"
    if t in LOADS:
        return "L"
    if t.op == "call":
        f, a = t.args[0], t.args[1:]
        if f in MAT_CALLS:
            return "M"
        if f == "form.assemble":
            return "M" if a[0] is const("BilinearForm") else "S" if \
                a[0] is const("Functional") else "V"
        if f == "form.elemental":
            return "V"
        if f == "lin.solve":
            return kind_of(a[1])
        if f == "np.column_stack":
            return "C"
        if f == "array_of" and seq_of(t) is not None:
            return "L"
        if f in ("np.sum", "np.mean") and kind_of(a[0]) == "C":
            return {None: "S", 0: "L", -2: "L", 1: "V", -1: "V"}.get(
                axis_of(t), "?")
        if f == "np.einsum":
            return ein_kind(t)
        if f == "np.dot" and len(a) == 2:
            return kind_of(mk("matmul", *a))
        return "V" if tm.kind(t) == "a" else "S"
    if t.op == "ite":
        ks = {kind_of(x) for x in t.args[1:]}
        return next((k for k in "MCVL" if k in ks), "S")
    if t.op == "store":
        k = kind_of(t.args[0])
        if k == "S" and t.args[1].op == "idx":
            return "C"
        return k if k != "S" else "V"
    if t.op == "gather":
        b, i = t.args
        k = kind_of(b)
        if k == "C":
            if is_const_idx(i):
                return "V"
            return "C"
        if k == "L" and tm.kind(i) == "s":
            return "S"
        return k
    if t.op == "matmul":
        a, b = kind_of(t.args[0]), kind_of(t.args[1])
        if a == "M":
            return b
        if a == "V" and b == "V":
            return "S"
        return "?"
    if t.op in tm.ELEMENTWISE or t.op in ("float",):
        ks = {kind_of(x) for x in t.args if isinstance(x, T)}
        for k in "MCVL":
            if k in ks:
                return k
        return "S"
    if tm.kind(t) == "a":
        return "V"
    return "S"


def solve_dense(A, b):
    n = len(b)
    m = [list(r) + [x] for r, x in zip(A, b)]
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(m[k][i]))
        if abs(m[p][i]) < 1e-12:
            raise NotAlg("singular")
        m[i], m[p] = m[p], m[i]
        for k in range(i + 1, n):
            f = m[k][i] / m[i][i]
            for j in range(i, n + 1):
                m[k][j] -= f * m[i][j]
    x = [0.0] * n
    for i in reversed(range(n)):
        x[i] = (m[i][n] - sum(m[i][j] * x[j] for j in range(i + 1, n))) \
            / m[i][i]
    return x


class Algebra:
    """model hook of an Interp: matrices, columns and load vectors"""

    def __init__(self, tensor=None):
        self.mats = {}
        self.sols = {}
        self.tensor = tensor

    # matrices
    def mat(self, it, t):
        r = self.mats.get((it.seed, t.id))
        if r is None:
            r = self.mats[(it.seed, t.id)] = self._mat(it.fam[0], t)
        return r

    def _mat(self, it, t):
        n = K_ELEM
        R = range(n)
        if t.op == "call" and t.args[0] == "enforced":
            A = self.mat(it, t.args[1])
            d = it.num(t.args[3]) if len(t.args) > 3 else 1.0
            D = [e.member(t.args[2]) for e in it.elems()]
            return [[(d if i == j else 0.0) if D[i] else A[i][j]
                     for j in R] for i in R]
        if t.op in ("add", "sub"):
            if any(kind_of(x) != "M" for x in t.args):
                z = [x for x in t.args if kind_of(x) != "M"][0]
                if not (tm.is_const(z) and tm.cval(z) == 0):
                    raise NotAlg("matrix + scalar")
            a, b = (self.mat(it, x) if kind_of(x) == "M" else
                    [[0.0] * n for _ in R] for x in t.args)
            s = 1 if t.op == "add" else -1
            return [[a[i][j] + s * b[i][j] for j in R] for i in R]
        if t.op == "neg":
            a = self.mat(it, t.args[0])
            return [[-x for x in r] for r in a]
        if t.op in ("mul", "div"):
            x, y = t.args
            if kind_of(x) == "M" and kind_of(y) == "S":
                a, s = self.mat(it, x), it.num(y)
                s = 1 / s if t.op == "div" else s
            elif kind_of(y) == "M" and kind_of(x) == "S" and t.op == "mul":
                a, s = self.mat(it, y), it.num(x)
            else:
                raise NotAlg("matrix product")
            return [[v * s for v in r] for r in a]
        if t.op == "ite":
            return self.mat(it, t.args[1 if it.truth(t.args[0]) else 2])
        if t.op == "gather":
            b, i = t.args
            A = self.mat(it, b)
            rows = cols = None
            if i.op == "idx" and len(i.args) == 2:
                rows, cols = i.args
            else:
                rows = i
            if cols is None:
                cols = FULL

            def sel(x):
                if x is FULL:
                    return [True] * n
                if tm.is_set_index(x):
                    return [e.member(x) for e in it.elems()]
                raise NotAlg("matrix index")
            r, c = sel(rows), sel(cols)
            return [[A[i][j] if r[i] and c[j] else 0.0 for j in R]
                    for i in R]
        if t.op == "call" and t.args[0] in ("scipy.sparse.csr_matrix",
                                            "scipy.sparse.coo_matrix"):
            return self.mat(it, t.args[1])
        if t.op == "call" and t.args[0] == "form.assemble" and self.tensor:
            try:
                return self.tensor.matrix(it, t.args[2], t.args[3])
            except NotTensor as e:
                raise NotAlg(f"integrand: {e}")
        if t.op == "call" and t.args[0] in ("K", "form.assemble") or \
                t in MATS:
            f = it.ev(t)

            def leaf(i, j):
                i, j = min(i, j), max(i, j)
                return it.leaf(("mat", f, i, j), (0.1, 0.7)) + (
                    2.5 if i == j else 0.0)
            return [[leaf(i, j) for j in R] for i in R]
        raise NotAlg("matrix " + tm.show(t, 2))

    def column(self, it, t, j):
        """all dof values of column j (None: a vector)"""
        return [self.cell(e, t, j) for e in it.fam[0].elems()]

    # one entry of a dof x load array
    def cell(self, it, t, j):
        k = kind_of(t)
        if k == "S" or k == "V" or j is None:
            return it.num(t)
        if t.op == "store":
            b, i, v = t.args
            if i is FULL or i.op == "idx" and all(x is FULL for x in i.args):
                return self.cell(it, v, j)
            if is_const_idx(i):
                c = tm.cval(i.args[1])
                return self.cell(it, v, None if kind_of(v) != "C" else 0) \
                    if c == j else self.cell(it, b, j)
            if i.op == "idx" and len(i.args) == 2 and i.args[1] is FULL \
                    and tm.is_set_index(i.args[0]):
                return self.cell(it, v, j) if it.member(i.args[0]) else \
                    self.cell(it, b, j)
            if tm.is_set_index(i):
                return self.cell(it, v, j) if it.member(i) else \
                    self.cell(it, b, j)
            raise NotAlg("store")
        if t.op == "gather":
            b, i = t.args
            if i.op == "idx" and len(i.args) == 2 and i.args[0] is FULL:
                s = seq_of(i.args[1])
                if s is not None and all(tm.is_const(x) for x in s):
                    if len(s) > 1 and j >= len(s):
                        raise NotAlg("column index")
                    return self.cell(it, b, tm.cval(s[j if len(s) > 1
                                                      else 0]))
                if i.args[1].op == "slice":
                    a = i.args[1].args
                    if all(x is tm.NONE or tm.is_const(x) for x in a) and (
                            a[2] is tm.NONE or tm.cval(a[2]) == 1):
                        lo = 0 if a[0] is tm.NONE else tm.cval(a[0])
                        return self.cell(it, b, lo + j)
            if i is FULL or i.op == "idx" and all(
                    x is FULL or x is tm.NONE for x in i.args):
                return self.cell(it, b, j if kind_of(b) == "C" else None)
            if tm.is_set_index(i):
                return self.cell(it, b, j)
            if i.op == "idx" and len(i.args) == 2 and i.args[1] is FULL \
                    and tm.is_set_index(i.args[0]):
                return self.cell(it, b, j)
            raise NotAlg("gather")
        if t.op == "call":
            f, a = t.args[0], t.args[1:]
            if f == "np.column_stack":
                s = seq_of(a[0])
                if s is None or j >= len(s):
                    raise NotAlg("column_stack " + tm.show(a[0], 1))
                return it.num(s[j])
            if f == "lin.solve":
                return self.solution(it, a[0], a[1], j)[it.elem]
            if f == "np.einsum":
                return self.einsum(it, t, (it.elem, j))
        if t.op == "matmul" or t.op == "call" and t.args[0] == "np.dot":
            A = self.mat(it, t.args[-2])
            x = self.column(it, t.args[-1], j)
            return sum(p * q for p, q in zip(A[it.elem], x))
        if t.op == "ite":
            return self.cell(it, t.args[1 if it.truth(t.args[0]) else 2], j)
        f = tm._NUM.get(t.op)
        if f is not None:
            xs = [self.cell(it, x, j) if kind_of(x) == "C" else
                  self.load(it, x, j) if kind_of(x) == "L" else it.num(x)
                  for x in t.args]
            return f(*xs)
        if t in COLS:
            return it.aleaf(("col", t.args[0], j), t)
        raise NotAlg("column of " + tm.show(t, 2))

    def solution(self, it, A, b, j):
        key = (it.seed, A.id, b.id, j)
        r = self.sols.get(key)
        if r is None:
            m = [list(x) for x in self.mat(it, A)]
            for i in range(K_ELEM):
                if all(v == 0 for v in m[i]):
                    m[i][i] = 1.0       # a row outside a restricted system
            r = self.sols[key] = solve_dense(m, self.column(it, b, j))
        return r

    # one entry of a per-load vector
    def load(self, it, t, j):
        if kind_of(t) != "L":
            return it.fam[0].num(t)
        if t.op == "call":
            f, a = t.args[0], t.args[1:]
            s = seq_of(t)
            if s is not None:
                if j >= len(s):
                    raise NotAlg("load index")
                return it.fam[0].num(s[j])
            if f == "np.einsum":
                return self.einsum(it, t, (j,))
            if f in ("np.sum", "np.mean") and axis_of(t) in (0, -2):
                c = self.column(it, a[0], j)
                return sum(c) / (len(c) if f == "np.mean" else 1)
        if t.op == "ite":
            return self.load(it, t.args[1 if it.truth(t.args[0]) else 2], j)
        if t.op == "store":
            b, i, v = t.args
            if tm.is_const(i):
                return self.load(it, v, j) if tm.cval(i) == j else \
                    self.load(it, b, j)
            if i is FULL:
                return self.load(it, v, j)
        f = tm._NUM.get(t.op)
        if f is not None:
            return f(*[self.load(it, x, j) for x in t.args])
        if t.op == "float":
            return self.load(it, t.args[0], j)
        if t in LOADS:
            return it.fam[0].leaf(("load", t.args[0], j))
        raise NotAlg("load vector " + tm.show(t, 2))

    def einsum(self, it, t, at):
        """entry of an einsum; at: positions of the result's axes"""
        ins, out, ax = ein(t)
        free = [c for c in ax if c not in out]
        if any(ax[c] == "l" for c in free) and not self.n:
            raise NotAlg("number of load cases")
        pos = dict(zip(out, at))
        rng = [range(K_ELEM if ax[c] == "d" else self.n) for c in free]
        dofs = it.fam[0].elems()

        def entry(w, x):
            p = [pos[c] for c in w]
            k = kind_of(x)
            if k == "M":
                return self.mat(it, x)[p[0]][p[1]]
            if k == "C":
                return self.cell(dofs[p[0]], x, p[1])
            if k == "V":
                return dofs[p[0]].num(x)
            if k == "L":
                return self.load(it, x, p[0])
            return it.num(x)
        total = 0.0
        for ps in itertools.product(*rng):
            pos.update(zip(free, ps))
            v = 1.0
            for w, x in zip(ins, t.args[2:]):
                v *= entry(w, x)
            total += v
        return total

    # hook
    def __call__(self, it, t):
        op = t.op
        if op == "matmul" or op == "call" and t.args[0] == "np.dot" and \
                len(t.args) == 3:
            x, y = t.args[-2:]
            k = [kind_of(x), kind_of(y)]
            if k == ["V", "V"]:
                return sum(e.num(x) * e.num(y)
                           for e in it.domain(tm.mul(x, y)))
            if k == ["M", "V"]:
                return self.guard(lambda: sum(
                    p * q for p, q in zip(self.mat(it, x)[it.elem],
                                          self.column(it, y, None))))
            if set(k) & {"M", "C", "?"}:
                raise tm.Undecided("matrix product " + tm.show(t, 2))
        elif op == "call":
            f = t.args[0]
            if f in ("form.assemble", "form.elemental") and self.tensor:
                return self.guard(lambda: self.form(it, t))
            if f == "tensor.component":
                return self.guard(lambda: self.component(it, t))
            if f == "form.value":
                return self.guard(lambda: self.tensor.ev(it, t.args[1]))
            if f == "matrix.entry":
                return self.guard(lambda: self.entry(it, t.args[1]))
            if f == "to.elements":
                key = it.fam[0].fp(mk("attr", mk("attr", t.args[2], "mesh"),
                                      "t"))
                return sum(it.at(j).num(t.args[1]) / max(1, nodes_at(
                    it, key, j)) for j in (conn(it, key, l, it.elem)
                                           for l in range(NLOC)))
            if f == "scatter_add":
                return scatter(it, t)
            if f == "np.array_equal" and len(t.args) == 3 and all(
                    tm.kind(x) == "a" for x in t.args[1:]):
                a, b = (strip(x) for x in t.args[1:])
                return all(e.member(a) == e.member(b)
                           for e in it.fam[0].elems())
            if f == "lin.solve" and kind_of(t.args[2]) == "V":
                return self.guard(lambda: self.solution(
                    it, t.args[1], t.args[2], None)[it.elem])
            if f == "np.einsum":
                k = kind_of(t)
                if k in "SV":
                    return self.guard(lambda: self.einsum(
                        it, t, () if k == "S" else (it.elem,)))
                raise tm.Undecided("einsum " + tm.show(t, 1))
            if f in ("np.sum", "np.mean") and kind_of(t.args[1]) == "C":
                ax = axis_of(t)
                if ax in (1, -1, None) and self.n:
                    def total(e):
                        return sum(self.cell(e, t.args[1], j)
                                   for j in range(self.n))
                    es = [it] if ax is not None else it.fam[0].elems()
                    d = len(es) * self.n if f == "np.mean" else 1
                    return self.guard(lambda: sum(map(total, es)) / d)
                raise tm.Undecided("reduction " + tm.show(t, 1))
            if f == "np.sum" and len(t.args) == 2 and kind_of(
                    t.args[1]) == "L" and self.n:
                return self.guard(lambda: sum(self.load(
                    it, t.args[1], j) for j in range(self.n)))
            if f == "np.mean" and len(t.args) == 2 and kind_of(
                    t.args[1]) == "L" and self.n:
                return self.guard(lambda: sum(self.load(
                    it, t.args[1], j) for j in range(self.n)) / self.n)
        elif op == "len" or op == "attr" and is_name(
                t.args[1], "size") or op == "gather" and t.args[1] is const(
                    0) and t.args[0].op == "attr" and is_name(
                        t.args[0].args[1], "shape"):
            b = strip(t.args[0] if op != "gather" else t.args[0].args[0])
            if b in DOFSETS:
                return sum(bool(e.member(b)) for e in it.fam[0].elems())
        elif op == "fold":
            f, base, body, var, cnt = t.args
            c = cnt.args[0] if cnt.op == "len" else None
            if cnt.op == "gather" and cnt.args[1] is const(0) and \
                    cnt.args[0].op == "attr" and is_name(
                        cnt.args[0].args[1], "shape"):
                c = cnt.args[0].args[0]
            if c is not None and is_conn(c) and f in ("add", const("add")):
                return it.num(base) + sum(it.num(tm.subst(
                    body, {var: const(l)})) for l in range(NLOC))
        elif op == "store":
            b, i, v = t.args
            if kind_of(t) == "V" and is_dofset(i):
                return it.num(v) if it.member(i) else it.num(b)
        elif op == "gather":
            b, i = t.args
            k = kind_of(b)
            if i.op == "gather" and is_conn(i.args[0]) and tm.is_const(
                    i.args[1]):
                return it.at(conn(it, it.fam[0].fp(i.args[0]), tm.cval(
                    i.args[1]), it.elem)).num(b)
            if k == "V" and is_const_idx(i) and i.args[1] is const(0):
                return it.num(b)
            if k == "C" and is_const_idx(i):
                return self.guard(lambda: self.cell(
                    it, b, tm.cval(i.args[1])))
            if k == "L" and tm.is_const(i):
                return self.guard(lambda: self.load(it, b, tm.cval(i)))
        return None

    n = None

    def component(self, it, t):
        m = self.tensor.ev(it, t.args[1])
        if not isinstance(m, list) or not isinstance(m[0], list):
            raise NotAlg("not a tensor")
        return m[tm.cval(t.args[2])][tm.cval(t.args[3])]

    def entry(self, it, t):
        """integrand of a sum of matrices assembled on one basis"""
        if t.op in ("add", "sub", "neg"):
            xs = [self.entry(it, x) for x in t.args]
            return tm._NUM[t.op](*xs)
        if t.op in ("mul", "div"):
            xs = [self.entry(it, x) if kind_of(x) == "M" else it.num(x)
                  for x in t.args]
            return tm._NUM[t.op](*xs)
        if t.op == "call" and t.args[0] == "form.assemble" and t.args[1] is \
                const("BilinearForm"):
            return self.tensor.ev(it, t.args[2])
        raise NotAlg("matrix " + tm.show(t, 2))

    def form(self, it, t):
        how, cls, integ, basis = t.args[0][5:], t.args[1], t.args[2], \
            t.args[3]
        if how == "elemental":
            return self.tensor.elemental(it, integ, basis)
        if cls is const("LinearForm"):
            return self.tensor.vector_entry(it, integ, basis)
        if cls is const("Functional"):
            return self.tensor.scalar(it, integ, basis)
        raise NotAlg("matrix used as a vector")

    @staticmethod
    def guard(f):
        try:
            return f()
        except (NotAlg, NotTensor) as e:
            raise tm.Undecided(f"algebra: {e}")


NLOC = 3


def conn(it, basis, l, e):
    """node of local vertex l of element e"""
    return int(it.leaf(("conn", basis, l, e), (0, K_ELEM - 1e-9)))


def nodes_at(it, key, j):
    """how many elements meet at node j"""
    return sum(conn(it, key, l, e) == j for e in range(K_ELEM)
               for l in range(NLOC))


def is_name(x, n):
    return x == n or x is const(n)


def is_conn(c):
    return c.op == "attr" and is_name(c.args[1], "t")


def local_order(t):
    """(connectivity, order) of a flattened connectivity array"""
    if t.op == "call" and t.args[0] in ("np.ravel", ".ravel", ".flatten") \
            and len(t.args) == 2:
        x = t.args[1]
        if x.op == "call" and x.args[0] in (".T", "np.transpose"):
            return x.args[1], "el"
        return x, "le"
    return t, "grid"


def scatter(it, t):
    """sum of element contributions at a node"""
    _, base, ix, vals = t.args
    if ix.op == "gather" and is_conn(ix.args[0]) and tm.is_const(
            ix.args[1]):
        key, l = it.fam[0].fp(ix.args[0]), tm.cval(ix.args[1])
        if not isinstance(l, int) or not 0 <= l < NLOC:
            raise tm.Undecided("local vertex")
        return it.num(base) + sum(
            (e.num(vals) for e in it.fam[0].elems()
             if conn(it, key, l, e.elem) == it.elem))
    c, order = local_order(ix)
    if not is_conn(c):
        return None
    key = it.fam[0].fp(c)
    if tm.kind(vals) == "s":
        v = [it.num(vals)] * K_ELEM
    else:
        o, x = "grid", vals
        if vals.op == "call" and vals.args[0] == "np.tile":
            o, x = "le", vals.args[1]
        elif vals.op == "call" and vals.args[0] == "np.repeat":
            o, x = "el", vals.args[1]
        elif vals.op == "gather" and Tensor.spread(vals.args[1]):
            x = vals.args[0]
        else:
            raise tm.Undecided("scattered values")
        if o != order:
            if order == "grid" or o == "grid":
                raise tm.Undecided("scattered values")
            return it.leaf(("misplaced", t.id, it.elem))
        v = [e.num(x) for e in it.fam[0].elems()]
    return it.num(base) + sum(
        v[e] for e in range(K_ELEM) for l in range(NLOC)
        if conn(it, key, l, e) == it.elem)


def is_dofset(i):
    return tm.is_set_index(i)


def strip(i):
    """the dof set behind flatten()/all()"""
    while i.op == "call" and i.args[0] in (".flatten", ".all", ".ravel", "np.ravel",
                                           "np.asarray", "np.sort",
                                           "np.unique") \
            and len(i.args) == 2:
        i = i.args[1]
    return i


# ------------------------------------------------------------ stand-ins
LIN = {"scipy.sparse.linalg.spsolve": "spsolve"}
ITER = ("cg", "minres", "bicgstab", "gmres")


def models(ctx):
    """skfem assembly and enforcement, and the linear solvers"""
    proj = ctx.proj
    m = {}

    def arr(ip, st, t, label):
        return ip.new_arr(st, t, label)

    def asm(ip, st, a, k, node):
        f = ip.force(a[0], st) if a else None
        if isinstance(f, Fn) and f.form is not None:
            return ip.form_call(f, "assemble", list(a[1:]), k, st, node)
        return NotImplemented
    for n in ("skfem.asm", "skfem.assembly.asm", "skfem.assemble"):
        m[n] = asm

    def bcs(b, ip, st):
        A = ip.toT(b["A"], st)
        D = b.get("D")
        x = b.get("x")
        if D is None or ip.toT(D, st) is tm.NONE:
            if b.get("I") is None:
                return None
            D = tm.call("np.setdiff1d", tm.call("np.arange", const(0)),
                        ip.toT(b["I"], st))
        D = ip.toT(D, st)
        x = const(0.0) if x is None else ip.toT(x, st)
        x = const(0.0) if x is tm.NONE else x
        rhs = b.get("b")
        rhs = None if rhs is None else ip.toT(rhs, st)
        return A, rhs, x, D

    def enforce(ip, st, a, k, node):
        b = named(a, k, ["A", "b", "x", "I", "D", "diag", "overwrite"])
        r = bcs(b, ip, st)
        if r is None:
            return NotImplemented
        A, rhs, x, D = r
        DOFSETS.add(D)
        dg = [ip.toT(b["diag"], st)] if "diag" in b else []
        Ke = mk("call", "enforced", A, D, *dg)
        ow = ip.toT(b.get("overwrite", tm.FALSE), st)
        if ow is not tm.FALSE:
            if ow is not tm.TRUE:
                return NotImplemented
            if isinstance(b["A"], Arr):
                ip.write(b["A"], Ke, st, node, "enforce")
            else:
                # a matrix made by an expression: nothing else refers to it
                b["A"] = arr(ip, st, Ke, "enforced")
        if rhs is None or rhs is tm.NONE:
            return arr(ip, st, Ke, "enforced")
        f = tm.store(rhs, D, x)
        if ow is tm.TRUE:
            if not isinstance(b["b"], Arr):
                return NotImplemented
            ip.write(b["b"], f, st, node, "enforce")
            return Tup([b["A"], b["b"]])
        return Tup([arr(ip, st, Ke, "enforced"), arr(ip, st, f, "rhs")])
    for n in ("skfem.enforce", "skfem.utils.enforce"):
        m[n] = enforce

    def condense(ip, st, a, k, node):
        b = named(a, k, ["A", "b", "x", "I", "D", "expand"])
        r = bcs(b, ip, st)
        if r is None or r[1] is None:
            return NotImplemented
        A, rhs, x, D = r
        I = tm.call("np.setdiff1d", tm.call("np.arange", const(0)), D)
        xe = tm.store(const(0.0), D, x)
        Ac = tm.gather(tm.gather(A, I), mk("idx", tm.FULL, I))
        bc = tm.gather(tm.sub(rhs, mk("matmul", A, xe)), I)
        out = [arr(ip, st, Ac, "condensed"), arr(ip, st, bc, "rhs")]
        if "expand" in b and ip.toT(b["expand"], st) is tm.FALSE:
            return Tup(out)
        return Tup(out + [arr(ip, st, xe, "x"), arr(ip, st, I, "I")])
    for n in ("skfem.condense", "skfem.utils.condense"):
        m[n] = condense

    def lin(ip, st, node, how, A, b, opts=None):
        shape = ip.shape_of(b, st)
        A, b = ip.toT(A, st), ip.toT(b, st)
        t = mk("call", "lin.solve", A, b)
        ip.event("call", "lin.solve", st, node, args=[A, b], result=t,
                 extra={"how": how, "opts": opts or {}})
        return ip.new_arr(st, t, "solution", shape)

    def spsolve(ip, st, a, k, node):
        b = named(a, k, ["A", "b", "permc_spec", "use_umfpack"])
        return lin(ip, st, node, "spsolve", b["A"],
                   ip.toT(b["b"], st))
    for n in ("scipy.sparse.linalg.spsolve", "scipy.linalg.solve",
              "np.linalg.solve"):
        m[n] = spsolve

    def skfem_solve(ip, st, a, k, node):
        b = named(a, k, ["A", "b", "x", "I"])
        u = lin(ip, st, node, "skfem.solve", b["A"],
                ip.toT(b["b"], st), {"solver": ip.toT(
                    b["solver"], st)} if "solver" in b else {})
        if "x" not in b:
            return u
        return arr(ip, st, tm.store(ip.toT(b["x"], st), ip.toT(
            b["I"], st), ip.toT(u, st)), "solution")
    for n in ("skfem.solve", "skfem.utils.solve"):
        m[n] = skfem_solve

    FACT = "scipy.sparse.linalg.splu"

    def method_solve(ip, st, a, k, node):
        r = ip.toT(a[0], st)
        if r.op == "call" and r.args[0] == FACT and len(a) == 2 and not k:
            return lin(ip, st, node, "splu", r.args[1], a[1])
        return NotImplemented
    m[".solve"] = method_solve

    def factorized(ip, st, a, k, node):
        A = ip.toT(a[0], st)
        return Model(lambda ip, st, a2, k2, n2: lin(
            ip, st, n2, "splu", A, ip.toT(a2[0], st)), "factorized")
    m["scipy.sparse.linalg.factorized"] = factorized
    m["scipy.sparse.linalg.splu"] = lambda ip, st, a, k, node: mk(
        "call", FACT, ip.toT(a[0], st))

    def iterative(name):
        def f(ip, st, a, k, node):
            b = named(a, k, ["A", "b", "x0"])
            A, rhs = b["A"], b["b"]
            u = lin(ip, st, node, name, A, rhs, {
                x: ip.toT(v, st) for x, v in b.items()
                if x not in ("A", "b")})
            return Tup([u, INFO])
        return f
    for n in ITER:
        m["scipy.sparse.linalg." + n] = iterative(n)

    for q, how in (("solve_u_petsc", "petsc"),
                   ("solve_u_petsc_multi", "petsc-multi")):
        fi = proj.need("sktopt.fea._petsc_compat." + q)

        def petsc(ip, st, a, k, node, how=how, fi=fi):
            b = named(a, k, PARAMS(fi))
            names = PARAMS(fi)
            A, rhs = b[names[0]], b[names[1]]
            u = lin(ip, st, node, how, A, rhs, {
                x: ip.toT(v, st) for x, v in b.items()
                if x not in names[:2]})
            return Tup([u, INFO if how == "petsc" else
                        tm.call("petsc.infos")])
        m[fi.qual] = petsc

    m[".get_dofs"] = get_dofs
    m["np.array_equal"] = array_equal

    def lame(ip, st, a, k, node):
        b = named(a, k, ["E", "nu"])
        E, nu = ip.toT(b["E"], st), ip.toT(b["nu"], st)
        one = const(1.0)
        lam = tm.div(tm.mul(E, nu), tm.mul(tm.add(one, nu), tm.sub(
            one, tm.mul(const(2.0), nu))))
        mu = tm.div(E, tm.mul(const(2.0), tm.add(one, nu)))
        return Tup([arr(ip, st, lam, "lam"), arr(ip, st, mu, "mu")])
    m["skfem.models.elasticity.lame_parameters"] = lame
    m["skfem.models.lame_parameters"] = lame
    return m


def PARAMS(fi):
    a = fi.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


INFO = sym("solver.info", "s")
DOFSETS: set = set()


def get_dofs(ip, st, a, k, node):
    t = tm.call(".get_dofs", *[ip.toT(x, st) for x in a],
                **{n: ip.toT(v, st) for n, v in sorted(k.items())})
    ip.event("call", ".get_dofs", st, node, args=list(a), result=t)
    return ip.new_arr(st, t, "dofs")


def array_equal(ip, st, a, k, node):
    x, y = (ip.toT(v, st) for v in a[:2])
    if x is y:
        return tm.TRUE
    return NotImplemented


def material():
    """the configured density interpolation"""
    def f(ip, st, a, k, node):
        b = named(a, k, ["rho", "E0", "Emin", "p"])
        t = mk("call", "stiffness.of", *[ip.toT(b[n], st) for n in (
            "rho", "E0", "Emin", "p")])
        return ip.new_arr(st, t, "material")
    return Model(f, "configured-interpolation")


RHO, P, FS, EC = sym("rho", "a"), sym("p", "s"), sym("force_scale", "s"), \
    sym("E_min_coeff", "s")


class FemRun:
    def __init__(self, ctx, kind, n, solver="spsolve", task=None,
                 types=None, budget=None, cfg=True, mat=None, kws=None,
                 models_=None):
        proj = ctx.proj
        self.ctx, self.n, self.kind = ctx, n, kind
        self.ip = ip = ctx.ip(models_ or models(ctx),
                                  budget=budget)
        ctx.count("load cases", n)
        ip.types.update(types or {})
        self.st = st = State()
        self.cls = proj.need(FEMS[kind])
        self.task = tsk = ip.sym_obj(st, proj.need(TASKS[kind]), "tsk")
        self.alg = Algebra(Tensor(kind == "elastic"))
        self.alg.n = n
        for x, v in (task or {}).items():
            v = v(ip, st) if callable(v) else v
            st.heap[("o", tsk.oid, x)] = v
        kws = {**(kws or {}), "task": tsk, "E_min_coeff": EC,
               "density_interpolation": mat or material()}
        sc = proj.need("sktopt.fea.solver_elastic.LinearSolverConfig")
        self.scfg = None
        if cfg and callable(solver):
            kws["solver_config"] = self.scfg = solver(ip, st)
        elif cfg:
            self.scfg = o = ip.sym_obj(st, sc, "solver")
            st.heap[("o", o.oid, "solver")] = const(solver) if isinstance(
                solver, str) else solver
            kws["solver_config"] = o
        self.given = {k for k in st.heap if k[0] in ("a", "l", "d")}
        s, self.fem = ip.run(Cls(self.cls), [], kws, st)
        if s is None:
            raise RuntimeError(f"{self.cls.qual} cannot be constructed")
        self.U0 = sym("u.before", "a")
        COLS.add(self.U0)
        self.u = ip.new_arr(s, self.U0, "u", Tup([sym("n_dof", "s"),
                                                  const(n)]))
        self.built = s

    def attr(self, n, st=None):
        st = st or self.built
        return self.ip.toT(self.ip.obj_attr(self.task, n, st, None, None),
                           st)

    def call(self, name, *extra, st=None, **kws):
        st = (st or self.built).fork()
        return self.ip.meth(self.fem, name, [RHO, P, self.u, *extra], kws,
                            st)

    def col(self, t, i):
        return tm.gather(t, mk("idx", tm.FULL, const(i)))

    def eq(self, rule, what, where, got, want, text, **kw):
        return self.ctx.equal(rule, what, where, got, want, self.doms(),
                              text, model=self.alg, allowed=ALLOWED,
                              tol=1e-6, **kw)

    ranges: dict = {}

    def doms(self):
        return {**DOMS, **self.ranges} if self.ranges else DOMS
    def one_of(self, rule, what, where, got, wants, text, **kw):
        """equal to one of several admissible values"""
        for w in wants[1:]:
            r = tm.compare(got, w, n=self.ctx.n, ranges=self.ctx.ranges(
                self.doms(), (got, w)), model=self.alg, tol=1e-6, **kw)
            if r[0] == "same":
                return self.ctx.ok(rule, what, text, where)
            if r[0] == "undecided":
                return self.ctx.unsure(rule, what, r[1], where)
        return self.eq(rule, what, where, got, wants[0], text, **kw)


DOMS: dict = {}
ALLOWED = tuple("call:" + x for x in (
    "lin.solve", "enforced", "np.column_stack", "np.reshape", "np.ravel",
    "np.array_equal", "array_of", ".T", "np.tile", "np.sum[axis]",
    "np.mean[axis]", "scatter_add", ".interpolate", "form.elemental",
    "form.assemble", ".get_dofs", "np.einsum", "np.setdiff1d", "np.arange",
    "np.repeat", "stiffness.of", "form.value", "matrix.entry",
    "tensor.component", "skfem.CellBasis", "np.nonzero", "np.isin",
    "skfem.helpers.grad", "skfem.helpers.dot", "skfem.helpers.ddot",
    "skfem.helpers.trace", "skfem.helpers.eye", "skfem.helpers.transpose",
    "skfem.helpers.sym_grad", "skfem.helpers.div", "skfem.helpers.identity",
    "skfem.helpers.inner", "skfem.helpers.mul", "skfem.helpers.prod")) + (
    "attr:X", "attr:shape", "attr:T", "attr:grad", "attr:mesh", "attr:t",
    "attr:elem", "attr:N", "fold", "matmul", "len")


# --------------------------------------------------------------------- C19
D = sym("tsk.dirichlet_dofs", "a")
FREE_D = tm.call("np.setdiff1d", tm.call("np.arange", sym("n_dof", "s")), D)


def c19(ctx):
    """Elastic state: displacements, compliance and energy of every load
    case, as terms over the assembled stiffness, against the definitions."""
    for n in (1, 2, 3):
        for lst in ((True, False) if n == 1 else (True,)):
            for solver in ("spsolve",) if n > 1 else ("spsolve", "auto"):
                ctx.section(f"elastic/{n} loads", elastic, ctx, n, lst,
                            solver)


    ctx.section("wrappers", wrappers, ctx)


def wrappers(ctx):
    """the public entry points of sktopt.fea.solver"""
    proj = ctx.proj
    b, nu = sym("basis", "s"), sym("nu", "s")
    for name, model, multi, stack in (
            ("compute_compliance_simp_basis", "SIMP", False, False),
            ("compute_compliance_basis", None, False, False),
            ("compute_compliance_basis_numba", None, False, False),
            ("solve_multi_load", None, True, True),
            ("compute_compliance_basis_multi_load", None, True, False)):
        fi = proj.lookup("sktopt.fea.solver." + name)
        if fi is None:
            continue
        n = 2 if multi else 1
        F = [sym(f"F{i}", "a") for i in range(n)]
        ip, st = ctx.ip(models(ctx)), State()
        ip.types.update({nu: {"float"}, E0S: {"float"}, EMIN: {"float"}})
        u0 = sym("u.before", "a")
        COLS.add(u0)
        ua = ip.new_arr(st, u0, "u", Tup([sym("n_dof", "s"), const(n)]))
        alg = Algebra(Tensor(True))
        alg.n = n
        Fa = [ip.new_arr(st, x, "F") for x in F]
        a = [b, ip.new_arr(st, FREE_D, "free"), ip.new_arr(st, D, "D"),
             ip.new_list(st, Fa) if multi else Fa[0], E0S, EMIN, P, nu,
             ip.new_arr(st, RHO, "rho")] + ([ua] if multi else [])
        kw = {} if model else {"elem_func": material()}
        s, v = ip.run(Fn(fi), a, kw, st)
        if s is None:
            ctx.bad("entry point", name, fi.where, "fails on every path")
            continue
        E = modulus(model, RHO, E0S, EMIN, P) if model else mk(
            "call", "stiffness.of", RHO, E0S, EMIN, P)
        Ke = mk("call", "enforced", asm("BilinearForm", elastic_form(
            U_, V_, E, nu), b), D)
        v = ip.force(v, s)
        for i in range(n):
            f = tm.store(F[i], D, const(0.0))
            ui = mk("call", "lin.solve", Ke, f)
            if multi:
                u = tm.gather(ip.content(ua, s), mk("idx", tm.FULL,
                                                    const(i)))
            elif isinstance(v, Tup) and len(v.items) == 2:
                u = ip.toT(v.items[1], s)
            else:
                ctx.unsure("entry point", name, "no displacement", fi.where)
                continue
            kw2 = dict(model=alg, allowed=ALLOWED, tol=1e-6)
            ctx.equal("entry point", f"{name}: displacement {i}", fi.where,
                      u, ui, DOMS, "must solve K(rho) u = F", **kw2)
            if stack:
                continue
            c = ip.toT(v, s) if multi else ip.toT(v.items[0], s)
            ctx.equal("entry point", f"{name}: compliance {i}", fi.where,
                      tm.gather(c, const(i)) if multi else c,
                      mk("matmul", f, ui), DOMS, "must be the work of its "
                      "own load", **kw2)


def elastic(ctx, n, lst, solver):
    F = [sym(f"F{i}", "a") for i in range(n)]
    run = FemRun(ctx, "elastic", n, solver, task={
        "neumann_linear": (lambda ip, st: ip.new_list(st, list(F))) if lst
        else (lambda ip, st: ip.new_arr(st, F[0], "F")),
        "dirichlet_dofs": lambda ip, st: ip.new_arr(st, D, "D"),
        "free_dofs": lambda ip, st: ip.new_arr(st, FREE_D, "free")})
    ip = run.ip
    where = run.cls.find(
        "objectives_multi_load", ctx.proj).where
    L = f"{n} load{'s' * (n > 1)}{'' if lst else ' (plain array)'}/{solver}"
    s, v = run.call("objectives_multi_load", force_scale=FS)
    if s is None:
        return ctx.bad("state solve", L, where, "the state solve fails on "
                       "every path")
    st = run.built
    E, nu = run.attr("E"), run.attr("nu")
    basis = run.attr("basis")
    emax, emin = E, tm.mul(E, EC)
    E_of = mk("call", "stiffness.of", RHO, emax, emin, P)
    K = asm("BilinearForm", elastic_form(U_, V_, E_of, nu), basis)
    Ke = mk("call", "enforced", K, D)
    u = ip.content(run.u, s)
    J = ip.toT(v, s)
    for i in range(n):
        f = tm.store(tm.mul(F[i], FS), D, const(0.0))
        ui = mk("call", "lin.solve", Ke, f)
        run.eq("displacement", f"{L}: load {i}", where, run.col(u, i), ui,
               f"column {i} must solve K(rho) u = force_scale*F_{i} with the "
               "prescribed dofs held at zero")
        run.eq("compliance", f"{L}: load {i}", where,
               tm.gather(J, const(i)), mk("matmul", f, ui),
               f"objective {i} must be the work of load {i}")
    s, v = ip.meth(run.fem, "energy_multi_load", [RHO, P, run.u], {},
                   s.fork())
    if s is None:
        return ctx.bad("energy", L, where, "the energy evaluation fails on "
                       "every path")
    W = ip.toT(v, s)
    for i in range(n):
        ui = mk("call", "lin.solve", Ke, tm.store(tm.mul(F[i], FS), D,
                                                  const(0.0)))
        run.eq("energy", f"{L}: load {i}", where, run.col(W, i),
               elemental(strain_energy(basis, ui, E_of, nu), basis),
               f"energy {i} must be 1/2 stress:strain of displacement {i} "
               "with the moduli the state was solved with")


def elemental(integ, basis):
    return mk("call", "form.elemental", const("Functional"), integ, basis)


def H(n, *a):
    return tm.call("skfem.helpers." + n, *a)


def field(basis, u):
    return mk("call", ".interpolate", basis, u)


def lame(E, nu):
    one, two = const(1.0), const(2.0)
    return (tm.div(tm.mul(E, nu), tm.mul(tm.add(one, nu), tm.sub(
        one, tm.mul(two, nu)))), tm.div(E, tm.mul(two, tm.add(one, nu))))


def elastic_form(u, v, E, nu):
    lam, mu = lame(E, nu)
    eu, ev = H("sym_grad", u), H("sym_grad", v)
    return tm.add(tm.mul(lam, tm.mul(H("trace", eu), H("trace", ev))),
                  tm.mul(tm.mul(const(2.0), mu), H("ddot", eu, ev)))


def strain_energy(basis, u, E, nu):
    f = field(basis, u)
    return tm.mul(const(0.5), elastic_form(f, f, E, nu))


# --------------------------------------------------------------------- C23
HC, TENV, Q = sym("h", "s"), sym("T_env", "s"), sym("q", "s")
WT = sym("avg_temp_weight", "s")
FLT = {s: {"float"} for s in (HC, TENV, WT)}
DOMS.update({"T_env": (0.2, 1.5), "h": (0.2, 2.0), "q": (1.0, 5.0),
             "force_scale": (0.1, 4.0),
             "p": (1.0, 5.0), "rho": (0.05, 0.95), "solver.info": (0, 1)})
OUT = sym("elsewhere", "a")
U_, V_ = sym("form.U", "a"), sym("form.V", "a")


def heat_task(n, objective, robin, same, lists=True):
    N = [sym("N0" if same else f"N{i}", "a") for i in range(n)]
    Tv = [sym(f"T{i}", "s") for i in range(n)]

    def nodes(ip, st):
        a = [ip.new_arr(st, x, "nodes") for x in N]
        return ip.new_list(st, a) if lists else a[0]
    t = {"dirichlet_nodes": nodes,
         "dirichlet_values": (lambda ip, st: ip.new_list(st, list(Tv)))
         if lists else Tv[0],
         "objective": const(objective), "avg_temp_weight": WT,
         "design_robin_boundary": tm.FALSE}
    RB, RL = [], []
    if robin == "none":
        for x in ("robin_coefficient", "robin_bilinear", "robin_linear",
                  "robin_bc_value"):
            t[x] = tm.NONE
    else:
        m = int(robin)
        RB = [sym(f"RB{i}", "a") for i in range(m)]
        RL = [sym(f"RL{i}", "a") for i in range(m)]
        MATS.update(RB)
        t["robin_coefficient"], t["robin_bc_value"] = HC, TENV

        def arrs(xs):
            return lambda ip, st: ip.new_list(
                st, [ip.new_arr(st, x, "robin") for x in xs])
        t["robin_bilinear"], t["robin_linear"] = arrs(RB), arrs(RL)
    return t, N, Tv, RB, RL


def nodal(basis, rho):
    t = mk("attr", mk("attr", basis, "mesh"), "t")
    k = tm.gather(mk("attr", t, "shape"), const(0))
    ix = tm.call("np.ravel", t)
    tot = mk("call", "scatter_add", const(0), ix,
             tm.call("np.tile", rho, k))
    cnt = mk("call", "scatter_add", const(0), ix, const(1))
    return tm.div(tot, tm.tmax(cnt, const(1.0)))


def interface(f):
    g = mk("attr", f, "grad")
    return mk("sqrt", H("dot", g, g))


class Heat:
    """reference terms of one heat problem"""

    def __init__(self, run, N, Tv, RB, RL, robin):
        k = run.attr("k")
        q = None if robin == "none" else run.ip.toT(run.ip.obj_attr(
            run.fem, "q", run.built, None, None), run.built)
        self.build(run.attr("basis"), mk("call", "stiffness.of", RHO, k,
                                         tm.mul(k, EC), P), q, N, Tv, RB, RL)

    def build(self, b, k, q, N, Tv, RB, RL):
        self.basis, self.k = b, k
        K = asm("BilinearForm", tm.mul(self.k, H("dot", H("grad", U_),
                                                 H("grad", V_))), b)
        f = const(0.0)
        for x in RB:
            K = tm.add(K, x)
        for x in RL:
            f = tm.add(f, x)
        if q is not None:
            self.rn = nodal(b, RHO)
            rf = field(b, self.rn)
            he = self.h_eff(rf, q)
            w = tm.mul(he, interface(rf))
            K = tm.add(K, asm("BilinearForm", tm.mul(w, tm.mul(U_, V_)), b))
            f = tm.add(f, asm("LinearForm", tm.mul(w, tm.mul(TENV, V_)), b))
        self.K, self.f = K, f
        self.D = [tm.call(".get_dofs", b, nodes=x) for x in N]
        DOFSETS.update(self.D)
        self.T = [self.solve(i, f, v) for i, v in enumerate(Tv)]

    @staticmethod
    def h_eff(r, q):
        return tm.mul(HC, tm.mul(mk("pow", r, P), mk(
            "pow", tm.sub(const(1.0), r), q)))

    def solve(self, i, rhs, v):
        return mk("call", "lin.solve", mk("call", "enforced", self.K,
                                          self.D[i]),
                  tm.store(rhs, self.D[i], v))


def asm(kind, integ, basis):
    return mk("call", "form.assemble", const(kind), integ, basis)


def c23(ctx):
    """Heat state: temperatures, objectives, adjoints and energies of every
    load case against their definitions over the assembled forms."""
    for obj in ("compliance", "averaged_temp", "heat_exchange"):
        for n, same, robin, solver, lists in (
                (1, False, "none", "spsolve", True),
                (1, False, "1", "auto", False),
                (2, True, "2", "spsolve", True),
                (2, False, "1", "petsc", True),
                (3, False, "none", "spsolve", True)):
            if obj == "heat_exchange" and robin == "none":
                continue
            L = f"{obj}/{n} case{'s' * (n > 1)}/" + (
                "shared nodes/" if same else "") + f"robin={robin}/{solver}"
            ctx.section(L, heat, ctx, L, obj, n, same, robin, solver, lists)
    for obj in ("compliance", "averaged_temp", "heat_exchange"):
        for what, rng in (
                ("surroundings below zero", {"T_env": (-1.5, -0.2),
                                             "RL0": (-4.0, -3.0)}),
                ("nearly uniform density", {"rho": (0.5, 0.50001)})):
            for n in (1, 2):
                L = f"{obj}/{n} case{'s' * (n > 1)}/{what}"
                ctx.section(L, heat, ctx, L, obj, n, False, "1", "spsolve",
                            True, rng)
        for n in (1, 2):
            L = f"{obj}/{n} case{'s' * (n > 1)}/after another solve"
            ctx.section(L, heat, ctx, L, obj, n, False, "1", "spsolve", True,
                        None, True)
    for n in (1, 2):
        ctx.section("no interface", no_interface, ctx, n)
    ctx.section("unknown objective", heat_unknown, ctx)
    for model in ("SIMP", "RAMP"):
        for n, robin in ((1, "none"), (2, "none"), (2, "1")):
            ctx.section(f"sensitivity/{model}", heat_sensitivity, ctx, model,
                        n, robin)


LB = sym("adjoint.before", "a")


def no_interface(ctx, n):
    """without an interface the heat exchange and its adjoint are zero, also
    after a design that had one"""
    L = f"heat_exchange/{n} case{'s' * (n > 1)}/no interface"
    task, N, Tv, RB, RL = heat_task(n, "heat_exchange", "1", False, True)
    run = FemRun(ctx, "heat", n, "spsolve", task=task,
                 types={**FLT, **{v: {"float"} for v in Tv}})
    run.ranges = {"rho": (0.0, 0.0)}
    where = run.cls.find("objectives_multi_load", ctx.proj).where
    ip, st = run.ip, run.built.fork()
    COLS.add(LB)
    st.heap[("o", run.fem.oid, "λ_all")] = ip.new_arr(
        st, LB, "adjoint", Tup([sym("n_dof", "s"), const(n)]))
    s, v = run.call("objectives_multi_load", st=st)
    if s is None:
        return ctx.bad("objective", L, where, "fails on every path")
    J = ip.toT(v, s)
    lam = ip.toT(ip.obj_attr(run.fem, "λ_all", s, None, None), s)
    zero = {WT: const(0.0)}
    for i in range(n):
        run.eq("objective", f"{L}: case {i}", where, tm.subst(tm.gather(
            J, const(i)), zero), const(0.0), "must be zero")
        run.eq("adjoint", f"{L}: case {i}", where, tm.subst(run.col(
            lam, i), zero), const(0.0), "must be zero, whatever an earlier "
            "design left")


def heat(ctx, L, obj, n, same, robin, solver, lists, rng=None, again=False):
    task, N, Tv, RB, RL = heat_task(n, obj, robin, same, lists)
    run = FemRun(ctx, "heat", n, solver, task=task,
                 types={**FLT, **{v: {"float"} for v in Tv}})
    if rng:
        run.ranges = rng
    if again:
        COLS.add(LB)
        run.built.heap[("o", run.fem.oid, "λ_all")] = run.ip.new_arr(
            run.built, LB, "adjoint", Tup([sym("n_dof", "s"), const(n)]))
    where = run.cls.find("objectives_multi_load", ctx.proj).where
    s, v = run.call("objectives_multi_load", force_scale=FS)
    if s is None:
        return ctx.bad("state solve", L, where, "the state solve fails on "
                       "every path")
    R = Heat(run, N, Tv, RB, RL, robin)
    ip = run.ip
    u, J = ip.content(run.u, s), ip.toT(v, s)
    lam = ip.toT(ip.obj_attr(run.fem, "λ_all", s, None, None), s)
    for i in range(n):
        run.eq("temperature", f"{L}: case {i}", where, run.col(u, i),
               R.T[i], f"column {i} must solve the conduction problem with "
               f"its own prescribed temperatures")
    if obj == "compliance":
        for i in range(n):
            run.eq("objective", f"{L}: case {i}", where,
                   tm.gather(J, const(i)),
                   mk("matmul", R.T[i], mk("matmul", R.K, R.T[i])),
                   "thermal compliance must be T.(K T)")
            run.eq("adjoint", f"{L}: case {i}", where, run.col(lam, i),
                   tm.mul(const(-2.0), R.T[i]), "adjoint of the thermal "
                   "compliance must be -2 T")
    elif obj == "averaged_temp":
        for i in range(n):
            run.eq("objective", f"{L}: case {i}", where,
                   tm.gather(J, const(i)), tm.call("np.sum", R.T[i]),
                   "averaged temperature objective must sum the "
                   "temperatures of its own case")
            run.eq("adjoint", f"{L}: case {i}", where, run.col(lam, i),
                   R.solve(i, const(1.0), const(0.0)),
                   "adjoint must solve K l = 1 with l = 0 where the "
                   "temperature is prescribed")
    else:
        hx(ctx, run, R, L, where, J, lam, n)
    # energies, with the state and adjoint just computed
    s2, v = ip.meth(run.fem, "energy_multi_load", [RHO, P, run.u], {},
                    s.fork())
    if s2 is None:
        return ctx.bad("energy", L, where, "the energy evaluation fails on "
                       "every path")
    W = ip.toT(v, s2)
    for i in range(n):
        g = mk("attr", field(R.basis, R.T[i]), "grad")
        if obj == "compliance":
            e = tm.mul(const(0.5), tm.mul(R.k, H("dot", g, g)))
        else:
            e = H("dot", g, mk("attr", field(R.basis, run.col(lam, i)),
                               "grad"))
        run.eq("energy", f"{L}: case {i}", where, run.col(W, i),
               elemental(e, R.basis), "elementwise energy of its own case")


def hx(ctx, run, R, L, where, J, lam, n):
    cb = tm.call("skfem.CellBasis", mk("attr", R.basis, "mesh"),
                 mk("attr", R.basis, "elem"))
    rf = field(cb, R.rn)
    ifc = interface(rf)
    den = tm.call("np.sum", elemental(ifc, cb))
    some = tm.cmp_("lt", const(1e-16), den)
    one = mk("eq", WT, const(0.0))

    def num(i):
        return tm.call("np.sum", elemental(tm.mul(tm.mul(tm.neg(
            TENV), HC), tm.mul(tm.sub(field(cb, R.T[i]), TENV), ifc)), cb))
    hxs = [tm.div(num(i), den) for i in range(n)]
    avs = [tm.call("np.sum", R.T[i]) for i in range(n)]
    big = const(1e-12)

    def scale(xs):
        m = const(0.0)
        for x in xs:
            m = tm.add(m, mk("abs", x))
        return tm.tmax(tm.div(m, const(float(n))), big)
    for i in range(n):
        a, b = hxs[i], avs[i]
        if n > 1:
            a, b = tm.div(a, scale(hxs)), tm.div(b, scale(avs))
        want = tm.ite(one, hxs[i], tm.add(a, tm.mul(WT, b)))
        for w0 in (const(0), WT):
            sub = {WT: const(0.0)} if w0 is not WT else {}
            run.eq("objective", f"{L}: case {i}" + (
                " (weighted)" if w0 is WT else ""), where,
                tm.subst(tm.gather(J, const(i)), sub), tm.subst(want, sub),
                "heat exchange must be -int T_env h (T-T_env)|grad rho| / "
                "int |grad rho|, plus the weighted temperatures",
                assume=some)
        run.eq("adjoint at prescribed dofs", f"{L}: case {i}", where,
               tm.store(OUT, R.D[i], run.col(lam, i)),
               tm.store(OUT, R.D[i], const(0.0)),
               "the adjoint must vanish where the temperature is prescribed")
        # K l = dJ/dT, with the plain or the density-dependent coefficient
        q = run.ip.toT(run.ip.obj_attr(run.fem, "q", run.built, None, None),
                       run.built)
        for w0 in (const(0), WT):
            sub = {WT: const(0.0)} if w0 is not WT else {}
            wants = []
            for h in (HC, R.h_eff(rf, q), field(cb, R.h_eff(R.rn, q))):
                rhs = tm.div(asm("LinearForm", tm.mul(tm.mul(tm.neg(
                    TENV), h), tm.mul(ifc, V_)), cb), den)
                l0, l1 = R.solve(i, rhs, const(0.0)), R.solve(
                    i, const(1.0), const(0.0))
                a, b = l0, tm.mul(WT, l1)
                if n > 1:
                    a, b = tm.div(a, scale(hxs)), tm.div(b, scale(avs))
                wants.append(tm.subst(tm.ite(one, l0, tm.add(a, b)), sub))
            run.one_of("adjoint", f"{L}: case {i}" + (
                " (weighted)" if w0 is WT else ""), where,
                tm.subst(run.col(lam, i), sub), wants, "adjoint must solve "
                "K l = dJ/dT, dJ/dT = -T_env h |grad rho| / int |grad rho| "
                "plus the weighted sum of temperatures", assume=some)


def heat_unknown(ctx):
    task, N, Tv, RB, RL = heat_task(1, "no_such_objective", "1", False)
    run = FemRun(ctx, "heat", 1, "spsolve", task=task, types=FLT)
    f = run.cls.find("objectives_multi_load", ctx.proj)
    s, v = run.call("objectives_multi_load")
    ctx.fact(s is None, "unknown objective", "objectives_multi_load",
             f.where, "refused on every path", "an unknown objective name "
             "must be refused, not evaluated as another one")


def compliance_gradient(basis, dk, T, q, robin):
    """derivative of T.(K T) with the adjoint -2T at a fixed state"""
    g = mk("attr", field(basis, T), "grad")
    want = tm.neg(tm.mul(dk, elemental(H("dot", g, g), basis)))
    if robin == "none":
        return want
    rf = field(basis, nodal(basis, RHO))
    gr = mk("attr", rf, "grad")
    x = sym("x~", "a")

    def law_(r):
        return tm.mul(mk("pow", r, P), mk("pow", tm.sub(const(1.0), r), q))
    da = tm.subst(tm.diff(law_(x), x), {x: rf})
    th = field(basis, T)
    phi = tm.sub(tm.mul(tm.mul(const(2.0), TENV), th), tm.mul(th, th))
    norm = interface(rf)
    lin = tm.mul(HC, tm.add(
        tm.mul(tm.mul(da, norm), tm.mul(phi, V_)),
        tm.div(tm.mul(tm.mul(law_(rf), phi), H("dot", gr, H("grad", V_))),
               norm)))
    return tm.add(want, mk("call", "to.elements", asm("LinearForm", lin,
                                                      basis), basis))


def heat_sensitivity(ctx, model, n, robin):
    """gradient of the thermal compliance at a fixed state"""
    L = f"{model}/{n} case{'s' * (n > 1)}/robin={robin}"
    task, N, Tv, RB, RL = heat_task(n, "compliance", robin, False)
    fn = ctx.proj.need(COMP + model.lower() + "_interpolation")
    run = FemRun(ctx, "heat", n, "spsolve", task=task, mat=Fn(fn), types={
        **FLT, P: {"float"}, **{v: {"float"} for v in Tv}})
    f = run.cls.find("compliance_sensitivity_multi_load", ctx.proj)
    if f is None:
        return None
    ip = run.ip
    s, v = run.ip.meth(run.fem, f.name, [RHO, P, run.u], {},
                       run.built.fork())
    if s is None:
        return ctx.bad("sensitivity", L, f.where, "the sensitivity fails on "
                       "every path")
    got = ip.toT(v, s)
    k = run.attr("k")
    basis = run.attr("basis")
    y = sym("y~", "a")
    dk = tm.subst(tm.diff(modulus(model, y, k, tm.mul(k, EC), P), y),
                  {y: RHO})
    q = None if robin == "none" else ip.toT(ip.obj_attr(
        run.fem, "q", run.built, None, None), run.built)
    for i in range(n):
        want = compliance_gradient(basis, dk, run.col(run.U0, i), q, robin)
        run.eq("sensitivity", f"{L}: case {i}", f.where, run.col(got, i),
               want, "must be the derivative of T.(K T) with the adjoint "
               "-2T: -(dk/drho) int |grad T|^2 per element, plus the "
               "virtual Robin part")


# --------------------------------------------------------------------- C08
STUBBED = ("objectives_multi_load", "energy_multi_load",
           "compliance_sensitivity_multi_load")
CMIN = sym("cfg.E_min_coeff", "s")
DOMS.update({"cfg.E_min_coeff": (0.01, 0.5), "tsk.material_coef": (1., 9.)})


def c08(ctx):
    """The solver an optimizer builds uses the configured material law,
    stiffness ratio and linear solver, in states and in gradients."""
    for opt in ("OC", "LogMOC"):
        for kind in TASKS:
            for model in ("SIMP", "RAMP"):
                for solver in ("spsolve", "petsc") if model == "SIMP" else \
                        ("spsolve",):
                    L = f"{opt}/{kind}/{model}/{solver}"
                    ctx.section(L, wiring, ctx, L, opt, kind, model, solver)
    for opt in ("OC", "LogMOC"):
        ctx.section("unknown law", unknown_law, ctx, opt)


def built(ctx, opt, kind, model, solver):
    alg = Algebra(Tensor(kind == "elastic"))
    alg.n = 1
    sc = ctx.proj.need("sktopt.fea.solver_elastic.LinearSolverConfig")
    F = sym("F0", "a")

    def scfg(ip, st):
        o = ip.sym_obj(st, sc, "cfg.solver_config")
        st.heap[("o", o.oid, "solver")] = const(solver)
        return o
    if kind == "elastic":
        task = {"neumann_linear": lambda ip, st: ip.new_list(st, [F]),
                "dirichlet_dofs": lambda ip, st: ip.new_arr(st, D, "D"),
                "free_dofs": lambda ip, st: ip.new_arr(st, FREE_D, "free")}
        rest = None
    else:
        task, *rest = heat_task(1, "compliance", "1", False)
    run = OptRun(ctx, opt, kind, cfg_fixed={
        "interpolation": model, "solver_config": scfg}, until="built",
        unstub=STUBBED, extra_models=models(ctx), task_fixed=task,
        types={**FLT, P: {"float"}, sym("T0", "s"): {"float"}})
    run.alg, run.n, run.rest, run.F = alg, 1, rest, F
    return run


def wiring(ctx, L, opt, kind, model, solver):
    run = built(ctx, opt, kind, model, solver)
    ip, s = run.ip, run.built.fork()
    fem = ip.obj_attr(run.opt, "fem", s, None, None)
    cls = run.femc
    where = run.optc.find("__init__", ctx.proj).where
    u0 = sym("u.before", "a")
    COLS.add(u0)
    u = ip.new_arr(s, u0, "u", Tup([sym("n_dof", "s"), const(1)]))
    mark = len(ip.trace)
    s, v = ip.meth(fem, "objectives_multi_load", [RHO, P, u], {}, s)
    if s is None:
        return ctx.bad("material", L, where, "the state solve fails on "
                       "every path")

    def attr(n):
        return ip.toT(ip.obj_attr(run.tsk, n, s, None, None), s)
    basis = attr("basis")
    e0 = attr("E" if kind == "elastic" else "k")
    law_ = modulus(model, RHO, e0, tm.mul(e0, CMIN), P)
    col = mk("idx", tm.FULL, const(0))

    def eq(rule, c, got, want, text):
        return ctx.equal(rule, f"{L}: {c}", where, got, want, DOMS, text,
                         model=run.alg, allowed=ALLOWED, tol=1e-6)
    T = tm.gather(ip.content(u, s), col)
    if kind == "elastic":
        K = asm("BilinearForm", elastic_form(U_, V_, law_, attr("nu")),
                basis)
        T0 = mk("call", "lin.solve", mk("call", "enforced", K, D),
                tm.store(run.F, D, const(0.0)))
    else:
        N, Tv, RB, RL = run.rest
        q = ip.toT(ip.obj_attr(fem, "q", s, None, None), s)
        R = Heat.__new__(Heat)
        R.build(basis, law_, q, N, Tv, RB, RL)
        T0 = R.T[0]
    eq("material", "state", T, T0, f"the state must be solved with {model} "
       f"moduli between E_min_coeff times the material's and the "
       f"material's")
    s2, v = ip.meth(fem, "energy_multi_load", [RHO, P, u], {}, s.fork())
    if s2 is not None:
        if kind == "elastic":
            w = strain_energy(basis, T0, law_, attr("nu"))
        else:
            g = mk("attr", field(basis, T0), "grad")
            w = tm.mul(const(0.5), tm.mul(law_, H("dot", g, g)))
        eq("material", "energy", tm.gather(ip.toT(v, s2), col),
           elemental(w, basis), "the energies must use the moduli of the "
           "state")
    if kind == "heat" and cls.find("compliance_sensitivity_multi_load",
                                   ctx.proj):
        y = sym("y~", "a")
        u = ip.new_arr(s, u0, "u", Tup([sym("n_dof", "s"), const(1)]))
        s3, v = ip.meth(fem, "compliance_sensitivity_multi_load",
                        [RHO, P, u], {}, s.fork())
        if s3 is not None:
            dk = tm.subst(tm.diff(modulus(model, y, e0, tm.mul(e0, CMIN),
                                          P), y), {y: RHO})
            eq("material", "gradient", tm.gather(ip.toT(v, s3), col),
               compliance_gradient(basis, dk, tm.gather(u0, col), q, "1"),
               "the gradient must differentiate the configured law")
    es = [e for e in ip.trace[mark:] if e.name == "lin.solve"]
    hows = {e.extra["how"] for e in es[:1]}     # a fallback may follow
    want = {"petsc", "petsc-multi"} if solver == "petsc" else {
        "spsolve", "splu", "skfem.solve"}
    if hows:
        ctx.fact(hows <= want, "linear solver", L, where,
                 f"solved by {sorted(hows)}", f"configured {solver}, but "
                 f"solved by {sorted(hows)}")


def unknown_law(ctx, opt):
    try:
        built(ctx, opt, "elastic", "no_such_law", "spsolve")
    except RuntimeError:
        return ctx.ok("unknown law", opt, "refused on every path")
    return ctx.bad("unknown law", opt, "common_density.py", "an "
                   "interpolation name that does not exist is accepted")


# --------------------------------------------------------------------- C32
def c32(ctx):
    """Weak forms, element energies and stresses against one constitutive
    law, as polynomial identities of their integrands on random fields."""
    ctx.section("elastic forms", elastic_forms, ctx)
    ctx.section("heat forms", heat_forms, ctx)
    ctx.section("von mises", von_mises, ctx)


def form_env(ctx, vector):
    ip = ctx.ip(models(ctx))
    st = State()
    alg = Algebra(Tensor(vector))
    alg.n = 2
    b = sym("basis", "s")
    return ip, st, alg, b


def law(ctx, alg, rule, what, where, got, want, text):
    if got is None:
        return ctx.unsure(rule, what, "no single form", where)
    if any(x.op == "sym" and x.args[0] == "form.V" for x in
           tm.subterms(want)) and got.args[0] != "matrix.entry":
        got = mk("call", "form.value", got)
    if any(x.op == "sym" and x.args[0] == "form.V" for x in
           tm.subterms(want)):
        want = mk("call", "form.value", want)
    return ctx.equal(rule, what, where, got, want, DOMS, text, model=alg,
                     allowed=ALLOWED, tol=1e-6)


E0S, EMIN, NU = sym("E0", "s"), sym("Emin", "s"), sym("nu", "s")
DOMS.update({"nu": (0.05, 0.45), "E0": (1.0, 3.0), "Emin": (0.05, 0.5),
             "tsk.nu": (0.05, 0.45), "E_min_coeff": (0.01, 0.5)})


def elastic_forms(ctx):
    proj = ctx.proj
    Es = mk("call", "stiffness.of", RHO, E0S, EMIN, P)
    u = sym("u", "a")
    U = sym("U", "a")
    COLS.add(U)
    for q in (COMP + "assemble_stiffness_matrix",):
        fi = proj.need(q)
        ip, st, alg, b = form_env(ctx, True)
        s, v = ip.run(Fn(fi), [b, RHO, E0S, EMIN, P, NU, material()], {}, st)
        if s is None:
            ctx.bad("stiffness", q, fi.where, "assembly fails on every path")
            continue
        law(ctx, alg, "stiffness", fi.name, fi.where, integrand(ip.toT(
            v, s), b, "BilinearForm", ctx, fi), elastic_form(
                U_, V_, Es, NU), "stiffness integrand must be lam tr(e(u)) "
            "tr(e(v)) + 2 mu e(u):e(v) with the interpolated modulus")
    for name, model in (("assemble_stiffness_matrix_simp", "SIMP"),
                        ("assemble_stiffness_matrix_ramp", "RAMP")):
        fi = proj.lookup(COMP + name)
        if fi is None:
            continue
        ip, st, alg, b = form_env(ctx, True)
        s, v = ip.run(Fn(fi), [b, RHO, E0S, EMIN, P, NU], {}, st)
        E = modulus(model, RHO, E0S, EMIN, P)
        if s is not None:
            law(ctx, alg, "stiffness", name, fi.where, integrand(ip.toT(
                v, s), b, "BilinearForm", ctx, fi), elastic_form(
                    U_, V_, E, NU), f"stiffness with {model} moduli")
    for m in ("sktopt.fea.solver_elastic.", COMP):
        for name, multi in (("strain_energy_skfem", False),
                            ("strain_energy_skfem_multi", True)):
            fi = proj.lookup(m + name)
            if fi is None:
                continue
            ip, st, alg, b = form_env(ctx, True)
            a = ip.new_arr(st, U if multi else u, "u", Tup(
                [sym("n_dof", "s"), const(2)]) if multi else None)
            s, v = ip.run(Fn(fi), [b, RHO, a, E0S, EMIN, P, NU, material()],
                          {}, st)
            if s is None:
                ctx.bad("strain energy", m + name, fi.where,
                        "the energy fails on every path")
                continue
            got = ip.toT(v, s)
            for i in range(2 if multi else 1):
                col = mk("idx", tm.FULL, const(i))
                ui = tm.gather(U, col) if multi else u
                law(ctx, alg, "strain energy", f"{m}{name}" + (
                    f" column {i}" if multi else ""), fi.where,
                    tm.gather(got, col) if multi else got, elemental(
                        strain_energy(b, ui, Es, NU), b),
                    "element energy must be 1/2 stress:strain with the "
                    "moduli of the stiffness matrix")
    fi = proj.lookup(COMP + "stress_tensor_skfem")
    if fi is not None:
        ip, st, alg, b = form_env(ctx, True)
        s, v = ip.run(Fn(fi), [b, RHO, u, E0S, EMIN, P, NU, material()], {},
                      st)
        if s is not None:
            g = integrand(ip.toT(v, s), b, "Functional", ctx, fi)
            f = field(b, u)
            lam, mu = lame(Es, NU)
            e = H("sym_grad", f)
            want = tm.add(tm.mul(tm.mul(const(2.0), mu), e), tm.mul(
                lam, tm.mul(H("trace", e), H("identity", f))))
            if g is not None:
                for i in range(3):
                    for j in range(3):
                        law(ctx, alg, "stress", f"stress component {i}{j}",
                            fi.where, comp_(g, i, j), comp_(want, i, j),
                            "stress must be 2 mu e + lam tr(e) I")


def comp_(t, i, j):
    return mk("call", "tensor.component", t, const(i), const(j))


def integrand(t, basis, kind, ctx, fi):
    """the integrand of one assembled form over the basis given"""
    if t.op == "call" and t.args[0] in ("form.assemble", "form.elemental"):
        ctx.fact(t.args[1] is const(kind) and t.args[3] is basis, "form",
                 fi.name, fi.where, f"one {kind} over the basis given",
                 f"must be one {kind} over the basis given")
        return t.args[2]
    if kind == "BilinearForm":
        return mk("call", "matrix.entry", t)
    return None


def heat_forms(ctx):
    proj = ctx.proj
    ks = mk("call", "stiffness.of", RHO, E0S, EMIN, P)
    T0, TT = sym("T", "a"), sym("T.all", "a")
    COLS.add(TT)
    fi = proj.need(COMP + "assemble_conduction_matrix")
    ip, st, alg, b = form_env(ctx, False)
    s, v = ip.run(Fn(fi), [b, RHO, E0S, EMIN, P, material()], {}, st)
    if s is None:
        ctx.bad("conduction", fi.name, fi.where, "assembly fails")
    else:
        law(ctx, alg, "conduction", fi.name, fi.where, integrand(ip.toT(
            v, s), b, "BilinearForm", ctx, fi), tm.mul(ks, H(
                "dot", H("grad", U_), H("grad", V_))),
            "conduction integrand must be k grad(u).grad(v)")
    m = "sktopt.fea.solver_heat."
    L2 = sym("l.all", "a")
    COLS.add(L2)

    def gd(x, i=None):
        u = x if i is None else tm.gather(x, mk("idx", tm.FULL, const(i)))
        return mk("attr", field(b, u), "grad")
    for name, multi, adj in (("heat_energy_skfem", False, False),
                             ("heat_energy_skfem_multi", True, False),
                             ("heat_exchange_grad_density_multi", True, True),
                             ("avg_temp_grad_density_multi", True, True)):
        fi = proj.lookup(m + name)
        if fi is None:
            continue
        ip, st, alg, b = form_env(ctx, False)
        shp = Tup([sym("n_dof", "s"), const(2)])
        if multi:
            a = ip.new_arr(st, TT, "T", shp)
        else:
            a = ip.new_arr(st, T0, "T")
        args = [b, a, ip.new_arr(st, L2, "l", shp)] if adj else [
            b, RHO, a, E0S, EMIN, P, material()]
        s, v = ip.run(Fn(fi), args, {}, st)
        if s is None:
            ctx.bad("heat energy", name, fi.where, "fails on every path")
            continue
        got = ip.toT(v, s)
        for i in range(2 if multi else 1):
            g = gd(TT, i) if multi else gd(T0)
            w = H("dot", g, gd(L2, i)) if adj else tm.mul(
                const(0.5), tm.mul(ks, H("dot", g, g)))
            law(ctx, alg, "heat energy", name + (f" column {i}" if multi
                                                 else ""), fi.where,
                tm.gather(got, mk("idx", tm.FULL, const(i))) if multi
                else got, elemental(w, b), "element energy must use the "
                "conductivity and gradients of its own state")


def von_mises(ctx):
    fi = ctx.proj.lookup(COMP + "von_mises_from_stress_tensor")
    if fi is None:
        return None
    ip = ctx.ip()
    st = State()
    S = sym("stress", "a")
    s, v = ip.run(Fn(fi), [S], {}, st)
    c = [[sym(f"s{min(i, j)}{max(i, j)}", "s") for j in range(3)]
         for i in range(3)]
    got = ip.toT(v, s)
    got = tm.subst(got, {tm.gather(S, mk("idx", const(i), const(j))):
                         c[i][j] for i in range(3) for j in range(3)})
    third = const(1.0 / 3.0)
    tr = tm.add(tm.add(c[0][0], c[1][1]), c[2][2])
    tot = const(0.0)
    for i in range(3):
        for j in range(3):
            d = c[i][j] if i != j else tm.sub(c[i][j], tm.mul(third, tr))
            tot = tm.add(tot, tm.mul(d, d))
    ctx.equal("von mises", fi.name, fi.where, got, mk("sqrt", tm.mul(
        const(1.5), tot)), {}, "von Mises stress must be sqrt(3/2 dev:dev)")
