"""Abstract interpreter: turns a repo function into gated value terms.

Every path of the analysed function is covered: branches are forked and joined
with gates (gated SSA), loops over unknown ranges are summarised with
mu-symbols at the loop header, calls into the repository are inlined with
their resolved callee, and everything outside it is an uninterpreted call.
Nothing is executed.
"""
from __future__ import annotations
import ast
import math
import re
from . import nd
from . import terms as tm
from .terms import T, mk, const, NONE, TRUE, FALSE
from .values import (Arr, Obj, Lst, Dct, Tup, Fn, Bound, Cls, ModV, Meth,
                     Gate, Super, GenCtx, Model, Slot, MISSING, new_id)
from .project import (Project, FnInfo, ClsInfo, Module, Ext, canon,
                      AnalysisError)


class PathDead(Exception):
    """no execution continues past this point"""


class Budget(Exception):
    pass


class State:
    __slots__ = ("heap", "pc", "pending", "_facts")

    def __init__(self, heap=None, pc=(), pending=()):
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.pending = pending
        self._facts = None

    def fork(self, cond=None):
        s = State(dict(self.heap), self.pc, self.pending)
        if cond is not None:
            s.assume(cond)
        else:
            s._facts = self._facts
        return s

    def assume(self, cond):
        if cond is TRUE:
            return
        self.pc = self.pc + (cond,)
        self._facts = None

    def become(self, o):
        self.heap = o.heap
        self.pc = o.pc
        self.pending = o.pending
        self._facts = o._facts

    def facts(self):
        if self._facts is None:
            f = {}
            eqs = {}
            for c in self.pc:
                _learn(c, True, f, eqs)
            self._facts = (f, eqs)
        return self._facts

    def decide(self, c):
        """True/False when the path condition settles ``c``, else None"""
        if tm.is_const(c):
            return bool(tm.cval(c))
        f, eqs = self.facts()
        v = f.get(c.id)
        if v is not None:
            return v
        if c.op == "not":
            v = self.decide(c.args[0])
            return None if v is None else not v
        if c.op == "and":
            vs = [self.decide(a) for a in c.args]
            if any(v is False for v in vs):
                return False
            if all(v is True for v in vs):
                return True
            return None
        if c.op == "or":
            vs = [self.decide(a) for a in c.args]
            if any(v is True for v in vs):
                return True
            if all(v is False for v in vs):
                return False
            return None
        if c.op in ("eq", "ne"):
            a, b = c.args
            if tm.is_const(a):
                a, b = b, a
            if tm.is_const(b) and a.id in eqs:
                r = eqs[a.id] == tm.cval(b)
                return r if c.op == "eq" else not r
            o = f.get(tm.mk("ne" if c.op == "eq" else "eq", *c.args).id)
            if o is not None:
                return not o
        if c.op in _MIRROR:
            a, b = c.args
            v = f.get(mk(_MIRROR[c.op], b, a).id)
            if v is not None:
                return v
            if _ordered(a) and _ordered(b):     # no nan: one of the two holds
                n = _CONVERSE[c.op]
                for x in (mk(n, a, b), mk(_MIRROR[n], b, a)):
                    v = f.get(x.id)
                    if v is not None:
                        return not v
        if c.op in ("is", "isnot"):
            a, b = c.args
            if b is NONE and a.id in eqs:
                r = eqs[a.id] is None
                return r if c.op == "is" else not r
        if c.op == "call" and c.args[0] == "truth" and c.args[1].id in eqs:
            return bool(eqs[c.args[1].id])
        return None


_MIRROR = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}


_CONVERSE = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}


def _ordered(t):
    """built from constants, settings and counters: never nan"""
    return all(x.op in ("const", "sym", "mu", "it", "add", "sub", "mul", "min",
                        "max", "mod", "floordiv", "ite", "lt", "le", "gt",
                        "ge", "eq", "ne", "not", "and", "or")
               or x.op == "call" and x.args[0] in ("more", "broke", "ran",
                                                   "len")
               for x in tm.subterms(t))


def _learn(c, val, f, eqs):
    f[c.id] = val
    if c.op == "not":
        _learn(c.args[0], not val, f, eqs)
    elif c.op == "and" and val:
        for a in c.args:
            _learn(a, True, f, eqs)
    elif c.op == "or" and not val:
        for a in c.args:
            _learn(a, False, f, eqs)
    elif c.op == "or" and val:
        rest = [a for a in c.args if f.get(a.id) is not False]
        if len(rest) == 1:
            _learn(rest[0], True, f, eqs)
    elif c.op == "is":
        f[mk("isnot", *c.args).id] = not val
        if val and c.args[1] is NONE:
            eqs[c.args[0].id] = None
    elif c.op == "isnot":
        f[mk("is", *c.args).id] = not val
        if not val and c.args[1] is NONE:
            eqs[c.args[0].id] = None
    elif (c.op == "eq" and val) or (c.op == "ne" and not val):
        a, b = c.args
        if tm.is_const(a):
            a, b = b, a
        if tm.is_const(b) and not tm.is_const(a):
            eqs[a.id] = tm.cval(b)


class Flow:
    __slots__ = ("kind", "st", "val", "node")

    def __init__(self, kind, st, val=None, node=None):
        self.kind = kind
        self.st = st
        self.val = val
        self.node = node


class Frame:
    __slots__ = ("env", "info", "mod", "cls", "parents", "captured", "name",
                 "yield_cb", "globals")

    def __init__(self, env, info, mod, cls, parents, name):
        self.env = env
        self.info = info
        self.mod = mod
        self.cls = cls
        self.parents = parents
        self.captured = False
        self.name = name
        self.yield_cb = None
        self.globals = set()


class Event:
    __slots__ = ("kind", "name", "args", "kws", "pc", "node", "where",
                 "result", "loops", "extra", "stack", "order")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    def arg(self, i, name=None):
        if name is not None and self.kws and name in self.kws:
            return self.kws[name]
        if self.args is not None and i is not None and i < len(self.args):
            return self.args[i]
        return None

    def __repr__(self):
        return f"<{self.kind} {self.name} @{self.where}:{self.line}>"


class LoopInfo:
    def __init__(self, lid, node, where):
        self.id = lid
        self.node = node
        self.where = where
        self.init = {}      # key -> value at entry
        self.mu = {}        # key -> mu symbol / value at header
        self.next = {}      # key -> value at the end of one iteration
        self.breaks = []    # states at break
        self.exit_cond = None   # condition at header under which it ends
        self.bound = None       # iteration count term (for loops)
        self.labels = {}
        self.terms = []     # (mu, value at entry, value after one pass)
        self.itv = None
        self.kind = None
        self.end = None
        self.entry_pc = ()
        self.header = None


class ArrMeta:
    __slots__ = ("label", "shape", "src", "types")

    def __init__(self, label, shape=None, src=None):
        self.label = label
        self.shape = shape
        self.src = src
        self.types = None


TRUTHS = {"isinstance", "hasattr", "callable", "truth", "np.any", "broke",
          "ran", "more", "np.all", "np.allclose", "np.isclose", "any", "all",
          "np.array_equal", "os.path.exists", "bool"}
ARITH = {"add", "sub", "mul", "div", "floordiv", "mod", "pow", "neg", "abs",
         "min", "max"}


def boolish(t):
    """the value is True or False"""
    if t.op == "ite":
        return boolish(t.args[1]) and boolish(t.args[2])
    return t.op in BOOLISH or t.op == "call" and t.args[0] in TRUTHS \
        or t.op == "const" and isinstance(tm.cval(t), bool)


def gate_leaves(v):
    if isinstance(v, Gate):
        return gate_leaves(v.a) + gate_leaves(v.b)
    return [v]


RE_FUNCS = {"match", "search", "fullmatch", "findall", "sub", "split"}
BOOLISH = {"lt", "le", "gt", "ge", "eq", "ne", "and", "or", "not", "is",
           "isnot", "in", "notin", "isfinite", "isnan"}

ELEM1 = {
    "abs": "abs", "absolute": "abs", "fabs": "abs", "exp": "exp",
    "log": "log", "tanh": "tanh", "sqrt": "sqrt", "cosh": "cosh",
    "sinh": "sinh", "sin": "sin", "cos": "cos", "sign": "sign",
    "floor": "floor", "ceil": "ceil", "log1p": "log1p", "expm1": "expm1",
    "isfinite": "isfinite", "isnan": "isnan", "log10": "log10",
    "log2": "log2",
}
ELEM2 = {
    "add": tm.add, "subtract": tm.sub, "multiply": tm.mul,
    "divide": tm.div, "true_divide": tm.div, "power": tm.pow_,
    "maximum": tm.tmax, "minimum": tm.tmin, "fmax": tm.tmax,
    "fmin": tm.tmin, "float_power": tm.pow_,
    "greater": lambda a, b: tm.cmp_("gt", a, b),
    "greater_equal": lambda a, b: tm.cmp_("ge", a, b),
    "less": lambda a, b: tm.cmp_("lt", a, b),
    "less_equal": lambda a, b: tm.cmp_("le", a, b),
    "equal": lambda a, b: tm.cmp_("eq", a, b),
    "not_equal": lambda a, b: tm.cmp_("ne", a, b),
    "logical_and": tm.and_, "logical_or": tm.or_,
    "bitwise_and": tm.and_, "bitwise_or": tm.or_,
    "mod": lambda a, b: mk("mod", a, b),
    "remainder": lambda a, b: mk("mod", a, b),
    "floor_divide": lambda a, b: mk("floordiv", a, b),
}
# array methods that have the meaning of the np function of that name
NP_METHODS = {
    "sum", "mean", "max", "min", "std", "any", "all", "prod", "ptp", "ravel",
    "reshape", "transpose", "cumsum", "argsort", "argmax", "argmin", "dot",
    "clip", "repeat", "squeeze", "nonzero", "round", "var", "conj",
    "swapaxes", "take", "put", "compress",
}
EXC = {"ValueError", "RuntimeError", "NotImplementedError", "TypeError",
       "KeyError", "Exception", "AssertionError", "AttributeError",
       "FileNotFoundError", "ImportError", "IndexError", "OSError",
       "ZeroDivisionError", "ModuleNotFoundError", "StopIteration",
       "BaseException", "ArithmeticError", "LookupError",
       "FloatingPointError", "OverflowError", "KeyboardInterrupt"}
SET_AUG = {ast.BitOr: "update", ast.BitAnd: "intersection_update",
           ast.Sub: "difference_update",
           ast.BitXor: "symmetric_difference_update"}
BINOP = {
    ast.Add: tm.add, ast.Sub: tm.sub, ast.Mult: tm.mul, ast.Div: tm.div,
    ast.Pow: tm.pow_,
}
CMPOP = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge",
         ast.Eq: "eq", ast.NotEq: "ne"}
PY_TYPES = {"list", "dict", "tuple", "set", "str", "int", "float", "bool",
            "type", "object", "bytes", "complex", "frozenset"}


NEVER_NONE = {"np.linalg.norm", "np.sum", "np.mean", "np.max", "np.min",
              "np.median", "np.percentile", "np.std", "np.prod", "np.dot",
              "np.any", "np.all", "len", "str", "np.abs", "np.ptp"}


# scikit-fem's corner numbering against that of the mesh file formats (the
# eight corners; the further entries concern quadratic elements)
HEXMAPS = {
    "HEX_MAPPING": (0, 3, 6, 2, 1, 5, 7, 4, 10, 16, 14, 9, 12, 18, 17, 11,
                    8, 15, 19, 13, 20, 25, 22, 23, 21, 24, 26),
    "INV_HEX_MAPPING": (0, 4, 3, 1, 7, 5, 2, 6, 16, 11, 8, 15, 12, 19, 10,
                        17, 9, 14, 13, 18, 20, 24, 22, 23, 25, 21, 26),
}


_GROWS = {"append", "pop", "extend", "insert", "remove", "clear", "add",
          "discard", "update", "popleft", "appendleft", "popitem",
          "setdefault"}


def counted_while(s):
    """(assignments, loop over a range) that a while loop with a counter is:
    the counter moves by one at one place of the body, reached on every pass
    that goes on, and the limit is not touched inside.  None if it is not of
    that form."""
    test, body = s.test, list(s.body)
    flip = {ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Lt: ast.GtE}
    if isinstance(test, ast.Constant) and test.value in (True, 1):
        b = body[0]
        if s.orelse or not (isinstance(b, ast.If) and not b.orelse and len(
                b.body) == 1 and isinstance(b.body[0], ast.Break)):
            return None
        test, body = b.test, body[1:]
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test = test.operand
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and type(
                test.ops[0]) in flip:
            test = ast.Compare(test.left, [flip[type(test.ops[0])]()],
                               test.comparators)
        else:
            return None
    rest = []
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
        test, rest = test.values[0], test.values[1:]
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1) or not body:
        return None
    op, a, b = test.ops[0], test.left, test.comparators[0]
    back = {ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Lt: ast.Gt, ast.LtE: ast.GtE}
    cand = [(a, op, b)]
    if type(op) in back:
        cand.append((b, back[type(op)](), a))
    for c, op, lim in cand:
        c, off = _plus_const(c)
        if not isinstance(c, ast.Name):
            continue
        name = c.id
        stores = [n for x in body for n in ast.walk(x) if isinstance(
            n, ast.Name) and n.id == name and not isinstance(
                n.ctx, ast.Load)]
        if len(stores) != 1:
            continue
        step = at = None
        for j, x in enumerate(body):
            v = None
            if isinstance(x, ast.AugAssign) and isinstance(
                    x.target, ast.Name) and x.target.id == name:
                v = (x.op, x.value)
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and \
                    isinstance(x.targets[0], ast.Name) and \
                    x.targets[0].id == name and isinstance(
                        x.value, ast.BinOp):
                w = x.value
                if isinstance(w.left, ast.Name) and w.left.id == name:
                    v = (w.op, w.right)
                elif isinstance(w.op, ast.Add) and isinstance(
                        w.right, ast.Name) and w.right.id == name:
                    v = (w.op, w.left)
            if v and isinstance(v[1], ast.Constant) and v[1].value == 1:
                if isinstance(v[0], ast.Add):
                    step, at = 1, j
                elif isinstance(v[0], ast.Sub):
                    step, at = -1, j
        if step is None or any(_own_continue(x) for x in body[:at]):
            continue
        if isinstance(op, ast.Lt if step > 0 else ast.Gt):
            k = -off
        elif isinstance(op, ast.LtE if step > 0 else ast.GtE):
            k = step - off
        else:
            continue
        if not _untouched(lim, body, name) or (at == 0 and rest):
            continue
        # the counter runs from its value to (excluding) lim + k; its last
        # value is that limit, or the one it had if there was no pass
        first, last = f"{name}@first", f"{name}@limit"
        begin, end = ast.Name(first, ast.Load()), ast.Name(last, ast.Load())
        if at == 0:
            body = body[1:] or [ast.Pass()]
            begin, end = _shift(begin, step), _shift(end, step)
        args = [begin, end] + ([] if step == 1 else [_shift(None, step)])
        if rest:
            c = rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest)
            body = [ast.If(ast.UnaryOp(ast.Not(), c), [
                ast.Break()], [])] + body
        after = ast.Assign([ast.Name(name, ast.Store())], ast.Call(
            ast.Name("max" if step > 0 else "min", ast.Load()),
            [ast.Name(first, ast.Load()), ast.Name(last, ast.Load())], []))
        pre = [ast.Assign([ast.Name(first, ast.Store())],
                          ast.Name(name, ast.Load())),
               ast.Assign([ast.Name(last, ast.Store())], _shift(lim, k))]
        n = ast.For(ast.Name(name, ast.Store()), ast.Call(
            ast.Name("range", ast.Load()), args, []), body,
            [] if rest else [after] + s.orelse)
        ast.copy_location(n, s)
        for x in (*pre, n):
            for y in ast.walk(x):
                if "lineno" in y._attributes and not hasattr(y, "lineno"):
                    ast.copy_location(y, s)
        return pre, n
    return None


def _plus_const(e):
    """(x, c) of the expression x + c"""
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        if isinstance(e.right, ast.Constant) and type(e.right.value) is int:
            return e.left, e.right.value if isinstance(
                e.op, ast.Add) else -e.right.value
        if isinstance(e.op, ast.Add) and isinstance(
                e.left, ast.Constant) and type(e.left.value) is int:
            return e.right, e.left.value
    return e, 0


def _shift(e, k):
    if e is None:
        return ast.UnaryOp(ast.USub(), ast.Constant(-k)) if k < 0 \
            else ast.Constant(k)
    if k == 0:
        return e
    return ast.BinOp(e, ast.Add() if k > 0 else ast.Sub(),
                     ast.Constant(abs(k)))


def _own_continue(x):
    if isinstance(x, ast.Continue):
        return True
    if isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda,
                      ast.ClassDef)):
        return any(_own_continue(y) for y in getattr(x, "orelse", []) or [])
    return any(_own_continue(y) for y in ast.iter_child_nodes(x))


def _untouched(e, body, counter):
    """an expression of plain names and attributes the body does not set"""
    if any(not isinstance(n, (
            ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.operator,
            ast.expr_context, ast.Call)) for n in ast.walk(e)):
        return False
    names, attrs, sized = {counter}, set(), set()
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            if not (isinstance(n.func, ast.Name) and n.func.id in (
                    "len", "int", "min", "max") and not n.keywords):
                return False
            if n.func.id == "len":
                sized.add(ast.dump(n.args[0]))
        elif isinstance(n, ast.Name):
            if n.id == counter:
                return False
            names.add(n.id)
        elif isinstance(n, ast.Attribute):
            attrs.add(n.attr)
    names.discard(counter)
    for x in body:
        for n in ast.walk(x):
            if isinstance(n, ast.Name) and n.id in names and not isinstance(
                    n.ctx, ast.Load):
                return False
            if isinstance(n, ast.Attribute) and n.attr in attrs and \
                    not isinstance(n.ctx, ast.Load):
                return False
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in _GROWS and \
                    ast.dump(n.func.value) in sized:
                return False
            if isinstance(n, ast.Delete) and sized:
                return False
    return True


class Interp:
    unroll_cap = 40

    def __init__(self, proj: Project, models=None, opaque=(), budget=400000):
        self.proj = proj
        self.models = models or {}
        self.implicit = True    # any statement of a try may raise
        self.opaque = set(opaque)
        self.trace = []
        self.loops = []
        self.hints = {}     # array term -> shape it was created with
        self.arr = {}
        self.types = {}
        self.raise_sinks = [[]]
        self.stack = []
        self.loop_stack = []
        self.steps = 0
        self.budget = budget
        self.muted = 0
        self.notes = []
        self.visited = set()
        self.mods = {}
        self.class_of_sym = {}
        self._glob_cache = {}
        self._mu_cells = {}
        self._globals = {}      # module level containers
        self.born = {}          # their content before anything ran
        self._fn_objs = {}      # attributes put on plain functions
        self.fn_oids = set()
        self.sets = set()       # ids of the Lst that are sets
        self.factory = {}       # defaultdict: id -> factory
        self.copied = set()     # containers copied into another one
        self.stale = False      # ... one of which was changed afterwards
        self._later = set()
        self._missed = set()
        self._locals = {}
        self._lazy = {}
        self.matches = {}       # constant regular-expression matches
        self._sym_objs = {}
        self._indep = set()
        self._loop_ids = {}
        self._counted = {}          # while loop -> the for loop it is
        self._as_for = {}
        self.order = 0
        self.it_depth = 0
        self.attr_hooks = {}
        self.nd = False         # follow small arrays entry by entry
        self.nd_views = set()
        self.max_depth = 45
        self.on_missing_attr = None

    # -------------------------------------------------------------- heap
    def new_arr(self, st, content, label="tmp", shape=None, src=None):
        c = new_id()
        self.arr[c] = ArrMeta(label, shape, src)
        st.heap[("a", c)] = content
        return Arr(c)

    def content(self, a: Arr, st):
        v = st.heap.get(("a", a.cell))
        if v is None:
            v = tm.unk("array of another path")
        for i in a.path:
            v = tm.gather(v, i)
        return v

    def write_to(self, x, val, st, node=None):
        """write into a value that should be an array"""
        if isinstance(x, Gate):
            return self.on_gate(x, st, lambda y, s: self.write_to(
                y, val, s, node) or NONE)
        if isinstance(x, Arr):
            self.write(x, val, st, node)
        elif x is NONE or x is MISSING:
            self.do_raise(st, mk("ext", "builtins.TypeError"), node)
        else:
            self.event("write-unknown", tm.show(self.toT(x, st), 3), st,
                       node)
        return NONE

    def write(self, a: Arr, val: T, st, node=None, how="write"):
        base = st.heap.get(("a", a.cell))
        if base is None:
            base = tm.unk("array of another path")
        old = base
        if not a.path:
            new = val
        else:
            # nested store
            chain = [base]
            for i in a.path[:-1]:
                chain.append(tm.gather(chain[-1], i))
            new = val
            for b, i in zip(reversed(chain), reversed(a.path)):
                new = tm.store(b, i, new)
        st.heap[("a", a.cell)] = new
        sh = self.arr[a.cell].shape
        if sh is not None:
            self.hints.setdefault(new, self.toT(sh, st))
        self.event("write", self.arr[a.cell].label, st, node,
                   args=[a], extra={"cell": a.cell, "old": old, "new": new,
                                    "path": a.path, "value": val})

    def new_obj(self, st, cls, sym=False, path=None):
        return Obj(new_id(), cls, sym, path)

    def new_list(self, st, items, kind="list"):
        o = Lst(new_id(), kind)
        if kind == "set":
            self.sets.add(o.lid)
        st.heap[("l", o.lid)] = tuple(items) if not isinstance(items, T) \
            else items
        return o

    def new_dict(self, st, items=None):
        o = Dct(new_id())
        st.heap[("d", o.did)] = dict(items) if not isinstance(items, T) \
            else items
        return o

    def list_items(self, v, st):
        """tuple of values, or None when the length is not known"""
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, Lst):
            c = st.heap.get(("l", v.lid))
            return c if isinstance(c, tuple) else None
        if isinstance(v, Dct):
            c = st.heap.get(("d", v.did))
            return tuple(const(k) if not isinstance(k, T) else k
                         for k in c) if isinstance(c, dict) else None
        if isinstance(v, T):
            if v.op in ("tuple", "list") and not any(
                    isinstance(x, T) and x.op == "star" for x in v.args):
                return v.args
            if v.op == "const" and isinstance(tm.cval(v), (tuple, str)):
                return tuple(const(x) for x in tm.cval(v))
            if v.op == "call" and v.args[0] == "range" and all(
                    tm.is_const(a) for a in v.args[1:]):
                try:
                    r = range(*[tm.cval(a) for a in v.args[1:]])
                except Exception:
                    return None
                if len(r) <= 64:
                    return tuple(const(i) for i in r)
        return None

    # --------------------------------------------------------------- reify
    def toT(self, v, st, depth=0) -> T:
        if isinstance(v, T):
            return v
        if isinstance(v, Arr):
            return self.content(v, st)
        if isinstance(v, Tup):
            return mk("tuple", *[self.toT(x, st, depth + 1)
                                 for x in v.items])
        if isinstance(v, Lst):
            c = st.heap.get(("l", v.lid))
            if isinstance(c, T):
                return c
            if c is None:
                return tm.unk("list of another path")
            return mk("list" if v.kind == "list" else "set",
                      *[self.toT(x, st, depth + 1) for x in c])
        if isinstance(v, Slot):
            return tm.gather(self.toT(v.dct, st), v.key)
        if isinstance(v, Dct):
            c = st.heap.get(("d", v.did))
            if isinstance(c, T):
                return c
            if c is None:
                return tm.unk("dict of another path")
            a = []
            for k, x in c.items():
                a.append(mk("pair", k if isinstance(k, T) else const(k),
                            self.toT(x, st, depth + 1)))
            return mk("dict", *a)
        if isinstance(v, Obj):
            if v.sym or depth > 4 or v.cls is None:
                return mk("obj", v.path)
            if v.cls.is_dataclass:
                a = []
                for n, _, _ in v.cls.all_fields(self.proj):
                    x = st.heap.get(("o", v.oid, n), MISSING)
                    if isinstance(x, Obj) and x is v:
                        continue
                    a.append(mk("pair", const(n),
                                self.toT(x, st, depth + 1)))
                return mk("obj", v.cls.name, *a)
            return mk("obj", v.cls.name, v.oid)
        if isinstance(v, Gate):
            return tm.ite(v.cond, self.toT(v.a, st, depth + 1),
                          self.toT(v.b, st, depth + 1))
        if isinstance(v, Fn):
            return mk("func", v.info.qual)
        if isinstance(v, Bound):
            return mk("func", v.fn.info.qual,
                      self.toT(v.self, st, depth + 1)
                      if not isinstance(v.self, Cls) else NONE)
        if isinstance(v, Cls):
            return mk("class", v.info.qual)
        if isinstance(v, ModV):
            return mk("module", v.mod.name)
        if isinstance(v, Ext):
            return mk("ext", v.name)
        if isinstance(v, Meth):
            return mk("attr", self.toT(v.recv, st, depth + 1), v.name)
        if isinstance(v, GenCtx):
            return mk("call", v.fn.qual)
        if isinstance(v, Model):
            return mk("func", v.name)
        if v is MISSING:
            return mk("uninit")
        if v is None:
            return NONE
        return tm.unk(f"value {type(v).__name__}")

    # -------------------------------------------------------------- events
    def event(self, kind, name, st, node, args=None, kws=None, result=None,
              extra=None):
        self.order += 1
        e = Event(kind=kind, name=name, args=args, kws=kws, pc=st.pc,
                  node=node, where=self.stack[-1].name if self.stack
                  else "<top>", result=result,
                  loops=tuple(self.loop_stack), extra=extra or {},
                  stack=tuple(f.name for f in self.stack), order=self.order)
        self.trace.append(e)
        return e

    # ------------------------------------------------------------ merging
    def settled(self, v, st):
        """a truth value that the path condition has settled"""
        if st is not None and v.op != "const" and boolish(v):
            d = st.decide(self.truth(v, st))
            if d is not None:
                return TRUE if d else FALSE
        return v

    def merge_val(self, c, a, b, sa, sb):
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return tm.ite(c, self.settled(a, sa), self.settled(b, sb))
        if isinstance(a, Arr) and isinstance(b, Arr) and a.same(b):
            return a
        if isinstance(a, Lst) and isinstance(b, Lst) and a.lid == b.lid:
            return a
        if isinstance(a, Dct) and isinstance(b, Dct) and a.did == b.did:
            return a
        if isinstance(a, Obj) and isinstance(b, Obj) and a.oid == b.oid:
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(
                b.items):
            return Tup([self.merge_val(c, x, y, sa, sb)
                        for x, y in zip(a.items, b.items)])
        if isinstance(a, Fn) and isinstance(b, Fn) and a.info is b.info \
                and a.env == b.env:
            return a
        if isinstance(a, Cls) and isinstance(b, Cls) and a.info is b.info:
            return a
        for side in (0, 1):
            v = (a, b)[side]
            if not isinstance(v, Gate):
                continue
            n = tm.not_(c)
            if v.cond is c:
                w = (v.a, v.b)[side]
            elif v.cond is n:
                w = (v.b, v.a)[side]
            else:
                continue
            return self.merge_val(c, *((w, b) if side == 0 else (a, w)),
                                  sa, sb)
        if isinstance(b, Gate) and isinstance(a, type(b.a)) and (
                a is b.a or (isinstance(a, Arr) and a.same(b.a))):
            return Gate(tm.or_(c, b.cond), a, b.b)
        return Gate(c, a, b)

    def merge2(self, s1: State, s2: State) -> State:
        n = 0
        while n < len(s1.pc) and n < len(s2.pc) and s1.pc[n] is s2.pc[n]:
            n += 1
        c1 = tm.and_(*s1.pc[n:])
        c2 = tm.and_(*s2.pc[n:])
        if c1 is TRUE and c2 is not TRUE:
            # s2's conditions are the informative ones
            s1, s2 = s2, s1
            c1, c2 = c2, c1
        if c1 is FALSE:
            return s2
        c = c1
        h1, h2 = s1.heap, s2.heap
        out = dict(h1)
        for k, v2 in list(h2.items()):
            v1 = h1.get(k, MISSING)
            if v1 is v2:
                continue
            if v1 is MISSING:
                if k in self.born:
                    out[k] = self.merge_content(
                        k, c, self.born[k], v2, s1, s2)
                elif k[0] in ("a", "l", "d"):
                    out[k] = v2
                elif k[0] == "e":
                    if isinstance(v2, T):
                        out[k] = tm.ite(c, mk("uninit"), v2)
                    else:
                        out[k] = Gate(c, MISSING, v2)
                elif k[0] == "o":
                    if ("oid", k[1]) in h1 or k[1] in self.fn_oids:
                        x = self.lazy_side(k, s1)
                        if x is MISSING:
                            out[k] = Gate(c, MISSING, v2)
                        else:
                            if isinstance(x, Arr):
                                out.setdefault(("a", x.cell),
                                               s1.heap[("a", x.cell)])
                            out[k] = x if x is v2 else self.merge_content(
                                k, c, x, v2, s1, s2)
                    else:
                        out[k] = v2
                else:
                    out[k] = v2
                continue
            out[k] = self.merge_content(k, c, v1, v2, s1, s2)
        for k, v1 in list(h1.items()):
            if k not in h2:
                if k in self.born:
                    out[k] = self.merge_content(
                        k, c, v1, self.born[k], s1, s2)
                elif k[0] == "e":
                    if isinstance(v1, T):
                        out[k] = tm.ite(c, v1, mk("uninit"))
                    else:
                        out[k] = Gate(c, v1, MISSING)
                elif k[0] == "o" and (("oid", k[1]) in h2
                                      or k[1] in self.fn_oids):
                    x = self.lazy_side(k, s2)
                    if x is MISSING:
                        out[k] = Gate(c, v1, MISSING)
                    else:
                        if isinstance(x, Arr):
                            out.setdefault(("a", x.cell),
                                           s2.heap[("a", x.cell)])
                        out[k] = x if x is v1 else self.merge_content(
                            k, c, v1, x, s1, s2)
        d = tm.or_(c1, c2)
        if c2 is tm.not_(c1):
            d = TRUE
        st = State(out, s1.pc[:n], s1.pending)
        st.assume(d)
        return st

    def merge_content(self, k, c, v1, v2, s1, s2):
        if k[0] == "l":
            if isinstance(v1, tuple) and isinstance(v2, tuple):
                if len(v1) == len(v2) and (
                        k[1] not in self.sets or len(v1) < 2):
                    return tuple(self.merge_val(c, x, y, s1, s2)
                                 for x, y in zip(v1, v2))
            l = Lst(k[1], "set" if k[1] in self.sets else "list")
            return tm.ite(c, self.toT(l, s1), self.toT(l, s2))
        if k[0] == "d":
            if isinstance(v1, dict) and isinstance(v2, dict):
                if v1 == v2:
                    return v1
                out = {}
                for kk in list(v1) + [x for x in v2 if x not in v1]:
                    x, y = v1.get(kk, MISSING), v2.get(kk, MISSING)
                    if x is MISSING or y is MISSING:
                        out[kk] = Gate(c, x, y) if x is not y else x
                    else:
                        out[kk] = self.merge_val(c, x, y, s1, s2)
                return out
            d = Dct(k[1])
            return tm.ite(c, self.toT(d, s1), self.toT(d, s2))
        if k[0] == "a":
            return tm.ite(c, v1, v2)
        if k[0] == "oid":
            return v1
        return self.merge_val(c, v1, v2, s1, s2)

    def join(self, states):
        groups = []
        for s in states:
            for g in groups:
                if g[0].pending == s.pending:
                    g.append(s)
                    break
            else:
                groups.append([s])
        out = []
        for g in groups:
            m = g[0]
            for s in g[1:]:
                m = self.merge2(m, s)
            out.append(m)
        return out

    def merge_results(self, pairs):
        """[(state, value)] -> (state, value)"""
        st, v = pairs[0]
        for s2, v2 in pairs[1:]:
            n = 0
            while n < len(st.pc) and n < len(s2.pc) \
                    and st.pc[n] is s2.pc[n]:
                n += 1
            c1 = tm.and_(*st.pc[n:])
            c2 = tm.and_(*s2.pc[n:])
            if c1 is TRUE and c2 is not TRUE:
                v = self.merge_val(c2, v2, v, s2, st)
            else:
                v = self.merge_val(c1, v, v2, st, s2)
            st = self.merge2(st, s2)
        return st, v

    def branch(self, st, cond, fa, fb):
        """evaluate fa(st)/fb(st) under cond / not cond, joined into st"""
        d = st.decide(cond)
        if d is True:
            return fa(st)
        if d is False:
            return fb(st)
        pairs = []
        for c, f in ((cond, fa), (tm.not_(cond), fb)):
            s = st.fork(c)
            try:
                v = f(s)
            except PathDead:
                continue
            pairs.append((s, v))
        if not pairs:
            raise PathDead()
        s, v = self.merge_results(pairs)
        st.become(s)
        return v

    def on_gate(self, v, st, f):
        """apply f(value, state) through gates and conditional terms"""
        if isinstance(v, Gate):
            return self.branch(st, v.cond,
                               lambda s: self.on_gate(v.a, s, f),
                               lambda s: self.on_gate(v.b, s, f))
        return f(v, st)

    def force(self, v, st):
        """resolve a gate that the path condition decides"""
        while True:
            if isinstance(v, Gate):
                d = st.decide(v.cond)
                if d is None:
                    return v
                v = v.a if d else v.b
            elif isinstance(v, T) and v.op == "ite":
                d = st.decide(v.args[0])
                if d is None:
                    return v
                v = v.args[1] if d else v.args[2]
            else:
                return v

    # -------------------------------------------------------------- truth
    def truth(self, v, st) -> T:
        v = self.force(v, st)
        if isinstance(v, T):
            if v.op == "const":
                return const(bool(tm.cval(v)))
            if v.op in BOOLISH:
                return v
            if v.op == "ite":
                return tm.ite(v.args[0], self.truth(v.args[1], st),
                              self.truth(v.args[2], st))
            if v.op in ("tuple", "list", "set", "dict"):
                return const(len(v.args) > 0)
            if v.op in ("func", "class", "obj") or v.id in self.matches:
                return TRUE
            tys = self.types.get(v)
            if tys and tys <= {"bool"}:
                return v
            if tys and tys <= {"int", "float"}:
                return tm.not_(tm.cmp_("eq", v, const(0)))
            if v.op == "call" and v.args[0] in TRUTHS:
                return v
            if v.op in ARITH and tm.kind(v) == "s":
                return tm.not_(tm.cmp_("eq", v, const(0)))
            return mk("call", "truth", v)
        if isinstance(v, Gate):
            return tm.ite(v.cond, self.truth(v.a, st), self.truth(v.b, st))
        if isinstance(v, Tup):
            return const(len(v.items) > 0)
        if isinstance(v, Lst):
            c = st.heap.get(("l", v.lid))
            if isinstance(c, tuple):
                return const(len(c) > 0)
            return mk("call", "truth", self.toT(v, st))
        if isinstance(v, Dct):
            c = st.heap.get(("d", v.did))
            if isinstance(c, dict):
                if c and all(isinstance(x, Gate) and (
                        x.a is MISSING or x.b is MISSING)
                        for x in c.values()):
                    return mk("call", "truth", self.toT(v, st))
                return const(len(c) > 0)
            return mk("call", "truth", self.toT(v, st))
        if v is MISSING:
            return FALSE
        if isinstance(v, Arr):
            t = self.content(v, st)
            if t.op in BOOLISH:
                return t
            return mk("call", "truth", t)
        return TRUE

    # ------------------------------------------------------------ symbols
    def sym_value(self, st, path, types, cls=None):
        """an unknown input of the given annotation"""
        if cls is not None and types == {"cls"}:
            return self.sym_obj(st, cls, path)
        nn = types - {"None"}
        if nn == {"ndarray"}:
            s = tm.sym(path, "a")
            self.types[s] = types
            if "None" in types:
                tm.MAYBE_NONE.add(s)
            a = self.new_arr(st, s, path, shape=mk("attr", s, "shape"),
                             src=path)
            self.arr[a.cell].types = types
            return a
        if nn and nn <= {"float", "int", "bool", "str"}:
            s = tm.sym(path, "s")
        else:
            s = tm.sym(path, "?")
        if types:
            self.types[s] = types
            if "None" in types:
                tm.MAYBE_NONE.add(s)
        return s

    def sym_obj(self, st, cls, path):
        o = Obj(new_id(), cls, True, path)
        st.heap[("oid", o.oid)] = TRUE
        self._sym_objs[o.oid] = o
        return o

    def lazy_side(self, k, st):
        """what attribute key k reads as in a state that never touched it"""
        o = self._sym_objs.get(k[1]) if k[0] == "o" else None
        if o is None or (o.cls is not None and o.cls.find(k[2], self.proj)):
            return MISSING
        try:
            return self.obj_attr(o, k[2], st, None, None, default=MISSING)
        except PathDead:
            return MISSING

    def ann_types(self, ann, mod):
        """annotation -> (set of type names, ClsInfo | None)"""
        if ann is None:
            return set(), None
        if isinstance(ann, ast.Constant):
            if ann.value is None:
                return {"None"}, None
            if isinstance(ann.value, str):
                try:
                    return self.ann_types(
                        ast.parse(ann.value, mode="eval").body, mod)
                except SyntaxError:
                    return set(), None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            a, ca = self.ann_types(ann.left, mod)
            b, cb = self.ann_types(ann.right, mod)
            return a | b, ca or cb
        if isinstance(ann, ast.Subscript):
            h = ast.unparse(ann.value).split(".")[-1]
            if h == "Optional":
                a, c = self.ann_types(ann.slice, mod)
                return a | {"None"}, c
            if h == "Union" and isinstance(ann.slice, ast.Tuple):
                s, c = set(), None
                for e in ann.slice.elts:
                    a, cc = self.ann_types(e, mod)
                    s |= a
                    c = c or cc
                return s, c
            if h == "Literal":
                els = ann.slice.elts if isinstance(
                    ann.slice, ast.Tuple) else [ann.slice]
                return {type(e.value).__name__ for e in els if isinstance(
                    e, ast.Constant)}, None
            return {h.lower()}, None
        n = ast.unparse(ann)
        b = n.split(".")[-1]
        if b in ("ndarray",):
            return {"ndarray"}, None
        if b in ("float", "int", "bool", "str", "list", "dict", "tuple",
                 "set", "None"):
            return {b}, None
        if b == "List":
            return {"list"}, None
        r = self.proj.resolve_expr(ann, mod)
        if isinstance(r, ClsInfo):
            return {"cls"}, r
        if isinstance(r, tuple) and r[0] == "expr":
            return self.ann_types(r[1], r[2])
        return {n}, None

    # ------------------------------------------------------------- globals
    def to_value(self, r, st):
        if isinstance(r, FnInfo):
            return self.fn_value(r, st)
        if isinstance(r, ClsInfo):
            return Cls(r)
        if isinstance(r, Module):
            return ModV(r)
        if isinstance(r, Ext):
            return self.ext_const(r)
        if isinstance(r, tuple) and r[0] == "expr":
            node, mod = r[1], r[2]
            key = ("g", id(node))
            if key in st.heap:
                return st.heap[key]
            if key in self._globals:
                v, hk, c = self._globals[key]
                st.heap.setdefault(hk, c)
                st.heap[key] = v
                return v
            fr = Frame(new_id(), None, mod, None, (), f"{mod.rel}:<module>")
            self.stack.append(fr)
            try:
                v = self.ev(node, st, fr)
            except PathDead:
                v = tm.unk("module constant")
            finally:
                self.stack.pop()
            st.heap[key] = v
            if isinstance(v, (Lst, Dct)):
                hk = ("l", v.lid) if isinstance(v, Lst) else ("d", v.did)
                self._globals[key] = v, hk, st.heap[hk]
                self.born[hk] = st.heap[hk]
            return v
        if isinstance(r, tuple) and r[0] == "item":
            v = self.to_value(("expr", r[1], r[3]), st)
            its = self.list_items(v, st)
            if its is not None and r[2] < len(its):
                return its[r[2]]
            return tm.gather(self.toT(v, st), const(r[2]))
        return tm.unk("global")

    def ext_const(self, e: Ext):
        n = e.name
        if n in ("np.inf", "math.inf", "np.Inf"):
            return const(float("inf"))
        if n in ("np.pi", "math.pi"):
            return const(3.141592653589793)
        if n in ("np.newaxis",):
            return NONE
        if n in ("np.nan", "math.nan"):
            return mk("ext", "np.nan")
        if n.startswith("skfem.io.meshio.") and n.rsplit(".", 1)[-1] in \
                HEXMAPS:
            return mk("list", *[const(i) for i in
                                HEXMAPS[n.rsplit(".", 1)[-1]]])
        return e

    def fn_value(self, info: FnInfo, st, env=None):
        form = None
        for d in info.decos:
            b = d.split("(")[0].split(".")[-1]
            if b in ("BilinearForm", "LinearForm", "Functional"):
                form = b
        return Fn(info, env, form)

    def lookup(self, name, st, fr):
        for env in (fr.env,) + fr.parents:
            v = st.heap.get(("e", env, name), None)
            if v is not None:
                v2 = self.force(v, st)
                if isinstance(v2, T) and v2.op == "uninit" or v2 is MISSING:
                    self.event("unbound", name, st, None)
                    raise PathDead()
                if isinstance(v2, Gate) and (v2.a is MISSING
                                             or v2.b is MISSING):
                    # reading it means it is bound
                    return v2.b if v2.a is MISSING else v2.a
                return v2
        if name in self.locals_of(fr) and name not in fr.globals:
            # bound later in this function (or in the last pass of a loop)
            if self.loop_stack:
                self._missed.add(("e", fr.env, name))
                return tm.unk(f"{name} before its first assignment")
            self.event("unbound", name, st, None)
            raise PathDead()
        r = self.proj.resolve_name(fr.mod, name)
        if r is not None:
            return self.to_value(r, st)
        if name == "__name__":
            return const(fr.mod.name)
        if name == "__file__":
            return const(fr.mod.rel)
        return Ext("builtins." + name)

    def locals_of(self, fr):
        if fr.info is None:
            return ()
        r = self._locals.get(id(fr.info))
        if r is None:
            r = set()

            def walk(n):
                for x in ast.iter_child_nodes(n):
                    if isinstance(x, (ast.FunctionDef, ast.ClassDef,
                                      ast.AsyncFunctionDef)):
                        r.add(x.name)
                        continue
                    if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp,
                                      ast.DictComp, ast.GeneratorExp)):
                        continue
                    if isinstance(x, ast.Name) and isinstance(
                            x.ctx, ast.Store):
                        r.add(x.id)
                    walk(x)
            if isinstance(fr.info.node, (ast.FunctionDef,
                                         ast.AsyncFunctionDef)):
                walk(fr.info.node)
                for x in ast.walk(fr.info.node):
                    if isinstance(x, (ast.Global, ast.Nonlocal)):
                        r.difference_update(x.names)
            self._locals[id(fr.info)] = r
        return r

    # --------------------------------------------------------- expressions
    def ev(self, e, st, fr):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget(f"more than {self.budget} evaluation steps")
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            return tm.unk(f"expression {type(e).__name__}")
        return m(e, st, fr)

    def ev_Constant(self, e, st, fr):
        return const(e.value)

    def ev_Name(self, e, st, fr):
        return self.lookup(e.id, st, fr)

    def ev_Tuple(self, e, st, fr):
        return Tup(self.ev_elts(e.elts, st, fr))

    def ev_elts(self, elts, st, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fr)
                its = self.list_items(v, st)
                if its is None:
                    out.append(mk("star", self.toT(v, st)))
                else:
                    out.extend(its)
            else:
                out.append(self.ev(x, st, fr))
        return out

    def ev_List(self, e, st, fr):
        return self.new_list(st, self.ev_elts(e.elts, st, fr))

    def ev_Set(self, e, st, fr):
        return self.new_list(st, self.ev_elts(e.elts, st, fr), "set")

    def ev_Dict(self, e, st, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, st, fr)
                c = st.heap.get(("d", x.did)) if isinstance(x, Dct) else None
                if isinstance(c, dict):
                    d.update(c)
                else:
                    return self.new_dict(st, mk(
                        "dict", mk("star", self.toT(x, st))))
                continue
            kt = self.toT(self.ev(k, st, fr), st)
            d[self.dkey(kt)] = self.ev(v, st, fr)
        return self.new_dict(st, d)

    @staticmethod
    def dkey(t):
        if tm.is_const(t):
            try:
                hash(tm.cval(t))
                return tm.cval(t)
            except TypeError:
                return t
        return t

    def ev_Starred(self, e, st, fr):
        return mk("star", self.toT(self.ev(e.value, st, fr), st))

    def ev_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.toT(self.ev(v.value, st, fr), st)
                spec = NONE
                if v.format_spec is not None:
                    spec = self.toT(self.ev(v.format_spec, st, fr), st)
                if x.op == "const" and isinstance(tm.cval(x), str) \
                        and spec is NONE:
                    parts.append(x)
                elif x.op == "const" and spec is NONE and v.conversion == -1:
                    parts.append(const(str(tm.cval(x))))
                elif x.op == "fstr" and spec is NONE:
                    parts.extend(x.args)
                else:
                    parts.append(mk("fmt", x, spec)
                                 if spec is not NONE or v.conversion != -1
                                 else x)
        return fstr(parts)

    def ev_FormattedValue(self, e, st, fr):
        return self.toT(self.ev(e.value, st, fr), st)

    def ev_Lambda(self, e, st, fr):
        info = FnInfo(e, fr.mod, None, parent=fr.name.split(":")[-1])
        fr.captured = True
        return Fn(info, (fr.env,) + fr.parents)

    def ev_IfExp(self, e, st, fr):
        c = self.truth(self.ev(e.test, st, fr), st)
        return self.branch(st, c, lambda s: self.ev(e.body, s, fr),
                           lambda s: self.ev(e.orelse, s, fr))

    def ev_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)

        def go(i, s):
            v = self.ev(e.values[i], s, fr)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v, s)
            if isand:
                return self.branch(s, c, lambda t: go(i + 1, t),
                                   lambda t: v if not _boolish(v)
                                   else FALSE)
            return self.branch(s, c, lambda t: v if not _boolish(v)
                               else TRUE, lambda t: go(i + 1, t))

        def _boolish(v):
            return isinstance(v, T) and (v.op in BOOLISH or (
                v.op == "const" and isinstance(tm.cval(v), bool)) or (
                v.op == "call" and v.args[0] in (
                    "isinstance", "hasattr", "np.any", "np.all",
                    "np.allclose")))
        # fast path: all operands side-effect free booleans
        return go(0, st)

    def ev_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return tm.not_(self.truth(v, st))
        isarr = self.is_arr(v)
        t = self.toT(v, st)
        if isinstance(e.op, ast.USub):
            r = tm.neg(t)
        elif isinstance(e.op, ast.UAdd):
            r = t
        else:
            r = tm.not_(t)
        return self.new_arr(st, r, "tmp", self.shape_of(v, st)) \
            if isarr else r

    def is_arr(self, v):
        if isinstance(v, Arr):
            return True
        if isinstance(v, Gate):
            return self.is_arr(v.a) or self.is_arr(v.b)
        return isinstance(v, T) and tm.kind(v) == "a"

    def shape_of(self, *vs):
        st = vs[-1]
        for v in vs[:-1]:
            if isinstance(v, Arr) and not v.path:
                m = self.arr.get(v.cell)
                if m is not None and m.shape is not None:
                    return m.shape
        return None

    def ev_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop(e.op, a, b, st, e)

    def binop(self, op, a, b, st, node=None):
        a = self.force(a, st)
        b = self.force(b, st)
        if isinstance(op, ast.Add):
            la, lb = self.seq(a, st), self.seq(b, st)
            if la is not None and lb is not None:
                if isinstance(a, (Tup,)):
                    return Tup(la + lb)
                return self.new_list(st, la + lb)
            if isinstance(a, T) and isinstance(b, T) and (
                    a.op == "fstr" or b.op == "fstr"
                    or (a.op == "const" and isinstance(tm.cval(a), str))
                    or (b.op == "const" and isinstance(tm.cval(b), str))):
                return fstr([a, b])
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                l = self.seq(x, st)
                if l is not None:
                    if isinstance(y, T) and y.op == "const" and isinstance(
                            tm.cval(y), int) and tm.cval(y) <= 32:
                        n = tm.cval(y)
                        return Tup(l * n) if isinstance(x, Tup) \
                            else self.new_list(st, l * n)
                    if len(l) == 1:
                        return mk("comp", self.toT(l[0], st), tm.it_(99),
                                  self.toT(y, st))
                    return mk("call", "seqmul", self.toT(x, st),
                              self.toT(y, st))
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)) and isinstance(
                a, Lst) and a.kind == "set":
            la, lb = self.seq(a, st), self.seq(b, st)
            if la is not None and lb is not None and all(
                    isinstance(x, T) and tm.is_const(x)
                    for x in la + lb):
                if isinstance(op, ast.BitOr):
                    r = la + tuple(x for x in lb if x not in la)
                elif isinstance(op, ast.BitAnd):
                    r = tuple(x for x in la if x in lb)
                else:
                    r = tuple(x for x in la if x not in lb)
                return self.new_list(st, r, "set")
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and (
                self.setlike(a) or self.setlike(b)):
            n = {ast.BitOr: "update", ast.BitAnd: "and", ast.Sub: "sub",
                 ast.BitXor: "xor"}[type(op)]
            return self.new_list(st, tm.call(
                "set." + n, self.toT(a, st), self.toT(b, st)), "set")
        if isinstance(op, ast.BitOr) and isinstance(a, Dct) and isinstance(
                b, Dct):
            ca, cb = st.heap.get(("d", a.did)), st.heap.get(("d", b.did))
            if isinstance(ca, dict) and isinstance(cb, dict):
                return self.new_dict(st, {**ca, **cb})
        isarr = self.is_arr(a) or self.is_arr(b)
        ta, tb = self.toT(a, st), self.toT(b, st)
        f = BINOP.get(type(op))
        if f is not None:
            r = f(ta, tb)
        elif isinstance(op, ast.MatMult):
            r = mk("matmul", ta, tb)
        elif isinstance(op, ast.Mod):
            if ta.op == "const" and isinstance(tm.cval(ta), str):
                r = mk("call", "%", ta, tb)
            elif tm._num(ta) and tm._num(tb) and tm.cval(tb):
                r = const(tm.cval(ta) % tm.cval(tb))
            else:
                r = mk("mod", ta, tb)
        elif isinstance(op, ast.FloorDiv):
            if tm._num(ta) and tm._num(tb) and tm.cval(tb):
                r = const(tm.cval(ta) // tm.cval(tb))
            else:
                r = mk("floordiv", ta, tb)
        elif isinstance(op, ast.BitAnd):
            r = tm.and_(ta, tb)
        elif isinstance(op, ast.BitOr):
            r = tm.or_(ta, tb)
        elif isinstance(op, ast.BitXor):
            r = tm.or_(tm.and_(ta, tm.not_(tb)), tm.and_(tm.not_(ta), tb))
        else:
            r = tm.unk(f"operator {type(op).__name__}")
        if isinstance(op, ast.MatMult):
            return r
        return self.new_arr(st, r, "tmp", self.shape_of(a, b, st)) \
            if isarr else r

    def seq(self, v, st):
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, Lst):
            c = st.heap.get(("l", v.lid))
            return c if isinstance(c, tuple) else None
        return None

    def ev_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, fr)
            out.append(self.compare(op, left, right, st))
            left = right
        if len(out) == 1:
            return out[0]
        return tm.and_(*[self.toT(x, st) for x in out])

    def compare(self, op, a, b, st):
        a, b = self.force(a, st), self.force(b, st)
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            isop = isinstance(op, (ast.Is, ast.IsNot))
            r = self.identity(a, b, st, isop)
            if r is not None:
                return tm.not_(r) if neg else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.member(a, b, st)
            return tm.not_(r) if isinstance(op, ast.NotIn) else r
        ta, tb = self.toT(a, st), self.toT(b, st)
        r = tm.cmp_(CMPOP[type(op)], ta, tb) if type(op) in CMPOP \
            else mk("is" if isinstance(op, ast.Is) else "isnot", ta, tb)
        if (self.is_arr(a) or self.is_arr(b)) and type(op) in CMPOP:
            return self.new_arr(st, r, "tmp", self.shape_of(a, b, st))
        return r

    def identity(self, a, b, st, isop):
        """term for ``a is b`` / ``a == b`` when structure settles it"""
        if isinstance(a, Gate):
            x = self.identity(a.a, b, st, isop)
            y = self.identity(a.b, b, st, isop)
            if x is None or y is None:
                return None
            return tm.ite(a.cond, x, y)
        if isinstance(b, Gate):
            return self.identity(b, a, st, isop)
        if a is MISSING or b is MISSING:
            return FALSE
        if not isop:
            r = self.same_items(a, b, st)
            if r is not None:
                return r
        if isinstance(a, T) and not isinstance(b, T):
            a, b = b, a
        if isinstance(b, T):
            if isinstance(a, T):
                if a.op == "const" and b.op == "const":
                    va, vb = tm.cval(a), tm.cval(b)
                    return const((va == vb) and (
                        type(va) is type(vb) or not isop))
                if b is NONE or a is NONE:
                    x = a if b is NONE else b
                    return self.is_none(x, st)
                for x, y in ((a, b), (b, a)):
                    if x.op == "ite" and y.op == "const":
                        p = self.identity(x.args[1], y, st, isop)
                        q = self.identity(x.args[2], y, st, isop)
                        if p is not None and q is not None:
                            return tm.ite(x.args[0], p, q)
                if b.op == "const" and isinstance(tm.cval(b), bool) and isop:
                    ty = self.types.get(a)
                    if ty == {"bool"}:
                        return a if tm.cval(b) else tm.not_(a)
                    return mk("eq", *sorted((a, b), key=lambda t: t.id))
                if a.op in ("func", "class", "ext") and b.op == a.op:
                    return const(a is b)
                return None
            if b is NONE:
                if isinstance(a, Arr):
                    m = self.arr.get(a.cell)
                    if m and m.types and "None" in m.types and not a.path:
                        return mk("is", tm.sym(m.src, "a"), NONE)
                    return FALSE
                if isinstance(a, Meth):
                    return FALSE
                if isinstance(a, Obj) and a.sym:
                    t = mk("obj", a.path)
                    if t in tm.MAYBE_NONE:
                        return mk("is", t, NONE)
                return FALSE
            if isinstance(a, (Fn, Cls, Ext)) and b.op in (
                    "func", "class", "ext"):
                return const(self.toT(a, st) is b)
            if isinstance(a, (Obj, Fn, Cls, Tup, Lst, Dct)) \
                    and b.op == "const":
                if isinstance(a, (Tup, Lst)) and not isop:
                    return None
                return FALSE
            return None
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.oid == b.oid:
                return TRUE
            return FALSE if isop and not (a.sym and b.sym) else None
        if isinstance(a, Fn) and isinstance(b, Fn):
            return const(a.info is b.info)
        if isinstance(a, Cls) and isinstance(b, Cls):
            return const(a.info is b.info)
        if isinstance(a, Arr) and isinstance(b, Arr) and isop:
            return const(a.same(b))
        if isop and type(a) is not type(b):
            return FALSE
        return None

    def same_items(self, a, b, st):
        """equality of two tuples or two lists of known items"""
        ks = []
        for v in (a, b):
            if isinstance(v, Tup) or isinstance(v, T) and (
                    v.op == "tuple" or v.op == "const" and isinstance(
                        tm.cval(v), tuple)):
                ks.append("tuple")
            elif isinstance(v, Lst) and v.kind == "list" or isinstance(
                    v, T) and v.op == "list":
                ks.append("list")
            else:
                return None
        x, y = self.list_items(a, st), self.list_items(b, st)
        if x is None or y is None:
            return None
        if ks[0] != ks[1] or len(x) != len(y):
            return FALSE
        out = []
        for p, q in zip(x, y):
            if not isinstance(p, T) or not isinstance(q, T) or \
                    tm.kind(p) != "s" or tm.kind(q) != "s":
                return None
            out.append(self.eqt(p, q, st))
        return tm.and_(*out)

    def is_none(self, x, st):
        if x.id in self.matches:
            return FALSE
        if x.op == "const":
            return const(tm.cval(x) is None)
        if x.op == "ite":
            return tm.ite(x.args[0], self.is_none(x.args[1], st),
                          self.is_none(x.args[2], st))
        if x.op in ("obj", "func", "class", "tuple", "list", "dict", "fstr",
                    "comp", "add", "sub", "mul", "div", "neg", "pow", "min",
                    "max", "store", "lt", "le", "gt", "ge", "eq", "ne", "and",
                    "or", "not", "colmap", "float", "int") and x not in \
                tm.MAYBE_NONE:
            return FALSE
        ty = self.types.get(x)
        if ty and "None" not in ty:
            return FALSE
        if x.op == "call" and str(x.args[0]) in NEVER_NONE and x not in \
                tm.MAYBE_NONE:
            return FALSE
        return mk("is", x, NONE)

    def bound_local(self, b, key, st):
        """is the local name bound (``'x' in locals()``)?"""
        v = st.heap.get(("e", b.args[0], tm.cval(key)), MISSING)

        def go(v):
            if v is MISSING:
                return FALSE
            if isinstance(v, Gate):
                return tm.ite(v.cond, go(v.a), go(v.b))
            if isinstance(v, T) and v.op == "uninit":
                return FALSE
            if isinstance(v, T) and v.op == "ite":
                return tm.ite(v.args[0], go(v.args[1]), go(v.args[2]))
            return TRUE
        return go(v)

    def member(self, a, b, st):
        ta = self.toT(a, st)
        if isinstance(b, Dct):
            c = st.heap.get(("d", b.did))
            if isinstance(c, dict) and self.walks(c, self.dkey(ta)):
                return self.toT(self.walk(c, self.dkey(ta), st,
                                          lambda x, s: TRUE,
                                          lambda s: FALSE), st)
            if isinstance(c, dict):
                k = self.dkey(ta)
                if k in c:
                    v = c[k]
                    if isinstance(v, Gate) and MISSING in (v.a, v.b):
                        return tm.not_(v.cond) if v.a is MISSING else v.cond
                    return TRUE
                if not isinstance(k, T):
                    if all(not isinstance(x, T) for x in c):
                        return FALSE
                else:
                    ks = list(c)
                    if all(not isinstance(x, T) for x in ks):
                        return tm.or_(*[self.eqt(ta, const(x), st)
                                        for x in ks])
            return mk("in", ta, self.toT(b, st))
        if isinstance(b, Obj) and b.cls is not None:
            m = b.cls.find("__contains__", self.proj)
            if m is not None:
                return self.truth(self.call_fn(self.fn_value(m, st), [b, a],
                                               {}, st, None), st)
        its = self.list_items(b, st)
        if its is not None and not (isinstance(b, T) and b.op == "const"
                                    and isinstance(tm.cval(b), str)):
            return tm.or_(*[self.eqt(ta, self.toT(x, st), st) for x in its])
        tb = self.toT(b, st)
        if tb is mk("ext", "os.environ"):
            return tm.not_(self.is_none(self.env_get([a], st, None), st))
        if tb.op == "locals" and tm.is_const(ta):
            return self.bound_local(tb, ta, st)
        if tm.is_const(ta) and tm.is_const(tb):
            try:
                return const(tm.cval(ta) in tm.cval(tb))
            except TypeError:
                pass
        return mk("in", ta, tb)

    def eqt(self, a, b, st):
        r = self.identity(a, b, st, False)
        if r is not None:
            return r
        c = tm.cmp_("eq", a, b)
        d = st.decide(c)
        return c if d is None else const(d)

    # ---------------------------------------------------------- attributes
    def ev_Attribute(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        return self.getattr(v, e.attr, st, fr, e)

    def getattr(self, v, name, st, fr, node, default=MISSING):
        v = self.force(v, st)
        if isinstance(v, Gate):
            return self.on_gate(
                v, st, lambda x, s: self.getattr(x, name, s, fr, node,
                                                 default))
        if isinstance(v, T) and v.op == "ite" and (
                v.args[1] is NONE or v.args[2] is NONE):
            # reading an attribute of None would raise
            c, x = (tm.not_(v.args[0]), v.args[2]) if v.args[1] is NONE \
                else (v.args[0], v.args[1])
            st.assume(c)
            return self.getattr(x, name, st, fr, node, default)
        if isinstance(v, Obj):
            return self.obj_attr(v, name, st, fr, node, default)
        if isinstance(v, ModV):
            r = self.proj.resolve_name(v.mod, name)
            if r is None:
                return Ext(v.mod.name + "." + name)
            return self.to_value(r, st)
        if isinstance(v, Ext):
            if v.name.startswith("builtins."):
                return Ext(v.name[9:] + "." + name)
            return self.ext_const(Ext(v.name + "." + name))
        if isinstance(v, Cls):
            k = ("c", v.info.qual, name)
            if k in st.heap:
                return st.heap[k]
            if name == "__name__":
                return const(v.info.name)
            m = v.info.find(name, self.proj)
            if m is not None:
                f = self.fn_value(m, st)
                if m.deco("classmethod"):
                    return Bound(f, v)
                return f
            a = v.info.find_attr(name, self.proj)
            if a is not None:
                return self.to_value(("expr", a[1], a[0].mod), st)
            return mk("attr", mk("class", v.info.qual), name)
        if isinstance(v, Super):
            mro = (v.obj.cls if isinstance(v.obj, Obj)
                   else v.obj.info).mro(self.proj)
            try:
                i = mro.index(v.cls)
            except ValueError:
                i = -1
            for c in mro[i + 1:]:
                if name in c.methods:
                    return Bound(self.fn_value(c.methods[name], st), v.obj)
            return Meth(v.obj, "super." + name)
        if isinstance(v, Arr):
            if self.nd:
                r = nd.attr(self, v, name, st)
                if r is not None:
                    return r
            if name == "T":
                r = self.transpose(v, st)
                if r is not None:
                    return r
                return tm.call(".T", self.content(v, st))
            if name == "shape":
                m = self.arr.get(v.cell)
                if m and m.shape is not None and not v.path:
                    return m.shape
                return mk("attr", self.content(v, st), "shape")
            if name == "ndim" and self.nd:
                m = self.arr.get(v.cell)
                if m and isinstance(m.shape, Tup) and not v.path:
                    return const(len(m.shape.items))
            if name in ("size", "ndim", "dtype", "nbytes", "data", "indices",
                        "indptr", "N"):
                return mk("attr", self.content(v, st), name)
            return Meth(v, name)
        if isinstance(v, (Lst, Dct, Tup, Slot)):
            return Meth(v, name)
        if isinstance(v, Fn):
            if name == "__name__":
                return const(v.info.name)
            if self.own_attr(v, name):
                return self.obj_attr(self.fn_obj(v, st), name, st, fr, node,
                                     default)
            return Meth(v, name)
        if isinstance(v, (Bound, Meth)):
            return Meth(v, name)
        if isinstance(v, T):
            if v is NONE:
                if default is not MISSING:
                    return default
                self.event("none-attr", name, st, node)
                self.do_raise(st, mk("ext", "builtins.AttributeError"), node)
            k = ("x", v.id, name)
            if k in st.heap:
                return st.heap[k]
            hook = self.attr_hooks.get(name)
            if hook is not None:
                r = hook(self, v, st)
                if r is not None:
                    return r
            if v.op == "const" and isinstance(tm.cval(v), str):
                return Meth(v, name)
            if name == "T":
                return tm.call(".T", v)
            return mk("attr", v, name)
        return tm.unk(f"attribute {name}")

    def obj_attr(self, o, name, st, fr, node, default=MISSING):
        k = ("o", o.oid, name)
        v = st.heap.get(k, None)
        if v is not None:
            v = self.force(v, st)
            if isinstance(v, Gate) and (v.a is MISSING or v.b is MISSING):
                c = v.cond if v.a is MISSING else tm.not_(v.cond)
                x = v.b if v.a is MISSING else v.a
                return self.branch(
                    st, c,
                    lambda s: default if default is not MISSING else
                    self.do_raise(s, mk("ext", "builtins.AttributeError"),
                                  node),
                    lambda s: x)
            if v is not MISSING:
                return v
            if default is not MISSING:
                return default
            self.event("no-attr", f"{o.path}.{name}", st, node)
            self.do_raise(st, mk("ext", "builtins.AttributeError"), node)
        if o.cls is not None:
            m = o.cls.find(name, self.proj)
            if m is not None:
                if m.deco("property", "cached_property"):
                    return self.call_fn(self.fn_value(m, st), [o], {}, st,
                                        node)
                f = self.fn_value(m, st)
                if m.deco("staticmethod"):
                    return f
                if m.deco("classmethod"):
                    return Bound(f, Cls(o.cls))
                return Bound(f, o)
            if o.sym:
                ann = o.cls.find_ann(name, self.proj)
                if ann is not None:
                    ty, cl = self.ann_types(ann[1], ann[0].mod)
                    return self.lazy_attr(st, k, lambda: self.sym_value(
                        st, f"{o.path}.{name}", ty, cl))
            a = o.cls.find_attr(name, self.proj)
            if a is not None and not o.sym:
                return self.to_value(("expr", a[1], a[0].mod), st)
            if name == "__class__":
                return Cls(o.cls)
        if o.sym:
            return self.lazy_attr(st, k, lambda: tm.sym(
                f"{o.path}.{name}", "?"))
        if default is not MISSING:
            return default
        if o.cls is not None and o.cls.ext_bases(self.proj) not in (
                [], ["<ext abc.ABC>"]) and any(
                    "ABC" not in b and "object" not in b
                    for b in o.cls.ext_bases(self.proj)):
            return Meth(o, name)
        self.event("no-attr", f"{o.path}.{name}", st, node)
        self.do_raise(st, mk("ext", "builtins.AttributeError"), node)

    def lazy_attr(self, st, k, make):
        """attribute of an unknown input: one value for all paths"""
        v = self._lazy.get(k)
        if v is None:
            v = self._lazy[k] = make()
        elif isinstance(v, Arr) and ("a", v.cell) not in st.heap:
            st.heap[("a", v.cell)] = tm.sym(self.arr[v.cell].src, "a")
        elif isinstance(v, Obj):
            st.heap.setdefault(("oid", v.oid), TRUE)
        st.heap[k] = v
        return v

    def own_attr(self, f, name):
        """an attribute the program itself puts on the plain function"""
        return not f.info.decos and f.form is None and \
            not name.startswith("__")

    def fn_obj(self, f, st):
        o = self._fn_objs.get(f.info.qual)
        if o is None:
            o = self._fn_objs[f.info.qual] = Obj(
                new_id(), None, False, f.info.qual)
            self.fn_oids.add(o.oid)
        return o

    def has_attr(self, v, name, st) -> T:
        v = self.force(v, st)
        if isinstance(v, Fn) and self.own_attr(v, name):
            v = self.fn_obj(v, st)
        if isinstance(v, Gate):
            return tm.ite(v.cond, self.has_attr(v.a, name, st),
                          self.has_attr(v.b, name, st))
        if isinstance(v, Obj):
            x = st.heap.get(("o", v.oid, name), None)
            if x is not None:
                x = self.force(x, st)
                if x is MISSING:
                    return FALSE
                if isinstance(x, Gate) and MISSING in (x.a, x.b):
                    return tm.not_(x.cond) if x.a is MISSING else x.cond
                return TRUE
            if v.cls is not None:
                if v.cls.find(name, self.proj) or v.cls.find_attr(
                        name, self.proj):
                    return TRUE
                if v.sym and v.cls.find_ann(name, self.proj):
                    return TRUE
            if not v.sym:
                return FALSE
        if isinstance(v, (ModV,)):
            return const(self.proj.resolve_name(v.mod, name) is not None)
        return mk("call", "hasattr", self.toT(v, st), const(name))

    def setattr(self, v, name, val, st, fr, node):
        v = self.force(v, st)
        if isinstance(v, Gate):
            self.on_gate(v, st, lambda x, s: self.setattr(
                x, name, val, s, fr, node) or NONE)
            return
        if isinstance(v, Fn) and self.own_attr(v, name):
            v = self.fn_obj(v, st)
        if isinstance(v, Obj):
            if v.cls is not None:
                m = v.cls.find(name + "#set", self.proj)
                if m is not None:
                    self.call_fn(self.fn_value(m, st), [v, val], {}, st,
                                 node)
                    return
            old = st.heap.get(("o", v.oid, name), MISSING)
            st.heap[("o", v.oid, name)] = val
            self.event("setattr", name, st, node, args=[v, val],
                       extra={"obj": v, "old": old})
            return
        if isinstance(v, Cls):
            st.heap[("c", v.info.qual, name)] = val
            return
        t = self.toT(v, st)
        st.heap[("x", t.id, name)] = val
        self.event("setattr", name, st, node, args=[t, val],
                   extra={"obj": t})

    # ------------------------------------------------------------ subscript
    def ev_Slice(self, e, st, fr):
        f = [self.toT(self.ev(x, st, fr), st) if x is not None else NONE
             for x in (e.lower, e.upper, e.step)]
        return mk("slice", *f)

    def index(self, e, st, fr):
        """index expression -> (term, value)"""
        v = self.ev(e, st, fr)
        return self.idx_term(v, st), v

    def idx_term(self, v, st):
        v = self.force(v, st)
        if isinstance(v, Tup):
            return mk("idx", *[self.idx_term(x, st) for x in v.items])
        t = self.toT(v, st)
        if isinstance(v, Arr) and tm.kind(t) != "a":
            return mk("aidx", t)
        if isinstance(v, Lst) and v.kind == "list":
            return t
        return t

    def ev_Subscript(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        it, iv = self.index(e.slice, st, fr)
        return self.getitem(v, it, iv, st, fr, e)

    def getitem(self, v, it, iv, st, fr, node):
        v = self.force(v, st)
        if isinstance(v, Gate):
            return self.on_gate(
                v, st, lambda x, s: self.getitem(x, it, iv, s, fr, node))
        if isinstance(v, Arr):
            if self.nd:
                r = nd.item(self, v, it, st, node)
                if r is not None:
                    return r
            basic = self.basic_index(it)
            if basic:
                if tm.is_full_index(it):
                    return v
                r = Arr(v.cell, v.path + (it,))
                if self.one_entry(v, it):
                    return self.content(r, st)
                return r
            r = tm.gather(self.content(v, st), it)
            if tm.kind(r) == "a" or tm.kind(it) == "a" \
                    or it.op in ("aidx", "list", "idx"):
                return self.new_arr(st, r, "gathered")
            return r
        if isinstance(v, (Tup, Lst)) or (
                isinstance(v, T) and v.op in ("tuple", "list")):
            its = self.list_items(v, st)
            if its is not None:
                if it.op == "const" and isinstance(tm.cval(it), int):
                    try:
                        return its[tm.cval(it)]
                    except IndexError:
                        self.do_raise(st, mk("ext", "builtins.IndexError"),
                                      node)
                if it.op == "slice" and all(tm.is_const(x)
                                            for x in it.args):
                    s = slice(*[tm.cval(x) for x in it.args])
                    r = its[s]
                    return Tup(r) if isinstance(v, Tup) \
                        else self.new_list(st, r)
                if its and isinstance(it, T) and tm.kind(it) != "a" \
                        and it.op != "slice" and len(its) <= 8 and all(
                            isinstance(x, (Arr, Obj)) for x in its) \
                        and len(its) == 1:
                    return its[0]
            return tm.gather(self.toT(v, st), it)
        if isinstance(v, Dct):
            c = st.heap.get(("d", v.did))
            if it.op == "idx":
                it = self.toT(iv, st)
            fac = self.factory.get(v.did)
            if fac is not None:
                r = self.default_item(v, c, it, fac, st, fr, node)
                if r is not None:
                    return r
            if isinstance(c, dict) and self.walks(c, self.dkey(it)):
                return self.walk(c, self.dkey(it), st, lambda x, s: x,
                                 lambda s: self.do_raise(s, mk(
                                     "ext", "builtins.KeyError"), node))
            if isinstance(c, dict):
                k = self.dkey(it)
                if k in c:
                    x = self.force(c[k], st)
                    if isinstance(x, Gate) and MISSING in (x.a, x.b):
                        cnd = x.cond if x.b is MISSING \
                            else tm.not_(x.cond)
                        y = x.a if x.b is MISSING else x.b
                        return self.branch(
                            st, cnd, lambda s: y,
                            lambda s: self.do_raise(s, mk(
                                "ext", "builtins.KeyError"), node))
                    return x
                if not isinstance(k, T) and all(
                        not isinstance(x, T) for x in c):
                    self.do_raise(st, mk("ext", "builtins.KeyError"), node)
                if isinstance(k, T) and c and len(c) <= 12 and all(
                        not isinstance(x, T) for x in c):
                    # one of the known keys (or KeyError)
                    keys = list(c)
                    st.assume(tm.or_(*[self.eqt(k, const(x), st)
                                       for x in keys]))

                    def pick(i, s):
                        if i == len(keys) - 1:
                            return c[keys[i]]
                        return self.branch(
                            s, self.eqt(k, const(keys[i]), s),
                            lambda z: c[keys[i]],
                            lambda z: pick(i + 1, z))
                    return pick(0, st)
            return tm.gather(self.toT(v, st), it)
        if isinstance(v, Obj) and v.cls is not None:
            m = v.cls.find("__getitem__", self.proj)
            if m is not None:
                return self.call_fn(self.fn_value(m, st), [v, iv], {}, st,
                                    node)
        if isinstance(v, Ext) and v.name == "os.environ":
            return self.env_get([it], st, node)
        if isinstance(v, Ext) or isinstance(v, Cls):
            return v        # typing subscript
        t = self.toT(v, st)
        if t.id in self.matches and tm.is_const(it):
            try:
                return const(self.matches[t.id][tm.cval(it)])
            except (IndexError, TypeError):
                pass
        if isinstance(v, T) and (("y", t.id, it.id) in st.heap):
            return st.heap[("y", t.id, it.id)]
        r = tm.gather(t, it)
        if tm.kind(r) == "a":
            return self.new_arr(st, r, "gathered")
        return r

    @staticmethod
    def walks(c, k):
        """may the key be equal to another one than the entry found first?"""
        if len(c) > 8 or not c or not (
                isinstance(k, T) or any(isinstance(x, T) for x in c)):
            return False
        keys = list(c)
        if k in c:
            x = c[k]
            newer = keys[keys.index(k) + 1:]
            return isinstance(x, Gate) and MISSING in (x.a, x.b) or any(
                isinstance(y, T) or isinstance(k, T) for y in newer)
        return any(isinstance(x, T) for x in keys)

    def key_eq(self, a, b, st):
        a = a if isinstance(a, T) else const(a)
        b = b if isinstance(b, T) else const(b)
        if a is b:
            return TRUE
        if tm.is_const(a) and tm.is_const(b):
            return const(tm.cval(a) == tm.cval(b))
        if a.op == b.op == "tuple":
            if len(a.args) != len(b.args):
                return FALSE
            return tm.and_(*[self.key_eq(x, y, st)
                             for x, y in zip(a.args, b.args)])
        return self.eqt(a, b, st)

    def walk(self, c, k, st, found, none):
        """the entry of an association list (newest last)"""
        keys = list(c)[::-1]

        def at(i, s):
            if i == len(keys):
                return none(s)
            x = c[keys[i]]
            e = self.key_eq(k, keys[i], s)
            if isinstance(x, Gate) and MISSING in (x.a, x.b):
                e = tm.and_(e, x.cond if x.b is MISSING
                            else tm.not_(x.cond))
                x = x.a if x.b is MISSING else x.b
            if e is FALSE:
                return at(i + 1, s)
            if e is TRUE:
                return found(self.force(x, s), s)
            return self.branch(s, e, lambda z: found(self.force(x, z), z),
                               lambda z: at(i + 1, z))
        return at(0, st)

    def flat(self, c, st):
        """can the dict content be turned into a term (no aliases lost)?"""
        return not any(isinstance(x, (Obj, Gate, Dct)) for x in c.values())

    def default_item(self, d, c, it, fac, st, fr, node):
        """D[key] of a defaultdict"""
        k = self.dkey(it)
        if isinstance(c, dict) and not isinstance(k, T):
            x = c.get(k, MISSING)
            if x is MISSING and not any(isinstance(y, T) for y in c):
                x = self.new_list(st, [], fac) if fac in ("set", "list") \
                    else const({"int": 0, "float": 0.0}[fac]) if isinstance(
                        fac, str) else self.call(fac, [], {}, st, fr, node)
                st.heap[("d", d.did)] = {**c, k: x}
                return x
            if x is not MISSING and not (isinstance(x, Gate)
                                         and MISSING in (x.a, x.b)):
                return self.force(x, st)
        if isinstance(c, dict):
            if k in c and len(c) == 1 and not isinstance(c[k], Gate):
                return self.force(c[k], st)
            if not self.flat(c, st):
                return None
            for x in c.values():
                if isinstance(x, (Lst, Dct)):
                    self.copied.add(getattr(x, "lid", None) or x.did)
        if fac in ("set", "list"):
            return self.slot(d, it, fac, st)
        if fac in ("int", "float"):
            t = tm.call("dict.setdefault", self.toT(d, st), it,
                        const(0 if fac == "int" else 0.0))
            st.heap[("d", d.did)] = t
            return tm.gather(t, it)
        return tm.unk("default of a dict")

    def one_entry(self, v, it):
        """does the index select one number (a copy) rather than a view?
        With an unknown number of axes, two or more integers are taken to."""
        its = it.args if it.op == "idx" else (it,)
        if any(x is NONE or x.op == "slice" or x is tm.const(Ellipsis)
               for x in its):
            return False
        m = self.arr.get(v.cell)
        sh = m.shape if m is not None and not v.path else None
        if isinstance(sh, Tup):
            return len(sh.items) == len(its)
        if isinstance(sh, T) and sh.op in ("tuple", "list"):
            return len(sh.args) == len(its)
        return len(its) > 1

    @staticmethod
    def basic_index(it):
        def b(x):
            return x.op == "slice" or x is NONE or (
                x.op == "const" and isinstance(
                    tm.cval(x), (int, type(Ellipsis)))) or (
                x.op not in ("list", "aidx", "tuple", "idx")
                and tm.kind(x) == "s" and x.op not in (
                    "lt", "gt", "le", "ge", "eq", "ne", "and", "or", "not"))
        if it.op == "idx":
            return all(b(x) for x in it.args)
        return b(it)

    def setitem(self, v, it, iv, val, st, fr, node, target=None):
        v = self.force(v, st)
        if isinstance(v, Gate):
            self.on_gate(v, st, lambda x, s: self.setitem(
                x, it, iv, val, s, fr, node) or NONE)
            return
        if isinstance(v, Arr):
            if self.nd and nd.set_item(self, v, it, val, st, node):
                return
            t = self.toT(val, st)
            if tm.is_full_index(it):
                self.write(v, t, st, node)
            else:
                self.write(Arr(v.cell, v.path + (it,)), t, st, node)
            return
        if isinstance(v, Lst):
            c = st.heap.get(("l", v.lid))
            if isinstance(c, tuple) and it.op == "const" and isinstance(
                    tm.cval(it), int) and -len(c) <= tm.cval(it) < len(c):
                c = list(c)
                c[tm.cval(it)] = val
                st.heap[("l", v.lid)] = tuple(c)
            else:
                st.heap[("l", v.lid)] = tm.store(
                    self.toT(v, st), it, self.toT(val, st))
            return
        if isinstance(v, Dct):
            if it.op == "idx":
                it = self.toT(iv, st)
            c = st.heap.get(("d", v.did))
            k = self.dkey(it)
            self.snapshot(v, st)
            if isinstance(c, dict):
                c = dict(c)
                if k in c and (isinstance(k, T) or any(
                        isinstance(x, T) for x in c)):
                    del c[k]            # the newest entry is the last
                c[k] = val
                st.heap[("d", v.did)] = c
            else:
                if isinstance(val, (Lst, Dct)):
                    self.copied.add(getattr(val, "lid", None) or val.did)
                st.heap[("d", v.did)] = tm.store(
                    self.toT(v, st), it, self.toT(val, st))
            self.event("setitem", "dict", st, node, args=[v, it, val])
            return
        if isinstance(v, Obj) and v.cls is not None:
            m = v.cls.find("__setitem__", self.proj)
            if m is not None:
                self.call_fn(self.fn_value(m, st), [v, iv, val], {}, st,
                             node)
                return
        if isinstance(v, Ext):
            st.heap[("y", mk("ext", v.name).id, it.id)] = val
            self.event("setitem", v.name, st, node,
                       args=[mk("ext", v.name), it, self.toT(val, st)])
            return
        t = self.toT(v, st)
        new = tm.store(t, it, self.toT(val, st))
        self.event("setitem", tm.show(t, 3), st, node,
                   args=[t, it, self.toT(val, st)])
        if isinstance(target, (ast.Name, ast.Attribute)):
            a = self.new_arr(st, new, "array")
            self.assign(target, a, st, fr)

    # ----------------------------------------------------- comprehensions
    def ev_ListComp(self, e, st, fr):
        return self.comp(e, e.elt, st, fr, "list")

    def ev_SetComp(self, e, st, fr):
        return self.comp(e, e.elt, st, fr, "set")

    def ev_GeneratorExp(self, e, st, fr):
        return self.comp(e, e.elt, st, fr, "list")

    def ev_DictComp(self, e, st, fr):
        return self.comp(e, ast.Tuple([e.key, e.value], ast.Load()), st, fr,
                         "dict")

    @staticmethod
    def setlike(v):
        return (isinstance(v, (Lst, Slot)) and v.kind == "set") or (
            isinstance(v, T) and (v.op == "set" or v.op == "call" and str(
                v.args[0]).split(".")[0] in ("set", "frozenset")))

    def comp(self, e, elt, st, fr, kind):
        # comprehension scope: same frame with saved names
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        saved = {n: st.heap.get(("e", fr.env, n), MISSING) for n in names}
        out = []

        def go(i, s):
            """returns list of (cond, value) or T"""
            if i == len(e.generators):
                return [self.ev(elt, s, fr)]
            g = e.generators[i]
            itv = self.ev(g.iter, s, fr)
            items = self.iter_items(itv, s)
            if items is not None:
                res = []
                for x in items:
                    self.assign(g.target, x, s, fr)
                    ok = True
                    for c in g.ifs:
                        ct = self.truth(self.ev(c, s, fr), s)
                        d = s.decide(ct)
                        if d is False:
                            ok = False
                            break
                        if d is None:
                            r = mk("call", "filtered",
                                   ct, self.toT(go(i + 1, s)[0], s))
                            res.append(mk("maybe", ct, r))
                            ok = False
                            break
                    if ok:
                        res.extend(go(i + 1, s))
                return res
            x, bound, itvar = self.iter_elem(itv, s)
            self.it_depth += 1
            try:
                self.assign(g.target, x, s, fr)
                conds = []
                for c in g.ifs:
                    conds.append(self.truth(self.ev(c, s, fr), s))
                sub = s.fork(tm.and_(*conds) if conds else None)
                body = go(i + 1, sub)
                bt = self.toT(body[0], sub) if len(body) == 1 else mk(
                    "list", *[self.toT(b, sub) for b in body])
                for k, v in sub.heap.items():
                    if k not in s.heap:
                        s.heap[k] = v
            finally:
                self.it_depth -= 1
            cc = tm.and_(*conds)
            nested = len(body) > 1 or (
                isinstance(body[0], T) and body[0].op in ("star", "maybe")
                if body else True)
            if nested:
                bt = mk("list", *[self.toT(b, sub) for b in body])
                if len(body) == 1 and body[0].op == "star":
                    bt = body[0].args[0]
            r = mk("compif", bt, itvar, bound, cc) if cc is not TRUE \
                else mk("comp", bt, itvar, bound)
            return [mk("star", tm.call("chain", r) if nested else r)]

        res = go(0, st)
        for n, v in saved.items():
            if v is MISSING:
                st.heap.pop(("e", fr.env, n), None)
            else:
                st.heap[("e", fr.env, n)] = v
        if kind == "dict":
            d = {}
            if any(not isinstance(r, Tup) for r in res):
                if len(res) == 1 and isinstance(res[0], T) \
                        and res[0].op == "star":
                    return self.new_dict(st, mk("dictof", res[0].args[0]))
                return self.new_dict(st, mk("dict", *[
                    self.toT(r, st) for r in res]))
            for r in res:
                d[self.dkey(self.toT(r.items[0], st))] = r.items[1]
            return self.new_dict(st, d)
        if len(res) == 1 and isinstance(res[0], T) and res[0].op == "star":
            t = res[0].args[0]
            return self.new_list(
                st, tm.call("set", t) if kind == "set" else t, kind)
        if any(isinstance(r, T) and r.op in ("star", "maybe") for r in res):
            return self.new_list(st, mk(
                "set" if kind == "set" else "list",
                *[self.toT(r, st) for r in res]), kind)
        if kind == "set" and len(res) > 1 and not all(
                isinstance(r, T) and tm.is_const(r) for r in res):
            return self.new_list(st, mk(
                "set", *[self.toT(r, st) for r in res]), kind)
        return self.new_list(st, res, kind)

    # iteration -------------------------------------------------------
    def iter_items(self, v, st):
        v = self.force(v, st)
        its = self.list_items(v, st)
        if its is not None:
            return list(its)
        if isinstance(v, Meth) and v.name == "__iter__":
            return self.iter_items(v.recv, st)
        if self.nd:
            r = nd.each(self, v, st)
            if r is not None:
                return r
        if isinstance(v, Arr) and not v.path:
            c = self.content(v, st)
            if c.op == "call" and c.args[0] == "array_of" and len(
                    c.args) == 2 and c.args[1].op in ("list", "tuple") and \
                    not any(x.op in ("star", "maybe") for x in
                            c.args[1].args):
                return list(c.args[1].args)
        return None

    def transpose(self, v, st):
        """columns of an array with a known number of columns, or the array
        whose rows were stacked; None: not known"""
        c = self.content(v, st)
        if c.op == "call" and c.args[0] == "array_of" and len(
                c.args) == 2 and c.args[1].op in ("list", "tuple") and \
                c.args[1].args and all(tm.kind(x) == "a"
                                       for x in c.args[1].args):
            return self.stack_columns(list(c.args[1].args), st)
        if c.op == "call" and c.args[0] == "np.column_stack" and len(
                c.args) == 2 and c.args[1].op in ("list", "tuple"):
            xs = c.args[1].args
        else:
            sh = self.arr[v.cell].shape if v.cell in self.arr and \
                not v.path else None
            sh = sh.items if isinstance(sh, Tup) else sh.args if isinstance(
                sh, T) and sh.op == "tuple" else ()
            if len(sh) != 2 or not isinstance(sh[1], T) or not tm.is_const(
                    sh[1]) or not isinstance(tm.cval(sh[1]), int) or \
                    tm.cval(sh[1]) > 8:
                return None
            xs = [tm.gather(c, mk("idx", tm.FULL, const(i)))
                  for i in range(tm.cval(sh[1]))]
        return self.new_arr(st, mk("call", "array_of", mk("list", *xs)),
                            "transposed", Tup([const(len(xs)), tm.unk("len")]
                                              ))

    def stack_columns(self, xs, st):
        return self.new_arr(
            st, mk("call", "np.column_stack", mk("list", *xs)), "columns",
            Tup([mk("len", xs[0]), const(len(xs))]))

    def length(self, v, st):
        its = self.list_items(v, st)
        if its is not None:
            return const(len(its))
        if self.nd:
            r = nd.length(self, v, st)
            if r is not None:
                return r
        t = self.toT(v, st)
        return self.len_term(t)

    @staticmethod
    def len_term(t):
        if t.op == "comp":
            return t.args[2]
        if t.op in ("list", "tuple", "set") and not any(
                x.op in ("star", "maybe") for x in t.args):
            return const(len(t.args))
        if t.op == "const" and isinstance(tm.cval(t), (str, tuple)):
            return const(len(tm.cval(t)))
        if t.op == "call" and t.args[0] in ("range", "numba.prange"):
            if len(t.args) == 2:
                return t.args[1]
            if len(t.args) == 3:
                return tm.sub(t.args[2], t.args[1])
        return mk("len", t)

    def iter_elem(self, v, st):
        """(element at the current loop index, bound, index variable)"""
        itv = tm.it_(self.it_depth)
        v = self.force(v, st)
        t = self.toT(v, st)
        x, bound = self.elem_at(t, itv, st)
        return x, bound, itv

    def elem_at(self, t, itv, st):
        if t.op == "call" and t.args[0] in ("range", "numba.prange",
                                            "np.arange"):
            a = [x for x in t.args[1:] if x.op != "kw"]
            if len(a) == 1:
                return itv, a[0]
            if len(a) == 2:
                return tm.add(a[0], itv), tm.sub(a[1], a[0])
            return tm.add(a[0], tm.mul(itv, a[2])), mk(
                "call", "range_len", *a)
        if t.op == "call" and t.args[0] == "enumerate":
            x, b = self.elem_at(t.args[1], itv, st)
            start = tm.ZERO
            if len(t.args) > 2:
                start = t.args[2].args[1] if t.args[2].op == "kw" \
                    else t.args[2]
            return Tup([tm.add(start, itv), x]), b
        if t.op == "call" and t.args[0] == "zip":
            xs = []
            bs = []
            for a in t.args[1:]:
                if a.op == "kw":
                    continue
                x, b = self.elem_at(a, itv, st)
                xs.append(x)
                bs.append(b)
            b = bs[0] if all(y is bs[0] for y in bs) else mk(
                "call", "minlen", *bs)
            return Tup(xs), b
        if t.op == "call" and t.args[0] in (".items",):
            d = t.args[1]
            return Tup([tm.gather(mk("call", ".keys", d), itv),
                        tm.gather(mk("call", ".values", d), itv)]), mk(
                            "len", d)
        x = tm.gather(t, itv)
        if x.op == "tuple":
            return Tup(x.args), self.len_term(t)
        if tm.kind(t) == "a" and t.op != "comp":
            ty = tm.kind(x)
            del ty
        return x, self.len_term(t)

    # -------------------------------------------------------------- calls
    def ev_Call(self, e, st, fr):
        f = e.func
        if isinstance(f, ast.Name) and f.id == "super" and not e.args:
            slf = st.heap.get(("e", fr.env, self.self_name(fr)))
            return Super(fr.cls, slf)
        if isinstance(f, ast.Name) and f.id == "locals" and not e.args:
            return mk("locals", fr.env)
        fv = self.ev(f, st, fr)
        args = []
        star = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                its = self.list_items(v, st)
                if its is None:
                    args.append(mk("star", self.toT(v, st)))
                    star = True
                else:
                    args.extend(its)
            else:
                args.append(self.ev(a, st, fr))
        kws = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, st, fr)
                c = st.heap.get(("d", v.did)) if isinstance(v, Dct) else None
                if isinstance(c, dict) and all(
                        isinstance(x, str) for x in c):
                    kws.update(c)
                else:
                    kws["**"] = v
            else:
                kws[k.arg] = self.ev(k.value, st, fr)
        return self.call(fv, args, kws, st, fr, e)

    def self_name(self, fr):
        a = fr.info.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        return names[0] if names else "self"

    def call(self, fv, args, kws, st, fr, node):
        fv = self.force(fv, st)
        if isinstance(fv, Gate):
            return self.on_gate(
                fv, st, lambda x, s: self.call(x, args, kws, s, fr, node))
        if isinstance(fv, T) and fv.op == "ite":
            return self.branch(
                st, fv.args[0],
                lambda s: self.call(fv.args[1], args, kws, s, fr, node),
                lambda s: self.call(fv.args[2], args, kws, s, fr, node))
        if isinstance(fv, T) and fv.op == "func" and len(fv.args) == 1:
            r = self.proj.lookup(fv.args[0])
            if isinstance(r, FnInfo):
                fv = self.fn_value(r, st)
        if isinstance(fv, Fn):
            return self.call_fn(fv, args, kws, st, node)
        if isinstance(fv, Bound):
            return self.call_fn(fv.fn, [fv.self] + list(args), kws, st, node)
        if isinstance(fv, Cls):
            return self.instantiate(fv.info, args, kws, st, node)
        if isinstance(fv, Model):
            return fv.fn(self, st, args, kws, node)
        if isinstance(fv, Ext):
            return self.call_ext(fv.name, args, kws, st, fr, node)
        if isinstance(fv, Meth):
            return self.call_meth(fv.recv, fv.name, args, kws, st, fr, node)
        if isinstance(fv, T):
            if fv.op == "attr":
                return self.call_meth(fv.args[0], fv.args[1], args, kws, st,
                                      fr, node)
            if fv.op == "ext":
                return self.call_ext(fv.args[0], args, kws, st, fr, node)
            if fv.op == "class":
                r = self.proj.lookup(fv.args[0])
                if isinstance(r, ClsInfo):
                    return self.instantiate(r, args, kws, st, node)
            return self.opaque_call("call", [fv] + list(args), kws, st, node)
        if isinstance(fv, Obj) and fv.cls is not None:
            m = fv.cls.find("__call__", self.proj)
            if m is not None:
                return self.call_fn(self.fn_value(m, st),
                                    [fv] + list(args), kws, st, node)
        return self.opaque_call(
            "call", [self.toT(fv, st)] + list(args), kws, st, node)

    def opaque_call(self, name, args, kws, st, node, kind=None):
        ta = [self.toT(a, st) for a in args]
        tk = {k: self.toT(v, st) for k, v in kws.items()}
        r = tm.call(name, *ta, **tk)
        self.event("call", name, st, node, args=list(args),
                   kws=dict(kws), result=r,
                   extra={"targs": ta, "tkws": tk})
        if tm.kind(r) == "a":
            return self.new_arr(st, r, name)
        return r

    def do_raise(self, st, exc, node):
        self.event("raise", tm.show(exc, 2), st, node, args=[exc])
        self.raise_sinks[-1].append(Flow("raise", st.fork(), exc, node))
        raise PathDead()

    def bind(self, info: FnInfo, args, kws, st, env, fr):
        a = info.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        n = len(pos)
        defaults = a.defaults
        vals = {}
        extra = []
        star_pending = None
        for i, v in enumerate(args):
            if isinstance(v, T) and v.op == "star":
                star_pending = v
                for j, p in enumerate(pos[i:]):
                    if p not in kws:
                        vals[p] = tm.gather(v.args[0], const(j))
                break
            if i < n:
                vals[pos[i]] = v
            else:
                extra.append(v)
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        ss = None
        for k, v in kws.items():
            if k == "**":
                ss = v
            elif k in pos or k in kwonly:
                vals[k] = v
            else:
                rest[k] = v
        for i, p in enumerate(pos):
            if p not in vals:
                di = i - (n - len(defaults))
                if di >= 0:
                    vals[p] = self.ev(defaults[di], st, fr)
                elif ss is not None:
                    vals[p] = tm.gather(self.toT(ss, st), const(p))
                else:
                    self.event("bad-call", info.qual, st, None,
                               extra={"missing": p})
                    raise PathDead()
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in vals:
                if d is not None:
                    vals[x.arg] = self.ev(d, st, fr)
                elif ss is not None:
                    vals[x.arg] = tm.gather(self.toT(ss, st), const(x.arg))
                else:
                    vals[x.arg] = tm.unk(f"missing {x.arg}")
        if a.vararg:
            vals[a.vararg.arg] = Tup(extra)
        elif extra:
            self.event("bad-call", info.qual, st, None,
                       extra={"extra": len(extra)})
            self.do_raise(st, mk("ext", "builtins.TypeError"), None)
        if a.kwarg:
            if ss is not None and not rest:
                vals[a.kwarg.arg] = ss
            else:
                vals[a.kwarg.arg] = self.new_dict(st, rest)
        elif rest:
            self.event("bad-call", info.qual, st, None,
                       extra={"unknown": sorted(rest)})
            self.do_raise(st, mk("ext", "builtins.TypeError"), None)
        for k, v in vals.items():
            st.heap[("e", env, k)] = v
        return vals

    def call_fn(self, fv: Fn, args, kws, st, node):
        info = fv.info
        if fv.form is not None:
            return self.opaque_call("form:" + info.qual, args, kws, st, node)
        mdl = self.models.get(info.qual) or self.models.get(
            info.qual.split(".")[-1] if False else None)
        if mdl is not None:
            r = mdl(self, st, args, kws, node)
            if r is not NotImplemented:
                return r
        if info.qual in self.opaque:
            return self.opaque_call(info.qual, args, kws, st, node)
        if len(self.stack) > self.max_depth or sum(
                1 for f in self.stack if f.info is info) > 2:
            return self.opaque_call(info.qual, args, kws, st, node)
        self.visited.add(info.qual)
        env = new_id()
        parents = fv.env or ()
        fr = Frame(env, info, info.mod, info.cls, parents,
                   f"{info.mod.rel}:{info.qual.split('.', 1)[-1]}")
        ofr = Frame(new_id(), info, info.mod, info.cls, parents, fr.name)
        vals = self.bind(info, args, kws, st, env, ofr)
        gen = is_generator(info.node)
        if gen:
            for k in vals:
                st.heap.pop(("e", env, k), None)
            return GenCtx(fv, args, kws, info.deco("contextmanager"))
        ev = self.event("enter", info.qual, st, node, args=list(args),
                        kws=dict(kws), extra={"vals": vals})
        ev.extra["tvals"] = {k: self.toT(v, st) for k, v in vals.items()}
        self.stack.append(fr)
        try:
            if isinstance(info.node, ast.Lambda):
                v = self.ev(info.node.body, st, fr)
                ev.result = v
                return v
            flows = self.block(info.node.body, [st], fr)
        finally:
            self.stack.pop()
        pairs = []
        for f in flows:
            if f.kind == "return":
                pairs.append((f.st, f.val if f.val is not None else NONE))
            elif f.kind == "next":
                pairs.append((f.st, NONE))
            elif f.kind == "raise":
                self.raise_sinks[-1].append(f)
        if not pairs:
            raise PathDead()
        s, v = self.merge_results(pairs)
        if not fr.captured:
            dead = [k for k in s.heap if k[0] == "e" and k[1] == env]
            for k in dead:
                del s.heap[k]
        st.become(s)
        ev.result = v
        ev2 = self.event("leave", info.qual, st, node, args=list(args),
                         kws=dict(kws), result=v)
        ev2.extra["vals"] = vals
        ev2.extra["enter"] = ev
        return v

    def instantiate(self, cls: ClsInfo, args, kws, st, node):
        mdl = self.models.get(cls.qual)
        if mdl is not None:
            r = mdl(self, st, args, kws, node)
            if r is not NotImplemented:
                return r
        if cls.qual in self.opaque:
            return self.opaque_call(cls.qual, args, kws, st, node)
        o = Obj(new_id(), cls, False)
        st.heap[("oid", o.oid)] = TRUE
        self.event("new", cls.qual, st, node, args=list(args),
                   kws=dict(kws), result=o)
        init = cls.find("__init__", self.proj)
        if init is not None:
            self.call_fn(self.fn_value(init, st), [o] + list(args), kws, st,
                         node)
            return o
        flds = cls.all_fields(self.proj)
        if flds:
            names = [f[0] for f in flds]
            vals = {}
            for i, v in enumerate(args):
                if i < len(names):
                    vals[names[i]] = v
                else:
                    self.event("bad-call", cls.qual, st, node,
                               extra={"extra": i})
                    self.do_raise(st, mk("ext", "builtins.TypeError"), node)
            ss = kws.get("**")
            for k, v in kws.items():
                if k == "**":
                    continue
                if k not in names:
                    self.event("bad-call", cls.qual, st, node,
                               extra={"unknown": k})
                    self.do_raise(st, mk("ext", "builtins.TypeError"), node)
                vals[k] = v
            for n, c, d in flds:
                if n in vals:
                    continue
                if ss is not None:
                    vals[n] = tm.gather(self.toT(ss, st), const(n))
                elif d is None:
                    self.event("bad-call", cls.qual, st, node,
                               extra={"missing": n})
                    self.do_raise(st, mk("ext", "builtins.TypeError"), node)
                else:
                    vals[n] = self.field_default(d, c, st)
            for n in names:
                st.heap[("o", o.oid, n)] = vals[n]
            post = cls.find("__post_init__", self.proj)
            if post is not None:
                self.call_fn(self.fn_value(post, st), [o], {}, st, node)
            return o
        if args or kws:
            st.heap[("o", o.oid, "args")] = Tup(args)
        return o

    def field_default(self, d, cls, st):
        fr = Frame(new_id(), None, cls.mod, None, (),
                   f"{cls.mod.rel}:{cls.name}")
        if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] \
                == "field":
            for k in d.keywords:
                if k.arg == "default":
                    return self.ev(k.value, st, fr)
                if k.arg == "default_factory":
                    fv = self.ev(k.value, st, fr)
                    return self.call(fv, [], {}, st, fr, d)
            return tm.unk("field")
        return self.ev(d, st, fr)

    # --------------------------------------------------- external callees
    def isclose(self, args, kws, st, rel, ab):
        a, b = (self.toT(x, st) for x in args[:2])
        rel = self.toT(kws.get("rel_tol") or const(rel), st)
        ab = self.toT(kws.get("abs_tol") or const(ab), st)
        big = tm.tmax(mk("abs", a), mk("abs", b))
        r = tm.cmp_("le", mk("abs", tm.sub(a, b)),
                    tm.tmax(tm.mul(rel, big), ab))
        if not tm.syms(r) and r.op != "const":
            try:
                return const(bool(tm.Interp(1).truth(r)))
            except tm.Undecided:
                pass
        return r

    def call_ext(self, name, args, kws, st, fr, node):
        m = self.models.get(name)
        if m is not None:
            r = m(self, st, args, kws, node)
            if r is not NotImplemented:
                return r
        if name.startswith("builtins."):
            r = self.builtin(name[9:], args, kws, st, fr, node)
            if r is not NotImplemented:
                return r
            return self.opaque_call(name[9:], args, kws, st, node)
        if name.startswith("np."):
            r = self.numpy(name[3:], args, kws, st, fr, node)
            if r is not NotImplemented:
                return r
        if name.startswith("math."):
            n = name[5:]
            if n in ("ceil", "floor", "trunc") and len(args) == 1:
                x = self.toT(args[0], st)
                if tm.is_const(x) and isinstance(tm.cval(x), (int, float)):
                    return const(getattr(math, n)(tm.cval(x)))
            if n in ELEM1 and len(args) == 1:
                return mk(ELEM1[n], self.toT(args[0], st))
            if n == "pow":
                return tm.pow_(*[self.toT(a, st) for a in args])
            if n == "isclose":
                return self.isclose(args, kws, st, 1e-9, 0.0)
        if name in ("copy.deepcopy", "copy.copy"):
            return self.copy_value(args[0], st)
        if name == "dataclasses.replace" and isinstance(args[0], Obj):
            o = Obj(new_id(), args[0].cls, False)
            st.heap[("oid", o.oid)] = TRUE
            for n, _, _ in o.cls.all_fields(self.proj):
                st.heap[("o", o.oid, n)] = kws.get(n) or self.getattr(
                    args[0], n, st, fr, node)
            post = o.cls.find("__post_init__", self.proj)
            if post is not None:
                self.call_fn(self.fn_value(post, st), [o], {}, st, node)
            return o
        if name == "dataclasses.asdict" and isinstance(args[0], Obj) \
                and args[0].cls is not None:
            return self.asdict(args[0], st, fr, node)
        if name == "dataclasses.fields":
            o = args[0]
            ci = o.cls if isinstance(o, Obj) else (
                o.info if isinstance(o, Cls) else None)
            if ci is not None:
                res = []
                for n, c, d in ci.all_fields(self.proj):
                    f = Obj(new_id(), None, True, f"field:{n}")
                    st.heap[("o", f.oid, "name")] = const(n)
                    res.append(f)
                return Tup(res)
        if name == "inspect.signature" and isinstance(args[0], Cls):
            o = Obj(new_id(), None, True, "signature")
            st.heap[("o", o.oid, "parameters")] = self.new_dict(st, {
                n: NONE for n, _, _ in args[0].info.all_fields(self.proj)})
            return o
        if name == "functools.partial":
            base = args[0]
            a0, k0 = list(args[1:]), dict(kws)

            def run(ip, s, a, k, nd):
                return ip.call(base, a0 + list(a), {**k0, **k}, s, fr, nd)
            return Model(run, "partial")
        if name == "collections.defaultdict":
            d = self.new_dict(st, {})
            f = args[0] if args else None
            n = f.name.split(".")[-1] if isinstance(f, Ext) else None
            self.factory[d.did] = n if n in ("set", "list", "int", "float") \
                else f
            return d
        if name in ("os.environ.get", "os.getenv"):
            return self.env_get(args, st, node)
        if name == "os.environ.setdefault":
            k = self.toT(args[0], st)
            v = self.env_get(args, st, node)
            st.heap[("y", mk("ext", "os.environ").id, k.id)] = v
            return v
        if name == "os.environ.update" and len(args) <= 1:
            d = dict(kws)
            c = st.heap.get(("d", args[0].did)) if args and isinstance(
                args[0], Dct) else {}
            if isinstance(c, dict):
                for k, v in list(c.items()) + list(d.items()):
                    k = k if isinstance(k, T) else const(k)
                    st.heap[("y", mk("ext", "os.environ").id, k.id)] = \
                        self.toT(v, st)
                return NONE
        if name == "os.environ.pop":
            k = self.toT(args[0], st)
            v = self.env_get(args, st, node)
            st.heap[("y", mk("ext", "os.environ").id, k.id)] = NONE
            self.event("setenv", "pop", st, node, args=[k, NONE])
            return v
        if name.startswith("re.") and name[3:] in RE_FUNCS | {"compile"}:
            r = self.regex(name[3:], args, kws, st)
            if r is not None:
                return r
        if name in ("skfem.BilinearForm", "skfem.LinearForm",
                    "skfem.Functional") and args and isinstance(args[0], Fn):
            return Fn(args[0].info, args[0].env, name.split(".")[-1])
        return self.opaque_call(name, args, kws, st, node)

    def regex(self, name, args, kws, st):
        """regular expressions on constant strings"""
        ts = [self.toT(a, st) for a in args]
        if kws or not all(tm.is_const(t) for t in ts):
            return None
        vs = [tm.cval(t) for t in ts]
        if name == "compile":
            return tm.call("re.compile", *ts)
        try:
            r = getattr(re, name)(*vs)
        except Exception:
            return None
        if r is None:
            return NONE
        if isinstance(r, str):
            return const(r)
        if isinstance(r, list):
            return self.new_list(st, [
                Tup([const(y) for y in x]) if isinstance(x, tuple)
                else const(x) for x in r])
        if isinstance(r, re.Match):
            t = tm.call("re.Match", const(name), *ts)
            self.matches[t.id] = r
            return t
        return None

    def sort_items(self, its, kws, st, fr, node):
        """the items in sorted order, or None.  Keys that are not known
        give an order term, and every sorted item is a choice by it."""
        if not set(kws) <= {"key", "reverse"}:
            return None
        key = kws.get("key")
        ks = [x if key is None or key is NONE else self.call(
            key, [x], {}, st, fr, node) for x in its]
        rev = kws.get("reverse", FALSE)
        known = [self.plain(k, st) for k in ks]
        rv = self.plain(rev, st)
        if None not in known and rv is not None:
            try:
                o = sorted(range(len(ks)), key=lambda i: known[i][0],
                           reverse=bool(rv[0]))
            except TypeError:
                return None
            return [its[i] for i in o]
        its = [self.force(x, st) for x in its]
        if not 1 < len(its) <= 12:
            return its if len(its) == 1 else None
        order = tm.call("sortorder", mk("list", *[
            self.toT(k, st) for k in ks]), self.toT(rev, st))

        def pick(xs, i):
            if all(x is xs[0] for x in xs):
                return xs[0]
            return tm.gather(mk("list", *xs), tm.gather(order, const(i)))
        if all(isinstance(x, T) for x in its):
            return [pick(its, i) for i in range(len(its))]
        if all(isinstance(x, Tup) and len(x.items) == len(its[0].items)
               for x in its):
            rows = [[self.toT(y, st) for y in x.items] for x in its]
            return [Tup([pick([r[j] for r in rows], i)
                         for j in range(len(rows[0]))])
                    for i in range(len(its))]
        if not all(isinstance(x, Obj) and not x.sym and x.cls is its[0].cls
                   and x.cls is not None for x in its):
            return None
        names = [{k[2] for k in st.heap if k[:2] == ("o", x.oid)
                  and len(k) == 3} for x in its]
        if any(n != names[0] for n in names):
            return None
        out = []
        for i in range(len(its)):
            o = self.new_obj(st, its[0].cls, False, f"{its[0].path}#{i}")
            for n in sorted(names[0]):
                st.heap[("o", o.oid, n)] = pick([
                    self.toT(st.heap[("o", x.oid, n)], st) for x in its], i)
            out.append(o)
        return out

    def plain(self, v, st):
        """(python value,) of a constant or a tuple of constants"""
        v = self.force(v, st)
        if isinstance(v, Tup):
            xs = [self.plain(x, st) for x in v.items]
            return None if None in xs else (tuple(x[0] for x in xs),)
        if isinstance(v, T):
            if v.op == "tuple":
                xs = [self.plain(x, st) for x in v.args]
                return None if None in xs else (tuple(x[0] for x in xs),)
            if tm.is_const(v):
                return (tm.cval(v),)
        return None

    def asdict(self, v, st, fr, node):
        v = self.force(v, st)
        if isinstance(v, Gate):
            return self.on_gate(v, st,
                                lambda x, s: self.asdict(x, s, fr, node))
        if isinstance(v, Obj) and v.cls is not None and \
                v.cls.all_fields(self.proj):
            return self.new_dict(st, {
                n: self.asdict(self.getattr(v, n, st, fr, node), st, fr,
                               node)
                for n, _, _ in v.cls.all_fields(self.proj)})
        if isinstance(v, Lst):
            return self.new_list(st, [self.asdict(x, st, fr, node) for x in
                                      st.heap[("l", v.lid)]]
                                 if isinstance(st.heap[("l", v.lid)],
                                               (list, tuple))
                                 else st.heap[("l", v.lid)], v.kind)
        if isinstance(v, Tup):
            return Tup([self.asdict(x, st, fr, node) for x in v.items])
        return v

    def env_get(self, args, st, node):
        k = self.toT(args[0], st)
        v = st.heap.get(("y", mk("ext", "os.environ").id, k.id))
        if v is None:
            v = tm.sym(f"env[{tm.show(k)}]", "s")
            self.types[v] = {"str", "None"}
            tm.MAYBE_NONE.add(v)
            st.heap[("y", mk("ext", "os.environ").id, k.id)] = v
        if len(args) > 1:
            vt = self.toT(v, st)
            c = self.is_none(vt, st)
            return tm.ite(c, self.toT(args[1], st), vt)
        return v

    def copy_value(self, v, st):
        v = self.force(v, st)
        if isinstance(v, Arr):
            return self.new_arr(st, self.content(v, st), "copy",
                                self.shape_of(v, st))
        if isinstance(v, Lst):
            return self.new_list(st, st.heap[("l", v.lid)], v.kind)
        if isinstance(v, Dct):
            return self.new_dict(st, st.heap[("d", v.did)])
        if isinstance(v, Gate):
            return self.on_gate(v, st, lambda x, s: self.copy_value(x, s))
        if isinstance(v, Obj) and not v.sym:
            o = Obj(new_id(), v.cls, False)
            for k, x in list(st.heap.items()):
                if k[0] == "o" and k[1] == v.oid:
                    st.heap[("o", o.oid, k[2])] = self.copy_value(x, st)
            return o
        return v

    # ----------------------------------------------------------- builtins
    def isinstance_(self, v, spec, st):
        """term deciding isinstance(v, spec)"""
        v = self.force(v, st)
        if isinstance(v, Gate):
            return tm.ite(v.cond, self.isinstance_(v.a, spec, st),
                          self.isinstance_(v.b, spec, st))
        if isinstance(spec, Tup):
            return tm.or_(*[self.isinstance_(v, s, st)
                            for s in spec.items])
        if isinstance(v, T) and v.op == "ite":
            return tm.ite(v.args[0], self.isinstance_(v.args[1], spec, st),
                          self.isinstance_(v.args[2], spec, st))
        if isinstance(spec, Cls):
            if isinstance(v, Obj) and v.cls is not None:
                if v.cls.subclass_of(spec.info, self.proj):
                    return TRUE
                if not v.sym or not spec.info.subclass_of(
                        v.cls, self.proj):
                    return FALSE
                return mk("call", "isinstance", mk("obj", v.path),
                          mk("class", spec.info.qual))
            if isinstance(v, (Arr, Lst, Dct, Tup, Fn, Bound)):
                return FALSE
            if isinstance(v, T) and v.op == "const":
                return FALSE
            if isinstance(v, T):
                ty = self.types.get(v)
                if ty and "cls" not in ty:
                    return FALSE
                return mk("call", "isinstance", v,
                          mk("class", spec.info.qual))
            return FALSE
        n = None
        if isinstance(spec, Ext):
            n = spec.name
            if n.startswith("builtins."):
                n = n[9:]
        if n is None:
            return mk("call", "isinstance", self.toT(v, st),
                      self.toT(spec, st))
        if isinstance(v, Lst):
            return const(n == v.kind or n in (
                "object", "collections.abc.Sequence", "typing.Sequence",
                "collections.abc.Iterable"))
        if isinstance(v, Tup):
            return const(n in ("tuple", "collections.abc.Sequence",
                               "typing.Sequence"))
        if isinstance(v, Dct):
            return const(n in ("dict", "collections.abc.Mapping",
                               "typing.Mapping"))
        if isinstance(v, Arr):
            m = self.arr.get(v.cell)
            if m and m.types and m.types - {"ndarray", "None"}:
                return mk("call", "isinstance", self.content(v, st),
                          mk("ext", n))
            return const(n == "np.ndarray")
        if isinstance(v, (Fn, Bound, Cls)):
            return const(n in ("type",) and isinstance(v, Cls))
        if isinstance(v, Obj):
            if v.cls is not None:
                if any(n in b for b in v.cls.ext_bases(self.proj)):
                    return TRUE
                return FALSE
        if isinstance(v, T):
            if v.op == "const":
                x = tm.cval(v)
                py = {"str": str, "int": int, "float": float, "bool": bool,
                      "list": list, "tuple": tuple, "dict": dict}.get(n)
                if py is not None:
                    return const(isinstance(x, py))
                return FALSE
            if v.op in ("list", "tuple", "dict", "set") and n in PY_TYPES:
                return const(v.op == n)
            if v.op in ("comp",) and n in ("list", "tuple", "np.ndarray",
                                           "dict", "str", "float"):
                return const(n == "list")
            if v.op in ("fstr", "fmt") and n in PY_TYPES:
                return const(n == "str")
            if v.op == "float" and tm.kind(v) == "s" and n in PY_TYPES | {
                    "np.ndarray"}:
                return const(n == "float")
            ty = self.types.get(v)
            if ty:
                b = n.split(".")[-1]
                if ty == {b}:
                    return TRUE
                known = {"float", "int", "bool", "str", "list", "ndarray",
                         "dict", "tuple", "None"}
                if b not in ty and ty <= known and b in known and not (
                        b in ("int", "float") and ty & {"bool", "int"}):
                    return FALSE
        return mk("call", "isinstance", self.toT(v, st), mk("ext", n))

    def builtin(self, n, args, kws, st, fr, node):
        A = [self.force(a, st) for a in args]
        if n == "isinstance" and len(A) == 2:
            return self.isinstance_(A[0], A[1], st)
        if n == "len" and len(A) == 1:
            if isinstance(A[0], Gate):
                return self.on_gate(A[0], st, lambda x, s: self.builtin(
                    n, [x], {}, s, fr, node))
            if isinstance(A[0], Obj) and A[0].cls is not None:
                m = A[0].cls.find("__len__", self.proj)
                if m:
                    return self.call_fn(self.fn_value(m, st), [A[0]], {},
                                        st, node)
            return self.length(A[0], st)
        if n == "range":
            return mk("call", "range", *[self.toT(a, st) for a in A])
        if n in ("zip", "enumerate"):
            its = [self.iter_items(a, st) for a in A]
            if n == "zip" and A and all(i is not None for i in its):
                return self.new_list(st, [Tup(x) for x in zip(*its)])
            if n == "enumerate" and its[0] is not None:
                s0 = 0
                sv = A[1] if len(A) > 1 else kws.get("start")
                if isinstance(sv, T) and tm._num(sv):
                    s0 = tm.cval(sv)
                return self.new_list(st, [
                    Tup([const(i + s0), x]) for i, x in enumerate(its[0])])
            if n == "zip" and any(i is not None for i in its):
                # finite lists against an unknown one: align with the list
                pass
            return mk("call", n, *[self.toT(a, st) for a in A], *[
                tm.kw(k, self.toT(v, st)) for k, v in sorted(kws.items())])
        if n == "abs":
            v = A[0]
            t = mk("abs", self.toT(v, st)) if not tm._num(
                self.toT(v, st)) else const(abs(tm.cval(self.toT(v, st))))
            return self.new_arr(st, t, "abs", self.shape_of(v, st)) \
                if self.is_arr(v) else t
        if n in ("max", "min"):
            f = tm.tmax if n == "max" else tm.tmin
            if len(A) == 1:
                its = self.iter_items(A[0], st)
                if its:
                    r = self.toT(its[0], st)
                    for x in its[1:]:
                        r = f(r, self.toT(x, st))
                    return r
                return mk("call", "np." + n, self.toT(A[0], st))
            r = self.toT(A[0], st)
            for x in A[1:]:
                r = f(r, self.toT(x, st))
            return r
        if n == "sum" and A:
            its = self.iter_items(A[0], st)
            if its is not None:
                r = self.toT(A[1], st) if len(A) > 1 else tm.ZERO
                if "start" in kws:
                    r = self.toT(kws["start"], st)
                for x in its:
                    r = tm.add(r, self.toT(x, st))
                return r
            t = self.toT(A[0], st)
            init = self.toT(A[1], st) if len(A) > 1 else tm.ZERO
            if t.op == "comp":
                return mk("fold", "add", init, t.args[0], t.args[1],
                          t.args[2])
            return mk("call", "np.sum", t)
        if n in ("any", "all"):
            its = self.iter_items(A[0], st)
            if its is not None:
                ts = [self.truth(x, st) for x in its]
                return tm.or_(*ts) if n == "any" else tm.and_(*ts)
            return mk("call", n, self.toT(A[0], st))
        if n in ("float", "int", "bool", "str"):
            if not A:
                return const({"float": 0.0, "int": 0, "bool": False,
                              "str": ""}[n])
            t = self.toT(A[0], st)
            if tm.is_const(t):
                try:
                    return const({"float": float, "int": int, "bool": bool,
                                  "str": str}[n](tm.cval(t)))
                except Exception:
                    pass
            if n == "bool":
                return self.truth(A[0], st)
            if n == "float" and self.nd and self.types.get(t) == {"int"}:
                return mk("float", t)
            if n == "float":
                return t if tm.kind(t) == "s" and t.op not in (
                    "const",) or t.op in ("min", "max", "add", "sub", "mul",
                                          "div", "abs") else mk("float", t)
            if n == "str":
                ty = self.types.get(t, ())
                if t.op == "fstr" or ty and set(ty) <= {"str", "None"} and (
                        "None" not in ty or st.decide(
                            self.is_none(t, st)) is False):
                    return t
                return mk("str", t)
            if n == "bool" and set(self.types.get(t, ())) == {"bool"}:
                return t
            return mk("int", t)
        if n in ("list", "tuple", "set", "sorted", "reversed", "frozenset"):
            if not A:
                return Tup([]) if n == "tuple" else self.new_list(
                    st, [], "set" if n in ("set", "frozenset") else "list")
            v = A[0]
            if isinstance(v, Gate):
                return self.on_gate(v, st, lambda x, s: self.builtin(
                    n, [x] + A[1:], kws, s, fr, node))
            if isinstance(v, T) and v.op == "ite" and any(
                    x.op in ("list", "tuple") for x in v.args[1:]):
                return self.branch(
                    st, v.args[0],
                    lambda s: self.builtin(n, [v.args[1]], kws, s, fr, node),
                    lambda s: self.builtin(n, [v.args[2]], kws, s, fr, node))
            its = self.iter_items(v, st)
            if its is not None:
                if n == "reversed":
                    its = its[::-1]
                if n == "sorted":
                    if all(isinstance(x, T) and tm.is_const(x)
                           for x in its) and not kws:
                        try:
                            its = [const(x) for x in sorted(
                                tm.cval(y) for y in its)]
                        except TypeError:
                            pass
                    else:
                        its = self.sort_items(its, kws, st, fr, node)
                        if its is None:
                            return self.opaque_call("sorted", A, kws, st,
                                                    node)
                if n == "tuple":
                    return Tup(its)
                return self.new_list(
                    st, its, "set" if n in ("set", "frozenset") else "list")
            t = self.toT(v, st)
            if n in ("list", "tuple") and t.op in ("comp", "list"):
                l = Lst(new_id(), "list")
                st.heap[("l", l.lid)] = t
                return l
            if n == "list":
                l = Lst(new_id(), "list")
                st.heap[("l", l.lid)] = t if not self.setlike(v) \
                    else tm.call("sorted", t)
                return l
            if n in ("set", "frozenset") and not kws:
                return self.new_list(st, t if self.setlike(v)
                                     else tm.call("set", t), "set")
            return self.opaque_call(n, A, kws, st, node)
        if n == "dict":
            if not A and "**" not in kws:
                return self.new_dict(st, dict(kws))
            if A and isinstance(A[0], Dct):
                c = st.heap.get(("d", A[0].did))
                if isinstance(c, dict):
                    return self.new_dict(st, {**c, **kws})
            if A:
                its = self.iter_items(A[0], st)
                if its is not None and all(isinstance(x, Tup) and len(
                        x.items) == 2 for x in its):
                    return self.new_dict(st, {
                        self.dkey(self.toT(x.items[0], st)): x.items[1]
                        for x in its})
            return self.new_dict(st, mk("call", "dict", *[
                self.toT(a, st) for a in A]))
        if n == "hasattr" and tm.is_const(self.toT(A[1], st)):
            return self.has_attr(A[0], tm.cval(self.toT(A[1], st)), st)
        if n == "getattr" and tm.is_const(self.toT(A[1], st)):
            return self.getattr(A[0], tm.cval(self.toT(A[1], st)), st, fr,
                                node, A[2] if len(A) > 2 else MISSING)
        if n == "setattr" and tm.is_const(self.toT(A[1], st)):
            self.setattr(A[0], tm.cval(self.toT(A[1], st)), A[2], st, fr,
                         node)
            return NONE
        if n == "type" and len(A) == 1:
            if isinstance(A[0], Obj) and A[0].cls is not None:
                return Cls(A[0].cls)
            return mk("call", "type", self.toT(A[0], st))
        if n == "callable":
            if isinstance(A[0], (Fn, Bound, Cls, Ext)):
                return TRUE
            return mk("call", "callable", self.toT(A[0], st))
        if n in EXC:
            return mk("exc", n, *[self.toT(a, st) for a in A])
        if n == "print":
            self.event("call", "print", st, node, args=A, kws=kws)
            return NONE
        if n == "round":
            return mk("call", "round", *[self.toT(a, st) for a in A])
        if n == "pow":
            return tm.pow_(self.toT(A[0], st), self.toT(A[1], st))
        if n == "iter":
            return A[0]
        if n == "next":
            its = self.iter_items(A[0], st)
            if its:
                x = its[0]
                if isinstance(x, T) and x.op == "maybe":
                    # generator with conditions: first that holds
                    r = A[1] if len(A) > 1 else tm.unk("next")
                    for y in reversed(its):
                        if isinstance(y, T) and y.op == "maybe":
                            r = tm.ite(y.args[0], y.args[1].args[2],
                                       self.toT(r, st))
                        else:
                            r = y
                    return r
                return x
            if its == [] and len(A) > 1:
                return A[1]
            c = self.toT(A[0], st)
            if c.op == "list" and c.args and all(
                    x.op == "maybe" for x in c.args):
                r = self.toT(A[1], st) if len(A) > 1 else tm.unk("next")
                for y in reversed(c.args):
                    r = tm.ite(y.args[0], y.args[1].args[2], r)
                return r
            return mk("call", "next", *[self.toT(a, st) for a in A])
        if n in ("map", "filter") and len(A) == 2:
            its = self.iter_items(A[1], st)
            if its is not None and n == "map":
                return self.new_list(st, [
                    self.call(A[0], [x], {}, st, fr, node) for x in its])
            if n == "map":
                x, bound, itvar = self.iter_elem(A[1], st)
                self.it_depth += 1
                try:
                    r = self.toT(self.call(A[0], [x], {}, st, fr, node), st)
                finally:
                    self.it_depth -= 1
                l = Lst(new_id())
                st.heap[("l", l.lid)] = mk("comp", r, itvar, bound)
                return l
        return NotImplemented

    # --------------------------------------------------------------- numpy
    def out_result(self, r, out, st, node, like=()):
        if out is not None:
            out = self.force(out, st)
            if isinstance(out, Tup) and len(out.items) == 1:
                out = out.items[0]
            if isinstance(out, Gate):
                self.write_to(out, r, st, node)
                return self.force(out, st)
            if isinstance(out, Arr):
                self.write(out, r, st, node)
                return out
            self.event("write-unknown", tm.show(self.toT(out, st), 3), st,
                       node)
            return tm.unk("out=")
        for v in like:
            if self.is_arr(v):
                return self.new_arr(st, r, "tmp", self.shape_of(*like, st))
        return r

    def numpy(self, n, args, kws, st, fr, node):
        if self.nd:
            r = nd.func(self, n, args, kws, st, node)
            if r is not None:
                return r
        A = [self.force(a, st) for a in args]
        K = {k: self.force(v, st) for k, v in kws.items()}
        out = K.pop("out", None)
        if isinstance(out, T) and out is NONE:
            out = None
        t = lambda i: self.toT(A[i], st)  # noqa: E731
        if n == "vectorize" and len(A) >= 1 and set(K) <= {"otypes"}:
            def each(ip, s, xs, ks, nd, f=A[0]):
                if ks:
                    return ip.opaque_call("call", [f] + list(xs), ks, s, nd)
                r = ip.call(f, [ip.toT(x, s) for x in xs], {}, s, fr, nd)
                return ip.out_result(ip.toT(r, s), None, s, nd, list(xs))
            return Model(each, "np.vectorize")
        if n in ELEM1 and len(A) >= 1 and set(K) <= {"dtype"}:
            if len(A) == 2:
                out = A[1]
            x = t(0)
            return self.out_result(mk(ELEM1[n], x), out, st, node, A[:1])
        if n in ("negative", "square", "reciprocal", "logical_not",
                 "positive", "invert") and len(A) >= 1 and not K:
            x = t(0)
            if len(A) == 2:
                out = A[1]
            r = {"negative": lambda: tm.neg(x),
                 "square": lambda: tm.mul(x, x),
                 "reciprocal": lambda: tm.div(tm.ONE, x),
                 "positive": lambda: x,
                 "invert": lambda: tm.not_(x),
                 "logical_not": lambda: tm.not_(x)}[n]()
            return self.out_result(r, out, st, node, A[:1])
        if n in ELEM2 and len(A) >= 2 and set(K) <= {"dtype", "where"} \
                and "where" not in K:
            if len(A) == 3:
                out = A[2]
            return self.out_result(ELEM2[n](t(0), t(1)), out, st, node,
                                   A[:2])
        if n in ELEM2 and "where" in K and out is not None:
            c = self.toT(K["where"], st)
            old = self.toT(out, st)
            return self.out_result(
                tm.ite(c, ELEM2[n](t(0), t(1)), old), out, st, node, A[:2])
        if n == "clip":
            lo = A[1] if len(A) > 1 else K.get("a_min", K.get("min", NONE))
            hi = A[2] if len(A) > 2 else K.get("a_max", K.get("max", NONE))
            if len(A) > 3:
                out = A[3]
            x = t(0) if A else self.toT(K.get("a", NONE), st)
            lo, hi = self.toT(lo, st), self.toT(hi, st)
            if lo is not NONE:
                x = tm.tmax(x, lo)
            if hi is not NONE:
                x = tm.tmin(x, hi)
            return self.out_result(x, out, st, node, A[:1])
        if n == "where" and len(A) == 3:
            return self.out_result(
                tm.ite(self.truth_elem(t(0)), t(1), t(2)), None, st, node, A)
        if n in ("where", "nonzero", "flatnonzero") and len(A) == 1 and \
                isinstance(A[0], Arr) and tm.is_const(t(0)):
            sh = self.shape_of(A[0], st)
            if sh is not None:
                A = [mk("full", t(0), sh)]
        if n == "where" and len(A) == 1:
            r = mk("call", "np.where1", t(0))
            return Tup([self.new_arr(st, mk("call", "np.nonzero1", t(0)),
                                     "where")]) if tm.kind(t(0)) != "?" \
                or True else r
        if n in ("column_stack", "stack") and A and set(K) <= {"axis"}:
            ax = K.get("axis", A[1] if len(A) > 1 else const(
                1 if n == "column_stack" else 0))
            its = self.iter_items(A[0], st)
            if its and isinstance(ax, T) and tm.is_const(ax):
                xs = [self.toT(x, st) for x in its]
                if all(tm.kind(x) == "a" for x in xs) and all(
                        x.op not in ("star", "maybe") for x in xs):
                    if n == "column_stack" or tm.cval(ax) in (1, -1):
                        return self.stack_columns(xs, st)
                    if tm.cval(ax) == 0:
                        return self.new_arr(
                            st, mk("call", "array_of", mk("list", *xs)),
                            "rows", Tup([const(len(xs)), tm.unk("len")]))
        if n == "transpose" and len(A) == 1 and not K and isinstance(
                A[0], Arr):
            r = self.transpose(A[0], st)
            if r is not None:
                return r
        if n in ("nonzero",) and len(A) == 1:
            return Tup([self.new_arr(
                st, mk("call", "np.nonzero1", t(0)), "nonzero")])
        if n == "flatnonzero":
            return self.new_arr(st, mk("call", "np.nonzero1", t(0)),
                                "nonzero")
        if n == "copyto" and len(A) == 2 and not K:
            dst = A[0]
            return self.write_to(dst, t(1), st, node)
        if n == "copyto" and "where" in K and isinstance(A[0], Arr):
            c = self.toT(K["where"], st)
            self.write(A[0], tm.ite(c, t(1), t(0)), st, node)
            return NONE
        if n in ("copy", "array", "asarray", "ascontiguousarray",
                 "asfortranarray", "atleast_1d") and A:
            v = A[0]
            if isinstance(v, Gate):
                return self.on_gate(v, st, lambda x, s: self.numpy(
                    n, [x] + A[1:], kws, s, fr, node))
            if isinstance(v, Arr):
                if n in ("asarray", "atleast_1d"):
                    return v
                return self.new_arr(st, t(0), "copy", self.shape_of(v, st))
            its = self.seq(v, st)
            if its is not None:
                x = mk("call", "array_of", t(0))
                if len(its) == 0:
                    x = mk("call", "array_of", mk("list"))
                return self.new_arr(st, x, "array",
                                    shape=mk("tuple", const(len(its))))
            x = t(0)
            if tm.kind(x) == "s":
                return self.new_arr(st, x, "array0")
            return self.new_arr(
                st, x if x.op not in ("comp", "list") else mk(
                    "call", "array_of", x), "copy",
                shape=mk("attr", x, "shape"))
        if n in ("zeros_like", "ones_like", "empty_like", "full_like"):
            sh = self.shape_of(A[0], st) or mk("attr", t(0), "shape")
            c = {"zeros_like": tm.ZERO, "ones_like": tm.ONE,
                 "empty_like": mk("uninit")}.get(n)
            if n == "full_like":
                c = self.toT(A[1] if len(A) > 1 else K["fill_value"], st)
            return self.new_arr(st, c, n, shape=sh)
        if n in ("zeros", "ones", "empty", "full"):
            c = {"zeros": tm.ZERO, "ones": tm.ONE,
                 "empty": mk("uninit")}.get(n)
            sh = self.toT(A[0] if A else K["shape"], st)
            if n == "full":
                c = self.toT(A[1] if len(A) > 1 else K["fill_value"], st)
            dt = K.get("dtype", A[1] if len(A) > 1 and n != "full" else None)
            if n in ("zeros", "ones") and dt is not None and self.toT(
                    dt, st) is mk("ext", "builtins.bool"):
                c = tm.TRUE if n == "ones" else tm.FALSE
            if sh.op not in ("tuple", "list"):
                sh = sh if tm.kind(sh) != "s" else mk("tuple", sh)
            return self.new_arr(st, c, n, shape=sh)
        if n == "take" and len(A) == 2 and set(K) <= {"mode"} or (
                n == "take" and len(A) == 2 and set(K) == {"axis"}
                and self.toT(K["axis"], st) in (tm.ZERO, NONE)):
            g = self.new_arr(st, tm.gather(t(0), self.idx_term(A[1], st)),
                             "gathered")
            return self.out_result(self.toT(g, st), out, st, node) \
                if out is not None else g
        if n in ("compress", "extract") and len(A) == 2 and not K:
            return self.new_arr(st, tm.gather(t(1), self.idx_term(A[0], st)),
                                "gathered")
        if n in ("put", "putmask", "place") and len(A) == 3 and not K \
                and isinstance(A[0], Arr):
            self.write(A[0], tm.store(t(0), self.idx_term(A[1], st), t(2)),
                       st, node)
            return NONE
        if n == "average" and len(A) == 1 and set(K) == {"weights"}:
            w = self.toT(K["weights"], st)
            return tm.div(tm.call("np.sum", tm.mul(t(0), w)),
                          tm.call("np.sum", w))
        if n in ("vdot", "inner") and len(A) == 2 and not K:
            return tm.call("np.dot", t(0), t(1))
        if n == "add.at" and len(A) == 3:
            old = t(0)
            idx = self.idx_term(A[1], st)
            if isinstance(A[0], Arr):
                self.write(A[0], mk("call", "scatter_add", old, idx, t(2)),
                           st, node)
            return NONE
        if n == "isclose" and len(A) >= 2 and not any(
                self.is_arr(a) for a in A[:2]):
            return self.isclose(A, {"rel_tol": K.get("rtol"), "abs_tol":
                                    K.get("atol")}, st, 1e-5, 1e-8)
        if n in ("isclose", "allclose", "array_equal"):
            return tm.call("np." + n, *[self.toT(a, st) for a in A], **{
                k: self.toT(v, st) for k, v in K.items()})
        if n in ("float64", "float32", "int64", "int32", "bool_") and A:
            return A[0]
        if n in ("amax", "amin"):
            n = n[1:]
        if n == "average" and len(A) == 1:
            n = "mean"
        if n in ("max", "min", "sum", "mean", "any", "all", "prod"):
            its = self.seq(A[0], st) if A else None
            del its
            r = tm.call("np." + n, *[self.toT(a, st) for a in A], **{
                k: self.toT(v, st) for k, v in K.items() if k != "dtype"})
            if out is not None:
                return self.out_result(r, out, st, node)
            self.event("call", "np." + n, st, node, args=A, kws=K, result=r,
                       extra={"targs": [self.toT(a, st) for a in A]})
            return self.new_arr(st, r, n) if tm.kind(r) == "a" else r
        if out is not None:
            r = tm.call("np." + n, *[self.toT(a, st) for a in A], **{
                k: self.toT(v, st) for k, v in K.items()})
            return self.out_result(r, out, st, node)
        return NotImplemented

    @staticmethod
    def truth_elem(t):
        return t

    def call_meth(self, recv, name, args, kws, st, fr, node):
        recv = self.force(recv, st)
        m = self.models.get("." + name)
        if m is not None:
            r = m(self, st, [recv] + list(args), kws, node)
            if r is not NotImplemented:
                return r
        if isinstance(recv, Gate):
            return self.on_gate(recv, st, lambda x, s: self.call_meth(
                x, name, args, kws, s, fr, node))
        if self.nd:
            r = nd.method(self, recv, name, args, kws, st, node)
            if r is not None:
                return r
        if isinstance(recv, Lst):
            r = self.list_meth(recv, name, args, kws, st, node)
            if r is not NotImplemented:
                return r
        if isinstance(recv, Dct):
            r = self.dict_meth(recv, name, args, kws, st, fr, node)
            if r is not NotImplemented:
                return r
        if isinstance(recv, Slot):
            l = self.new_list(st, self.toT(recv, st), recv.kind)
            r = self.list_meth(l, name, args, kws, st, node)
            if r is not NotImplemented:
                c = self.toT(l, st)
                if c is not self.toT(recv, st):
                    self.put_slot(recv, c, st, node)
                return r
            recv = self.toT(recv, st)
        if isinstance(recv, T) and recv.op == "const" and isinstance(
                tm.cval(recv), str):
            a = [self.toT(x, st) for x in args]
            if name == "join" and len(a) == 1:
                its = self.iter_items(args[0], st)
                if its is not None:
                    parts = []
                    for i, x in enumerate(its):
                        if i:
                            parts.append(recv)
                        parts.append(self.toT(x, st))
                    return fstr(parts)
            if all(tm.is_const(x) for x in a) and not kws and hasattr(
                    str, name):
                try:
                    v = getattr(tm.cval(recv), name)(
                        *[tm.cval(x) for x in a])
                    if isinstance(v, list):
                        return self.new_list(st, [const(x) for x in v])
                    if isinstance(v, (str, int, bool, tuple)):
                        return const(v)
                except Exception:
                    pass
            return tm.call("." + name, recv, *a)
        if isinstance(recv, T) and recv.op == "call" and recv.args[0] == \
                "re.compile" and name in RE_FUNCS:
            r = self.regex(name, list(recv.args[1:2]) + list(args), kws, st)
            if r is not None and len(recv.args) == 2:
                return r
        if isinstance(recv, T) and recv.id in self.matches and name in (
                "group", "groups", "start", "end", "span"):
            a = [self.plain(x, st) for x in args]
            if None not in a and not kws:
                try:
                    v = getattr(self.matches[recv.id], name)(
                        *[x[0] for x in a])
                    return Tup([const(x) for x in v]) if isinstance(
                        v, tuple) else const(v)
                except Exception:
                    pass
        if isinstance(recv, T) and recv.op == "fstr" and name in (
                "format", "strip", "lower", "upper", "split", "replace",
                "encode", "startswith", "endswith"):
            return tm.call("." + name, recv,
                           *[self.toT(x, st) for x in args])
        if isinstance(recv, Fn) and recv.form is not None and name in (
                "assemble", "elemental"):
            return self.form_call(recv, name, args, kws, st, node)
        if isinstance(recv, Arr) or (isinstance(recv, T)):
            if name in ("copy", "tocsr", "tocsc", "tocoo") and not args:
                t = self.toT(recv, st)
                if name == "copy":
                    if isinstance(recv, Arr):
                        return self.new_arr(st, t, "copy",
                                            self.shape_of(recv, st))
                    return t
                # the storage format does not change the matrix
                return t
            if name == "astype":
                t = self.toT(recv, st)
                self.event("call", ".astype", st, node, args=[recv] + list(
                    args), kws=kws, result=t)
                return self.new_arr(st, t, "copy", self.shape_of(recv, st)) \
                    if isinstance(recv, Arr) else t
            if name in ("flatten", "ravel", "squeeze", "toarray", "item") \
                    and isinstance(recv, Arr):
                if name == "item":
                    return self.toT(recv, st)
                return self.new_arr(st, tm.call("np.ravel", self.toT(
                    recv, st)), "copy")
            if name == "fill" and isinstance(recv, Arr):
                self.write(recv, self.toT(args[0], st), st, node)
                return NONE
            if name in ("sort", "partition") and isinstance(recv, Arr):
                self.write(recv, tm.call("np.sort", self.toT(recv, st)), st,
                           node)
                return NONE
            if name in NP_METHODS and (
                    isinstance(recv, Arr) or tm.kind(recv) != "s"):
                r = self.numpy(name, [recv] + list(args), kws, st, fr, node)
                if r is not NotImplemented:
                    return r
                return self.opaque_call("np." + name, [recv] + list(args),
                                        kws, st, node)
        if isinstance(recv, T) and recv.op == "ext":
            return self.call_ext(recv.args[0] + "." + name, args, kws, st,
                                 fr, node)
        if isinstance(recv, Ext):
            return self.call_ext(recv.name + "." + name, args, kws, st, fr,
                                 node)
        if isinstance(recv, T) and name in ("get",) and recv.op == "dict":
            k = self.toT(args[0], st)
            for p in recv.args:
                if p.op == "pair" and p.args[0] is k:
                    return p.args[1]
        return self.opaque_call("." + name, [recv] + list(args), kws, st,
                                node)

    def form_call(self, f: Fn, how, args, kws, st, node):
        """assemble / elemental of a repo form: the integrand, inlined"""
        integ = self.form_integrand(f, kws, st, node)
        ta = [self.toT(a, st) for a in args]
        r = mk("call", "form." + how, const(f.form), integ, *ta)
        self.event("form", f.info.qual, st, node, args=list(args),
                   kws=dict(kws), result=r,
                   extra={"integrand": integ, "how": how, "form": f.form,
                          "tkws": {k: self.toT(v, st)
                                   for k, v in kws.items()}})
        return self.new_arr(st, r, how)

    def form_integrand(self, f: Fn, kws, st, node):
        a = f.info.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        s = st.fork()
        args = []
        for n in names[:-1]:
            role = {0: "U", 1: "V"}[len(args)] if f.form == "BilinearForm" \
                else "V"
            args.append(tm.sym(f"form.{role}", "a"))
        w = self.new_dict(s, dict(kws))
        wo = Obj(new_id(), None, True, "form.w")
        for k, v in kws.items():
            s.heap[("o", wo.oid, k)] = v
        fn = Fn(f.info, f.env, None)
        args.append(w)
        try:
            v = self.call_fn(fn, args, {}, s, node)
            return self.toT(v, s)
        except PathDead:
            return tm.unk("integrand raises")

    def put_slot(self, s, val, st, node):
        self.snapshot(s.dct, st)
        st.heap[("d", s.dct.did)] = tm.store(
            self.toT(s.dct, st), s.key, val)
        self.event("setitem", "dict", st, node, args=[s.dct, s.key, val])

    def snapshot(self, v, st):
        """a container whose value was copied into another one changes: the
        copy no longer follows it"""
        if isinstance(v, (Lst, Dct)):
            i = v.lid if isinstance(v, Lst) else v.did
            if i in self.copied:
                self.stale = True

    def slot(self, d, key, kind, st):
        """D[key], or a new empty container put there"""
        t = self.toT(d, st)
        new = tm.call("dict.setdefault", t, key, mk(kind))
        if not (t.op == "store" and t.args[1] is key):
            st.heap[("d", d.did)] = new
        return Slot(d, key, kind)

    def set_meth(self, l, name, args, st):
        """methods of a set whose elements are not all known"""
        c = self.toT(l, st)
        a = [self.toT(x, st) for x in args]
        k = ("l", l.lid)
        inplace = {"add": "add", "update": "update", "discard": "discard",
                   "remove": "discard", "difference_update": "sub",
                   "intersection_update": "and",
                   "symmetric_difference_update": "xor"}
        value = {"union": "update", "difference": "sub",
                 "intersection": "and", "symmetric_difference": "xor"}
        if name in inplace:
            self.snapshot(l, st)
            st.heap[k] = tm.call("set." + inplace[name], c, *a)
            return NONE
        if name in value:
            return self.new_list(
                st, tm.call("set." + value[name], c, *a), "set")
        if name in ("issubset", "issuperset", "isdisjoint"):
            return tm.call("set." + name, c, *a)
        if name == "copy":
            return self.new_list(st, c, "set")
        if name == "clear":
            self.snapshot(l, st)
            st.heap[k] = ()
            return NONE
        return NotImplemented

    def list_meth(self, l, name, args, kws, st, node):
        c = st.heap.get(("l", l.lid))
        if l.kind == "set":
            self.sets.add(l.lid)
        if name not in ("copy", "index", "count", "union", "difference",
                        "intersection"):
            self.snapshot(l, st)
        if l.kind == "set" and not kws:
            its = [self.iter_items(a, st) for a in args] \
                if name != "add" else [(a,) for a in args]
            if not isinstance(c, tuple) or any(i is None for i in its) or \
                    not all(isinstance(x, T) and tm.is_const(x)
                            for y in its + [c] for x in y):
                fresh = name in ("add", "update", "union") and c == () and \
                    len(args) == 1 and its[0] is not None and \
                    len(its[0]) == 1
                if not fresh or name == "union":
                    r = self.set_meth(l, name, args, st)
                    if r is not NotImplemented:
                        self.event("append" if name == "add" else "set",
                                   "list", st, node, args=[l] + list(args),
                                   extra={"value": self.toT(args[0], st)
                                          if args else NONE, "lid": l.lid})
                        return r
            else:
                u = []
                for y in its:
                    u += [x for x in y if x not in u]
                old, new = c, None
                if name in ("add", "update", "union"):
                    new = c + tuple(x for x in u if x not in c)
                elif name in ("discard", "difference_update", "difference"):
                    new = tuple(x for x in c if x not in u)
                elif name in ("intersection", "intersection_update"):
                    new = tuple(x for x in c if all(x in y for y in its))
                if new is not None:
                    if name in ("union", "difference", "intersection"):
                        return self.new_list(st, new, "set")
                    if name == "add":
                        self.event("append", "list", st, node,
                                   args=[l, args[0]],
                                   extra={"value": args[0], "lid": l.lid})
                    st.heap[("l", l.lid)] = new
                    return NONE
        if name in ("append", "add", "insert") and args and isinstance(
                args[-1], (Lst, Dct)) and not isinstance(c, tuple):
            self.copied.add(getattr(args[-1], "lid", None)
                            or args[-1].did)
        if name in ("append", "add") and len(args) == 1:
            if isinstance(c, tuple):
                if l.kind == "set" and any(x is args[0] for x in c):
                    return NONE
                st.heap[("l", l.lid)] = c + (args[0],)
            else:
                x = self.toT(args[0], st)
                if isinstance(args[0], Arr) and tm.kind(x) == "s":
                    sh = self.shape_of(args[0], st)
                    if sh is not None:
                        x = mk("full", x, sh)
                st.heap[("l", l.lid)] = mk("append", self.toT(l, st), x)
            self.event("append", "list", st, node, args=[l, args[0]],
                       extra={"value": self.toT(args[0], st),
                              "lid": l.lid})
            return NONE
        if name in ("extend", "update") and len(args) == 1:
            its = self.iter_items(args[0], st)
            if isinstance(c, tuple) and its is not None:
                st.heap[("l", l.lid)] = c + tuple(its)
            else:
                st.heap[("l", l.lid)] = mk(
                    "call", "extend", self.toT(l, st),
                    self.toT(args[0], st))
            return NONE
        if name == "copy":
            return self.new_list(st, c, l.kind)
        if name == "pop" and isinstance(c, tuple) and c:
            i = -1
            if args:
                t = self.toT(args[0], st)
                if not tm._num(t):
                    return NotImplemented
                i = tm.cval(t)
            if -len(c) <= i < len(c):
                v = c[i]
                x = list(c)
                x.pop(i)
                st.heap[("l", l.lid)] = tuple(x)
                self.event("pop", "list", st, node, args=[l, v])
                return v
        if name == "pop" and isinstance(c, T):
            v = tm.call("list_last", c)
            if c.op == "append":
                v = c.args[1]
                st.heap[("l", l.lid)] = c.args[0]
            else:
                st.heap[("l", l.lid)] = tm.call("list_pop", c)
            self.event("pop", "list", st, node, args=[l, v])
            return v
        if name == "insert" and isinstance(c, tuple) and len(args) == 2 \
                and tm._num(self.toT(args[0], st)):
            x = list(c)
            x.insert(tm.cval(self.toT(args[0], st)), args[1])
            st.heap[("l", l.lid)] = tuple(x)
            return NONE
        if name == "clear":
            st.heap[("l", l.lid)] = ()
            return NONE
        if name in ("index", "count") and isinstance(c, tuple):
            t = self.toT(args[0], st)
            ts = [self.toT(x, st) for x in c]
            if tm.is_const(t) and all(tm.is_const(x) for x in ts):
                vals = [tm.cval(x) for x in ts]
                if name == "count":
                    return const(vals.count(tm.cval(t)))
                if tm.cval(t) in vals:
                    return const(vals.index(tm.cval(t)))
            return tm.call("." + name, self.toT(l, st), t)
        if name in ("remove", "reverse") and l.kind == "list" and isinstance(
                c, tuple) and all(isinstance(x, T) and tm.is_const(x)
                                  for x in list(c) + list(args)):
            vals = [tm.cval(x) for x in c]
            if name == "reverse":
                st.heap[("l", l.lid)] = c[::-1]
                return NONE
            v = tm.cval(args[0])
            if v not in vals:
                self.do_raise(st, mk("ext", "builtins.ValueError"), node)
            i = vals.index(v)
            st.heap[("l", l.lid)] = c[:i] + c[i + 1:]
            return NONE
        if name == "sort" and not args and isinstance(
                st.heap.get(("l", l.lid)), (tuple, list)):
            its = self.list_items(l, st)
            its = its and self.sort_items(its, kws, st, None, node)
            if its is not None:
                old = st.heap[("l", l.lid)]
                st.heap[("l", l.lid)] = type(old)(its)
                return NONE
        if name in ("remove", "discard", "sort", "reverse"):
            st.heap[("l", l.lid)] = tm.call(
                "list." + name, self.toT(l, st),
                *[self.toT(a, st) for a in args])
            return NONE
        return NotImplemented

    def dict_meth(self, d, name, args, kws, st, fr, node):
        c = st.heap.get(("d", d.did))
        if not isinstance(c, dict):
            if name in ("update",):
                st.heap[("d", d.did)] = tm.call(
                    "dict.update", self.toT(d, st),
                    *[self.toT(a, st) for a in args])
                return NONE
            if name == "pop":
                r = tm.call(".get", self.toT(d, st), *[
                    self.toT(a, st) for a in args])
                self.snapshot(d, st)
                st.heap[("d", d.did)] = tm.call(
                    "dict.pop", self.toT(d, st), self.toT(args[0], st))
                return r
            if name == "setdefault" and args:
                v = args[1] if len(args) > 1 else NONE
                k = self.toT(args[0], st)
                self.snapshot(d, st)
                if isinstance(v, Lst) and st.heap.get(("l", v.lid)) == ():
                    return self.slot(d, k, v.kind, st)
                st.heap[("d", d.did)] = tm.call(
                    "dict.setdefault", self.toT(d, st), k, self.toT(v, st))
                return tm.gather(self.toT(d, st), k)
            if name == "clear":
                self.snapshot(d, st)
                st.heap[("d", d.did)] = {}
                return NONE
            if name == "copy":
                return self.new_dict(st, self.toT(d, st))
            return NotImplemented
        if name == "get" and self.walks(c, self.dkey(
                self.toT(args[0], st))):
            return self.walk(
                c, self.dkey(self.toT(args[0], st)), st, lambda x, s: x,
                lambda s: args[1] if len(args) > 1 else NONE)
        if name == "get":
            k = self.dkey(self.toT(args[0], st))
            dv = args[1] if len(args) > 1 else NONE
            if k in c:
                v = c[k]
                if isinstance(v, Gate) and MISSING in (v.a, v.b):
                    cc = v.cond
                    return self.merge_val(
                        cc, dv if v.a is MISSING else v.a,
                        dv if v.b is MISSING else v.b, st, st)
                return v
            if not isinstance(k, T) and all(
                    not isinstance(x, T) for x in c):
                return dv
            if isinstance(k, T) and all(not isinstance(x, T) for x in c) \
                    and len(c) <= 12:
                keys = list(c)

                def pick(i, s):
                    if i == len(keys):
                        return dv
                    return self.branch(
                        s, self.eqt(k, const(keys[i]), s),
                        lambda z: c[keys[i]], lambda z: pick(i + 1, z))
                return pick(0, st)
            return NotImplemented
        if name == "items":
            return self.new_list(st, [
                Tup([const(k) if not isinstance(k, T) else k, v])
                for k, v in c.items()])
        if name == "keys":
            # set-like (compared without order), iterated in order
            return self.new_list(st, [
                const(k) if not isinstance(k, T) else k for k in c], "set")
        if name == "values":
            return self.new_list(st, list(c.values()))
        if name == "setdefault":
            k = self.dkey(self.toT(args[0], st))
            if k in c and not (isinstance(c[k], Gate)
                               and MISSING in (c[k].a, c[k].b)):
                return c[k]
            v = args[1] if len(args) > 1 else NONE
            if isinstance(k, T) and isinstance(v, Lst) and st.heap.get(
                    ("l", v.lid)) == () and self.flat(c, st):
                return self.slot(d, k, v.kind, st)
            st.heap[("d", d.did)] = {**c, k: v}
            return v
        if name == "pop":
            k = self.dkey(self.toT(args[0], st))
            if k in c:
                x = dict(c)
                v = x.pop(k)
                st.heap[("d", d.did)] = x
                return v
            if len(args) > 1:
                return args[1]
        if name == "update":
            x = dict(c)
            if args:
                o = args[0]
                oc = st.heap.get(("d", o.did)) if isinstance(o, Dct) \
                    else None
                if not isinstance(oc, dict):
                    st.heap[("d", d.did)] = tm.call(
                        "dict.update", self.toT(d, st),
                        self.toT(o, st))
                    return NONE
                x.update(oc)
            x.update(kws)
            st.heap[("d", d.did)] = x
            return NONE
        if name == "copy":
            return self.new_dict(st, c)
        if name == "clear":
            st.heap[("d", d.did)] = {}
            return NONE
        return NotImplemented

    # ---------------------------------------------------------- statements
    def block(self, stmts, states, fr):
        live = states
        out = []
        for s in stmts:
            nxt = []
            for st in live:
                for fl in self.stmt(s, st, fr):
                    if fl.kind == "next":
                        nxt.append(fl.st)
                    else:
                        out.append(fl)
            if not nxt:
                live = []
                break
            live = self.join(nxt)
        return [Flow("next", s) for s in live] + out

    def stmt(self, s, st, fr):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            self.notes.append(f"statement {type(s).__name__} skipped")
            return [Flow("next", st)]
        try:
            r = m(s, st, fr)
        except PathDead:
            return []
        return r if r is not None else [Flow("next", st)]

    def st_Expr(self, s, st, fr):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            if fr.yield_cb is not None and isinstance(s.value, ast.Yield):
                v = self.ev(s.value.value, st, fr) if s.value.value \
                    else NONE
                return fr.yield_cb(v, st)
            return None
        self.ev(s.value, st, fr)

    def ev_Yield(self, e, st, fr):
        return tm.unk("yield")

    def ev_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def ev_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def st_Pass(self, s, st, fr):
        return None

    st_Global = st_Nonlocal_ = st_Pass

    def st_Nonlocal(self, s, st, fr):
        for n in s.names:
            fr.globals.add(n)

    def st_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)

    def st_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            env = fr.env
            if t.id in fr.globals:
                for p in fr.parents:
                    if ("e", p, t.id) in st.heap:
                        env = p
                        break
            st.heap[("e", env, t.id)] = v
            if isinstance(v, Arr) and not v.path:
                m = self.arr.get(v.cell)
                if m is not None and m.label in (
                        "tmp", "copy", "array", "gathered", "zeros", "ones",
                        "empty", "full", "zeros_like", "empty_like",
                        "ones_like", "full_like"):
                    m.label = t.id
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            self.setattr(o, t.attr, v, st, fr, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            it, iv = self.index(t.slice, st, fr)
            self.setitem(o, it, iv, v, st, fr, t, t.value)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def unpack(self, elts, v, st, fr):
        v = self.force(v, st)
        its = self.list_items(v, st)
        if its is None and isinstance(v, Gate):
            ia = self.list_items(self.force(v.a, st), st)
            ib = self.list_items(self.force(v.b, st), st)
            if ia is not None and ib is not None and len(ia) == len(ib):
                its = tuple(self.merge_val(v.cond, x, y, st, st)
                            for x, y in zip(ia, ib))
            elif v.a is MISSING:
                its = ib
            elif v.b is MISSING:
                its = ia
        if its is not None and not any(
                isinstance(e, ast.Starred) for e in elts):
            if len(its) != len(elts):
                self.do_raise(st, mk("ext", "builtins.ValueError"), None)
            for e, x in zip(elts, its):
                self.assign(e, x, st, fr)
            return
        if its is not None:
            k = next(i for i, e in enumerate(elts)
                     if isinstance(e, ast.Starred))
            tail = len(elts) - k - 1
            for e, x in zip(elts[:k], its[:k]):
                self.assign(e, x, st, fr)
            self.assign(elts[k].value, self.new_list(
                st, its[k:len(its) - tail]), st, fr)
            for e, x in zip(elts[k + 1:], its[len(its) - tail:]):
                self.assign(e, x, st, fr)
            return
        t = self.toT(v, st)
        for i, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                self.assign(e.value, tm.unk("starred"), st, fr)
            else:
                x = tm.gather(t, const(i))
                if tm.kind(x) == "a":
                    x = self.new_arr(st, x, "item")
                self.assign(e, x, st, fr)

    def st_AugAssign(self, s, st, fr):
        t = s.target
        load = ast.copy_location(
            ast.parse(ast.unparse(t), mode="eval").body, t)
        for n in ast.walk(load):
            if isinstance(n, (ast.expr,)):
                n.lineno = getattr(t, "lineno", 0)
                n.col_offset = 0
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            it, iv = self.index(t.slice, st, fr)
            old = self.getitem(o, it, iv, st, fr, t)
            rhs = self.ev(s.value, st, fr)
            if isinstance(old, (Lst, Slot)) and (
                    old.kind == "set" and type(s.op) in SET_AUG
                    or old.kind == "list" and isinstance(s.op, ast.Add)):
                self.call_meth(old, SET_AUG.get(type(s.op), "extend"),
                               [rhs], {}, st, fr, s)
                return
            if isinstance(old, Arr) and tm.is_full_index(it):
                r = self.toT(self.binop(s.op, old, rhs, st, s), st)
                self.write(old, r, st, s)
                return
            new = self.binop(s.op, old, rhs, st, s)
            self.setitem(o, it, iv, self.toT(new, st), st, fr, s, t.value)
            return
        old = self.ev(load, st, fr)
        rhs = self.ev(s.value, st, fr)
        old = self.force(old, st)
        if isinstance(old, Gate) and (self.is_arr(old)):
            def upd(x, z):
                if isinstance(x, Arr):
                    self.write(x, self.toT(self.binop(
                        s.op, x, rhs, z, s), z), z, s)
                    return x
                return self.binop(s.op, x, rhs, z, s)
            v = self.on_gate(old, st, upd)
            self.assign(t, v, st, fr)
            return
        if isinstance(old, Arr):
            r = self.toT(self.binop(s.op, old, rhs, st, s), st)
            self.write(old, r, st, s)
            if isinstance(t, ast.Attribute):
                o = self.ev(t.value, st, fr)
                self.setattr(o, t.attr, old, st, fr, t)
            return
        if isinstance(old, (Lst, Slot)) and old.kind == "set" and type(
                s.op) in SET_AUG:
            self.call_meth(old, SET_AUG[type(s.op)], [rhs], {}, st, fr, s)
            return
        if isinstance(old, Slot) and isinstance(s.op, ast.Add):
            self.call_meth(old, "extend", [rhs], {}, st, fr, s)
            return
        if isinstance(old, Lst) and isinstance(s.op, ast.Add):
            self.list_meth(old, "extend", [rhs], {}, st, s)
            return
        self.assign(t, self.binop(s.op, old, rhs, st, s), st, fr)

    def st_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        return [Flow("return", st, v, s)]

    def st_Break(self, s, st, fr):
        return [Flow("break", st, None, s)]

    def st_Continue(self, s, st, fr):
        return [Flow("continue", st, None, s)]

    def st_Raise(self, s, st, fr):
        exc = mk("exc", "reraise")
        if s.exc is not None:
            v = self.ev(s.exc, st, fr)
            exc = self.toT(v, st)
        self.event("raise", tm.show(exc, 3), st, s, args=[exc])
        return [Flow("raise", st, exc, s)]

    def st_Assert(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr), st)
        d = st.decide(c)
        if d is True:
            return None
        bad = st.fork(tm.not_(c))
        exc = mk("exc", "AssertionError")
        self.event("raise", "AssertionError", bad, s, args=[exc])
        fl = [Flow("raise", bad, exc, s)]
        if d is False:
            return fl
        st.assume(c)
        return [Flow("next", st)] + fl

    def st_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.heap.pop(("e", fr.env, t.id), None)
            elif isinstance(t, ast.Subscript):
                o = self.force(self.ev(t.value, st, fr), st)
                it, iv = self.index(t.slice, st, fr)
                if isinstance(o, Lst):
                    self.del_item(o, it, st)
                elif isinstance(o, Dct):
                    c = st.heap.get(("d", o.did))
                    if isinstance(c, dict):
                        c = dict(c)
                        c.pop(self.dkey(it), None)
                        st.heap[("d", o.did)] = c
                    else:
                        st.heap[("d", o.did)] = tm.call(
                            "dict.pop", self.toT(o, st), it)
                elif isinstance(o, Ext):
                    st.heap[("y", mk("ext", o.name).id, it.id)] = NONE
                    self.event("setitem", o.name, st, s,
                               args=[mk("ext", o.name), it, NONE])

    def del_item(self, l, it, st):
        """del l[i] or del l[a:b]"""
        self.snapshot(l, st)
        c = st.heap.get(("l", l.lid))
        k = None
        if it.op == "const" and isinstance(tm.cval(it), int):
            k = slice(tm.cval(it), tm.cval(it) + 1 or None)
        elif it.op == "slice" and all(
                x is NONE or x.op == "const" for x in it.args):
            k = slice(*[None if x is NONE else tm.cval(x)
                        for x in it.args])
        if isinstance(c, tuple) and k is not None:
            c = list(c)
            del c[k]
            st.heap[("l", l.lid)] = tuple(c)
        else:
            st.heap[("l", l.lid)] = tm.call("list.del", self.toT(l, st), it)

    def st_Import(self, s, st, fr):
        tmp = {}
        fr.mod.imports(s, tmp)
        for k, v in tmp.items():
            if v[0] == "mod":
                r = self.proj.module_or_ext(v[1])
            else:
                m, n = v[1], v[2]
                r = None
                if m in self.proj.modules:
                    r = self.proj.resolve_name(self.proj.modules[m], n)
                elif f"{m}.{n}" in self.proj.modules:
                    r = self.proj.modules[f"{m}.{n}"]
                if r is None:
                    r = Ext(canon(f"{m}.{n}"))
            st.heap[("e", fr.env, k)] = self.to_value(r, st)

    st_ImportFrom = st_Import

    def st_FunctionDef(self, s, st, fr):
        info = FnInfo(s, fr.mod, None,
                      parent=(fr.info.qual if fr.info else fr.mod.name)
                      + ".<locals>")
        fr.captured = True
        f = self.fn_value(info, st, (fr.env,) + fr.parents)
        for d in reversed(s.decorator_list):
            root = d.func if isinstance(d, ast.Call) else d
            while isinstance(root, ast.Attribute):
                root = root.value
            if not isinstance(root, ast.Name) or isinstance(
                    self.lookup(root.id, st, fr), Ext):
                continue
            dv = self.force(self.ev(d, st, fr), st)
            if isinstance(dv, (Fn, Bound)):
                f = self.call(dv, [f], {}, st, fr, d)
        st.heap[("e", fr.env, s.name)] = f

    def st_ClassDef(self, s, st, fr):
        st.heap[("e", fr.env, s.name)] = Cls(ClsInfo(s, fr.mod))

    def st_If(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr), st)
        d = st.decide(c)
        if d is True:
            return self.block(s.body, [st], fr)
        if d is False:
            return self.block(s.orelse, [st], fr) if s.orelse else None
        s1 = st.fork(c)
        s2 = st.fork(tm.not_(c))
        out = self.block(s.body, [s1], fr)
        out += self.block(s.orelse, [s2], fr) if s.orelse \
            else [Flow("next", s2)]
        return out

    def st_With(self, s, st, fr):
        return self.with_items(s.items, s.body, st, fr, s)

    st_AsyncWith = st_With

    def with_items(self, items, body, st, fr, node):
        if not items:
            return self.block(body, [st], fr)
        it = items[0]
        cv = self.force(self.ev(it.context_expr, st, fr), st)
        rest = items[1:]

        def inner(val, s):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, val, s, fr)
            return self.with_items(rest, body, s, fr, node)

        def one(cv, st):
            if isinstance(cv, Gate):
                d = st.decide(cv.cond)
                if d is None:
                    s1, s2 = st.fork(cv.cond), st.fork(tm.not_(cv.cond))
                    return one(cv.a, s1) + one(cv.b, s2)
                return one(cv.a if d else cv.b, st)
            if isinstance(cv, GenCtx):
                return self.run_cm(cv, inner, st, node)
            if isinstance(cv, Obj) and cv.cls is not None:
                en = cv.cls.find("__enter__", self.proj)
                ex = cv.cls.find("__exit__", self.proj)
                if en is not None and ex is not None:
                    v = self.call_fn(self.fn_value(en, st), [cv], {}, st,
                                     node)
                    outs = []
                    self.raise_sinks.append([])
                    try:
                        flows = inner(v, st)
                    except PathDead:
                        flows = []
                    flows = flows + self.raise_sinks.pop()
                    for f in flows:
                        try:
                            self.call_fn(self.fn_value(ex, f.st),
                                         [cv, NONE, NONE, NONE], {}, f.st,
                                         node)
                        except PathDead:
                            continue
                        outs.append(f)
                    return outs
            t = self.toT(cv, st)
            self.event("with", tm.show(t, 3), st, node, args=[t])
            return inner(t, st)
        return one(cv, st)

    def run_cm(self, g: GenCtx, inner, st, node):
        """inline a generator-based context manager around ``inner``"""
        fv = g.fn
        info = fv.info
        env = new_id()
        fr = Frame(env, info, info.mod, info.cls, fv.env or (),
                   f"{info.mod.rel}:{info.qual.split('.', 1)[-1]}")
        self.visited.add(info.qual)
        vals = self.bind(info, g.args, g.kws, st, env, fr)
        self.event("enter", info.qual, st, node, args=list(g.args),
                   kws=dict(g.kws), extra={"vals": vals, "tvals": {
                       k: self.toT(v, st) for k, v in vals.items()}})

        def cb(val, s):
            self.event("cm-body", info.qual, s, node)
            self.raise_sinks.append([])
            top = self.stack.pop()
            try:
                flows = inner(val, s)
            except PathDead:
                flows = []
            finally:
                self.stack.append(top)
                sunk = self.raise_sinks.pop()
            out = []
            for f in flows + sunk:
                if f.kind == "next":
                    out.append(f)
                elif f.kind == "raise":
                    out.append(f)
                else:
                    s2 = f.st
                    s2.pending = s2.pending + ((env, f.kind, _Box(f.val),
                                                f.node),)
                    out.append(Flow("next", s2))
            return out
        fr.yield_cb = cb
        self.stack.append(fr)
        try:
            flows = self.block(info.node.body, [st], fr)
        finally:
            self.stack.pop()
        out = []
        for f in flows:
            if f.kind in ("return", "next"):
                s = f.st
                if s.pending and s.pending[-1][0] == env:
                    _, k, box, nd = s.pending[-1]
                    s.pending = s.pending[:-1]
                    self.event("cm-exit", info.qual, s, node)
                    out.append(Flow(k, s, box.v, nd))
                else:
                    self.event("cm-exit", info.qual, s, node)
                    out.append(Flow("next", s))
            else:
                out.append(f)
        return out

    def st_Try(self, s, st, fr):
        entry = st.fork()
        self.raise_sinks.append([])
        flows = self.block(s.body, [st], fr)
        sunk = self.raise_sinks.pop()
        raised = [f for f in flows if f.kind == "raise"] + sunk
        outs = [f for f in flows if f.kind not in ("raise",)]
        if s.orelse:
            n = []
            for f in outs:
                if f.kind == "next":
                    n.extend(self.block(s.orelse, [f.st], fr))
                else:
                    n.append(f)
            outs = n
        if s.handlers and not self.implicit:
            todo, raised = raised, []
            for f in todo:
                for g in self.handlers(s, f, fr):
                    (raised if g.kind == "raise" else outs).append(g)
        elif s.handlers:
            implicit = entry.fork()
            implicit.assume(tm.sym(f"exc@{fr.name}:{self.try_id(s, fr)}",
                                   "s"))
            for f in outs:
                if f.kind == "next":
                    f.st.assume(tm.not_(implicit.pc[-1]))
            todo = raised + [Flow("raise", implicit, mk(
                "exc", "any"), None)]
            raised = []
            for f in todo:
                outs.extend(self.handlers(s, f, fr))
            r2 = [f for f in outs if f.kind == "raise"]
            outs = [f for f in outs if f.kind != "raise"]
            raised = r2
        outs = outs + raised
        if s.finalbody:
            res = []
            nxt = self.join([f.st for f in outs if f.kind == "next"])
            for stt in nxt:
                res.extend(self.block(s.finalbody, [stt], fr))
            for f in outs:
                if f.kind == "next":
                    continue
                for g in self.block(s.finalbody, [f.st], fr):
                    if g.kind == "next":
                        res.append(Flow(f.kind, g.st, f.val, f.node))
                    else:
                        res.append(g)
            # an exception from anywhere inside also runs the finaliser
            exc_state = entry.fork(tm.sym(
                f"exc@{fr.name}:{self.try_id(s, fr)}", "s"))
            if not s.handlers:
                self.trace_exc(s, exc_state, fr)
            outs = res
        return outs

    def try_id(self, s, fr):
        """stable number of this try statement within its function"""
        if fr.info is not None:
            n = 0
            for x in ast.walk(fr.info.node):
                if isinstance(x, ast.Try):
                    if x is s:
                        return n
                    n += 1
        return 0

    def trace_exc(self, s, st, fr):
        pass

    def handlers(self, s, f, fr):
        """which handler takes this exception"""
        outs = []
        exc = f.val
        name = exc.args[0] if isinstance(exc, T) and exc.op == "exc" else (
            exc.args[0].split(".")[-1] if isinstance(exc, T)
            and exc.op == "ext" else None)
        for h in s.handlers:
            names = []
            if h.type is None:
                names = ["BaseException"]
            else:
                els = h.type.elts if isinstance(h.type, ast.Tuple) \
                    else [h.type]
                names = [ast.unparse(x).split(".")[-1] for x in els]
            if name not in (None, "any") and not _catches(names, name):
                continue
            st = f.st.fork()
            if h.name:
                st.heap[("e", fr.env, h.name)] = exc
            self.event("handler", ",".join(names), st, h, args=[exc])
            for g in self.block(h.body, [st], fr):
                if g.kind == "raise" and isinstance(g.val, T) \
                        and g.val.op == "exc" and g.val.args[0] == "reraise":
                    g.val = exc
                outs.append(g)
            if name == "any" and not _catches(names, "any"):
                continue
            return outs
        if name == "any":
            return outs
        return outs + [f]

    # --------------------------------------------------------------- loops
    def st_For(self, s, st, fr):
        itv = self.force(self.ev(s.iter, st, fr), st)
        if isinstance(itv, Gate):
            s1, s2 = st.fork(itv.cond), st.fork(tm.not_(itv.cond))
            return self.for_over(s, itv.a, s1, fr) + self.for_over(
                s, itv.b, s2, fr)
        if isinstance(itv, T) and itv.op == "ite":
            s1, s2 = st.fork(itv.args[0]), st.fork(tm.not_(itv.args[0]))
            return self.for_over(s, itv.args[1], s1, fr) + self.for_over(
                s, itv.args[2], s2, fr)
        return self.for_over(s, itv, st, fr)

    st_AsyncFor = st_For

    def for_over(self, s, itv, st, fr):
        items = self.iter_items(itv, st)
        if items is not None and len(items) <= self.unroll_cap and not any(
                isinstance(x, T) and x.op in ("maybe", "star")
                for x in items):
            out = []
            live = [st]
            broke = []
            for x in items:
                nxt = []
                for z in live:
                    self.assign(s.target, x, z, fr)
                    for f in self.block(s.body, [z], fr):
                        if f.kind in ("next", "continue"):
                            nxt.append(f.st)
                        elif f.kind == "break":
                            broke.append(f.st)
                        else:
                            out.append(f)
                live = self.join(nxt) if nxt else []
                if not live:
                    break
            ends = []
            for z in live:
                if s.orelse:
                    for f in self.block(s.orelse, [z], fr):
                        if f.kind == "next":
                            ends.append(f.st)
                        else:
                            out.append(f)
                else:
                    ends.append(z)
            return [Flow("next", z) for z in ends + broke] + out
        return self.sym_loop(s, st, fr, itv)

    def st_While(self, s, st, fr):
        if not isinstance(s.test, ast.Constant):
            r = self.unrolled_while(s, st, fr)
            if r is not None:
                return r
        n = self.counted(s)
        if n is not None and ("e", fr.env, n[1].target.id) in st.heap:
            out = []
            for f in self.block(n[0], [st], fr):
                if f.kind != "next":
                    out.append(f)
                else:
                    out += self.st_For(n[1], f.st, fr)
            return out
        return self.sym_loop(s, st, fr, None)

    def counted(self, s):
        """`while i < n: ...; i += 1` read as the loop over range(i, n) it is,
        or None"""
        if id(s) not in self._counted:
            self._counted[id(s)] = (s, counted_while(s))
        n = self._counted[id(s)][1]
        if n is not None:
            self._as_for[id(n[1])] = s
        return n

    def unrolled_while(self, s, st, fr):
        """a loop whose condition is known each time it is read, as one that
        empties a list of known length"""
        mark, lmark = len(self.trace), len(self.loops)
        smark = [len(x) for x in self.raise_sinks]

        def undo():
            del self.trace[mark:]
            del self.loops[lmark:]
            for x, n in zip(self.raise_sinks, smark):
                del x[n:]
        live, out, broke, ends = [st.fork()], [], [], []
        for _ in range(self.unroll_cap + 1):
            go = []
            for z in live:
                try:
                    c = self.truth(self.ev(s.test, z, fr), z)
                except PathDead:
                    undo()
                    return None
                if c is FALSE:
                    ends.append(z)
                elif c is TRUE:
                    go.append(z)
                else:
                    undo()
                    return None
            if not go:
                break
            nxt = []
            for z in go:
                for f in self.block(s.body, [z], fr):
                    if f.kind in ("next", "continue"):
                        nxt.append(f.st)
                    elif f.kind == "break":
                        broke.append(f.st)
                    else:
                        out.append(f)
            live = self.join(nxt) if nxt else []
            if not live:
                break
        else:
            undo()
            return None
        after = []
        for z in ends:
            if s.orelse:
                for f in self.block(s.orelse, [z], fr):
                    if f.kind == "next":
                        after.append(f.st)
                    else:
                        out.append(f)
            else:
                after.append(z)
        return [Flow("next", z) for z in after + broke] + out

    def loop_id(self, s, fr):
        s = self._as_for.get(id(s), s)
        k = (id(s), fr.name)
        if k not in self._loop_ids:
            n = 0
            if fr.info is not None:
                for x in ast.walk(fr.info.node):
                    if isinstance(x, (ast.For, ast.While)):
                        if x is s:
                            break
                        n += 1
            base = f"{fr.name.split(':')[-1]}.loop{n}"
            self._loop_ids[k] = base
        return self._loop_ids[k]

    def key_label(self, k, fr):
        if k[0] == "e":
            return k[2]
        if k[0] == "o":
            return k[2]
        if k[0] == "a":
            return self.arr[k[1]].label if k[1] in self.arr else str(k[1])
        return f"{k[0]}{k[1]}"

    def havoc(self, lid, inst, k, pre, ends, st, fr):
        lab = self.key_label(k, fr)
        name = f"{lab}" if k[0] in ("e", "o") else f"{lab}~{k[1]}"
        vals = [pre] + ends
        if isinstance(pre, T):
            # the loop runs again, on what it left the last time
            used = {x.args[1] for x in tm.subterms(pre)
                    if x.op == "mu" and x.args[0] == lid}
            while name in used:
                name += "'"
        if k[0] == "a":
            return mk("mu", lid, name, "a")
        if k[0] in ("l", "d"):
            return mk("mu", lid, name, "?")
        ts = [v for v in vals if isinstance(v, T)]
        if len(ts) == len(vals):
            ks = {tm.kind(v) for v in ts if v.op != "uninit"}
            kd = "s" if ks <= {"s"} else ("a" if ks == {"a"} else "?")
            return mk("mu", lid, name, kd)
        if pre is not MISSING and not isinstance(pre, T) and all(
                type(v) is type(pre) for v in ends):
            if isinstance(pre, Arr):
                key = (lid, inst, k)
                if key not in self._mu_cells:
                    a = self.new_arr(st, mk("mu", lid, name, "a"), lab,
                                     self.shape_of(pre, st))
                    self._mu_cells[key] = a
                a = self._mu_cells[key]
                st.heap[("a", a.cell)] = mk("mu", lid, name, "a")
                return a
            if isinstance(pre, (Obj, Lst, Dct)):
                # keep the object: its contents are havocked separately
                return ends[-1] if not isinstance(pre, Obj) else \
                    self.mu_obj(lid, inst, k, ends[-1], st)
        # None / missing first, an object later
        other = next((v for v in ends if not isinstance(v, T)
                      and v is not MISSING), None)
        # set on every path of an iteration: unset only before the first one
        if (inst, k) not in self._indep and all(
                self.all_set(v) for v in ends) and (
                    pre is MISSING or pre is NONE):
            flag = mk("mu", lid, "?later", "s")
            self._later.add((inst, k))
        else:
            flag = mk("mu", lid, name + "?set", "s")
        self.types[flag] = {"bool"}
        if isinstance(other, Gate):
            cand = [x for x in gate_leaves(other)
                    if not isinstance(x, T) and x is not MISSING]
            other = cand[0] if cand and len({type(x) for x in cand}) == 1 \
                else None
        base = pre
        if isinstance(pre, Gate):
            base = next((x for x in gate_leaves(pre) if isinstance(x, T)),
                        MISSING)
        if isinstance(other, Arr):
            key = (lid, inst, k)
            if key not in self._mu_cells:
                self._mu_cells[key] = self.new_arr(
                    st, mk("mu", lid, name, "a"), lab,
                    self.arr[other.cell].shape)
            a = self._mu_cells[key]
            st.heap[("a", a.cell)] = mk("mu", lid, name, "a")
            return Gate(flag, a, base)
        if isinstance(other, Obj):
            return Gate(flag, self.mu_obj(lid, inst, k, other, st), base)
        if isinstance(other, (Lst, Dct)):
            key = (lid, inst, k)
            if key not in self._mu_cells:
                self._mu_cells[key] = (
                    Lst(new_id(), other.kind) if isinstance(other, Lst)
                    else Dct(new_id()))
            o = self._mu_cells[key]
            hk = ("l", o.lid) if isinstance(o, Lst) else ("d", o.did)
            st.heap[hk] = mk("mu", lid, name, "?")
            return Gate(flag, o, base) if not isinstance(
                pre, type(o)) else o
        kd = {tm.kind(v) for v in ts if v.op != "uninit"}
        return mk("mu", lid, name, kd.pop() if len(kd) == 1 and len(
            ts) == len(vals) - (pre is MISSING) else "?")

    @staticmethod
    def all_set(v):
        if isinstance(v, Gate):
            return Interp.all_set(v.a) and Interp.all_set(v.b)
        return v is not MISSING and not (
            isinstance(v, T) and (v is NONE or v.op in ("uninit", "ite")))

    def mu_obj(self, lid, inst, k, o, st):
        key = (lid, inst, k)
        if key not in self._mu_cells:
            self._mu_cells[key] = Obj(new_id(), o.cls, True,
                                      f"µ{lid}.{k[-1]}")
            st.heap[("oid", self._mu_cells[key].oid)] = TRUE
        return self._mu_cells[key]

    def sym_loop(self, s, st, fr, itv):
        lid = self.loop_id(s, fr)
        inst = new_id()
        isfor = isinstance(s, (ast.For, ast.AsyncFor))
        mod = {}
        mark = len(self.trace)
        lmark = len(self.loops)
        smark = [len(x) for x in self.raise_sinks]
        bound = None
        for rnd in range(12):
            del self.trace[mark:]
            del self.loops[lmark:]
            for x, n in zip(self.raise_sinks, smark):
                del x[n:]
            hd = st.fork()
            for k, (pre, ends) in mod.items():
                hd.heap[k] = self.havoc(lid, inst, k, pre, ends, hd, fr)
            header = dict(hd.heap)
            info = LoopInfo(lid, s, fr.name)
            info.kind = "for" if isfor else "while"
            info.entry_pc = st.pc
            body_st = hd.fork()
            self.loop_stack.append(lid)
            depth0 = self.it_depth
            try:
                if isfor:
                    x, bound, itvar = self.iter_elem(itv, body_st)
                    self.it_depth += 1
                    more = mk("call", "more", const(lid), bound)
                    body_st.assume(more)
                    exit_cond = tm.not_(more)
                    self.assign(s.target, x, body_st, fr)
                    info.bound = bound
                    info.itv = tm.it_(depth0)
                else:
                    try:
                        c = self.truth(self.ev(s.test, body_st, fr), body_st)
                    except PathDead:
                        return []
                    hd = body_st.fork()
                    exit_cond = tm.not_(c)
                    body_st.assume(c)
                if body_st.decide(exit_cond) is True:
                    flows = []
                else:
                    flows = self.block(s.body, [body_st], fr)
            finally:
                self.loop_stack.pop()
                self.it_depth = depth0
            ends = [f.st for f in flows if f.kind in ("next", "continue")]
            brks = [f.st for f in flows if f.kind == "break"]
            others = [f for f in flows if f.kind in ("return", "raise")]
            end = None
            for e in ends:
                # conditions the path has settled are constants
                for k, v in e.heap.items():
                    if isinstance(v, T) and header.get(k) is not v:
                        e.heap[k] = self.settled(v, e)
            if ends:
                js = self.join(ends)
                end = js[0]
            new = False
            if end is not None:
                for k, v in end.heap.items():
                    h = header.get(k, MISSING)
                    if h is MISSING and k in self._lazy:
                        z = self._lazy[k]       # first read in the loop
                        if z is v or self.same_val(z, v):
                            continue
                    if h is MISSING:
                        if k[0] == "e" and k[1] == fr.env \
                                and k not in self._missed:
                            continue
                        if k[0] == "o" and k[1] in self.fn_oids:
                            pass
                        elif k in self.born:
                            pass
                        elif k[0] == "o" and ("oid", k[1]) in header \
                                and not self.is_sym_oid(k[1], header):
                            pass
                        elif k not in self._missed:
                            continue
                    if (inst, k) in self._later and (inst, k) not in \
                            self._indep and not self.all_set(v):
                        self._indep.add((inst, k))
                        new = True
                    if h is v or self.same_val(h, v):
                        continue
                    if k not in mod:
                        mod[k] = (st.heap.get(k, MISSING), [v])
                        new = True
                    else:
                        pre, old = mod[k]
                        kinds = {type(y).__name__ for y in old}
                        if type(v).__name__ not in kinds:
                            mod[k] = (pre, old + [v])
                            new = True
            if not new:
                break
        else:
            self.notes.append(f"loop {lid} did not stabilise")
        info.exit_cond = exit_cond
        info.header = header
        for k, (pre, _) in mod.items():
            info.init[k] = pre
            info.mu[k] = header.get(k)
            if end is not None:
                info.next[k] = end.heap.get(k, MISSING)
            info.labels[k] = self.key_label(k, fr)
            if end is not None:
                self.carried(info, k, pre, st, header, end)
        info.breaks = brks
        info.end = end
        self.loops.append(info)
        exits = []
        nb = tm.cval(bound) if isfor and bound is not None and \
            tm.is_const(bound) else None
        if isfor and isinstance(nb, int) and nb >= 1 and brks:
            # runs out only after its last pass: the values of that pass
            ex = self.last_pass_state(info, end, nb, lid) \
                if end is not None else None
            if ex is not None:
                exits.append(ex)
        elif exit_cond is not FALSE and not (
                hd.decide(exit_cond) is False):
            ex = hd.fork(exit_cond if not isfor else None)
            # loop-local names keep the value of the last iteration
            if end is not None:
                for k, v in end.heap.items():
                    if k[0] == "e" and k[1] == fr.env \
                            and k not in ex.heap:
                        ran = mk("call", "ran", const(lid), bound) \
                            if isfor else mk("call", "ran", const(lid))
                        lv = v
                        if isfor and isinstance(v, T):
                            lv = tm.subst(v, {tm.it_(self.it_depth): tm.sub(
                                bound, tm.ONE)}) if bound is not None else v
                        ex.heap[k] = Gate(ran, lv, MISSING) if not (
                            isinstance(lv, T)) else tm.ite(
                                ran, lv, mk("uninit"))
                    elif k[0] in ("a", "l", "d", "oid", "o") \
                            and k not in ex.heap:
                        ex.heap[k] = v
            if isfor and not brks and end is not None:
                self.summarise(info, ex, tm.it_(self.it_depth), bound)
            exits.append(ex)
        out = []
        if s.orelse:
            z = []
            for x in exits:
                for f in self.block(s.orelse, [x], fr):
                    if f.kind == "next":
                        z.append(f.st)
                    else:
                        out.append(f)
            exits = z
        res = exits + brks
        if not res:
            return out + others
        if len(brks) and exits:
            # give the merge a condition to tell them apart
            bc = mk("call", "broke", const(lid), const(inst * 0))
            for b in brks:
                b.pc = st.pc + (bc,) + tuple(
                    c for c in b.pc[len(st.pc):])
                b._facts = None
            for x in exits:
                x.pc = st.pc + (tm.not_(bc),) + x.pc[len(st.pc):]
                x._facts = None
        return [Flow("next", z) for z in res] + out + others

    def carried(self, info, k, pre, st, header, end):
        """(mu, value at entry, value after a pass) as terms"""
        m, nx = header.get(k, MISSING), end.heap.get(k, MISSING)
        if nx is MISSING or m is MISSING:
            return
        if k[0] == "l" and isinstance(pre, tuple):
            pre = mk("set" if k[1] in self.sets else "list",
                     *[self.toT(x, st) for x in pre])
        if k[0] == "d" and isinstance(pre, dict):
            pre = self.toT(Dct(k[1]), st)
        before = MISSING if pre is MISSING else self.toT(pre, st)

        def flagged(m):
            f = m.cond
            if f.op != "mu" or f.args[0] != info.id:
                return
            if before is MISSING or before is NONE:
                info.terms.append((f, FALSE, TRUE if self.all_set(nx)
                                   else tm.unk("set on some paths")))
        if isinstance(m, Gate):
            flagged(m)
            m = m.a
        if isinstance(m, Arr) and not m.path:
            c = header.get(("a", m.cell))
            if c is not None and ("a", m.cell) not in info.mu:
                m = c
        if isinstance(m, T) and m.op == "mu" and m.args[0] == info.id:
            if k[0] == "a":
                sh = self.arr[k[1]].shape
                if sh is not None:
                    self.hints.setdefault(m, self.toT(sh, st))
            try:
                info.terms.append((m, mk("uninit") if before is MISSING
                                   else before, self.toT(nx, end)))
            except Exception:
                pass

    def last_pass_state(self, info, end, nb, lid):
        m = {tm.it_(self.it_depth): const(nb - 1)}
        for v in list(info.mu.values()):
            for x in (tm.subterms(v) if isinstance(v, T) else ()):
                if x.op == "mu" and x.args[0] == lid:
                    m[x] = mk("mu", lid, str(x.args[1]) + "'", x.args[2])
        if nb >= 2:
            m[mk("mu", lid, "?later", "s")] = TRUE
        seen = {}

        def sb(v):
            if isinstance(v, T):
                r = seen.get(v.id)
                if r is None:
                    r = seen[v.id] = tm.subst(v, m)
                return r
            if isinstance(v, Gate):
                c = sb(v.cond)
                if tm.is_const(c):
                    return sb(v.a if tm.cval(c) else v.b)
                return Gate(c, sb(v.a), sb(v.b))
            if isinstance(v, Tup):
                return Tup([sb(x) for x in v.items])
            if isinstance(v, tuple):
                return tuple(sb(x) for x in v)
            if isinstance(v, dict):
                return {k: sb(x) for k, x in v.items()}
            return v
        pc = []
        for c in end.pc:
            c = sb(c)
            if c is FALSE:
                return None
            if c is not TRUE:
                pc.append(c)
        ex = end.fork()
        ex.pc = tuple(pc)
        ex._facts = None
        for k, v in end.heap.items():
            ex.heap[k] = sb(v)
        return ex

    def is_sym_oid(self, oid, heap):
        return False

    @staticmethod
    def same_val(a, b):
        if isinstance(a, Arr) and isinstance(b, Arr):
            return a.same(b)
        if isinstance(a, Lst) and isinstance(b, Lst):
            return a.lid == b.lid
        if isinstance(a, Dct) and isinstance(b, Dct):
            return a.did == b.did
        if isinstance(a, Obj) and isinstance(b, Obj):
            return a.oid == b.oid
        if isinstance(a, Fn) and isinstance(b, Fn):
            return a.info is b.info
        if isinstance(a, (Cls, ModV)) and type(a) is type(b):
            return getattr(a, "info", getattr(a, "mod", 0)) is getattr(
                b, "info", getattr(b, "mod", 1))
        if isinstance(a, Gate) and isinstance(b, Gate):
            return a.cond is b.cond and Interp.same_val2(a.a, b.a) \
                and Interp.same_val2(a.b, b.b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(
                x is y or Interp.same_val(x, y) for x, y in zip(a, b))
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Interp.same_val(a.items, b.items)
        if isinstance(a, dict) and isinstance(b, dict):
            return a.keys() == b.keys() and all(
                Interp.same_val2(a[x], b[x]) for x in a)
        return False

    @staticmethod
    def same_val2(a, b):
        return a is b or Interp.same_val(a, b)

    def summarise(self, info, ex, itv, bound):
        """closed forms of simple loop effects (map, append, sum)"""
        mus = {v.id for v in info.mu.values() if isinstance(v, T)}
        for k in list(info.mu):
            if isinstance(info.mu[k], Arr):
                mus.add(("cell", info.mu[k].cell))

        def free(t):
            return not any(x.op == "mu" and x.args[0] == info.id
                           for x in tm.subterms(t))
        for k, mu in info.mu.items():
            nx = info.next.get(k)
            init = info.init.get(k)
            if not isinstance(mu, T) or not isinstance(nx, T):
                continue
            if k[0] == "l":
                if isinstance(init, tuple):
                    it0 = mk("list", *[self.toT(x, ex) for x in init])
                else:
                    it0 = init
                if nx.op == "append" and nx.args[0] is mu and free(
                        nx.args[1]) and isinstance(it0, T) \
                        and it0.op == "list" and not it0.args:
                    ex.heap[k] = mk("comp", nx.args[1], itv, bound)
                continue
            if not isinstance(init, T):
                continue
            if nx.op == "store" and nx.args[0] is mu:
                j = tm._last(nx.args[1])
                if j is itv and free(nx.args[2]):
                    ex.heap[k] = mk("colmap", nx.args[2], itv, bound, init)
                elif nx.args[1] is itv and free(nx.args[2]):
                    ex.heap[k] = mk("call", "array_of", mk(
                        "comp", nx.args[2], itv, bound))
            elif nx.op == "add" and mu in nx.args:
                o = nx.args[1] if nx.args[0] is mu else nx.args[0]
                if free(o):
                    ex.heap[k] = mk("fold", "add", init, o, itv, bound)
            elif nx.op == "call" and nx.args[0] == "scatter_add" and \
                    nx.args[1] is mu and all(map(free, nx.args[2:])):
                ex.heap[k] = mk("fold", "add", init, mk(
                    "call", "scatter_add", tm.ZERO, *nx.args[2:]), itv,
                    bound)

    # ------------------------------------------------------------- running
    def run(self, fn, args, kws=None, st=None, node=None):
        """analyse a call; returns (state, value) or (None, None) when every
        path raises"""
        st = st or State()
        fv = fn
        if isinstance(fn, FnInfo):
            fv = self.fn_value(fn, st)
        fr = Frame(new_id(), None, next(iter(self.proj.modules.values())),
                   None, (), "<harness>")
        self.stack.append(fr)
        try:
            v = self.call(fv, args, kws or {}, st, fr, node)
            return st, v
        except PathDead:
            return None, None
        finally:
            self.stack.pop()

    def meth(self, obj, name, args=(), kws=None, st=None):
        fr = Frame(new_id(), None, next(iter(self.proj.modules.values())),
                   None, (), "<harness>")
        self.stack.append(fr)
        try:
            f = self.getattr(obj, name, st, fr, None)
            v = self.call(f, list(args), kws or {}, st, fr, None)
            return st, v
        except PathDead:
            return None, None
        finally:
            self.stack.pop()

    def calls(self, name):
        return [e for e in self.trace if e.kind == "call" and e.name == name]

    def enters(self, qual):
        return [e for e in self.trace if e.kind == "enter"
                and (e.name == qual or e.name.endswith("." + qual))]


class _Box:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, _Box) and (self.v is o.v)

    def __hash__(self):
        return id(self.v)


def _catches(names, exc):
    if exc == "any":
        return bool({"Exception", "BaseException"} & set(names))
    if exc in names or "Exception" in names or "BaseException" in names:
        return True
    sup = {"NotImplementedError": "RuntimeError", "KeyError": "LookupError",
           "IndexError": "LookupError",
           "ModuleNotFoundError": "ImportError",
           "ZeroDivisionError": "ArithmeticError",
           "FileNotFoundError": "OSError"}
    return sup.get(exc) in names


def fstr(parts):
    out = []
    for p in parts:
        if p.op == "fstr":
            ps = p.args
        else:
            ps = (p,)
        for x in ps:
            if out and out[-1].op == "const" and x.op == "const" \
                    and isinstance(tm.cval(x), str) and isinstance(
                        tm.cval(out[-1]), str):
                out[-1] = const(tm.cval(out[-1]) + tm.cval(x))
            elif x.op == "const" and tm.cval(x) == "":
                continue
            else:
                out.append(x)
    if not out:
        return const("")
    if len(out) == 1 and out[0].op == "const" and isinstance(
            tm.cval(out[0]), str):
        return out[0]
    return mk("fstr", *out)


_gen_cache: dict = {}


def is_generator(node):
    r = _gen_cache.get(id(node))
    if r is None:
        r = False
        if not isinstance(node, ast.Lambda):
            todo = list(node.body)
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(x, (ast.FunctionDef, ast.Lambda,
                                  ast.ClassDef)):
                    continue
                todo.extend(ast.iter_child_nodes(x))
        _gen_cache[id(node)] = r
    return r
