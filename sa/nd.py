"""Small arrays of known shape whose entries are terms: arrays built from
literal lists and everything that only rearranges them.  Used where
`Interp.nd` is set."""
from __future__ import annotations

from . import terms as tm
from .dense import np
from .terms import T, const, mk
from .values import Arr, Dct, Gate, Lst, Tup

CAP = 4096
KW = {"axis", "dtype", "copy", "order", "ndmin", "subok"}


class Ragged(Exception):
    pass


def terms_of(a):
    return list(a.ravel())


def make(ip, st, a, view=False):
    """value of an array of terms; a term when it has no dimensions"""
    if not isinstance(a, np.ndarray):
        return a
    for x in terms_of(a):
        if not tm.is_const(x) and not ip.types.get(x):
            ip.types[x] = {"float"}
    r = ip.new_arr(st, mk("nd", const(tuple(a.shape)), *terms_of(a)), "nd",
                   Tup([const(n) for n in a.shape]))
    if view:
        ip.nd_views.add(r.cell)
    return r


def of_term(t):
    if t.op != "nd":
        return None
    sh = tm.cval(t.args[0])
    a = np.empty(len(t.args) - 1, dtype=object)
    for i, x in enumerate(t.args[1:]):
        a[i] = x
    return a.reshape(sh)


def get(ip, v, st, deep=True):
    """the entries of a value, as an object array of terms; None: unknown"""
    v = ip.force(v, st)
    if isinstance(v, Gate) or isinstance(v, Dct):
        return None
    if isinstance(v, Arr):
        return of_term(ip.content(v, st))
    if isinstance(v, T):
        if v.op == "nd":
            return of_term(v)
        if v.op in ("tuple", "list") and deep:
            return rows(ip, v.args, st)
        if v.op in ("tuple", "list") or tm.kind(v) == "a":
            return None
        a = np.empty((), dtype=object)
        a[()] = v
        return a
    if deep and isinstance(v, (Tup, Lst)):
        its = ip.list_items(v, st)
        return None if its is None else rows(ip, its, st)
    return None


def rows(ip, its, st):
    xs = [get(ip, x, st) for x in its]
    if any(x is None for x in xs) or len(xs) > CAP:
        return None
    if not xs:
        return np.empty((0,), dtype=object)
    if len({x.shape for x in xs}) > 1:
        raise Ragged()
    return np.stack(xs)


def pos(ip, t, st):
    """a concrete index, or None"""
    if t.op == "const":
        x = tm.cval(t)
        return (x,) if isinstance(x, (int, type(Ellipsis), type(None))) \
            else None
    if t.op == "ext" and t.args[0].split(".")[-1] == "Ellipsis":
        return (Ellipsis,)
    if t.op == "ext" and t.args[0].endswith("newaxis"):
        return (None,)
    if t.op == "slice":
        if not all(tm.is_const(x) for x in t.args):
            return None
        return (slice(*[tm.cval(x) for x in t.args]),)
    if t.op in ("idx", "tuple"):
        out = []
        for x in t.args:
            p = pos(ip, x, st)
            if p is None:
                return None
            out += p
        return tuple(out)
    if t.op == "list":
        xs = [pos(ip, x, st) for x in t.args]
        if any(x is None for x in xs):
            return None
        return ([x[0] for x in xs],)
    return None


def item(ip, v, it, st, node):
    """v[it], or None"""
    if not isinstance(v, Arr):
        return None
    a = get(ip, v, st)
    p = None if a is None else pos(ip, it, st)
    if p is None:
        return None
    try:
        r = a[p]
    except IndexError:
        ip.do_raise(st, mk("ext", "builtins.IndexError"), node)
    return make(ip, st, r, view=isinstance(r, np.ndarray))


def set_item(ip, v, it, val, st, node):
    """v[it] = val; False: not handled"""
    if not isinstance(v, Arr):
        return False
    if v.cell in ip.nd_views:
        raise RuntimeError("write through a view of a small array")
    a = get(ip, v, st)
    p = None if a is None else pos(ip, it, st)
    x = None if p is None else get(ip, val, st)
    if x is None:
        return False
    b = a.copy()
    b[p] = x if x.shape else x[()]
    ip.write(v, mk("nd", const(tuple(b.shape)), *terms_of(b)), st, node)
    return True


def attr(ip, v, name, st):
    a = get(ip, v, st) if isinstance(v, Arr) else None
    if a is None:
        return None
    if name == "T":
        return make(ip, st, a.T, True)
    if name == "shape":
        return Tup([const(n) for n in a.shape])
    if name in ("ndim", "size"):
        return const(getattr(a, name))
    return None


def each(ip, v, st):
    a = get(ip, v, st) if isinstance(v, Arr) else None
    if a is None or not a.ndim:
        return None
    return [make(ip, st, x, True) for x in a]


def length(ip, v, st):
    a = get(ip, v, st) if isinstance(v, Arr) else None
    return None if a is None or not a.ndim else const(a.shape[0])


def nested(ip, st, a):
    if not isinstance(a, np.ndarray):
        return a
    if not a.ndim:
        return a[()]
    return ip.new_list(st, [nested(ip, st, x) for x in a])


def ints(ip, args, st):
    out = []
    for a in args:
        its = ip.list_items(ip.force(a, st), st)
        for x in its if its is not None else [a]:
            x = ip.toT(x, st)
            if not tm.is_const(x) or not isinstance(tm.cval(x), int):
                return None
            out.append(tm.cval(x))
    return out


def method(ip, v, name, args, kws, st, node):
    """result of a method of a small array, or None"""
    a = get(ip, v, st) if isinstance(v, Arr) else None
    if a is None:
        return None
    if name == "tolist" and not args:
        return nested(ip, st, a)
    if name == "copy":
        return make(ip, st, a.copy())
    if name == "astype" and plain_dtype(ip, args[0] if args else
                                        kws.get("dtype"), st):
        return make(ip, st, a.copy())
    if name == "item" and not args and a.size == 1:
        return a.ravel()[0]
    if name in ("ravel", "flatten", "squeeze") and not args and not kws:
        return make(ip, st, getattr(a, name)(), name != "flatten")
    if name in ("reshape", "transpose") and not kws:
        p = ints(ip, args, st)
        if p is not None:
            return make(ip, st, getattr(a, name)(*p), True)
    return None


def plain_dtype(ip, d, st):
    if d is None:
        return True
    t = ip.toT(d, st)
    return t is tm.NONE or t.op == "ext" and t.args[0].split(".")[-1] in (
        "float", "float64", "double", "str", "object", "str_")


def func(ip, n, args, kws, st, node):
    """result of a numpy function over small arrays, or None"""
    if set(kws) - KW or not args or not plain_dtype(
            ip, kws.get("dtype"), st):
        return None
    ax = None
    if "axis" in kws:
        ax = ints(ip, [kws["axis"]], st)
        if ax is None:
            return None
    try:
        if n in ("array", "asarray", "asanyarray", "ascontiguousarray",
                 "copy", "atleast_1d", "atleast_2d", "transpose", "ravel",
                 "squeeze", "flip", "vstack", "hstack", "column_stack",
                 "stack", "concatenate", "row_stack", "reshape"):
            if len(args) > 1 and n in ("array", "asarray", "asanyarray",
                                       "copy") and plain_dtype(
                                           ip, args[1], st):
                args = args[:1]
            v = ip.force(args[0], st)
            if not isinstance(v, (Arr, Lst, Tup)) and not (
                    isinstance(v, T) and v.op in ("list", "tuple", "nd")):
                return None
            if n in ("vstack", "hstack", "column_stack", "stack",
                     "concatenate", "row_stack"):
                its = ip.iter_items(v, st)
                xs = None if its is None else [get(ip, x, st) for x in its]
                if xs is None or any(x is None for x in xs) or not xs:
                    return None
                k = {"axis": ax[0]} if ax else {}
                if len(args) > 1:
                    p = ints(ip, args[1:2], st)
                    if p is None:
                        return None
                    k = {"axis": p[0]}
                r = {"row_stack": np.vstack}.get(n, getattr(np, n, None))(
                    xs, **k)
                return make(ip, st, r)
            a = get(ip, v, st)
            if a is None:
                return None
            if n in ("array", "asarray", "asanyarray", "ascontiguousarray",
                     "copy"):
                if n in ("asarray", "asanyarray") and isinstance(v, Arr):
                    return v
                return make(ip, st, a.copy())
            if n == "reshape":
                p = ints(ip, args[1:], st)
                return None if not p else make(ip, st, a.reshape(p), True)
            if len(args) > 1:
                p = ints(ip, args[1:], st)
                if p is None:
                    return None
                return make(ip, st, getattr(np, n)(a, p if n == "transpose"
                                                   else p[0]), True)
            return make(ip, st, getattr(np, n)(a, **(
                {"axis": ax[0]} if ax and n == "flip" else {})), True)
        if n in ("zeros", "ones", "empty"):
            p = ints(ip, args[:1], st)
            if p is None or len(p) == 0 or int(np.prod(p)) > CAP:
                return None
            a = np.empty(tuple(p), dtype=object)
            for i in np.ndindex(a.shape):
                a[i] = {"zeros": tm.ZERO, "ones": tm.ONE}.get(
                    n, mk("uninit"))
            return make(ip, st, a)
    except Ragged:
        ip.do_raise(st, mk("ext", "builtins.ValueError"), node)
    except (ValueError, IndexError):
        ip.do_raise(st, mk("ext", "builtins.ValueError"), node)
    return None
