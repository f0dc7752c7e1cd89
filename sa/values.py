"""Abstract values other than terms."""
from __future__ import annotations
import itertools

_ids = itertools.count(1)


def new_id():
    return next(_ids)


class Arr:
    """a mutable array: a heap cell, possibly seen through index paths"""
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def __repr__(self):
        return f"Arr({self.cell}{'v' if self.path else ''})"

    def same(self, o):
        return isinstance(o, Arr) and o.cell == self.cell \
            and o.path == self.path


class Obj:
    """an object with attributes on the heap; ``sym``: an unknown input"""
    __slots__ = ("oid", "cls", "sym", "path")

    def __init__(self, oid, cls, sym=False, path=None):
        self.oid = oid
        self.cls = cls
        self.sym = sym
        self.path = path or f"{cls.name if cls else 'obj'}#{oid}"

    def __repr__(self):
        return f"Obj({self.path})"


class Lst:
    __slots__ = ("lid", "kind")

    def __init__(self, lid, kind="list"):
        self.lid = lid
        self.kind = kind


class Dct:
    __slots__ = ("did",)

    def __init__(self, did):
        self.did = did


class Slot:
    """the container held by a dict of unknown content under a key"""
    __slots__ = ("dct", "key", "kind")

    def __init__(self, dct, key, kind):
        self.dct = dct
        self.key = key
        self.kind = kind


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class Fn:
    """a repo function, with the environment it closes over"""
    __slots__ = ("info", "env", "form")

    def __init__(self, info, env=None, form=None):
        self.info = info
        self.env = env
        self.form = form        # "BilinearForm" | "LinearForm" | "Functional"

    def __repr__(self):
        return f"Fn({self.info.qual})"


class Bound:
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn = fn
        self.self = self_


class Cls:
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info


class ModV:
    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod


class Meth:
    """method of an unmodelled receiver"""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name


class Gate:
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond = cond
        self.a = a
        self.b = b


class Super:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class GenCtx:
    """result of calling a generator function"""
    __slots__ = ("fn", "args", "kws", "cm")

    def __init__(self, fn, args, kws, cm):
        self.fn = fn
        self.args = args
        self.kws = kws
        self.cm = cm


class Model:
    """a python callable standing for some operation"""
    __slots__ = ("fn", "name")

    def __init__(self, fn, name):
        self.fn = fn
        self.name = name


class _Missing:
    def __repr__(self):
        return "MISSING"


MISSING = _Missing()
