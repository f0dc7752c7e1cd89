"""Loads the analysed tree: modules, imports, functions and classes, resolved.

Nothing in the analysed tree is imported or run; everything is read with
``ast``.
"""
from __future__ import annotations
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG_DIR = os.path.join(REPO, "scikit-topt", "sktopt")
PKG = "sktopt"


class AnalysisError(Exception):
    """the analysis cannot be carried out (anchor missing, syntax error)"""


class FnInfo:
    def __init__(self, node, mod, cls=None, parent=None):
        self.node = node
        self.mod = mod
        self.cls = cls
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        q = mod.name
        if cls is not None:
            q += "." + cls.name
        if parent is not None:
            q = parent
        self.qual = q + "." + self.name
        self.decos = [ast.unparse(d) for d in getattr(
            node, "decorator_list", [])]

    @property
    def where(self):
        return f"{self.mod.rel}:{self.qual.split('.', 1)[-1]}"

    def deco(self, *names):
        for d in self.decos:
            base = d.split("(")[0].split(".")[-1]
            if base in names:
                return True
        return False


class ClsInfo:
    def __init__(self, node, mod):
        self.node = node
        self.mod = mod
        self.name = node.name
        self.qual = mod.name + "." + node.name
        self.methods = {}
        self.ann = {}
        self.attrs = {}
        self.fields = []       # dataclass fields in order (name, default)
        self.is_dataclass = any(
            ast.unparse(d).split("(")[0].split(".")[-1] == "dataclass"
            for d in node.decorator_list)
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FnInfo(s, mod, self)
                if fi.deco("setter") and s.name in self.methods:
                    self.methods[s.name + "#set"] = fi
                else:
                    self.methods[s.name] = fi
            elif isinstance(s, ast.AnnAssign) and isinstance(
                    s.target, ast.Name):
                self.ann[s.target.id] = s.annotation
                self.fields.append((s.target.id, s.value))
                if s.value is not None:
                    self.attrs[s.target.id] = s.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
        self._bases = None

    def bases(self, proj):
        if self._bases is None:
            out = []
            for b in self.node.bases:
                r = proj.resolve_expr(b, self.mod)
                out.append(r if r is not None else ast.unparse(b))
            self._bases = out
        return self._bases

    def mro(self, proj):
        """repo classes in (approximate, depth first) method order"""
        out = [self]
        for b in self.bases(proj):
            if isinstance(b, ClsInfo):
                for c in b.mro(proj):
                    if c not in out:
                        out.append(c)
        return out

    def ext_bases(self, proj):
        out = []
        for c in self.mro(proj):
            for b in c.bases(proj):
                if not isinstance(b, ClsInfo):
                    out.append(str(b))
        return out

    def find(self, name, proj):
        for c in self.mro(proj):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name, proj):
        for c in self.mro(proj):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def find_ann(self, name, proj):
        for c in self.mro(proj):
            if name in c.ann:
                return c, c.ann[name]
        return None

    def all_fields(self, proj):
        """dataclass fields in definition order through the hierarchy"""
        order = []
        d = {}
        for c in reversed(self.mro(proj)):
            if not c.is_dataclass:
                continue
            for n, v in c.fields:
                if ast.unparse(c.ann[n]).split("[")[0].split(".")[-1] \
                        == "ClassVar":
                    continue
                if n not in d:
                    order.append(n)
                d[n] = (c, v)
        return [(n, *d[n]) for n in order]

    def subclass_of(self, other, proj):
        return other in self.mro(proj)


class Module:
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, REPO)
        self.tree = tree
        self.names = {}      # local name -> ("mod", dotted)|("from", m, n)|node
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self._load(tree.body)

    def _abs(self, level, module):
        if level == 0:
            return module
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:len(parts) - (level - 1)]
        return ".".join(parts + ([module] if module else []))

    def imports(self, s, names):
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    names[a.asname] = ("mod", a.name)
                else:
                    names[a.name.split(".")[0]] = (
                        "mod", a.name.split(".")[0])
        else:
            m = self._abs(s.level, s.module)
            for a in s.names:
                names[a.asname or a.name] = ("from", m, a.name)

    def _load(self, body):
        for s in body:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                self.imports(s, self.names)
            elif isinstance(s, ast.FunctionDef):
                self.names[s.name] = FnInfo(s, self)
            elif isinstance(s, ast.ClassDef):
                self.names[s.name] = ClsInfo(s, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ("expr", s.value)
                    elif isinstance(t, ast.Tuple) and all(
                            isinstance(e, ast.Name) for e in t.elts):
                        for i, e in enumerate(t.elts):
                            self.names[e.id] = ("item", s.value, i)
            elif isinstance(s, ast.AnnAssign) and isinstance(
                    s.target, ast.Name) and s.value is not None:
                self.names[s.target.id] = ("expr", s.value)
            elif isinstance(s, ast.If):
                if "__name__" in ast.unparse(s.test):
                    continue
                self._load(s.body)
                self._load(s.orelse)
            elif isinstance(s, ast.Try):
                self._load(s.body)
                for h in s.handlers:
                    for x in h.body:
                        if isinstance(x, (ast.Import, ast.ImportFrom)):
                            tmp = {}
                            self.imports(x, tmp)
                            for k, v in tmp.items():
                                self.names.setdefault(k, v)
                        elif isinstance(x, ast.Assign):
                            for t in x.targets:
                                if isinstance(t, ast.Name):
                                    self.names.setdefault(
                                        t.id, ("expr", x.value))
                self._load(s.orelse)
            elif isinstance(s, ast.With):
                self._load(s.body)

    def functions(self):
        out = []
        for v in self.names.values():
            if isinstance(v, FnInfo) and v.mod is self:
                out.append(v)
            elif isinstance(v, ClsInfo) and v.mod is self:
                out.extend(v.methods.values())
        return out


class Ext:
    """something outside the analysed tree, by dotted name"""
    __slots__ = ("name",)
    _tab = {}

    def __new__(cls, name):
        e = cls._tab.get(name)
        if e is None:
            e = object.__new__(cls)
            e.name = name
            cls._tab[name] = e
        return e

    def __repr__(self):
        return f"<ext {self.name}>"


_CANON = {"numpy": "np"}


def canon(dotted):
    head, _, rest = dotted.partition(".")
    head = _CANON.get(head, head)
    return head + ("." + rest if rest else "")


class Project:
    def __init__(self, root=None):
        self.root = root or PKG_DIR
        self.modules = {}
        self.errors = []
        if not os.path.isdir(self.root):
            raise AnalysisError(f"no package at {self.root}")
        for d, dirs, files in os.walk(self.root):
            dirs.sort()
            if "__pycache__" in d:
                continue
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, os.path.dirname(self.root))
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                try:
                    src = open(p, encoding="utf-8").read()
                    tree = ast.parse(src, p)
                except (SyntaxError, UnicodeDecodeError) as e:
                    raise AnalysisError(f"{p}: {e}")
                self.modules[name] = Module(name, p, tree)

    # ------------------------------------------------------------ resolve
    def resolve_name(self, mod, name, _seen=None):
        """Module | FnInfo | ClsInfo | Ext | ("expr", node, mod) | None"""
        _seen = _seen or set()
        if (mod.name, name) in _seen:
            return None
        _seen.add((mod.name, name))
        v = mod.names.get(name)
        if v is None:
            sub = f"{mod.name}.{name}"
            if sub in self.modules:
                return self.modules[sub]
            return None
        if isinstance(v, (FnInfo, ClsInfo)):
            return v
        if v[0] == "mod":
            return self.module_or_ext(v[1])
        if v[0] == "from":
            m, n = v[1], v[2]
            if m in self.modules:
                r = self.resolve_name(self.modules[m], n, _seen)
                if r is not None:
                    return r
                if f"{m}.{n}" in self.modules:
                    return self.modules[f"{m}.{n}"]
                return Ext(f"{m}.{n}")
            if m and f"{m}.{n}" in self.modules:
                return self.modules[f"{m}.{n}"]
            return Ext(canon(f"{m}.{n}"))
        if v[0] == "expr":
            if isinstance(v[1], (ast.Name, ast.Attribute)):
                r = self.resolve_expr(v[1], mod, _seen)
                if r is not None:
                    return r
            return ("expr", v[1], mod)
        if v[0] == "item":
            return ("item", v[1], v[2], mod)
        return None

    def module_or_ext(self, dotted):
        if dotted in self.modules:
            return self.modules[dotted]
        return Ext(canon(dotted))

    def resolve_expr(self, e, mod, _seen=None):
        if isinstance(e, ast.Name):
            return self.resolve_name(mod, e.id, _seen)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value, mod, _seen)
            if isinstance(b, Module):
                return self.resolve_name(b, e.attr, _seen)
            if isinstance(b, Ext):
                return Ext(b.name + "." + e.attr)
            if isinstance(b, ClsInfo):
                return b.find(e.attr, self)
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                return self.resolve_expr(
                    ast.parse(e.value, mode="eval").body, mod, _seen)
            except SyntaxError:
                return None
        return None

    def lookup(self, dotted):
        """public dotted name -> FnInfo/ClsInfo (following re-exports)"""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            m = ".".join(parts[:i])
            if m in self.modules:
                cur = self.modules[m]
                for p in parts[i:]:
                    if isinstance(cur, Module):
                        cur = self.resolve_name(cur, p)
                    elif isinstance(cur, ClsInfo):
                        cur = cur.find(p, self)
                    else:
                        cur = None
                    if cur is None:
                        return None
                return cur
        return None

    def need(self, *dotted):
        """first of the given names that exists, else analysis error"""
        for d in dotted:
            r = self.lookup(d)
            if r is not None:
                return r
        raise AnalysisError(
            f"anchor vanished: none of {', '.join(dotted)} exists any more")

    def all_functions(self):
        out = []
        for m in self.modules.values():
            out.extend(m.functions())
        return out
