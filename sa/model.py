"""Program model: parses the current source tree of pytimize and resolves names."""
import ast
import hashlib
import os

REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone: reported as an error, not as a verdict."""


class FuncInfo:
    __slots__ = ("name", "node", "module", "cls", "kind", "qual", "defaults_done")

    def __init__(self, name, node, module, cls=None, kind="plain"):
        self.name, self.node, self.module, self.cls, self.kind = name, node, module, cls, kind
        self.qual = "%s:%s%s" % (module.name, (cls.name + ".") if cls else "", name)

    def __repr__(self):
        return "<fn %s>" % self.qual


class ClassInfo:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.methods = {}
        self.setters = {}
        self.attrs = {}
        self.base_exprs = node.bases
        self.metaclass = next((k.value for k in node.keywords if k.arg == "metaclass"), None)
        self._mro = None

    def __repr__(self):
        return "<class %s>" % self.name


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.functions, self.classes, self.imports, self.assigns = {}, {}, {}, {}
        self.order = []


class Program:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.digest = hashlib.sha256()
        self.nfunc = 0
        top = os.path.join(self.root, "pytimize")
        if not os.path.isdir(top):
            raise AnalysisBroken("no package directory " + top)
        for d, subs, files in os.walk(top):
            subs[:] = sorted(s for s in subs if s not in ("tests", "__pycache__"))
            for f in sorted(files):
                if f.endswith(".py"):
                    self._load(os.path.join(d, f))

    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        parts = rel[:-3].split(os.sep)
        is_pkg = parts[-1] == "__init__"
        if is_pkg:
            parts = parts[:-1]
        name = ".".join(parts)
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        self.digest.update(rel.encode() + b"\0" + src.encode())
        tree = ast.parse(src, path)
        m = Module(name, rel, tree, is_pkg)
        self.modules[name] = m
        self._scan(m, tree.body)

    def _scan(self, m, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.functions[n.name] = FuncInfo(n.name, n, m)
                self.nfunc += 1
                m.order.append(n)
            elif isinstance(n, ast.ClassDef):
                c = ClassInfo(n.name, n, m)
                m.classes[n.name] = c
                for k in n.body:
                    if isinstance(k, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        kind = "plain"
                        setter = False
                        for dec in k.decorator_list:
                            s = ast.unparse(dec)
                            if s == "staticmethod":
                                kind = "static"
                            elif s == "classmethod":
                                kind = "class"
                            elif s in ("property", "functools.cached_property", "cached_property"):
                                kind = "property"
                            elif s.endswith(".setter"):
                                setter = True
                        fi = FuncInfo(k.name, k, m, c, kind)
                        self.nfunc += 1
                        if setter:
                            c.setters[k.name] = fi
                        else:
                            c.methods[k.name] = fi
                    elif isinstance(k, ast.Assign):
                        for t in k.targets:
                            if isinstance(t, ast.Name):
                                c.attrs[t.id] = k.value
                    elif isinstance(k, ast.AnnAssign) and k.value is not None and isinstance(k.target, ast.Name):
                        c.attrs[k.target.id] = k.value
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.imports[a.asname] = ("mod", a.name, None)
                    else:
                        m.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0], None)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    pk = m.name.split(".")
                    if not m.is_pkg:
                        pk = pk[:-1]
                    pk = pk[: len(pk) - (n.level - 1)]
                    base = ".".join(pk + ([n.module] if n.module else []))
                for a in n.names:
                    m.imports[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.assigns[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                m.assigns[n.target.id] = n.value
            elif isinstance(n, (ast.If, ast.Try)):
                self._scan(m, n.body)

    # -------------------------------------------------- resolution
    def resolve(self, module, name, depth=0):
        """('func',FuncInfo) | ('class',ClassInfo) | ('module',Module) | ('ext','numpy...') | ('assign',(module,expr)) | None"""
        if depth > 20:
            return None
        m = module
        if name in m.functions:
            return ("func", m.functions[name])
        if name in m.classes:
            return ("class", m.classes[name])
        if name in m.assigns:
            return ("assign", (m, name, m.assigns[name]))
        if name in m.imports:
            kind, base, orig = m.imports[name]
            if kind == "mod":
                if base in self.modules:
                    return ("module", self.modules[base])
                return ("ext", base)
            if base in self.modules:
                if base + "." + orig in self.modules:
                    r = self.resolve(self.modules[base], orig, depth + 1) if orig in self.modules[base].functions or orig in self.modules[base].classes else None
                    return r or ("module", self.modules[base + "." + orig])
                return self.resolve(self.modules[base], orig, depth + 1)
            if base + "." + orig in self.modules:
                return ("module", self.modules[base + "." + orig])
            return ("ext", base + "." + orig if base else orig)
        return None

    def mro(self, cls):
        if cls._mro is None:
            out = [cls]
            for b in cls.base_exprs:
                r = None
                if isinstance(b, ast.Name):
                    r = self.resolve(cls.module, b.id)
                elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                    mm = self.resolve(cls.module, b.value.id)
                    if mm and mm[0] == "module":
                        r = self.resolve(mm[1], b.attr)
                if r and r[0] == "class":
                    for x in self.mro(r[1]):
                        if x not in out:
                            out.append(x)
            cls._mro = out
        return cls._mro

    def find_method(self, cls, name, after=None):
        mro = self.mro(cls)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def public_class(self, dotted):
        """resolve e.g. pytimize.programs.LinearProgram the way a user imports it"""
        mod, _, name = dotted.rpartition(".")
        if mod not in self.modules:
            raise AnalysisBroken("public module %s is gone" % mod)
        r = self.resolve(self.modules[mod], name)
        if not r or r[0] not in ("class", "func"):
            raise AnalysisBroken("public name %s is gone" % dotted)
        return r[1]
