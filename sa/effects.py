"""What every function of the package can touch outside its arguments: a flow-insensitive inventory of references to names defined
outside the package (followed through imports, local aliases and constant getattr), and a call graph by name.  A reference counts as
a use whether or not it is called, so aliasing and passing functions around hide nothing."""
import ast
import builtins
from .scen import program

BUILTINS = set(dir(builtins))


class Use:
    def __init__(self, fn, path, line, how="use"):
        self.fn, self.path, self.line, self.how = fn, path, line, how

    def __repr__(self):
        return "%s %s at %s" % (self.how, self.path, self.line)


class Fn:
    """one function of the package (nested functions and lambdas belong to the function around them), or a module body"""
    def __init__(self, qual, node, module, cls=None, info=None):
        self.qual, self.node, self.module, self.cls, self.info = qual, node, module, cls, info
        self.uses, self.calls, self.attrs, self.dynamic, self.globals_, self.loops = [], set(), set(), [], [], []
        self.missing, self.imports = [], []

    @property
    def name(self):
        return self.qual.rsplit(".", 1)[-1]

    @property
    def public(self):
        if self.node is None or isinstance(self.node, ast.Module):
            return False
        if self.cls is None and not self.exported():
            return False
        return (not self.name.startswith("_") or self.name.startswith("__") and self.name.endswith("__"))

    def exported(self):
        """a user can import this module-level function from a package"""
        P = program()
        for m in P.modules.values():
            if m.is_pkg and m is not self.module:
                r = P.resolve(m, self.name)
                if r and r[0] == "func" and r[1].node is self.node:
                    return True
        return not self.module.name.rsplit(".", 1)[-1].startswith("_")

    def at(self, line=None):
        return "%s:%s:%s" % (self.module.path, line or getattr(self.node, "lineno", 1), self.qual)


class Scope:
    def __init__(self, parent=None):
        self.parent, self.bound, self.alias, self.glob = parent, set(), {}, set()


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from targets(x)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)


def own(body):
    """statements and expressions of a scope, nested function scopes excluded (their nodes are yielded, not entered)"""
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))


class Walk:
    def __init__(self, P, fn):
        self.P, self.fn = P, fn

    def scope(self, body, args, parent):
        s = Scope(parent)
        if args is not None:
            for a in args.posonlyargs + args.args + args.kwonlyargs + [x for x in (args.vararg, args.kwarg) if x]:
                s.bound.add(a.arg)
        imports, assigns = [], []
        for n in own(body):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                s.glob |= set(n.names)
                if isinstance(n, ast.Global):
                    self.fn.globals_.append((n.lineno, n.names))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                s.bound.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                s.bound.add(n.name)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                s.bound.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                imports.append(n)
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        assigns.append((t.id, n.value))
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                        assigns += [(x.id, v) for x, v in zip(t.elts, n.value.elts) if isinstance(x, ast.Name)]
            elif isinstance(n, ast.NamedExpr):
                assigns.append((n.target.id, n.value))
            elif isinstance(n, ast.withitem) and isinstance(n.optional_vars, ast.Name):
                assigns.append((n.optional_vars.id, n.context_expr))
        s.bound -= s.glob
        for n in imports:
            for a in n.names:
                if isinstance(n, ast.Import):
                    nm, path = (a.asname, a.name) if a.asname else (a.name.split(".")[0], a.name.split(".")[0])
                    s.bound.add(nm)
                    if path.split(".")[0] != "pytimize":
                        s.alias.setdefault(nm, set()).add(path)
                elif not n.level and (n.module or "").split(".")[0] != "pytimize":
                    nm = a.asname or a.name
                    s.bound.add(nm)
                    s.alias.setdefault(nm, set()).add("%s.%s" % (n.module, a.name))
        if args is not None:
            ps = args.posonlyargs + args.args
            for a, d in list(zip(ps[len(ps) - len(args.defaults):], args.defaults)) + [(a, d) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None]:
                assigns.append((a.arg, d))
        for _ in range(3):
            for nm, v in assigns:
                for p in self.paths(v, s):
                    s.alias.setdefault(nm, set()).add(p)
        return s

    def lookup(self, name, s):
        """('ext', paths) | ('pkg', resolution) | ('local',) | ('builtin', name) | None"""
        q = s
        while q is not None:
            if name in q.bound and not getattr(q, "is_module", False):
                return ("ext", q.alias[name]) if name in q.alias else ("local",)
            q = q.parent
        r = self.P.resolve(self.fn.module, name)
        if r is not None:
            if r[0] == "ext":
                return ("ext", {r[1]})
            if r[0] == "assign":
                # module-level constant: an alias of an outside name, or data
                m, nm, val = r[1]
                out = self.module_alias(m, nm, val)
                return ("ext", out) if out else ("pkg", r)
            return ("pkg", r)
        if name in BUILTINS:
            return ("builtin", name)
        return None

    def module_alias(self, m, nm, val, depth=0):
        if depth > 3:
            return set()
        w = Walk(self.P, Fn(m.name, None, m))
        root = Scope()
        if isinstance(val, (ast.Name, ast.Attribute)):
            return {p for p in w.paths(val, root)}
        return set()

    def paths(self, e, s):
        """names outside the package an expression may stand for"""
        if isinstance(e, ast.Name):
            r = self.lookup(e.id, s)
            if r is None:
                return set()
            if r[0] == "ext":
                return set(r[1])
            if r[0] == "builtin":
                return {"builtins." + e.id}
            return set()
        if isinstance(e, ast.Attribute):
            return {p + "." + e.attr for p in self.paths(e.value, s)}
        if isinstance(e, ast.Call):
            f = self.paths(e.func, s)
            if f & {"builtins.getattr"} and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
                return {p + "." + str(e.args[1].value) for p in self.paths(e.args[0], s)}
            if f & {"builtins.__import__", "importlib.import_module"} and e.args and isinstance(e.args[0], ast.Constant):
                return {str(e.args[0].value)}
            return {p + "()" for p in f if not p.startswith("builtins.")}
        if isinstance(e, ast.IfExp):
            return self.paths(e.body, s) | self.paths(e.orelse, s)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.paths(v, s) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.paths(e.value, s)
        return set()

    # ---- references
    def use(self, p, line, how="use"):
        self.fn.uses.append(Use(self.fn, p, line, how))

    def expr(self, n, s, inner=False):
        """record the references of one expression tree; inner: the base of a longer path that was recorded already"""
        if isinstance(n, (ast.Name, ast.Attribute, ast.Call)):
            ps = self.paths(n, s)
            if not inner and isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load):
                for p in ps:
                    self.use(p, n.lineno)
            elif isinstance(n, ast.Call):
                for p in ps:
                    if not p.endswith("()"):
                        self.use(p, n.lineno)
                f = self.paths(n.func, s)
                if f & {"builtins.getattr"} and len(n.args) >= 2 and not isinstance(n.args[1], ast.Constant) and self.paths(n.args[0], s):
                    self.fn.dynamic.append((n.lineno, "getattr on " + ", ".join(sorted(self.paths(n.args[0], s)))))
                if f & {"builtins.__import__", "importlib.import_module"} and not (n.args and isinstance(n.args[0], ast.Constant)):
                    self.fn.dynamic.append((n.lineno, "import of a computed name"))
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                r = self.lookup(n.id, s)
                if r is None:
                    self.fn.missing.append((n.lineno, n.id))
                if r and r[0] == "pkg":
                    self.pkg(r[1])
        elif isinstance(n, ast.Attribute):
            base = self.paths(n.value, s)
            if base and isinstance(n.ctx, (ast.Store, ast.Del)):
                for p in base:
                    self.use(p + "." + n.attr, n.lineno, "assignment to")
            if not base:
                r = self.lookup(n.value.id, s) if isinstance(n.value, ast.Name) else None
                if r and r[0] == "pkg" and r[1][0] == "module":
                    q = self.P.resolve(r[1][1], n.attr)
                    if q:
                        self.pkg(q)
                else:
                    self.fn.attrs.add((n.attr, isinstance(n.ctx, ast.Load)))
            self.expr(n.value, s, inner=bool(base))
            return
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            for p in self.paths(n.value, s):
                if not p.startswith("builtins."):
                    self.use(p, n.lineno, "assignment into")
        for k in ast.iter_child_nodes(n):
            if isinstance(n, ast.Call) and k is n.func:
                self.expr(k, s)
            else:
                self.node(k, s)

    def pkg(self, r):
        if r[0] == "func":
            self.fn.calls.add(("func", r[1]))
        elif r[0] == "class":
            self.fn.calls.add(("class", r[1]))

    def imported(self, n):
        if isinstance(n, ast.ImportFrom):
            base = n.module or ""
            if n.level:
                pk = self.fn.module.name.split(".")
                if not self.fn.module.is_pkg:
                    pk = pk[:-1]
                base = ".".join(pk[:len(pk) - (n.level - 1)] + ([n.module] if n.module else []))
            self.fn.imports += [(n.lineno, (base, a.name)) for a in n.names]

    def node(self, n, s):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.node(d, s)
            q = self.scope(n.body, n.args, s)
            for k in n.body:
                self.node(k, q)
        elif isinstance(n, ast.Lambda):
            q = self.scope([n.body], n.args, s)
            self.node(n.body, q)
        elif isinstance(n, ast.ClassDef):
            for k in n.bases + n.decorator_list + [x.value for x in n.keywords]:
                self.node(k, s)
            q = self.scope(n.body, None, s)
            for k in n.body:
                self.node(k, q)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            self.imported(n)
            return
        elif isinstance(n, (ast.arg, ast.arguments)):
            return
        elif isinstance(n, ast.AnnAssign):
            for k in (n.target, n.value):
                if k is not None:
                    self.node(k, s)
        elif isinstance(n, ast.expr):
            self.expr(n, s)
        else:
            for k in ast.iter_child_nodes(n):
                self.node(k, s)


class Inventory:
    def __init__(self):
        P = self.P = program()
        self.fns = []
        by_info = {}
        for m in P.modules.values():
            top = Fn(m.name, m.tree, m)
            self.fns.append(top)
            w = Walk(P, top)
            root = Scope()
            for n in m.tree.body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    by_info[id(n)] = self.add(n, m, None)
                    for d in n.decorator_list:
                        w.node(d, root)
                elif isinstance(n, ast.ClassDef):
                    for k in n.bases + n.decorator_list:
                        w.node(k, root)
                    for k in n.body:
                        if isinstance(k, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            by_info[id(k)] = self.add(k, m, n.name)
                            for d in k.decorator_list:
                                w.node(d, root)
                        else:
                            w.node(k, root)
                else:
                    w.node(n, root)
        self.methods = {}
        for f in self.fns:
            if f.cls:
                self.methods.setdefault(f.name, []).append(f)
        self.edges = {}
        for f in self.fns:
            out = set()
            for kind, x in f.calls:
                if kind == "func":
                    if id(x.node) in by_info:
                        out.add(by_info[id(x.node)])
                else:
                    for c in P.mro(x):
                        k = c.methods.get("__init__")
                        if k is not None and id(k.node) in by_info:
                            out.add(by_info[id(k.node)])
                            break
            for a, load in f.attrs:
                out |= set(self.methods.get(a, ()))
            self.edges[f] = out

    def add(self, n, m, cls):
        f = Fn((cls + "." if cls else "") + n.name, n, m, cls)
        f.qual = m.name.replace("pytimize.", "", 1) + "." + f.qual
        self.fns.append(f)
        w = Walk(self.P, f)
        s = w.scope(n.body, n.args, None)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
            w.node(d, Scope())
        for k in n.body:
            w.node(k, s)
        return f

    def reaching(self, f):
        """every function from which f can be reached, f included"""
        out, todo = set(), [f]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x)
            todo += [g for g, es in self.edges.items() if x in es]
        return out
