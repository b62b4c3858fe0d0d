"""No well-typed call ends inside the library with anything but the documented errors.  (1) Every public operation and query of graphs,
programs, formulations and unconstrained programs is interpreted on well-typed arguments, and every exceptional exit some input reaches
is a ValueError or an ArithmeticError (or a relative), never an AttributeError, NameError, unbound local, wrong arity, wrong type, failed
lookup or endless recursion.  (2) In every function of the package, on every path: names resolve, attributes of `self` exist, and calls
of package functions fit their signatures."""
import ast
import importlib
import os
import re
from .graphspec import *
from .lpmeth import *
from .formspec import *
from .uncspec import UC, METHODS as UM, fns, point, call as ucall
from .C25 import GRAPHS, callable_v, net_iter
from .C33 import symbols
from .C35 import OBJ, CONS, HIST
from ..effects import Inventory, BUILTINS, Walk, own
from ..values import exc_isa

TECHNIQUE = "abstract interpretation of exceptional exits on well-typed inputs; name, attribute and signature resolution over every function"
DOCUMENTED = ("ValueError", "ArithmeticError", "NotImplementedError")
SURE = ("NameError", "AttributeError", "RecursionError", "TypeError")


def documented(name):
    return any(exc_isa(name, p) for p in DOCUMENTED)


# ------------------------------------------------------------------ graphs

def query(ck, directed, n, es, q, ps, req):
    cls = DG if directed else UG
    A = cls + "." + q
    nm = "%s on %d names with edges %s" % (cls.split(".")[-1] + "." + q, n, es)
    def go():
        net = Net(ck, n, directed=directed, weights=n + len(es), concrete=True, set_order="fwd", plain=q == "__repr__")
        net.build(range(n), es)
        st = net.I.st
        I = net.I
        vs = variants(net, q, req, ps)
        if vs is None:
            ck.add(nm, "unknown", A, "parameters %s not understood" % (ps,))
            return
        bad = None
        for v in vs:
            I.st = st.copy()
            args = [f() for f in v]
            shown = [str(I.desc(a)) for a in args]
            def do():
                f = I.getattr(net.r, q)
                r = I.call(f, args, {}) if callable_v(f) else f
                if isinstance(I.resolve(r), Ref) and isinstance(I.obj(I.resolve(r)), Lst):
                    net_iter(I, r)
                return r
            I.steps = 0
            I.st = I.st.copy()
            s, r, ex = I.run(do)
            for _, e in ex:
                if not documented(e.name):
                    bad = bad or (A, "%s(%s) ends with %s (%s) at %s" % (q, ", ".join(shown), e.name, e.msg, e.site))
        verdict(ck, net, nm, A, bad, "%d calls" % len(vs))
    ck.scen(nm, go, A)


def operations(ck, directed):
    cls = DG if directed else UG
    nm = "operations of %s on every graph over 3 names" % cls.split(".")[-1]
    def go():
        net = Net(ck, 3, directed=directed, weights=1)
        worst = []
        def edge(st, m, op, a, want, outs, h):
            for s, v, e in outs:
                if e is not None and not documented(e):
                    return (cls + "." + op, "after %s: ends with %s" % (h, e))
        verdict(ck, net, nm, cls, net.explore(weights=(0, 1) if ck.thorough or not directed else (0,), limit=3000, edge=edge, max_edges=2 if directed else 3))
    ck.scen(nm, go, cls)


# ------------------------------------------------------------------ programs

def program_op(ck, kind, m, lab, rows, cols, obj):
    dotted = {"LP": LPC, "IP": IPC}[kind]
    A = dotted + "." + m.name
    nm = "%s.%s/%s" % (kind, m.label, lab)
    def go():
        w = ck.world(cap=SMALL if m.heavy else CAP)
        lp = build(w, kind, rows, cols, obj)
        made = m.mk(w, lp)
        (st, v, ex), _ = invoke(w, lp, m, made=made)
        exits(ck, nm, w, ex, A, m.heavy)
    ck.scen(nm, go, A)


def exits(ck, nm, w, ex, A, heavy=False):
    """no exceptional exit that some valuation reaches is an internal error"""
    und = None
    seen = set()
    for s, e in ex:
        if documented(e.name) or (e.name, e.site) in seen:
            continue
        seen.add((e.name, e.site))
        if heavy and not any(exc_isa(e.name, p) for p in SURE):
            continue                # a lookup in a collection of unknown length: no verdict here
        hit = None
        for t in range(24):
            ev = Ev("%s/%s/%s" % (ck.seed, nm, t))
            if settled(ev, s.facts):
                hit = ev
                break
        if hit is None:
            und = und or "%s (%s) at %s: no valuation found that reaches it" % (e.name, e.msg, e.site)
        elif hard(w) or heavy and w.I.imprecise and not any(exc_isa(e.name, p) for p in ("NameError", "RecursionError")):
            und = "%s (%s) at %s: imprecise %s" % (e.name, e.msg, e.site, w.I.imprecise[:1])
        else:
            from ..check import show_vals
            ck.add(nm, "violated", A, "ends with %s (%s) at %s; inputs %s" % (e.name, e.msg, e.site, show_vals(hit)))
            return
    ck.ok(nm, A, "%d exceptional exits, documented errors only%s" % (len(ex), "; " + und if und else ""))


def formulation(ck, nm, code):
    A = "pytimize.formulations.linear.maximize"
    def go():
        w = ck.world()
        f = Form(w)
        symbols(f)
        I = w.I
        def body():
            f.enter()
            I.exec_block(ast.parse(code).body)
            return NONE
        st, t, ex = I.run(body)
        exits(ck, nm, w, ex, A)
    ck.scen(nm, go, A)


EXPR = ["x[1]", "v2", "x", "a*x[1] + p", "a*x[1] - b*v2", "2", "p", "n"]


def expressions(ck):
    """every operator on every pair of operands the documentation allows"""
    for l in EXPR:
        for op in ("+", "-"):
            for r in EXPR:
                if l in ("2", "p", "n", "x") and r in ("2", "p", "n", "x") or "x" in (l, r):
                    continue
                formulation(ck, "(%s) %s (%s)" % (l, op, r), "_r = (%s) %s (%s)" % (l, op, r))
        for op in ("<=", ">=", "=="):
            for r in EXPR:
                if l in ("2", "p", "n") and r in ("2", "p", "n", "x") or "x" in (l, r):
                    continue
                formulation(ck, "(%s) %s (%s)" % (l, op, r), "_r = (%s) %s (%s)" % (l, op, r))
        if l not in ("2", "p", "n", "x"):
            for t in ("-(%s)", "+(%s)", "2*(%s)", "(%s)*p", "(%s)*3"):
                formulation(ck, t % l, "_r = " + t % l)


def unconstrained(ck):
    for meth in UM:
        for kind in ("array", "list"):
            for lst in (False, True):
                nm = "%s/x as %s%s" % (meth, kind, ", derivatives as lists" if lst else "")
                def go():
                    w = ck.world(unroll=3, rec_limit=30)
                    fs = fns(1, lst)
                    r = w.new(UC, fs[0], C("max"))
                    st, v, ex = ucall(w, r, meth, point(w, kind), fs, 1)
                    exits(ck, nm, w, ex, UC + "." + meth)
                ck.scen(nm, go, UC + "." + meth)


# ------------------------------------------------------------------ the whole package

MODULE_NAMES = {"__name__", "__file__", "__doc__", "__package__", "__path__", "__spec__", "__loader__", "__builtins__", "__class__", "__annotations__", "__module__", "__qualname__"}
STDLIB = {"math", "itertools", "functools", "collections", "heapq", "bisect", "operator", "re", "copy", "string", "random", "typing", "decimal", "fractions", "statistics", "enum", "abc", "types"}


def numpy_names():
    """names the installed numpy declares, read from its stub file"""
    import glob
    for p in sorted(glob.glob("/opt/venv/lib/python*/site-packages/numpy/__init__.pyi")):
        src = open(p, encoding="utf-8").read()
        d = os.path.dirname(p)
        out = {x[:-3] if x.endswith(".py") else x for x in os.listdir(d)}
        src += open(os.path.join(d, "__init__.py"), encoding="utf-8").read()
        return out | set(re.findall(r"\b[A-Za-z_]\w*", src))
    return None


def names(ck, inv):
    P = inv.P
    np_names = numpy_names()
    for f in inv.fns:
        m = f.module
        if any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(m.tree)):
            continue
        top = {n.id for n in own(m.tree.body) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)} | {n.name for n in own(m.tree.body) if isinstance(n, (ast.ExceptHandler, ast.ClassDef, ast.FunctionDef)) and n.name}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                top |= set(n.names)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                top |= {(a.asname or a.name).split(".")[0] for a in n.names}
        bad = None
        for line, name in f.missing:
            if name not in top and name not in MODULE_NAMES:
                bad = bad or (line, "the name `%s` is defined nowhere" % name)
        for line, path in f.imports:
            r = broken_import(P, m, path)
            if r:
                bad = bad or (line, r)
        for u in f.uses:
            parts = u.path.split(".")
            if "()" in u.path or len(parts) < 2 or u.how != "use":
                continue
            if parts[0] in STDLIB:
                try:
                    o = importlib.import_module(parts[0])
                    for x in parts[1:]:
                        if not hasattr(o, x):
                            try:
                                o = importlib.import_module(".".join(parts[:parts.index(x) + 1]))
                                continue
                            except ImportError:
                                bad = bad or (u.line, "`%s` does not exist" % u.path)
                                break
                        o = getattr(o, x)
                except ImportError:
                    pass
            elif parts[0] == "numpy" and np_names is not None and parts[1] not in np_names:
                bad = bad or (u.line, "`%s` does not exist in the installed numpy" % u.path)
        where = f.at(bad[0] if bad else None)
        ck.add("names of %s" % f.qual, "violated" if bad else "ok", where, bad[1] if bad else "every name read resolves")


def broken_import(P, m, path):
    """a `from package import name` whose name the package does not define"""
    base, name = path
    if base.split(".")[0] in STDLIB and name != "*":
        try:
            if not hasattr(importlib.import_module(base), name):
                importlib.import_module(base + "." + name)
        except ImportError:
            return "`%s` has no `%s` to import" % (base, name)
        return None
    if base not in P.modules or name == "*":
        return None
    t = P.modules[base]
    if base + "." + name in P.modules or P.resolve(t, name) is not None:
        return None
    if any(isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Load) for n in own(t.tree.body)):
        return None
    return "`%s` has no `%s` to import" % (base, name)


def closed(P, c):
    """every ancestor is known to the analysis"""
    for k in P.mro(c):
        for b in k.base_exprs:
            if isinstance(b, ast.Name) and b.id in ("object", "ABC"):
                continue
            n = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
            if n not in {x.name for x in P.mro(c)}:
                return False
    return True


def family(P, c):
    """the class, its ancestors and everything derived from them that could be the class of `self`"""
    subs = [k for m in P.modules.values() for k in m.classes.values() if c in P.mro(k)]
    return {k for s in subs for k in P.mro(s)}


def stores(P, cls):
    out = set()
    for m in list(cls.methods.values()) + list(cls.setters.values()):
        for n in ast.walk(m.node):
            if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                out.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                out.add(n.value)        # may be set through setattr or __dict__
    for n in ast.walk(cls.node):
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
            out.add(n.target.id)
    return out


def selves(ck, inv):
    P = inv.P
    for m in P.modules.values():
        stored = {n.attr for n in ast.walk(m.tree) if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load)}
        for c in m.classes.values():
            if not closed(P, c) or c.metaclass is not None:
                continue
            fam = family(P, c)
            if any("__getattr__" in k.methods or "__getattribute__" in k.methods for k in fam):
                continue
            have = set(dir(object)) | {"__dict__", "__name__", "__qualname__", "__module__", "__annotations__"} | stored
            for k in fam:
                have |= set(k.methods) | set(k.setters) | set(k.attrs) | stores(P, k)
            for meth in list(c.methods.values()) + list(c.setters.values()):
                a = meth.node.args
                ps = a.posonlyargs + a.args
                if meth.kind in ("static",) or not ps:
                    continue
                me = ps[0].arg
                if meth.kind == "class":
                    pass
                if any(isinstance(n, ast.Name) and n.id == me and not isinstance(n.ctx, ast.Load) for n in ast.walk(meth.node)):
                    continue            # rebound
                bad = None
                for n in ast.walk(meth.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load) and n.attr not in have:
                        if guarded(meth.node, n):
                            continue
                        bad = bad or (n.lineno, "`%s.%s` is never defined for %s" % (me, n.attr, c.name))
                q = "%s.%s.%s" % (m.name.replace("pytimize.", "", 1), c.name, meth.name)
                ck.add("attributes of self in %s" % q, "violated" if bad else "ok", "%s:%s:%s" % (m.path, bad[0] if bad else meth.node.lineno, q), bad[1] if bad else "every attribute read is defined in the class, an ancestor or a descendant")


def guarded(fn, n):
    """inside a try that catches AttributeError, or after hasattr"""
    for t in ast.walk(fn):
        if isinstance(t, ast.Try) and t.body and t.body[0].lineno <= n.lineno <= t.body[-1].end_lineno and t.handlers:
            return True
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("hasattr", "getattr"):
            return True
    return False


BUILTIN_ATTRS = set().union(*[set(dir(t)) for t in (int, float, str, list, tuple, dict, set, frozenset, bytes, complex, bool, range, type, object, BaseException, type(iter([])), type(i for i in ()))])


def fits(info, call, bound):
    """does the call fit the signature? True when it cannot be told"""
    a = info.node.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return True
    if any(ast.unparse(d) not in ("staticmethod", "classmethod", "property") for d in info.node.decorator_list):
        return True
    ps = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    req = ps[:len(ps) - nd] if nd else list(ps)
    if bound:
        ps, req = ps[1:], req[1:] if req else req
    if len(call.args) > len(ps) and not a.vararg:
        return False
    given = set(ps[:len(call.args)])
    for k in call.keywords:
        if k.arg in given:
            return False
        if k.arg not in ps and k.arg not in [x.arg for x in a.kwonlyargs] and not a.kwarg:
            return False
        given.add(k.arg)
    need = set(req) | {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    return need <= given


def signatures(ck, inv):
    P = inv.P
    npar = ndarray_names()
    for f in inv.fns:
        if isinstance(f.node, ast.Module):
            continue
        w = Walk(P, f)
        s = w.scope(f.node.body, f.node.args, None)
        cls = f.module.classes.get(f.cls) if f.cls else None
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        me = ps[0] if ps and cls else None
        inner = set()
        for n in ast.walk(f.node):
            if n is not f.node and isinstance(n, (ast.FunctionDef, ast.Lambda)):
                inner |= {x.arg for x in n.args.args} | ({n.name} if isinstance(n, ast.FunctionDef) else set())
        bad = None
        k = 0
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load) and n.value.id not in inner:
                r = w.lookup(n.value.id, s)
                if r and r[0] == "pkg" and r[1][0] == "class" and closed(P, r[1][1]) and r[1][1].metaclass is None:
                    c = r[1][1]
                    if not any(n.attr in x.methods or n.attr in x.attrs or n.attr in stores(P, x) for x in P.mro(c)) and n.attr not in dir(type) and n.attr not in ANYSTORED(P):
                        bad = bad or (n.lineno, "`%s` has no attribute `%s`" % (c.name, n.attr))
            if not isinstance(n, ast.Call):
                continue
            cands = None
            if isinstance(n.func, ast.Name):
                if n.func.id in inner:
                    continue
                r = w.lookup(n.func.id, s)
                if r and r[0] == "pkg" and r[1][0] == "func":
                    cands = [(r[1][1], False)]
                elif r and r[0] == "pkg" and r[1][0] == "class":
                    c = r[1][1]
                    if closed(P, c) and c.metaclass is None and P.find_method(c, "__new__") is None:
                        i = P.find_method(c, "__init__")
                        if i is None and any(ast.unparse(d).split("(")[0].split(".")[-1] == "dataclass" for x in P.mro(c) for d in x.node.decorator_list):
                            continue
                        if i is not None:
                            cands = [(i, True)]
            elif isinstance(n.func, ast.Attribute):
                if w.paths(n.func.value, s):
                    continue
                base = n.func.value
                name = n.func.attr
                if isinstance(base, ast.Name) and base.id == me and cls is not None and base.id not in inner and closed(P, cls):
                    cands = [(x.methods[name], x.methods[name].kind != "static") for x in family(P, cls) if name in x.methods]
                    if any(name in x.attrs for x in family(P, cls)) or any(name in stores(P, x) for x in family(P, cls)):
                        continue
                elif isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id == "super" and cls is not None and closed(P, cls):
                    x = P.find_method(cls, name, after=cls)
                    cands = [(x, True)] if x is not None and name != "__init__" else None
                elif isinstance(base, ast.Name) and w.lookup(base.id, s) and w.lookup(base.id, s)[0] == "pkg" and w.lookup(base.id, s)[1][0] == "class":
                    x = P.find_method(w.lookup(base.id, s)[1][1], name)
                    cands = [(x, x.kind == "class")] if x is not None else None
                elif name not in BUILTIN_ATTRS and name not in npar:
                    cands = [(x.methods[name], x.methods[name].kind != "static") for m in P.modules.values() for x in m.classes.values() if name in x.methods]
            if not cands or any(x.kind == "property" for x, _ in cands):
                continue
            k += 1
            if not any(fits(x, n, b) for x, b in cands):
                bad = bad or (n.lineno, "the call `%s` fits no signature of %s" % (ast.unparse(n)[:90], cands[0][0].qual))
        ck.add("calls in %s" % f.qual, "violated" if bad else "ok", f.at(bad[0] if bad else None), bad[1] if bad else "%d calls of package functions fit their signatures" % k)


def ANYSTORED(P, memo={}):
    if id(P) not in memo:
        memo[id(P)] = {n.attr for m in P.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load)}
    return memo[id(P)]


def ndarray_names():
    import glob
    out = set()
    for p in sorted(glob.glob("/opt/venv/lib/python*/site-packages/numpy/__init__.pyi")):
        out |= set(re.findall(r"def (\w+)", open(p, encoding="utf-8").read()))
    return out


def run(ck):
    inv = Inventory()
    ck.funcs |= {f.qual for f in inv.fns}
    names(ck, inv)
    selves(ck, inv)
    signatures(ck, inv)
    for directed in (False, True):
        operations(ck, directed)
        for q, (ps, req) in sorted(queries_of(DG if directed else UG).items()):
            for n, es in GRAPHS[directed]:
                query(ck, directed, n, es, q, ps, req)
    for kind in ("LP", "IP"):
        ms, _, _ = table(kind)
        for m in ms:
            if kind == "IP" and not ck.thorough and m.name not in ("branch_and_bound", "relax", "copy", "__eq__", "cutting_plane"):
                continue
            for lab, rows, cols, obj in shapes_for(m, kind):
                if m.name == "branch_and_bound" and not ck.thorough and lab != "sef":
                    continue
                program_op(ck, kind, m, lab, rows, cols, obj)
    expressions(ck)
    for o in OBJ:
        for cs in CONS:
            formulation(ck, "maximize %s subject to %s" % (o, ", ".join(cs)), "_r = [maximize(%s).subject_to(%s).program]" % (o, ", ".join(cs)))
    for nm, code in HIST:
        formulation(ck, nm, code)
    unconstrained(ck)
