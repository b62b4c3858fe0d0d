"""All public operations of the program classes with arguments, and comparison of what a program shows before and after."""
from .lpspec import *
from ..check import possible
from ..interp import Dead, Giveup
from ..ev import Ev, same
from .. import terms as tm

CAP = 60
SMALL = 30


def vec(w, name, n):
    return w.arr(name, n if isinstance(n, tm.T) else const(n))


class Meth:
    def __init__(self, name, mk=None, sef=None, prop=False, heavy=False, static=False, classes=("LP", "IP"), label=None):
        self.name, self.mk, self.sef, self.prop, self.heavy, self.classes = name, mk or (lambda w, lp: ([], {})), sef, prop, heavy, classes
        self.label = label or name


def nrows(lp):
    return len(lp.rows)


def ncols(lp):
    return len(lp.cols)


def B(w, lp):
    m, n = nrows(lp), ncols(lp)
    return w.lst(*[C(n - i) for i in range(m)])


def Ba(w, lp):
    """basis given as an array"""
    m = nrows(lp)
    return w.arr("Bv", const(m), dt="int")


METHODS = [
    Meth("add_constraint", lambda w, lp: ([vec(w, "q", lp.n), C("<="), w.sc("qv")], {}), label="add_constraint <="),
    Meth("add_constraint", lambda w, lp: ([vec(w, "q", lp.n), C("="), w.sc("qv")], {}), label="add_constraint ="),
    Meth("add_variable", lambda w, lp: ([w.sc("qc"), vec(w, "q", lp.m)], {}), label="add_variable"),
    Meth("add_variable", lambda w, lp: ([w.sc("qc"), vec(w, "q", lp.m)], {"free": TRUE}), label="add_variable free"),
    Meth("add_variable", lambda w, lp: ([w.sc("qc"), vec(w, "q", lp.m)], {"negative": TRUE}), label="add_variable negative"),
    Meth("is_canonical_form_for", lambda w, lp: ([B(w, lp)], {})),
    Meth("optimal_value", heavy=True),
    Meth("is_basic_solution", lambda w, lp: ([vec(w, "x", lp.n), B(w, lp)], {}), sef=True),
    Meth("is_feasible_basic_solution", lambda w, lp: ([vec(w, "x", lp.n), B(w, lp)], {})),
    Meth("is_basis", lambda w, lp: ([B(w, lp)], {})),
    Meth("is_basis_feasible", lambda w, lp: ([B(w, lp)], {})),
    Meth("compute_basic_solution", lambda w, lp: ([B(w, lp)], {})),
    Meth("to_canonical_form", lambda w, lp: ([B(w, lp)], {}), sef=True),
    Meth("dual"),
    Meth("auxiliary", sef=True),
    Meth("solve", heavy=True),
    Meth("two_phase_simplex", sef=True, heavy=True),
    Meth("simplex", lambda w, lp: ([B(w, lp)], {}), sef=True, heavy=True),
    Meth("simplex_iteration", lambda w, lp: ([B(w, lp)], {}), sef=True),
    Meth("verify_infeasibility", lambda w, lp: ([vec(w, "y", lp.m)], {}), sef=True),
    Meth("verify_unboundedness", lambda w, lp: ([vec(w, "x", lp.n), vec(w, "d", lp.n)], {}), sef=True),
    Meth("verify_optimality", lambda w, lp: ([vec(w, "y", lp.m)], {}), sef=True),
    Meth("is_feasible", lambda w, lp: ([vec(w, "x", lp.n)], {})),
    Meth("evaluate", lambda w, lp: ([vec(w, "x", lp.n)], {})),
    Meth("value_of", lambda w, lp: ([vec(w, "x", lp.n)], {})),
    Meth("copy"),
    Meth("to_sef"),
    Meth("is_solution_optimal", lambda w, lp: ([vec(w, "x", lp.n)], {})),
    Meth("clear_steps"),
    Meth("to_rref", lambda w, lp: ([w.arr("M", const(2), const(2))], {}), heavy=True),
    Meth("cs_conditions"),
    Meth("__repr__", heavy=True),
    Meth("__eq__", lambda w, lp: ([LP(w, rows=lp.rows, cols=lp.cols, objective=lp.obj, name="o", exact=True).r], {})),
    Meth("steps", prop=True), Meth("steps_string", prop=True), Meth("inequalities", prop=True), Meth("free_variables", prop=True),
    Meth("negative_variables", prop=True), Meth("positive_variables", prop=True), Meth("is_in_rref", prop=True), Meth("is_sef", prop=True),
    Meth("A", prop=True), Meth("b", prop=True), Meth("c", prop=True), Meth("z", prop=True), Meth("objective", prop=True),
    Meth("branch_and_bound", heavy=True, classes=("IP",)),
    Meth("cutting_plane", classes=("IP",)),
    Meth("relax", classes=("IP",)),
]
SKIPPED = {"random": "builds a program from random numbers, has no receiver", "graph_polyhedron": "draws; covered by the effect rules of C43"}

BY_PARAM = {
    "basis": B, "x": lambda w, lp: vec(w, "x", lp.n), "certificate": lambda w, lp: vec(w, "y", lp.m), "y": lambda w, lp: vec(w, "y", lp.m),
    "coefficients": lambda w, lp: vec(w, "q", lp.n), "value": lambda w, lp: w.sc("qv"), "inequality": lambda w, lp: C("<="),
    "column": lambda w, lp: vec(w, "q", lp.m), "coefficient": lambda w, lp: w.sc("qc"),
}


def public_methods(dotted):
    from ..scen import program
    P = program()
    cls = P.public_class(dotted)
    out = {}
    for c in P.mro(cls):
        for n, m in getattr(c, "methods", {}).items():
            if n not in out:
                out[n] = m
    return {n: m for n, m in out.items() if not n.startswith("_") or n in ("__repr__", "__eq__", "__str__", "__hash__", "__copy__", "__deepcopy__", "__ne__")}


def params(m):
    a = m.node.args
    ps = [x.arg for x in a.posonlyargs + a.args][1:]
    nd = len(a.defaults)
    req = ps[:len(ps) - nd] if nd else ps
    return ps + [x.arg for x in a.kwonlyargs], req


def table(kind):
    """[Meth] for a class, extended by public methods the table does not know (arguments chosen by parameter name)"""
    dotted = {"LP": LPC, "IP": IPC}[kind]
    have = public_methods(dotted)
    out = [m for m in METHODS if kind in m.classes and m.name in have]
    missing = [m.name for m in METHODS if kind in m.classes and m.name not in have]
    known = {m.name for m in METHODS}
    other = []
    for n, m in sorted(have.items()):
        if n in known or n in SKIPPED:
            continue
        if m.kind == "property":
            out.append(Meth(n, prop=True))
            continue
        if m.kind in ("static", "staticmethod", "classmethod"):
            continue
        ps, req = params(m)
        if all(p in BY_PARAM for p in req):
            out.append(Meth(n, (lambda req: lambda w, lp: ([BY_PARAM[p](w, lp) for p in req], {}))(req)))
        else:
            other.append(n)
    return out, missing, other


def has_param(kind, name, p):
    m = public_methods({"LP": LPC, "IP": IPC}[kind]).get(name)
    return m is not None and m.kind != "property" and p in params(m)[0]


def shapes_for(meth, kind, sefs=True):
    """programs a method is analysed on: (label, rows, cols, objective)"""
    big, out = not meth.heavy, []
    if meth.sef is not False:
        out.append(("sef", ["eq", "eq"] if big else ["eq"], ["nn", "nn", "nn"] if big else ["nn", "nn"], "max"))
    if meth.sef is None:
        out.append(("mixed-max", ["le", "ge", "eq"] if big else ["le"], ["free", "nn", "neg"] if big else ["free", "neg"], "max"))
        out.append(("mixed-min", ["ge", "le", "eq"] if big else ["ge"], ["neg", "nn", "free"] if big else ["neg", "nn"], "min"))
    return out


def build(w, kind, rows, cols, obj, name=""):
    if kind == "IP":
        return LP(w, rows=rows, cols=cols, objective=obj, name=name, cls=IPC, exact=True, extra=[w.lst(C(1))])
    return LP(w, rows=rows, cols=cols, objective=obj, name=name, exact=True)


def view(w, r, steps=False):
    """everything the program shows, as terms; a shape too irregular to describe stays out"""
    out = view_lp(w, r)
    if steps:
        out.update(view_in(w, w.I.st, r, ("steps",)))
    return out


def view_in(w, st, r, names=LP_VIEW):
    """the view in another state, leaving the current one; {name: term or exception name}"""
    cur = w.I.st
    out = {}
    try:
        for n in names:
            w.I.st = st.copy()
            s, v, ex = w.I.run(lambda: w.I.getattr(r, n))
            if s is None:
                out[n] = None
            else:
                w.I.st = s
                out[n] = w.desc(v)
                if n == "steps":
                    s, k, ex = w.I.run(lambda: w.I.call(Ext("builtins.len"), [v], {}))
                    if s is not None:
                        w.I.st = s
                        out["len(steps)"] = w.desc(k)
    finally:
        w.I.st = cur
    return out


def invoke(w, lp, meth, recv=None, kw=None, made=None):
    args, kws = made if made is not None else meth.mk(w, lp)
    kws = dict(kws)
    kws.update(kw or {})
    r = recv if recv is not None else lp.r
    if meth.prop:
        return w.I.run(lambda: w.I.getattr(r, meth.name)), []
    return w.I.run(lambda: w.I.call(w.I.getattr(r, meth.name), args, kws)), args


HARD = ("store into unknown", "weak update", "setattr", "join of different objects", "shape assignment", "global", "statement ", "while fixpoint", "loop fixpoint")


def hard(w):
    return [i for i in w.I.imprecise if i[0].startswith(HARD)]


def unchanged(ck, name, w, before, after, facts, anchor, rule, tries=12):
    """every observation of `after` equals that of `before` whenever the path is taken; one obligation per call"""
    bad = [k for k in before if after.get(k) is not before[k]]
    if not bad:
        ck.ok(name, anchor, rule)
        return True
    und = None
    for k in bad:
        a, b = after.get(k), before[k]
        if a is None:
            und = "observation `%s` cannot be made afterwards" % k
            continue
        hits = 0
        for t in range(tries * 3):
            ev = Ev("%s/%s/%s/%s" % (ck.seed, name, k, t))
            try:
                want = ev.ev(b)
                if not possible(ev, facts):
                    continue
                got = ev.ev(a)
            except Unknown as e:
                und = "observation `%s`: %s" % (k, str(e)[:100])
                continue
            except Undef as e:
                continue
            ck.vals += 1
            hits += 1
            if not same(got, want):
                if hard(w):
                    und = "imprecise: %s" % (hard(w)[:2],)
                    break
                from ..check import show, show_vals
                ck.add(name, "violated", anchor, "%s: `%s` was %s and is %s; inputs %s; term %s" % (rule, k, show(want), show(got), show_vals(ev), repr(a)[:300]))
                return False
            if hits >= tries:
                break
        if not hits and und is None:
            und = "observation `%s`: no valuation takes this path" % k
    if und:
        ck.add(name, "unknown", anchor, und)
        return None
    ck.ok(name, anchor, rule)
    return True


def settled(ev, facts):
    """the valuation takes this path, and nothing about that is left open"""
    if not possible(ev, facts):
        return False
    for t, v in facts.items():
        try:
            if ev.unbound(t):
                continue
            ev.ev(t)
        except (Unknown, Undef):
            return False
    return True
