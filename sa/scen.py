"""Scenarios: symbolic inputs for the public API, and what a user can observe."""
from . import terms as tm
from .terms import T, mk, const, sym, add, sub
from .values import *
from .interp import Interp, Dead, Giveup
from .model import Program, AnalysisBroken

PROG = None


def program():
    global PROG
    if PROG is None:
        PROG = Program()
    return PROG


def words(*more, limit=14):
    """texts a program may treat specially: every short text constant of the package, with its case and length variants"""
    import ast as _ast
    out = set(more)
    for m in program().modules.values():
        for n in _ast.walk(m.tree):
            if isinstance(n, _ast.Constant) and isinstance(n.value, str) and len(n.value) <= limit and "\n" not in n.value:
                out.add(n.value)
    for x in list(out):
        out |= {x.upper(), x.lower(), x.capitalize(), x + x[-1:], x[:-1], x[1:], " " + x}
    return sorted(out)


class World:
    """one scenario: a fresh interpreter over the current tree"""

    def __init__(self, **kw):
        tm.reset_scenario()
        self.I = Interp(program(), **kw)
        self.excs = []

    # ---- running
    def do(self, f, *a):
        """run one step; result value or None when no normal path remains"""
        st, v, ex = self.I.run(lambda: f(*a))
        self.excs += ex
        self.last_excs = ex
        if st is None:
            self.dead = True
            raise Dead()
        return v

    def cls(self, dotted):
        return Cls(program().public_class(dotted))

    def new(self, dotted, *args, **kw):
        I = self.I
        return self.do(lambda: I.call(self.cls(dotted), list(args), kw))

    def get(self, o, name):
        return self.do(lambda: self.I.getattr(o, name))

    def call(self, o, name, *args, **kw):
        return self.do(lambda: self.I.call(self.I.getattr(o, name), list(args), kw))

    # ---- building inputs
    def lst(self, *items, kind="list", op=False):
        return self.I.new(Lst(kind, tuple(i if isinstance(i, It) else It(i) for i in items), op))

    def dct(self, *items):
        return self.I.new(Dct(tuple(i if isinstance(i, DIt) else DIt(*i) for i in items)))

    def arr(self, name, *shape, dt="float", **kw):
        t = sym(name, ndim=len(shape), shape=shape, inp=True, py=kw.pop("py", "int" if dt == "int" else "float"), **kw)
        return self.I.new(Nd(t, tuple(shape), dt))

    def sc(self, name, py="float", lo=None, hi=None, **kw):
        t = sym(name, py=py, inp=True, **kw)
        if lo is not None or hi is not None:
            tm.IV[t] = (-tm.INF if lo is None else lo, tm.INF if hi is None else hi)
        return S(t, py)

    def desc(self, v):
        return self.I.desc(v)

    def snapshot(self):
        return self.I.st.copy()

    def restore(self, st):
        self.I.st = st.copy()


def idx(seg):
    return mk("idx", seg)


class LP:
    """a linear program built through the public constructor"""
    cls = "pytimize.programs.LinearProgram"

    def __init__(self, w, rows=("le", "ge", "eq"), cols=("nn", "neg", "free"), objective="max", name="", cls=None, extra=None, dt="float", z=None, exact=False):
        """rows / cols: classes of rows and columns in order, each with any number (one or more) of members;
        exact: exactly one member each, so that every dimension and position is a known number"""
        self.w = w
        self.name = name
        self.exact = exact
        self.obj = objective
        if exact:
            self.build_exact(w, list(rows), list(cols), objective, name, cls, extra, dt, z)
            return
        self.rows = [name + r for r in rows]
        self.cols = [name + c for c in cols]
        self.m = tm.universe(name + "R", self.rows)
        self.n = tm.universe(name + "C", self.cols)
        self.A = w.arr(name + "A", self.m, self.n, dt=dt)
        self.b = w.arr(name + "b", self.m, dt=dt)
        self.c = w.arr(name + "c", self.n, dt=dt)
        self.tA, self.tb, self.tc = mk("sym", name + "A"), mk("sym", name + "b"), mk("sym", name + "c")
        self.z = z if z is not None else w.sc(name + "z")
        self.tz = w.desc(self.z)
        ops = {"le": "<=", "ge": ">=", "eq": "="}
        self.ineq = w.lst(*[It(C(ops[r.rstrip("0123456789")]), "+", name + r) for r in rows])
        self.free = w.lst(*[It(S(add(idx(name + c), const(1)), "int"), "+", name + c) for c in cols if c.startswith("free")])
        self.negs = w.lst(*[It(S(add(idx(name + c), const(1)), "int"), "+", name + c) for c in cols if c.startswith("neg")])
        args = [self.A, self.b, self.c, self.z, C(objective), self.ineq, self.free, self.negs] + list(extra or [])
        self.args = args
        self.r = w.new(cls or self.cls, *args)

    def build_exact(self, w, rows, cols, objective, name, cls, extra, dt, z):
        self.rows, self.cols = rows, cols
        self.m, self.n = const(len(rows)), const(len(cols))
        self.A = w.arr(name + "A", self.m, self.n, dt=dt)
        self.b = w.arr(name + "b", self.m, dt=dt)
        self.c = w.arr(name + "c", self.n, dt=dt)
        self.tA, self.tb, self.tc = mk("sym", name + "A"), mk("sym", name + "b"), mk("sym", name + "c")
        self.z = z if z is not None else w.sc(name + "z")
        self.tz = w.desc(self.z)
        ops = {"le": "<=", "ge": ">=", "eq": "="}
        self.ineq = w.lst(*[C(ops[r]) for r in rows])
        self.free = w.lst(*[C(i + 1) for i, c in enumerate(cols) if c == "free"])
        self.negs = w.lst(*[C(i + 1) for i, c in enumerate(cols) if c == "neg"])
        self.args = [self.A, self.b, self.c, self.z, C(objective), self.ineq, self.free, self.negs] + list(extra or [])
        self.r = w.new(cls or self.cls, *self.args)


LP_VIEW = ("A", "b", "c", "z", "objective", "inequalities", "free_variables", "negative_variables", "positive_variables", "is_sef")


def view_lp(w, r, names=LP_VIEW):
    return {n: w.desc(w.get(r, n)) for n in names}
