"""What a linear program means, over exact rationals (the reference the abstract values are compared with)."""
from fractions import Fraction as F
from ..ev import Arr, Undef, Unknown, gauss, rank, toarr, num
from .. import terms as tm
from ..terms import mk, const, sub, add
from ..values import *
from ..scen import World, LP, view_lp, LP_VIEW
from ..check import Skip, same

LPC = "pytimize.programs.LinearProgram"
IPC = "pytimize.programs.IntegerProgram"

TOL = F(1, 10 ** 10)


class V:
    """the concrete program a valuation gives"""

    def __init__(self, ev, lp):
        self.A = ev.ev(lp.tA)
        self.b = list(ev.ev(lp.tb).d)
        self.c = list(ev.ev(lp.tc).d)
        self.z = ev.ev(lp.tz)
        self.m, self.n = self.A.sh
        self.rows = [list(self.A.d[i * self.n:(i + 1) * self.n]) for i in range(self.m)]
        self.obj = lp.obj
        self.ops = []
        for r in lp.rows:
            k = 1 if lp.exact else ev.size(r)
            self.ops += [{"le": "<=", "ge": ">=", "eq": "="}[r if lp.exact else base(r, lp.name)]] * k
        self.kind = kinds_of(ev, lp)
        self.free = [i + 1 for i, k in enumerate(self.kind) if k == "free"]
        self.neg = [i + 1 for i, k in enumerate(self.kind) if k == "neg"]
        self.pos = [i + 1 for i, k in enumerate(self.kind) if k == "nn"]
        self.sef = self.obj == "max" and not self.free and not self.neg and all(o == "=" for o in self.ops)

    def view(self):
        return {"A": self.A, "b": Arr((self.m,), self.b), "c": Arr((self.n,), self.c), "z": self.z, "objective": self.obj,
                "inequalities": self.ops, "free_variables": self.free, "negative_variables": self.neg,
                "positive_variables": self.pos, "is_sef": self.sef}

    def col(self, j):
        return [r[j] for r in self.rows]


def kinds_of(ev, lp):
    out = []
    for c in lp.cols:
        out += [c] if lp.exact else [base(c, lp.name)] * ev.size(c)
    return out


def base(seg, name):
    return seg[len(name):].rstrip("0123456789")


def arr1(xs):
    xs = list(xs)
    return Arr((len(xs),), xs)


def arr2(rows, n=None):
    rows = [list(r) for r in rows]
    n = len(rows[0]) if rows else n
    return Arr((len(rows), n), [x for r in rows for x in r])


def dot(a, b):
    return sum((num(x) * num(y) for x, y in zip(a, b)), F(0))


def clear(x, y, rel=F(1, 10 ** 4), ab=F(1, 10 ** 6)):
    """not within the grey zone of numerical tolerance: equal or clearly different"""
    return x == y or abs(x - y) > ab + rel * max(abs(x), abs(y))


def basis(w, seg, n, name="B", asc=False):
    """a list with one 1-based column number per row"""
    t = mk("app", name, mk("idx", seg))
    tm.META.setdefault(mk("sym", name), {}).update(py="int", inp=True, iv=(1, tm.INF), asc=asc)
    tm.IV[t] = (1.0, tm.INF)
    tm.IV[sub(t, n)] = (-tm.INF, 0.0)
    return w.lst(It(S(t, "int"), "+", seg))


def gen_basis(lp, seg="eq", name="B", dup=0.15, asc=False):
    """valuation of basis(): distinct columns in random order, now and then a repetition"""
    def f(ev, i):
        st = ev.__dict__.setdefault("_basis_" + name, None)
        if st is None:
            m, n = ev.size(seg), int(ev.ev(lp.n))
            if n < m:
                raise Undef("fewer columns than rows")
            st = ev.rng.sample(range(1, n + 1), m)
            if m > 1 and ev.rng.random() < dup:
                st[1] = st[0]
            if asc:
                st.sort()
            ev.__dict__["_basis_" + name] = st
        return F(st[int(i)])
    return {name: f}


def basis_of(ev, seg="eq", name="B"):
    return [int(ev.o_app(name, const(i))) for i in range(ev.size(seg))]


def basis_x(w, B):
    """a known list of 1-based column numbers"""
    return w.lst(*[C(j) for j in B])


def shapes(gen, exact):
    """(rows, cols, exact?, label) of all shape families of a check"""
    for r, c in gen:
        yield r, c, False, "%s/%s" % ("+".join(r), "+".join(c))
    for r, c in exact:
        yield r, c, True, "[%s]/[%s]" % (",".join(r), ",".join(c))


ONE = [(("le", "ge", "eq"), ("nn", "neg", "free")), (("ge", "le"), ("free", "nn", "free", "neg")), (("eq", "eq"), ("nn", "nn", "nn")),
       (("le", "eq", "le", "ge"), ("neg", "free", "neg", "nn", "free")), (("eq",), ("nn", "nn")), (("ge", "ge", "le"), ("nn", "nn")),
       (("eq", "le"), ("free", "free", "neg", "free"))]


def is_sef_lp(w, name="", rows=("eq",), cols=("nn",), **kw):
    return LP(w, rows=rows, cols=cols, objective="max", name=name, **kw)


def sef_sizes(k):
    m = 1 + k % 2
    return {"eq": m, "nn": m + (k // 2) % 3}
