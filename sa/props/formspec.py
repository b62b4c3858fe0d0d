"""Formulations: user code is a Python expression over symbolic operands; the analysis interprets it over the current source,
and the same expression evaluated over the reference algebra below (linear forms over exact rationals) says what it must mean."""
import ast
from fractions import Fraction as F
from ..ev import Arr, Undef, Unknown, num
from .. import terms as tm
from ..terms import mk, const
from ..values import *
from ..check import Skip

FL = "pytimize.formulations.linear."


class Lin:
    """reference meaning of an expression"""
    def __init__(self, t=None, k=F(0), n=0):
        self.t = {i: F(v) for i, v in (t or {}).items() if v != 0}
        self.k = F(k)
        self.n = max([n] + list(t or {}))       # variables mentioned

    def of(self, o):
        if isinstance(o, Lin):
            return o
        if isinstance(o, (int, F)):
            return Lin({}, o)
        raise TypeError(o)

    def __repr__(self):
        return "%s + %s" % (self.t, self.k)

    def __add__(self, o):
        o = self.of(o)
        t = dict(self.t)
        for i, v in o.t.items():
            t[i] = t.get(i, F(0)) + v
        return Lin(t, self.k + o.k, max(self.n, o.n))
    __radd__ = __add__

    def __neg__(self):
        return Lin({i: -v for i, v in self.t.items()}, -self.k, self.n)

    def __pos__(self):
        return self

    def __sub__(self, o):
        return self + -self.of(o)

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, s):
        if isinstance(s, Lin):
            raise TypeError("product")
        return Lin({i: v * s for i, v in self.t.items()}, self.k * s, self.n)
    __rmul__ = __mul__

    def __le__(self, o):
        return Con(self - o, "<=")

    def __ge__(self, o):
        return Con(self - o, ">=")

    def __eq__(self, o):
        return Con(self - o, "=")
    __hash__ = None


class AllVars:
    def __le__(self, o):
        return Con("all", "<=")

    def __ge__(self, o):
        return Con("all", ">=")


class Con:
    def __repr__(self):
        return "%s %s 0" % (self.lin, self.op)

    """lin op 0, normalised: the set of assignments it allows"""
    def __init__(self, lin, op):
        self.lin, self.op = lin, op

    def norm(self):
        if isinstance(self.lin, str):
            return ("all", self.op)
        t, k, op = dict(self.lin.t), self.lin.k, self.op
        if not t:
            return ("const", {"<=": k <= 0, ">=": k >= 0, "=": k == 0}[op])
        s = t[min(t)]
        if s < 0:
            op = {"<=": ">=", ">=": "<=", "=": "="}[op]
        return (tuple(sorted((i, v / s) for i, v in t.items())), k / s, op)


class Prog:
    """reference meaning of a formulation"""
    def __init__(self, obj, sense, cons):
        self.obj, self.sense, self.cons = obj, sense, cons
        self.n = max([obj.n] + [c.lin.n for c in cons])
        self.pos, self.neg = [], []

    def where(self, *conds):
        pos, neg = list(self.pos), list(self.neg)
        for c in conds:
            t = pos if c.op == ">=" else neg
            if isinstance(c.lin, str):
                t += range(1, self.n + 1)
            else:
                (i, v), = c.lin.t.items()
                assert v == 1 and c.lin.k == 0
                t.append(i)
        if len(set(pos)) < len(pos) or len(set(neg)) < len(neg) or set(pos) & set(neg):
            raise ValueError()
        self.pos, self.neg = pos, neg
        return self

    def all_of(self, t):
        if self.pos or self.neg:
            raise ValueError()
        t += range(1, self.n + 1)
        return self

    def whereAllPositive(self):
        return self.all_of(self.pos)

    def whereAllNegative(self):
        return self.all_of(self.neg)

    @property
    def program(self):
        return {"A": [[c.lin.t.get(j, F(0)) for j in range(1, self.n + 1)] for c in self.cons], "b": [-c.lin.k for c in self.cons],
                "inequalities": [c.op for c in self.cons], "c": [self.obj.t.get(j, F(0)) for j in range(1, self.n + 1)], "z": self.obj.k,
                "objective": self.sense, "negative_variables": sorted(self.neg), "positive_variables": sorted(self.pos),
                "free_variables": sorted(set(range(1, self.n + 1)) - set(self.pos) - set(self.neg))}


class Obj:
    def __init__(self, e, sense):
        self.e, self.sense = e if isinstance(e, Lin) else Lin({}, e), sense

    def subject_to(self, *cons):
        if not cons:
            raise ValueError()
        return Prog(self.e, self.sense, list(cons))


def minimize(e):
    return Obj(e, "min")


def maximize(e):
    return Obj(e, "max")


PV = ("A", "b", "c", "z", "objective", "inequalities", "free_variables", "negative_variables", "positive_variables")


def obs_program(w, p):
    return mk("tup", *[w.desc(w.get(p, n)) for n in PV])


def shown(got):
    """the observed tuple in the form of Prog.program"""
    d = dict(zip(PV, got))
    A = d["A"]
    if not isinstance(A, Arr) or len(A.sh) != 2 or not isinstance(d["b"], Arr) or not isinstance(d["c"], Arr):
        return None
    out = {"A": [list(A.d[i * A.sh[1]:(i + 1) * A.sh[1]]) for i in range(A.sh[0])], "b": list(d["b"].d), "c": list(d["c"].d), "z": num(d["z"]),
           "objective": d["objective"], "inequalities": list(d["inequalities"])}
    for k in ("free_variables", "negative_variables", "positive_variables"):
        out[k] = sorted(int(i) for i in d[k])
    return out


class Xref:
    """x[i], x >= 0"""
    def __getitem__(self, i):
        return Lin({i: 1})

    def __le__(self, o):
        return AllVars() <= o

    def __ge__(self, o):
        return AllVars() >= o


def user(w, src, **names):
    """interpret the expression `src` as user code with the given values"""
    lam = ast.parse("lambda %s: %s" % (", ".join(names), src), mode="eval").body
    return w.I.call(Fn(lam), list(names.values()), {})


class Form:
    """symbolic operands of a formulation"""
    def __init__(self, w):
        self.w = w
        I = w.I
        self.x = w.cls(FL + "x")
        nv = w.do(lambda: I.call(Fn_of(FL + "variables"), [C(3)], {}))
        self.V = [w.do(lambda i=i: I.getitem(nv, C(i))) for i in range(3)]
        self.s = {}

    def num(self, nm, py="float", lo=None, hi=None):
        if nm not in self.s:
            self.s[nm] = self.w.sc(nm, py=py, lo=lo, hi=hi)
        return self.s[nm]

    def env(self, extra=()):
        d = {"x": self.x, "v1": self.V[0], "v2": self.V[1], "v3": self.V[2]}
        for nm, v in self.s.items():
            d[nm] = v
        d.update(extra)
        return d

    def user(self, src, **extra):
        d = self.env(extra)
        used = {n.id for n in ast.walk(ast.parse(src, mode="eval")) if isinstance(n, ast.Name)}
        return user(self.w, src, **{k: v for k, v in d.items() if k in used})

    def enter(self, **extra):
        """make everything visible to statements of user code"""
        for q, v in self.env(extra).items():
            self.w.I.st.L[q] = v
        for q in ("minimize", "maximize", "variables"):
            self.w.I.st.L[q] = Fn_of(FL + q)

    def ref_exec(self, ev, code, **extra):
        d = {"x": Xref(), "v1": Lin({1: 1}), "v2": Lin({2: 1}), "v3": Lin({3: 1}), "minimize": minimize, "maximize": maximize, "Q": F}
        for nm, v in self.s.items():
            d[nm] = ev.ev(self.w.desc(v))
        d.update(extra)
        tree = Exact().visit(ast.parse(code))
        exec(compile(ast.fix_missing_locations(tree), "ref", "exec"), {"__builtins__": {"ValueError": ValueError}}, d)
        return d

    def ref(self, ev, src, **extra):
        """the same expression over the reference algebra"""
        d = {"x": Xref(), "v1": Lin({1: 1}), "v2": Lin({2: 1}), "v3": Lin({3: 1}), "max": max, "min": min}
        for nm, v in self.s.items():
            d[nm] = ev.ev(self.w.desc(v))
        d.update(extra)
        d["Q"] = F
        tree = Exact().visit(ast.parse(src, mode="eval"))
        return eval(compile(ast.fix_missing_locations(tree), "ref", "eval"), {"__builtins__": {}}, d)


class Exact(ast.NodeTransformer):
    """float literals as exact rationals"""
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.Call(ast.Name("Q", ast.Load()), [ast.Constant(str(n.value))], [])
        return n


def Fn_of(dotted):
    from ..scen import program
    f = program().public_class(dotted)
    return Fn(f, module=f.module)


def obs_expr(w, v):
    """what an expression shows: coefficient of every variable and the constant"""
    return mk("tup", w.desc(w.get(v, "terms")), w.desc(w.get(v, "constant")))
