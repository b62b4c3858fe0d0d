"""Tolerant comparison: for a number, vector or matrix against a number the answer is the plain comparison whenever every element
is clearly apart from the number, values within tolerance count as equal, an elementwise comparison holds exactly when it holds
for every element, sign and integrality tests agree, unknown operators are rejected.  Decided on the abstract verdict of every
operation for symbolic values (tables of any length and exact shapes) evaluated at equal, nearly equal and clearly different points."""
from ..scen import words
from .lpspec import *

TECHNIQUE = "abstract interpretation; verdict terms compared with the exact order at equal, nearly equal and clearly different points"
CP = "pytimize.utilities.Comparator"
OPS = {"<=": lambda v, t: v <= t, "<": lambda v, t: v < t, ">=": lambda v, t: v >= t, ">": lambda v, t: v > t}
TINY = F(1, 10 ** 12)


def offsets(ev, t):
    r = ev.rng
    k = r.randrange(8)
    eps = F(2, 10 ** 6) if t == 0 else F(3, 10 ** 4) * (1 + abs(t))
    return [eps, -eps, F(0), TINY, -TINY, F(1, 50) * r.randint(1, 400), -F(1, 50) * r.randint(1, 400), F(r.randint(-9, 9))][k]


def near(t_of):
    """a generator of values equal to, nearly equal to or clearly apart from the test value"""
    def one(ev):
        return t_of(ev) + offsets(ev, t_of(ev))
    return one


def verdict(op, v, t):
    """plain order on values rounded to the tolerance"""
    d = v - t
    if abs(d) <= TINY:
        d = F(0)
    elif abs(d) < F(1, 10 ** 4) * max(abs(v), abs(t)) + F(1, 10 ** 6):
        raise Skip()
    return OPS[op](d, 0)


def integral(v):
    k = round(v)
    d = abs(v - k)
    if d <= TINY:
        return True
    if d < F(1, 10 ** 6):
        raise Skip()
    return False


SHAPES = {"number": (), "vector": ("n",), "vector1": (1,), "vector3": (3,), "matrix": (2, 2), "matrix23": (2, 3)}


def value(w, kind):
    sh = SHAPES[kind]
    if sh == ():
        return w.sc("v")
    if sh == ("n",):
        return w.arr("v", tm.universe("N", ["n"]))
    return w.arr("v", *[const(k) for k in sh])


def fill(kind, t_of):
    def g(ev):
        sh = SHAPES[kind]
        one = near(t_of)
        if sh == ():
            return one(ev)
        sh = (ev.size("n"),) if sh == ("n",) else sh
        k = 1
        for q in sh:
            k *= q
        if ev.rng.randrange(3) == 0:       # all on one side but for one element
            j = ev.rng.randrange(k)
            s = ev.rng.choice([1, -1])
            return Arr(sh, [t_of(ev) + (s if i != j else -s) * F(ev.rng.randint(0, 3)) for i in range(k)])
        return Arr(sh, [one(ev) for _ in range(k)])
    return g


def elems(v):
    return v.d if isinstance(v, Arr) else [v]


def WORDS():
    return words("=", "==", "=<", "le", "!=", "<>")


def run(ck):
    N = 60 if not ck.thorough else 500

    def call(w, nm, *a):
        return w.I.run(lambda: w.I.call(w.I.getattr(w.cls(CP), nm), list(a), {}))
    for kind in SHAPES:
        for op in list(OPS) + [o for o in WORDS() if o not in OPS]:
            for test in ("0", "0.0", "t", "3", "-2.5"):
                if op not in OPS and (test != "t" or kind != next(iter(SHAPES)) and op not in ("=", "==", "", "=<", "le", "!=")):
                    continue
                nm = "is_close_compare %s %r %s" % (kind, op, test)
                def go():
                    w = ck.world()
                    v = value(w, kind)
                    t = w.sc("t") if test == "t" else C(eval(test))
                    tt = w.desc(t)
                    res = call(w, "is_close_compare", v, C(op), t)
                    vt = mk("sym", "v")

                    def t_of(ev):
                        return num(ev.ev(tt))

                    def spec(ev):
                        if op not in OPS:
                            return ("raise", {"ValueError"})
                        return ("ok", all([verdict(op, num(x), t_of(ev)) for x in elems(ev.ev(vt))]))
                    ck.outcome(nm, w, res, spec, CP + ".is_close_compare", n=N, gen={"v": fill(kind, t_of)}, rule="tolerant comparison")
                ck.scen(nm, go, CP + ".is_close_compare")
        for meth, op in (("is_negative", "<"), ("is_positive", ">")):
            nm = "%s %s" % (meth, kind)
            def go():
                w = ck.world()
                v = value(w, kind)
                res = call(w, meth, v)
                ck.outcome(nm, w, res, lambda ev: ("ok", all([verdict(op, num(x), F(0)) for x in elems(ev.ev(mk("sym", "v")))])), CP + "." + meth, n=N,
                           gen={"v": fill(kind, lambda ev: F(0))}, rule="sign test")
            ck.scen(nm, go, CP + "." + meth)
        nm = "is_close_to_zero %s" % kind
        def go():
            w = ck.world()
            v = value(w, kind)
            res = call(w, "is_close_to_zero", v)

            def spec(ev):
                x = ev.ev(mk("sym", "v"))
                out = [verdict("<=", num(y), F(0)) and verdict(">=", num(y), F(0)) for y in elems(x)]
                return ("ok", Arr(x.sh, out) if isinstance(x, Arr) else out[0])
            ck.outcome(nm, w, res, spec, CP + ".is_close_to_zero", n=N, gen={"v": fill(kind, lambda ev: F(0))}, rule="zero test, element by element")
        ck.scen(nm, go, CP + ".is_close_to_zero")
        nm = "is_integer %s" % kind
        def go():
            w = ck.world()
            v = value(w, kind)
            res = call(w, "is_integer", v)
            g = fill(kind, lambda ev: F(0))

            def gen(ev):
                def one():
                    return F(ev.rng.randint(-4, 4)) + ev.rng.choice([F(0), F(0), F(0), TINY, -TINY, F(1, 2), F(1, 3), -F(9, 10), F(1, 1000)])
                x = g(ev)
                if not isinstance(x, Arr):
                    return one()
                if ev.rng.randrange(2):
                    k = ev.rng.randrange(len(x.d))
                    return Arr(x.sh, [one() if i == k else F(ev.rng.randint(-4, 4)) for i in range(len(x.d))])
                return Arr(x.sh, [one() for _ in x.d])
            ck.outcome(nm, w, res, lambda ev: ("ok", all([integral(num(x)) for x in elems(ev.ev(mk("sym", "v")))])), CP + ".is_integer", n=N, gen={"v": gen}, rule="integrality test")
        ck.scen(nm, go, CP + ".is_integer")
