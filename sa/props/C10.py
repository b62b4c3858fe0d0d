"""Feasibility verdict: a point is reported feasible exactly when it satisfies every constraint and every sign
restriction (outside the numerical tolerance zone), for programs in and out of SEF; vectors of the wrong size are
rejected; the value of an infeasible point is refused and that of a feasible one is c.x + z."""
from .lpspec import *

ANCHOR = LPC + ".is_feasible"


def feasible(v, x):
    """True/False, or None within the tolerance zone"""
    grey = False
    for i in range(v.m):
        val = dot(v.rows[i], x)
        o = v.ops[i]
        if not clear(val, v.b[i]):
            grey = True
        elif (o == "=" and val != v.b[i]) or (o == "<=" and val > v.b[i]) or (o == ">=" and val < v.b[i]):
            return False
    for k, e in zip(v.kind, x):
        if not clear(e, F(0)):
            grey = True
        elif (k == "nn" and e < 0) or (k == "neg" and e > 0):
            return False
    return None if grey else True


def want(v, x):
    f = feasible(v, x)
    if f is None:
        raise Skip()
    return f


def gen_b(lp, x="x"):
    """right-hand sides near A x, so that both verdicts occur"""
    def f(ev):
        A = ev.ev(lp.tA)
        xs = ev.ev(mk("sym", x))
        return Arr((A.sh[0],), [dot(A.d[i * A.sh[1]:(i + 1) * A.sh[1]], xs.d) + ev.rng.choice([0, 0, 0, 1, -1, F(1, 2)]) for i in range(A.sh[0])])
    return {lp.name + "b": f}


def gen_x(lp, x="x", p=0.8):
    """points that mostly respect the sign restrictions"""
    def f(ev):
        kinds = kinds_of(ev, lp)
        out = []
        for k in kinds:
            q = ev.rng.choice(ev.pool)
            if ev.rng.random() < p:
                q = abs(q) if k == "nn" else -abs(q) if k == "neg" else q
            out.append(q)
        return arr1(out)
    return {x: f}


def run(ck):
    rows = [("le", "ge", "eq"), ("eq",), ("le",), ("ge",), ("ge", "le", "eq", "le2")]
    cols = [("nn", "neg", "free"), ("nn",), ("neg",), ("free",), ("free", "nn", "neg")]
    combos = [(rows[0], cols[0]), (rows[1], cols[1]), (rows[2], cols[1]), (rows[3], cols[2]), (rows[1], cols[3]), (rows[4], cols[4])]
    if ck.thorough:
        combos = [(r, c) for r in rows for c in cols]
    for obj in ("max", "min"):
        for r, c, ex, lab in shapes(combos, ONE):
            for meth in ("is_feasible", "value_of"):
                nm = "%s/%s/%s" % (meth, obj, lab)
                def f():
                    w = ck.world()
                    lp = LP(w, rows=r, cols=c, objective=obj, exact=ex)
                    x = w.arr("x", lp.n)
                    res = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, meth), [x], {}))
                    g = {**gen_b(lp), **gen_x(lp)}
                    def spec(ev):
                        p = V(ev, lp)
                        xs = ev.ev(mk("sym", "x")).d
                        ok = want(p, xs)
                        if meth == "is_feasible":
                            return ("ok", ok)
                        return ("ok", dot(p.c, xs) + p.z) if ok else ("raise", {"ValueError"})
                    ck.outcome(nm, w, res, spec, LPC + "." + meth, gen=g, rule="verdict" if meth == "is_feasible" else "value of a feasible point")
                ck.scen(nm, f, LPC + "." + meth)
    # sizes
    for r, c in combos[:2]:
        for meth in ("is_feasible", "evaluate", "value_of"):
            for shape in ("short", "long", "matrix"):
                nm = "%s/%s/%s vector" % (meth, "+".join(r), shape)
                def f():
                    w = ck.world()
                    lp = LP(w, rows=r, cols=c)
                    sh = {"short": (sub(lp.n, const(1)),), "long": (add(lp.n, const(1)),), "matrix": (lp.n, const(1))}[shape]
                    x = w.arr("x", *sh)
                    res = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, meth), [x], {}))
                    ck.outcome(nm, w, res, lambda ev: ("raise", {"ValueError"}), LPC + "." + meth, n=6, rule="a vector of the wrong size is rejected")
                ck.scen(nm, f, LPC + "." + meth)
    def f():
        w = ck.world()
        lp = LP(w)
        x = w.arr("x", lp.n)
        v = w.call(lp.r, "evaluate", x)
        ck.equal("evaluate", w, v, lambda ev: dot(V(ev, lp).c, ev.ev(mk("sym", "x")).d) + V(ev, lp).z, LPC + ".evaluate", rule="objective value")
    ck.scen("evaluate", f, LPC + ".evaluate")
