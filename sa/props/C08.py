"""Standard equality form: the conversion keeps the problem (a column negated per non-positive variable, a column
pair per free variable, one slack of the right sign per inequality, objective turned into maximisation, right-hand side
and constant kept), and the result really is in SEF.  Decided by comparing the abstract value of every observation of
the result with the required program."""
from .lpspec import *

ANCHOR = LPC + ".to_sef"


def sef_view(v):
    if v.sef:
        return v.view()
    c = [-x for x in v.c] if v.obj == "min" else list(v.c)
    cols, cc = [], []
    for j in range(v.n):
        col = v.col(j)
        s = -1 if v.kind[j] == "neg" else 1
        cols.append([s * x for x in col])
        cc.append(s * c[j])
        if v.kind[j] == "free":
            cols.append([-x for x in col])
            cc.append(-c[j])
    for i, o in enumerate(v.ops):
        if o != "=":
            cols.append([F((1 if o == "<=" else -1) if k == i else 0) for k in range(v.m)])
            cc.append(F(0))
    n = len(cols)
    return {"A": arr2([[cols[j][i] for j in range(n)] for i in range(v.m)], n), "b": arr1(v.b), "c": arr1(cc), "z": -v.z if v.obj == "min" else v.z,
            "objective": "max", "inequalities": ["="] * v.m, "free_variables": [], "negative_variables": [],
            "positive_variables": list(range(1, n + 1)), "is_sef": True}


def combos(ck):
    rows = [("le", "ge", "eq"), ("ge", "le", "eq", "le2", "ge2"), ("eq",), ("le",), ("ge",)]
    cols = [("nn", "neg", "free"), ("free", "nn", "neg", "nn2", "free2"), ("nn",), ("neg",), ("free",)]
    out = [(rows[0], cols[0]), (rows[1], cols[2]), (rows[2], cols[1]), (("eq",), ("nn",)), (("eq",), ("free",)), (("le",), ("nn",)), (("ge",), ("neg",)), (("le", "eq"), ("neg", "free"))]
    if ck.thorough:
        out += [(r, c) for r in rows for c in cols if (r, c) not in out]
    return out


def run(ck):
    for obj in ("max", "min"):
        for r, c, ex, lab in shapes(combos(ck), ONE):
            for inp in (False, True):
                nm = "to_sef/%s/%s/%s" % (obj, lab, "in_place" if inp else "copy")
                def f():
                    w = ck.world()
                    lp = LP(w, rows=r, cols=c, objective=obj, exact=ex)
                    d = w.call(lp.r, "to_sef", in_place=C(inp))
                    v = view_lp(w, d)
                    for k in LP_VIEW:
                        ck.equal(nm + "/" + k, w, v[k], lambda ev: sef_view(V(ev, lp))[k], ANCHOR, n=10 if not ck.thorough else 60,
                                 rule="SEF of a %s problem, observation `%s`" % (obj, k))
                ck.scen(nm, f, ANCHOR)
