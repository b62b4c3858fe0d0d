"""Duality: the dual of every linear program follows the correspondence table (variable restrictions to
constraint senses and back, transposed coefficients, exchanged objective and right-hand side, opposite
objective), keeps its own is_sef flag truthful, and dualising twice gives the program back up to scaling-free
correspondence.  Decided by comparing the abstract value of every public observation of the result with the table."""
from .lpspec import *

ANCHOR = LPC + ".dual"


def dual_view(v):
    mx = v.obj == "max"
    kinds = []
    for o in v.ops:
        if o == "=":
            kinds.append("free")
        elif (o == "<=") == mx:
            kinds.append("nn")
        else:
            kinds.append("neg")
    ops = []
    for k in v.kind:
        if k == "free":
            ops.append("=")
        elif (k == "nn") == mx:
            ops.append(">=")
        else:
            ops.append("<=")
    free = [i + 1 for i, k in enumerate(kinds) if k == "free"]
    neg = [i + 1 for i, k in enumerate(kinds) if k == "neg"]
    pos = [i + 1 for i, k in enumerate(kinds) if k == "nn"]
    obj = "min" if mx else "max"
    return {"A": arr2([v.col(j) for j in range(v.n)], v.m), "b": arr1(v.c), "c": arr1(v.b), "z": v.z, "objective": obj,
            "inequalities": ops, "free_variables": free, "negative_variables": neg, "positive_variables": pos,
            "is_sef": obj == "max" and not free and not neg and all(o == "=" for o in ops)}


def run(ck):
    rows = [("le", "ge", "eq"), ("ge", "le", "eq", "le2", "ge2"), ("eq",), ("le",), ("ge",)]
    cols = [("nn", "neg", "free"), ("free", "nn", "neg", "nn2", "free2"), ("nn",), ("neg",), ("free",)]
    combos = [(rows[0], cols[0]), (rows[1], cols[1]), (("eq",), ("nn",)), (("eq",), ("free",)), (("le",), ("nn",)), (("ge",), ("neg",))]
    if ck.thorough:
        combos += [(r, c) for r in rows for c in cols if (r, c) not in combos]
    for obj in ("max", "min"):
        for r, c, ex, lab in shapes(combos, ONE):
            def f():
                w = ck.world()
                lp = LP(w, rows=r, cols=c, objective=obj, exact=ex)
                d = w.call(lp.r, "dual")
                v = view_lp(w, d)
                for k in dual_view(_Fake):
                    ck.equal("dual/%s/%s/%s" % (obj, lab, k), w, v[k],
                             lambda ev: dual_view(V(ev, lp))[k], ANCHOR, n=12 if not ck.thorough else 60,
                             rule="dual of a %s problem, observation `%s`" % (obj, k))
            ck.scen("dual/%s/%s" % (obj, lab), f, ANCHOR)
            def g():
                w = ck.world()
                lp = LP(w, rows=r, cols=c, objective=obj, exact=ex)
                d = w.call(w.call(lp.r, "dual"), "dual")
                v = view_lp(w, d)
                for k in dual_view(_Fake):
                    ck.equal("bidual/%s/%s/%s" % (obj, lab, k), w, v[k],
                             lambda ev: V(ev, lp).view()[k], ANCHOR, n=12, rule="dual of the dual, observation `%s`" % k)
            if ck.thorough or r is combos[0][0]:
                ck.scen("bidual/%s/%s" % (obj, lab), g, ANCHOR)


class _Fake:
    obj, ops, kind, rows, b, c, n, m, z = "max", [], [], [], [], [], 0, 0, 0

    @staticmethod
    def col(j):
        return []
