"""Auxiliary program: for a program in SEF the phase-one program has the rows (and right-hand sides) with negative
right-hand side multiplied by -1, one artificial column per row, objective "minimise the sum of the artificial
variables", all variables non-negative and equality rows."""
from .lpspec import *

ANCHOR = LPC + ".auxiliary"


def aux_view(v):
    s = [-1 if x < 0 else 1 for x in v.b]
    n = v.n + v.m
    return {"A": arr2([[s[i] * x for x in v.rows[i]] + [F(int(i == k)) for k in range(v.m)] for i in range(v.m)], n),
            "b": arr1(abs(x) for x in v.b), "c": arr1([F(0)] * v.n + [F(1)] * v.m), "z": F(0), "objective": "min",
            "inequalities": ["="] * v.m, "free_variables": [], "negative_variables": [],
            "positive_variables": list(range(1, n + 1)), "is_sef": False}


def run(ck):
    for kw in ({}, {"show_steps": C(False)}):
        nm = "auxiliary" + ("/silent" if kw else "")
        def f():
            w = ck.world()
            lp = is_sef_lp(w)
            v = view_lp(w, w.call(lp.r, "auxiliary", **kw))
            for k in LP_VIEW:
                ck.equal(nm + "/" + k, w, v[k], lambda ev: aux_view(V(ev, lp))[k], ANCHOR, sizes=lambda k: {"eq": 1 + k % 3, "nn": 1 + k % 2}, rule="auxiliary program, observation `%s`" % k)
        ck.scen(nm, f, ANCHOR)
