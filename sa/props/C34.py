"""Comparing expressions, numbers and variables gives the constraint that was written: the set of assignments the resulting
constraint allows (coefficients, sense and right-hand side, or a sign condition on variables) is that of the comparison,
whichever side things are on.  Decided on the abstract constraint objects of user comparisons over symbolic operands."""
from .formspec import *
from .C33 import EXPR, NUMS, symbols

TECHNIQUE = "abstract interpretation of user comparisons; constraint terms compared with the half-space the comparison denotes"


def obs_con(w, v):
    v = w.I.resolve(v)
    if isinstance(v, Phi):
        out = obs_con(w, v.alts[-1][1])
        for g, x in reversed(v.alts[:-1]):
            out = tm.ite(g, obs_con(w, x), out)
        return out
    o = w.I.obj(v) if isinstance(v, Ref) else None
    if not isinstance(o, Inst):
        return mk("c", "<not a constraint: %s>" % (v,))
    if w.I.find_m(o.cls, "inequality") is not None:
        return mk("tup", mk("c", "row"), w.desc(w.get(v, "coefficients")), w.desc(w.get(v, "inequality")), w.desc(w.get(v, "constant")))
    return mk("tup", mk("c", "sign"), w.desc(w.get(v, "positive_variables")), w.desc(w.get(v, "negative_variables")))


def con_of(got):
    """the constraint shown, as reference Con"""
    if got[0] == "row":
        _, co, op, k = got
        if op not in ("<=", ">=", "="):
            return None
        if not isinstance(co, Arr):         # a vector of zeros that the term algebra folded
            if co != 0:
                raise Unknown("coefficients without a shape")
            co = Arr((0,), [])
        return Con(Lin({j + 1: num(c) for j, c in enumerate(co.d)}, -num(k)), op)
    if got[0] == "sign":
        _, pos, neg = got
        if pos is not None and neg is None:
            vs, op = pos, ">="
        elif neg is not None and pos is None:
            vs, op = neg, "<="
        else:
            return None
        if len(vs) == 0:
            return Con("all", op)
        if len(vs) == 1:
            return Con(Lin({int(list(vs)[0]): 1}), op)
    return None


def same_con(got, want):
    if not isinstance(got, (tuple, list)):
        return False
    g = con_of(tuple(got))
    return g is not None and g.norm() == want.norm()


def run(ck):
    anchor = FL + "x"
    E = dict(EXPR)
    E.update({"pos": "u", "neg": "(-u)", "five": "5", "zf": "0.0", "J": "(a*v1 - b*v3 - p)", "A": "(a*x[1])", "B": "(c*x[4] - x[1])", "K": "(x[2] - x[2] + p)"})
    exprs = ["E", "F", "T", "v", "w", "H", "J", "A", "B", "K"]
    nums = ["pos", "neg", "0", "zf", "five", "two", "i"]
    cases = []
    for op in ("<=", ">=", "=="):
        for k in exprs:
            for l in exprs + nums:
                if k == l and k in ("v", "T", "w"):
                    continue
                cases.append("%s %s %s" % (E[k], op, E[l]))
                if l in nums:
                    cases.append("%s %s %s" % (E[l], op, E[k]))
    for op in ("<=", ">="):
        cases += ["x %s 0" % op, "0 %s x" % op, "x %s 0.0" % op]
    for src in dict.fromkeys(cases):
        def go():
            w = ck.world()
            f = Form(w)
            symbols(f)
            f.num("u", lo=F(1, 2))
            res = w.I.run(lambda: obs_con(w, f.user(src)))
            st, t, excs = res
            if st is not None:
                w.I.st = st
                res = (st, S(t, "any"), excs)

            def spec(ev):
                r = f.ref(ev, src)
                return ("ok", r)
            ck.outcome(src, w, res, spec, anchor, n=15 if not ck.thorough else 80, rule="set of assignments allowed", cmp=same_con)
        ck.scen(src, go, anchor)
