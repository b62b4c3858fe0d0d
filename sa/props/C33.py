"""Arithmetic of expressions: the value of a sum, difference, negation or scalar multiple at every assignment is that of its
operands, i.e. every coefficient and the constant are the linear-algebra ones.  Decided on the abstract terms and constant of
user expressions over symbolic coefficients, for every operator and every kind and order of operands."""
from .formspec import *

TECHNIQUE = "abstract interpretation of user expressions; coefficient and constant terms compared with the reference algebra"
EXPR = {"E": "(a*x[1] + b*x[3] + p)", "F": "(c*x[2] - d*x[3] - q)", "G": "(a*x[1] + b*x[3] - c*x[3])", "T": "x[2]", "v": "v2", "w": "v3", "H": "(b*v1 + p)",
        "K": "(x[1] - x[1] + p)", "n": "n", "i": "i", "0": "0", "two": "2.5", "m": "(-1)"}
NUMS = {"n", "i", "0", "two", "m"}


def programs(thorough):
    ks = ["E", "F", "T", "v", "w", "H", "K", "n", "i", "0", "two", "m"]
    for k in ks + ["G"]:
        if k not in NUMS:
            yield "-%s" % EXPR[k]
            yield "+%s" % EXPR[k]
            for s in ("n", "i", "0", "two", "m"):
                yield "%s * %s" % (EXPR[k], EXPR[s])
                yield "%s * %s" % (EXPR[s], EXPR[k])
            yield "-(-%s)" % EXPR[k]
            yield "%s + %s" % (EXPR[k], EXPR[k])
            yield "%s - %s" % (EXPR[k], EXPR[k])
            yield "n * (-%s)" % EXPR[k]
            yield "-(n * %s - %s)" % (EXPR[k], EXPR["F"])
            yield "2 * (%s + n) - (%s - i) * 3" % (EXPR[k], EXPR["E"])
    for k in ks:
        for l in ks:
            if k in NUMS and l in NUMS:
                continue
            yield "%s + %s" % (EXPR[k], EXPR[l])
            yield "%s - %s" % (EXPR[k], EXPR[l])
    for k in ("v", "E", "H"):
        for l in ("w", "F", "n", "K"):
            for o1 in "+-":
                for o2 in "+-":
                    yield "%s %s %s %s %s" % (EXPR[k], o1, EXPR[l], o2, EXPR["T"])
                    yield "%s %s (%s %s %s)" % (EXPR["n"], o1, EXPR[l], o2, EXPR[k])


def symbols(f):
    for nm in "abcdpqn":
        f.num(nm)
    f.num("i", py="int")


def same_expr(got, want):
    terms, k = got
    return {int(i) + 1: v for i, v in terms.items() if v != 0} == want.t and k == want.k


def run(ck):
    for src in dict.fromkeys(programs(ck.thorough)):
        def go():
            w = ck.world()
            f = Form(w)
            symbols(f)
            res = w.I.run(lambda: obs_expr(w, f.user(src)))
            check(ck, src, w, f, res)
        ck.scen(src, go, FL + "x")
    # one object as both operands, and operands used again after an operation
    for k in ("E", "v", "T", "H", "K", "w"):
        for code, src in (("_r = _t + _t", "{0} + {0}"), ("_r = _t - _t", "{0} - {0}"), ("_r = 2 * _t + _t", "3 * {0}"), ("_r = _t + _t - _t", "{0}"), ("_o = _t + _t\n_r = _o + _t", "3 * {0}"),
                          ("_o = _t\n_o += _t\n_r = _o", "2 * {0}"), ("_o = +_t\n_r = _o + _t", "2 * {0}"), ("_o = -_t\n_r = _t - _o", "2 * {0}"), ("_o = _t * n\n_r = _o - _t", "(n - 1) * {0}"),
                          ("_o = _t + p\n_r = _o + _t", "2 * {0} + p"), ("_o = _t\n_o -= _t\n_r = _o", "0 * {0}"), ("_o = _t + _t\n_r = +_t", "{0}"), ("_o = [_t, _t, _t]\n_r = sum(_o)", "3 * {0}")):
            def go():
                w = ck.world()
                f = Form(w)
                symbols(f)
                def body():
                    a = f.user(EXPR[k])
                    f.enter(_t=a)
                    w.I.exec_block(ast.parse(code).body)
                    return obs_expr(w, w.I.st.L["_r"])
                res = w.I.run(body)
                check(ck, "_t = %s; %s" % (EXPR[k], code.replace("\n", "; ")), w, f, res, src.format(EXPR[k]))
            ck.scen("_t = %s; %s" % (EXPR[k], code), go, FL + "x")
    # augmented assignment gives the sum, difference or multiple
    for k in ("E", "v", "T", "H"):
        for op in ("+", "-", "*"):
            for l in ("F", "v", "n", "0", "two"):
                if op == "*" and l not in NUMS:
                    continue
                src = "%s %s= %s" % (EXPR[k], op, EXPR[l])
                def go():
                    w = ck.world()
                    f = Form(w)
                    symbols(f)
                    def body():
                        a = f.user(EXPR[k])
                        b = f.user(EXPR[l])
                        f.enter(_t=a, _o=b)
                        w.I.exec_block(ast.parse("_t %s= _o" % op).body)
                        return obs_expr(w, w.I.st.L["_t"])
                    res = w.I.run(body)
                    check(ck, src, w, f, res, "%s %s %s" % (EXPR[k], op, EXPR[l]))
                ck.scen(src, go, FL + "x")


def check(ck, nm, w, f, res, src=None):
    st, t, excs = res
    if st is not None:
        w.I.st = st
        res = (st, S(t, "any"), excs)
    ck.outcome(nm, w, res, lambda ev: ("ok", f.ref(ev, src or nm)), FL + "x", n=15 if not ck.thorough else 80, rule="value of the expression", cmp=same_expr)
