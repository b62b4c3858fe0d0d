"""Writing expressions never changes the expressions used in them: for every operator, operand kind and order, what the
operands show (coefficients, constant, inequality) after the operation - however it ends - and after further operations on the
result is what they showed before.  Decided by comparing the abstract heap contents of the operands before and after."""
from .formspec import *
from .lpmeth import hard
from .C33 import EXPR, NUMS, symbols

TECHNIQUE = "abstract interpretation of user expressions; heap content of the operands compared before and after (effect analysis)"
KINDS = {"E": EXPR["E"], "F": EXPR["F"], "T": EXPR["T"], "v": "v2", "w": "v3", "K": EXPR["K"], "n": "n", "i": "i", "s": "'text'", "none": "None", "list": "[1]"}
BIN = ["_a + _b", "_a - _b", "_a * _b", "_a <= _b", "_a >= _b", "_a == _b", "_a != _b", "_a < _b", "_a > _b"]
UN = ["-_a", "+_a", "_a * 2", "2 * _a", "0 * _a", "_a <= 0", "_a >= 0", "0 <= _a", "_a == 0", "_a - _a", "_a + _a", "_a <= _a"]
STMT = ["_r = _a\n_r += _b", "_r = _a\n_r -= _b", "_r = _a\n_r *= 3", "_r = +_a\n_r += _b\n_r *= 2", "_r = _a + _b\n_r += _a\n_r -= _b\n_r *= n\n_c = _r <= _a",
        "_r = _b + _a\n_r -= _a\n_r = -_r\n_c = _r >= _b", "_r = _a - _b\n_r += _r\n_d = _r == _a\n_r *= 2"]
FORMU = ["_o = minimize(_a)\n_p = _o.subject_to(_a <= _b, _b >= 3)\n_q = _p.program",
         "_o = maximize(_a + _b)\n_p = _o.subject_to(_a <= 4).where(v1 >= 0)\n_q = _p.program\n_p.whereAllPositive",
         "_c = _a <= _b\n_p = minimize(_b).subject_to(_c, _c, _a == 1)\n_q = _p.program.to_sef(True)\n_d = _c"]


def observe(w, v):
    if isinstance(v, Ref) and isinstance(w.I.obj(v), Inst):
        names = [n for n in ("terms", "constant", "coefficients", "inequality", "key", "objective", "positive_variables", "negative_variables")
                 if w.I.find_m(w.I.obj(v).cls, n) is not None]
        return {n: w.desc(w.get(v, n)) for n in names}
    return {"value": w.desc(v)}


def run(ck):
    anchor = FL + "x"
    def scenario(nm, k, l, code):
        def go():
            w = ck.world()
            f = Form(w)
            symbols(f)
            I = w.I
            objs = {}
            def body():
                a, b = f.user(KINDS[k]), f.user(KINDS[l])
                objs["left operand"], objs["right operand"] = a, b
                objs["variable"] = f.V[1]
                objs["before"] = {o: observe(w, objs[o]) for o in ("left operand", "right operand", "variable")}
                f.enter(_a=a, _b=b)
                I.exec_block(ast.parse(code).body)
                return NONE
            st, v, excs = I.run(body)
            if "before" not in objs:
                ck.add(nm, "unknown", anchor, "operands could not be built")
                return
            if any(e.name == "NameError" for _, e in excs):
                ck.add(nm, "unknown", anchor, "the scenario itself is not understood: %s" % (excs[0][1],))
                return
            states = ([(st, "a normal return")] if st is not None else []) + [(s, "%s raised at %s" % (e.name, e.site)) for s, e in excs]
            for s, how in states:
                I.st = s.copy()
                for o in ("left operand", "right operand", "variable"):
                    after = observe(w, objs[o])
                    for q, t in objs["before"][o].items():
                        same = after.get(q) == t
                        if not same:
                            r = ck.equal("%s: %s.%s after %s" % (nm, o, q, how), w, after[q], lambda ev, t=t: ev.ev(t), anchor, n=10, rule="%s of the %s after %s" % (q, o, how))
                            if r is False:
                                return
            # imprecision matters only when it concerns the operands: their objects are exact here
            if hard(w):
                ck.add(nm, "unknown", anchor, "imprecise: %s" % (hard(w)[:3],))
            else:
                ck.ok(nm, anchor, "operands unchanged on %d ways out" % len(states))
        ck.scen(nm, go, anchor)
    for k in KINDS:
        for l in KINDS:
            if k in ("n", "i", "s", "none", "list") and l in ("n", "i", "s", "none", "list"):
                continue
            for code in BIN:
                scenario("%s [%s, %s]" % (code, KINDS[k], KINDS[l]), k, l, "_r = " + code)
    for k in ("E", "F", "T", "v", "K"):
        for code in UN:
            scenario("%s [%s]" % (code, KINDS[k]), k, "F", "_r = " + code)
        for l in ("E", "F", "v", "w", "n", "i"):
            for code in STMT:
                scenario("%s [%s, %s]" % (code.replace("\n", "; "), KINDS[k], KINDS[l]), k, l, code)
    for k, l in (("E", "F"), ("E", "v"), ("F", "T")):
        for code in FORMU:
            scenario("%s [%s, %s]" % (code.replace("\n", "; "), KINDS[k], KINDS[l]), k, l, code)
