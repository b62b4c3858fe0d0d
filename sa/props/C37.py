"""Operands a formulation cannot represent are refused: an expression or statement that uses a string, None, a collection, a
product of expressions, an unsupported operator, an index below one or a foreign object raises, at the latest when the
formulation is compiled - no normal way out exists.  Decided on the ways out of the analysed statements."""
from .formspec import *
from .C33 import EXPR, symbols
from .lpmeth import hard

TECHNIQUE = "abstract interpretation of user expressions and statements; no normal exit may exist for unsupported operands"


def run(ck):
    E = EXPR
    bad = ["'a'", "''", "'3'", "None", "[1]", "[]", "(1, 2)", "{}", "x", "[v1]"]
    cases = []
    for k in ("E", "T", "v", "H"):
        for op in ("+", "-", "*", "<=", ">=", "=="):
            for o in bad:
                if op == "==" and o == "abs":
                    continue
                cases.append(("expr", "%s %s %s" % (E[k], op, o)))
                if not (op == "==" and o == "x"):
                    cases.append(("expr", "%s %s %s" % (o, op, E[k])))
        for o in ("2", "n", E["F"], "v1"):
            for op in ("/", "//", "%", "**", "<", ">", "@"):
                cases.append(("expr", "%s %s %s" % (E[k], op, o)))
            for op in ("/", "//", "%", "**"):
                cases.append(("expr", "%s %s %s" % (o, op, E[k])))
        for l in ("E", "F", "T", "v", "w"):
            cases.append(("expr", "%s * %s" % (E[k], E[l])))
    cases += [("expr", s) for s in ("x + 1", "1 - x", "x * 2", "-x", "x[0]", "x[-1]", "x[-3] + x[1]", "x <= 1", "x >= -1", "x <= 'a'", "x >= None", "1 <= x", "x >= v1", "x()")]
    ok = "maximize(x[1] + v2).subject_to(x[1] <= 3, v2 >= 1)"
    for o in bad + ["'x'"]:
        if o == "abs":
            continue
        cases.append(("prog", "minimize(%s).subject_to(x[1] <= 3).program" % o))
        cases.append(("prog", "maximize(%s).subject_to(x[1] <= 3).program" % o))
        cases.append(("prog", "maximize(x[1]).subject_to(x[1] <= 3, %s).program" % o))
        cases.append(("prog", "%s.where(%s).program" % (ok, o)))
        cases.append(("prog", "%s.where(v1 >= 0, %s).program" % (ok, o)))
    for o in ("3", "n", "v1", "x[1]", "x >= 0", "v1 >= 0", "True", "x[1] + 3"):
        cases.append(("prog", "maximize(x[1]).subject_to(x[1] <= 3, %s).program" % o))
        if o not in ("x >= 0", "v1 >= 0"):
            cases.append(("prog", "%s.where(%s).program" % (ok, o)))
    for o in ("x[1] + v2 <= 3", "x[1] == 4", "v1 >= 1", "v1 <= v2"):
        cases.append(("prog", "%s.where(%s).program" % (ok, o)))
    for o in ("x['a']", "x[1.5]", "x[1:3]", "x[1, 2]", "x[None]"):
        cases.append(("prog", "maximize(%s).subject_to(x[1] <= 3).program" % o))
        cases.append(("prog", "maximize(x[1]).subject_to(%s <= 3).program" % o))
        cases.append(("prog", "maximize(x[1]).subject_to(x[2] + 2 * %s <= 3).program" % o))
    cases.append(("prog", "maximize(x[1]).subject_to().program"))
    for kind, src in dict.fromkeys(cases):
        def go():
            w = ck.world()
            f = Form(w)
            symbols(f)
            I = w.I
            def body():
                f.enter()
                I.exec_block(ast.parse("_r = " + src).body)
                return NONE
            st, v, excs = I.run(body)
            if any(e.name == "NameError" for _, e in excs):
                ck.add(src, "unknown", FL + "x", "the scenario itself is not understood: %s" % (excs[0][1],))
                return
            if st is None and excs:
                ck.ok(src, FL + "x", "raises %s" % sorted({e.name for _, e in excs}))
            elif hard(w):
                ck.add(src, "unknown", FL + "x", "imprecise: %s" % (w.I.imprecise[:2],))
            else:
                ck.outcome(src, w, (st, None, excs), lambda ev: ("raise", {"BaseException"}), FL + "x", n=10, rule="unsupported operand is refused")
        ck.scen(src, go, FL + "x")



