"""A compiled formulation is the problem that was written: objective, one row per constraint in order with the written
coefficients, sense and right-hand side, over all variables mentioned; stating again and compiling again reflects exactly what
was stated.  Decided on the abstract program obtained from user statements over symbolic coefficients, in several orders of
statements, against a reference formulation."""
from .formspec import *
from .C33 import symbols

TECHNIQUE = "abstract interpretation of user formulations; the compiled program's terms compared with the reference formulation"
AP = "pytimize.formulations.linear.maximize"

OBJ = ["a*x[1] + b*x[3] + p", "x[2]", "v2", "-c*v1 - p", "n", "3 - (a*v1 - b*v2)", "2*(a*x[1] + p) + c*x[2] - p"]
ZERO = [("a term multiplied by zero", "a*x[1] + b*x[2]", ["c*x[1] <= p", "0*x[4] + d*x[2] >= q"]), ("zero multiple of a variable in the objective", "a*x[1] + v3*0", ["c*x[2] <= p"]),
        ("terms that cancel", "a*x[1] + x[4] - x[4]", ["c*x[2] <= p", "x[5] - x[5] + d*x[1] >= q"]), ("a number times zero", "2*x[1] + x[2]", ["x[1] <= p", "0*x[4] + 3*x[2] >= q"]), ("a number times zero in the objective", "2*x[1] - v3*0", ["3*x[2] <= p"]),
        ("numbers that cancel", "x[1] + x[4] - x[4]", ["x[2] <= p", "x[5] - x[5] + x[1] >= q"]), ("no variable left", "0*(2*x[1] + 3*x[3]) + p", ["x[2] - 0*x[4] == p"]),
        ("zero expression", "0*(a*x[1] + b*x[3]) + p", ["c*x[2] - 0*x[4] == p"])]
CONS = [["a*x[1] + b*x[2] <= p"], ["a*x[1] + b*x[2] <= p", "c*x[3] - d*x[1] >= q", "x[1] + x[2] == n"], ["v1 <= v3", "p >= a*v2 - 3", "a*v1 + p == b*v2 - q"],
        ["x[1] <= 5", "x[1] >= 1", "x[1] <= 5"], ["a*x[4] - b*x[1] >= 2 + c*x[2]", "d*x[2] == i"], ["0 <= a*x[2]", "x[1] == 0"]]
HIST = [
    ("again", "_o = maximize(a*x[1] + p)\n_p = _o.subject_to(b*x[1] <= q)\n_u = _p.program\n_q = _o.subject_to(c*x[1] - d*x[2] >= q, x[2] <= p)\n_r = [_p.program, _q.program, _p.program]"),
    ("two objectives", "_e = a*x[1] + b*x[2]\n_k = _e <= p\n_p = maximize(_e).subject_to(_k)\n_q = minimize(_e + p).subject_to(_k, _e >= q)\n_r = [_q.program, _p.program]"),
    ("reuse of constraints", "_k = a*x[1] + b*x[3] <= p\n_l = x[2] >= q\n_p = maximize(c*x[1]).subject_to(_k, _l)\n_u = _p.program\n_q = maximize(c*x[4]).subject_to(_l, _k, _l)\n_r = [_q.program, _p.program]"),
    ("recompiled after where", "_p = maximize(a*x[1] + b*x[2] + p).subject_to(c*x[2] <= q, x[1] - x[2] >= 2)\n_u = _p.program\n_p.where(v1 >= 0)\n_v = _p.program\n_p.where(v2 <= 0)\n_r = [_p.program]"),
    ("earlier compilation is kept", "_p = maximize(a*x[1] + b*x[2] + p).subject_to(c*x[2] <= q)\n_u = _p.program\n_p.where(v1 >= 0)\n_r = [_p.program]"),
]


def run(ck):
    cases = []
    for o in OBJ:
        for s in ("minimize", "maximize"):
            for cs in CONS if s == "maximize" or ck.thorough else CONS[:3]:
                cases.append(("%s %s subject to %s" % (s, o, ", ".join(cs)), "_r = [%s(%s).subject_to(%s).program]" % (s, o, ", ".join(cs))))
    for k in ("a*x[1] <= p", "v1 >= 3"):
        cases.append(("reused operands " + k, "_e = a*x[1] - b*x[2]\n_f = _e + p\n_e += n\n_p = minimize(_f).subject_to(%s, _e <= _f - c*x[2], _f >= 0)\n_r = [_p.program]" % k))
    for nm, o, cs in ZERO:
        cases.append((nm, "_r = [maximize(%s).subject_to(%s).program]" % (o, ", ".join(cs))))
    cases += HIST
    go_all(ck, cases, AP, "compiled program", zero=True)


def go_all(ck, cases, anchor, rule, zero=False):
    for nm, code in cases:
        def go():
            w = ck.world()
            f = Form(w)
            symbols(f)
            I = w.I
            def body():
                f.enter()
                I.exec_block(ast.parse(code).body)
                ps = I.st.L["_r"]
                return mk("list", *[obs_program(w, I.getitem(ps, C(i))) for i in range(len(I.obj(ps).items))])
            st, t, excs = I.run(body)
            if any(e.name == "NameError" for _, e in excs):
                ck.add(nm, "unknown", anchor, "the scenario itself is not understood: %s" % (excs[0][1],))
                return

            def spec(ev):
                for q in "abcd":
                    if ev.ev(mk("sym", q)) == 0:
                        raise Skip()
                try:
                    return ("ok", f.ref_exec(ev, code)["_r"])
                except ValueError:
                    return ("raise", {"ValueError"})
            if st is not None:
                w.I.st = st
            ck.outcome(nm, w, (st, S(t, "any") if st is not None else None, excs), spec, anchor, n=12 if not ck.thorough else 60, rule=rule,
                       cmp=lambda got, want: [shown(tuple(g)) for g in got] == want)
        ck.scen(nm, go, anchor)
