"""Sign conditions on variables become exactly the sign restrictions of the compiled program, variables without a condition are
free, contradictory or repeated conditions are rejected with ValueError, in whatever order and number of statements.  Decided on
the abstract program compiled from user statements."""
from .formspec import *
from .C35 import go_all

TECHNIQUE = "abstract interpretation of user formulations; sign restrictions of the compiled program compared with the stated conditions"
P0 = "_p = maximize(a*x[1] + b*x[2] - c*x[4] + p).subject_to(d*x[3] - x[1] <= q, x[2] >= n)\n"
W = ["", ".where(x >= 0)", ".where(x <= 0)", ".where(v1 >= 0)", ".where(v2 <= 0)", ".where(v1 >= 0, v2 <= 0)", ".where(v3 <= 0, v1 <= 0)", ".where(v3 >= 0, v2 >= 0, v1 <= 0)",
     ".whereAllPositive()", ".whereAllNegative()", ".where(v1 >= 0).where(v2 <= 0)", ".where(v3 >= 0).where(v1 >= 0, v2 >= 0)", ".where(0 <= v1)", ".where(0 >= v2, 0.0 <= v3)",
     ".where(0 <= x)", ".where(v1 >= 0, v1 >= 0)", ".where(v1 >= 0, v1 <= 0)", ".where(x >= 0, v2 >= 0)", ".where(x >= 0, v2 <= 0)", ".where(v2 <= 0).where(v2 <= 0)",
     ".where(v2 <= 0).where(v2 >= 0)", ".where(x <= 0).where(x >= 0)", ".where(v1 >= 0).whereAllPositive()", ".where(v1 <= 0).whereAllNegative()", ".whereAllPositive().where(v1 >= 0)",
     ".whereAllNegative().where(v2 >= 0)", ".whereAllPositive().whereAllNegative()", ".where()", ".where(v2 >= 0).where()", ".where(v2 <= 0).where()", ".where(v2 <= 0, v1 >= 0).where().where(v3 <= 0)", ".where(x <= 0).where()", ".where(v3 <= 0).whereAllPositive()", ".where().whereAllNegative()", ".where(v2 >= 0, v3 <= 0).where(v1 >= 0)"]


def run(ck):
    cases = []
    for wh in W:
        cases.append(("conditions %s" % (wh or "(none)"), P0 + "_p = _p%s\n_r = [_p.program]" % wh))
        cases.append(("conditions %s after compiling" % (wh or "(none)"), P0 + "_u = _p.program\n_p%s\n_r = [_p.program]" % wh))
        if wh.count(".where") == 2:
            one = wh.index(".where", 1)
            cases.append(("conditions %s compiled in between" % wh, P0 + "_p%s\n_u = _p.program\n_p%s\n_r = [_p.program]" % (wh[:one], wh[one:])))
    cases.append(("two programs of one objective", "_o = minimize(a*x[1] + x[3])\n_p = _o.subject_to(x[2] <= p).where(v1 >= 0)\n_q = _o.subject_to(x[2] <= q).where(v1 <= 0, v2 >= 0)\n_r = [_p.program, _q.program, _p.program]"))
    cases.append(("one condition for two programs", "_k = v2 >= 0\n_l = x <= 0\n_p = minimize(a*x[1] + x[3]).subject_to(x[2] <= p).where(_k)\n_q = maximize(x[2]).subject_to(x[1] <= q).where(_k).where(v1 <= 0)\n_r = [_p.program, _q.program]"))
    cases.append(("one global condition for two programs", "_l = x <= 0\n_p = minimize(a*x[1] + x[3]).subject_to(x[2] <= p).where(_l)\n_q = maximize(x[2]).subject_to(x[1] <= q).where(_l)\n_r = [_p.program, _q.program]"))
    go_all(ck, cases, "pytimize.formulations.linear.maximize", "sign restrictions of the compiled program")
