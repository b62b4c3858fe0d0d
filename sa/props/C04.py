"""Standard-equality-form gates: every operation documented to require SEF raises ArithmeticError on all programs
outside it (min objective, an inequality row, a free or non-positive variable), without a normal return and without any
change (recorded steps included), and accepts programs in SEF.  Decided on the exits of the abstract interpretation."""
from .lpmeth import *

TECHNIQUE = "abstract interpretation: reachability of exits under each kind of non-SEF program"
NAMES = ("is_basic_solution", "to_canonical_form", "auxiliary", "two_phase_simplex", "simplex", "simplex_iteration",
         "verify_infeasibility", "verify_unboundedness", "verify_optimality")
OUT = [("min", ["eq", "eq"], ["nn", "nn", "nn"], "min"), ("le", ["eq", "le"], ["nn", "nn", "nn"], "max"), ("ge", ["ge", "eq"], ["nn", "nn", "nn"], "max"),
       ("free", ["eq", "eq"], ["nn", "free", "nn"], "max"), ("neg", ["eq", "eq"], ["nn", "nn", "neg"], "max")]


def run(ck):
    for kind in ("LP", "IP") if ck.thorough else ("LP",):
        dotted = {"LP": LPC, "IP": IPC}[kind]
        ms, _, _ = table(kind)
        ms = {m.name: m for m in ms}
        for name in NAMES:
            anchor = dotted + "." + name
            if name not in ms:
                ck.add("gate/%s.%s" % (kind, name), "unknown", anchor, "operation not found")
                continue
            m = ms[name]
            forms = [None] + ([TRUE] if has_param(kind, name, "in_place") else [])
            for form in forms:
                tag = "" if form is None else "/in place"
                for lab, rows, cols, obj in OUT:
                    nm = "gate/%s.%s%s/%s" % (kind, name, tag, lab)
                    def f():
                        w = ck.world(cap=CAP)
                        lp = build(w, kind, rows, cols, obj)
                        made = m.mk(w, lp)
                        before = view(w, lp.r, steps=True)
                        (st, v, ex), _ = invoke(w, lp, m, kw={} if form is None else {"in_place": form}, made=made)
                        names = sorted({e.name for _, e in ex})
                        ck.decide(nm + "/refused", w, st is None and bool(ex) and all(n == "ArithmeticError" for n in names), anchor,
                                  "outside SEF: %s%s" % ("returns normally; " if st is not None else "", names))
                        for s, e in ex:
                            if form is None or e.name == "ArithmeticError":
                                unchanged(ck, nm + "/unchanged", w, before, view_in(w, s, lp.r, LP_VIEW + ("steps",)), s.facts, anchor, "refusal changes nothing")
                    ck.scen(nm, f, anchor)
                nm = "gate/%s.%s%s/in SEF" % (kind, name, tag)
                def g():
                    w = ck.world(cap=SMALL)
                    lp = build(w, kind, ["eq"] if m.heavy else ["eq", "eq"], ["nn", "nn"] if m.heavy else ["nn", "nn", "nn"], "max")
                    made = m.mk(w, lp)
                    (st, v, ex), _ = invoke(w, lp, m, kw={} if form is None else {"in_place": form}, made=made)
                    ck.decide(nm, w, st is not None, anchor, "a program in SEF is not refused")
                ck.scen(nm, g, anchor)
