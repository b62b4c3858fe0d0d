"""Recording is invisible: for every public operation with a show_steps parameter (found in the current source), the
result and every observation of the program (recorded steps aside) are the same with and without recording, with
show_steps=False nothing is recorded, and recording adds no way to fail.  Decided by abstract interpretation of both
forms from one symbolic state."""
from .lpmeth import *
from .C02 import result_program

TECHNIQUE = "abstract interpretation of both settings from one symbolic state; results, observations and exits compared"


def run(ck):
    for kind in ("LP", "IP") if ck.thorough else ("LP", "IP"):
        dotted = {"LP": LPC, "IP": IPC}[kind]
        ms, _, _ = table(kind)
        for m in ms:
            if m.prop or not has_param(kind, m.name, "show_steps"):
                continue
            if kind == "IP" and not ck.thorough and m.name not in ("is_feasible", "to_sef"):
                continue
            for lab, rows, cols, obj in shapes_for(m, kind):
                anchor = dotted + "." + m.name
                nm = "steps/%s.%s/%s" % (kind, m.label, lab)
                forms = [{}] + ([{"in_place": TRUE}] if has_param(kind, m.name, "in_place") else [])
                for form in forms:
                    tag = nm + ("/in place" if form else "")
                    def f():
                        w = ck.world(cap=SMALL if m.heavy else CAP)
                        lp = build(w, kind, rows, cols, obj)
                        made = m.mk(w, lp)
                        st0 = w.I.st.copy()
                        (s1, v1, ex1), _ = invoke(w, lp, m, kw=dict(form, show_steps=FALSE), made=made)
                        i1 = list(w.I.imprecise)
                        w.I.st = st0.copy()
                        (s2, v2, ex2), _ = invoke(w, lp, m, kw=dict(form, show_steps=TRUE), made=made)
                        for x, s in [("return", s1)] + [("%s at %s" % (e.name, e.site), s) for s, e in ex1]:
                            if s is None:
                                continue
                            w.I.st = s.copy()
                            o = w.I.obj(w.I.resolve(w.get(lp.r, "steps")))
                            if not isinstance(o, Lst):
                                ck.add(tag + "/records nothing/" + x, "unknown", anchor, "step list not known")
                                continue
                            ck.decide(tag + "/records nothing/" + x, w, not o.items, anchor, "recorded although told not to: %s" % (o.items[:2],), exact=not hard(w))
                        if s1 is None or s2 is None:
                            ck.decide(tag + "/same exits", w, (s1 is None) == (s2 is None), anchor, "normal return in one form only")
                            return
                        w.I.st = s1.copy()
                        d1 = w.desc(v1)
                        w.I.st = s2.copy()
                        d2 = w.desc(v2)
                        r1, r2 = result_program(w, v1), result_program(w, v2)
                        if not r1 and not r2:
                            unchanged(ck, tag + "/same result", w, {"result": d1}, {"result": d2}, s2.facts, anchor, "same result with and without recording")
                        elif len(r1) == 1 and len(r2) == 1:
                            unchanged(ck, tag + "/same result", w, view_in(w, s1, r1[0]), view_in(w, s2, r2[0]), s2.facts, anchor, "same resulting program with and without recording")
                            p1 = [x for x in v1.vs if not result_program(w, x)] if isinstance(v1, Tup) else []
                            p2 = [x for x in v2.vs if not result_program(w, x)] if isinstance(v2, Tup) else []
                            for i, (a, b) in enumerate(zip(p1, p2)):
                                w.I.st = s1.copy()
                                d1 = w.desc(a)
                                w.I.st = s2.copy()
                                d2 = w.desc(b)
                                unchanged(ck, tag + "/same result %d" % i, w, {"result": d1}, {"result": d2}, s2.facts, anchor, "same result with and without recording")
                        unchanged(ck, tag + "/same effect", w, view_in(w, s1, lp.r), view_in(w, s2, lp.r), s2.facts, anchor, "same effect with and without recording")
                    ck.scen(tag, f, anchor)
