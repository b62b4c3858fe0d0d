"""The in_place contract: every public operation with an in_place parameter (found in the current source) leaves its
receiver alone and returns another program when in_place is false, returns the receiver itself when it is true, and both
forms show the same program.  Decided by abstract interpretation of both forms from the same symbolic state."""
from .lpmeth import *

TECHNIQUE = "abstract interpretation of both forms from one symbolic state; identity and observation terms compared"


def result_program(w, v):
    """the program in a result: the result itself or a member of a tuple"""
    if isinstance(v, Ref) and isinstance(w.I.obj(v), Inst):
        return [v]
    if isinstance(v, Tup):
        return [r for x in v.vs for r in result_program(w, x)]
    if isinstance(v, Phi):
        out = []
        for _, x in v.alts:
            for r in result_program(w, x):
                if r not in out:
                    out.append(r)
        return out
    return []


def run(ck):
    for kind in ("LP", "IP"):
        dotted = {"LP": LPC, "IP": IPC}[kind]
        ms, _, other = table(kind)
        for m in ms:
            if m.prop or not has_param(kind, m.name, "in_place"):
                continue
            for lab, rows, cols, obj in shapes_for(m, kind):
                nm = "in_place/%s.%s/%s" % (kind, m.label, lab)
                anchor = dotted + "." + m.name
                def f():
                    w = ck.world(cap=CAP)
                    lp = build(w, kind, rows, cols, obj)
                    made = m.mk(w, lp)
                    before = view(w, lp.r)
                    st0 = w.I.st.copy()
                    (s1, v1, ex1), _ = invoke(w, lp, m, kw={"in_place": FALSE}, made=made)
                    if s1 is None:
                        ck.add(nm, "unknown", anchor, "no normal return")
                        return
                    w.I.st = s1
                    unchanged(ck, nm + "/original untouched", w, before, view_in(w, s1, lp.r), s1.facts, anchor, "without in_place the original stays")
                    r1 = result_program(w, v1)
                    same_obj = [r for r in r1 if r == lp.r]
                    ck.decide(nm + "/copy is another program", w, bool(r1) and not same_obj, anchor, "result %s" % (v1,))
                    # the default form
                    w.I.st = st0.copy()
                    (s0, v0, _), _ = invoke(w, lp, m, made=made)
                    if s0 is not None:
                        w.I.st = s0
                        unchanged(ck, nm + "/default leaves the original", w, before, view_in(w, s0, lp.r), s0.facts, anchor, "the default form leaves the original")
                    w.I.st = st0.copy()
                    (s2, v2, ex2), _ = invoke(w, lp, m, kw={"in_place": TRUE}, made=made)
                    if s2 is None:
                        ck.add(nm + "/in place", "unknown", anchor, "no normal return")
                        return
                    w.I.st = s2
                    r2 = result_program(w, v2)
                    ck.decide(nm + "/in place returns the original", w, bool(r2) and all(r == lp.r for r in r2), anchor, "result %s" % (v2,))
                    va = {}
                    if len(r1) == 1 and len(r2) == 1:
                        va = view_in(w, s1, r1[0])
                        vb = view_in(w, s2, r2[0])
                        unchanged(ck, nm + "/both forms show the same program", w, va, vb, s2.facts, anchor, "both forms give the same program")
                        w.I.st = s2
                        unchanged(ck, nm + "/in place changes the original", w, va, view_in(w, s2, lp.r), s2.facts, anchor, "in place the original becomes the result")
                    # both forms fail in the same ways
                    n1, n2 = {e.name for _, e in ex1}, {e.name for _, e in ex2}
                    ck.decide(nm + "/same refusals", w, n1 == n2, anchor, "%s / %s" % (sorted(n1), sorted(n2)))
                ck.scen(nm, f, anchor)
