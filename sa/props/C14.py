"""Recording never fails: for every public operation that records steps, on every path, with symbolic values, the ways
the operation can fail while recording are among those it has without recording, and each entry that is recorded is a
mapping with a key and a text.  Decided on the exits of the abstract interpretation (lookup and formatting of the
descriptor are followed) and on the abstract content of the step list."""
from .lpmeth import *
from ..ev import Ev

TECHNIQUE = "abstract interpretation: exits with and without recording compared; abstract content of the step list"


def entries(w, v):
    v = w.I.resolve(v)
    if isinstance(v, Phi):
        out = []
        for _, x in v.alts:
            e = entries(w, x)
            if e is None:
                return None
            out += e
        return out
    o = w.I.obj(v) if isinstance(v, Ref) else None
    if not isinstance(o, Lst) or o.op:
        return None
    return [i.v for i in o.items]


def shape_of(w, v):
    """set of possible kinds of an entry"""
    if isinstance(v, Phi):
        out = set()
        for _, x in v.alts:
            out |= shape_of(w, x)
        return out
    if isinstance(v, Ref):
        o = w.I.obj(v)
        if isinstance(o, Dct) and not o.op:
            if all(isinstance(i.k, C) and i.m == "1" and i.g is None for i in o.items):
                ks = sorted(str(i.k.v) for i in o.items)
                vs = []
                for i in o.items:
                    if isinstance(i.v, C) and not isinstance(i.v.v, str) or isinstance(i.v, (Tup, Ref)):
                        vs.append("%s not text" % i.k.v)
                return {"mapping " + ",".join(ks + vs)}
        if isinstance(o, Lst):
            return {"list"}
        return {"?"}
    if isinstance(v, Tup):
        return {"tuple"}
    if isinstance(v, C):
        return {"constant " + type(v.v).__name__}
    return {"?"}


def reached(ck, tag, s, e):
    """the exit is in the recording code itself, or some valuation takes it"""
    if any(x in e.site for x in ("append_to_steps", "render_descriptor", "_html", "latex", "terminal")):
        return True
    return any(settled(Ev("%s/%s/%s" % (ck.seed, tag, t)), s.facts) for t in range(24))


def run(ck):
    for kind in ("LP", "IP"):
        dotted = {"LP": LPC, "IP": IPC}[kind]
        ms, _, _ = table(kind)
        for m in ms:
            if m.prop:
                continue
            flag = has_param(kind, m.name, "show_steps")
            if kind == "IP" and not ck.thorough and m.name not in ("is_feasible", "to_sef", "value_of"):
                continue
            if not flag and m.name not in ("value_of", "is_feasible_basic_solution", "optimal_value", "is_solution_optimal"):
                continue
            for lab, rows, cols, obj in shapes_for(m, kind):
                anchor = dotted + "." + m.name
                tag = "record/%s.%s/%s" % (kind, m.label, lab)
                def f():
                    w = ck.world(cap=SMALL if m.heavy else CAP)
                    lp = build(w, kind, rows, cols, obj)
                    made = m.mk(w, lp)
                    st0 = w.I.st.copy()
                    base = set()
                    if flag:
                        (s1, v1, ex1), _ = invoke(w, lp, m, kw={"show_steps": FALSE}, made=made)
                        base = {e.name for _, e in ex1}
                    w.I.st = st0.copy()
                    kws = {"show_steps": TRUE} if flag else {}
                    if has_param(kind, m.name, "in_place"):
                        kws["in_place"] = TRUE
                    (s2, v2, ex2), _ = invoke(w, lp, m, kw=kws, made=made)
                    more = sorted({"%s at %s" % (e.name, e.site) for _, e in ex2 if e.name not in base}) if flag else \
                        sorted({"%s at %s" % (e.name, e.site) for s, e in ex2 if e.name not in ("ValueError", "ArithmeticError", "TypeError") and reached(ck, tag, s, e)})
                    ck.decide(tag + "/no new failures", w, not more, anchor, "recording can fail: %s" % more, exact=not hard(w))
                    for lbl, s in [("return", s2)] + [(e.name, s) for s, e in ex2]:
                        if s is None:
                            continue
                        w.I.st = s.copy()
                        es = entries(w, w.get(lp.r, "steps"))
                        if es is None:
                            ck.add(tag + "/entries/" + lbl, "unknown", anchor, "content of the step list is not known")
                            continue
                        kinds = set()
                        for e in es:
                            kinds |= shape_of(w, e)
                        bad = sorted(k for k in kinds if k not in ("mapping key,text", "?"))
                        ck.decide(tag + "/entries/" + lbl, w, not bad, anchor, "recorded entries: %s" % bad, exact=not hard(w))
                ck.scen(tag, f, anchor)
