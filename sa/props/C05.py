"""Truth of is_sef: after construction and after every operation that produces or changes a program, applied singly and
in pairs, in place and not, the reported flag equals the definition (maximisation, only equalities, only non-negative
variables) evaluated on the program's own other observations.  Decided on the abstract value of those observations."""
from .lpmeth import *

TECHNIQUE = "abstract interpretation; the flag's value compared with its definition on the other observations after every operation and pair of operations"
VW = ("objective", "inequalities", "free_variables", "negative_variables", "is_sef")
START = [("sef", ["eq", "eq"], ["nn", "nn", "nn"], "max"), ("min", ["eq", "eq"], ["nn", "nn", "nn"], "min"), ("le", ["eq", "le"], ["nn", "nn", "nn"], "max"),
         ("ge", ["ge", "eq"], ["nn", "nn"], "min"), ("free", ["eq", "eq"], ["nn", "free"], "max"), ("neg", ["eq", "eq"], ["nn", "nn", "neg"], "max"),
         ("mixed", ["le", "ge"], ["free", "neg", "nn"], "min"), ("freerow", ["le", "le"], ["nn", "nn"], "min"), ("dualsef", ["ge", "ge"], ["free", "free"], "min")]


def cur(w, r):
    A = w.I.getattr(r, "A")
    return A


def ops():
    out = []
    def sz(w, r, k):
        return w.I.getitem(w.I.getattr(w.I.getattr(r, "A"), "shape"), C(k))
    def num(v):
        return v.v if isinstance(v, C) else None
    def n(w, r):
        return num(sz(w, r, 1))
    def m(w, r):
        return num(sz(w, r, 0))
    def add(label, name, mk, inp=None, pick=None, sef=False):
        out.append((label, name, mk, inp, pick, sef))
    for op in ("<=", "=", ">="):
        for inp in (FALSE, TRUE):
            add("add_constraint %s%s" % (op, " in place" if inp is TRUE else ""), "add_constraint", (lambda op: lambda w, r: ([w.arr("q", const(n(w, r))), C(op), w.sc("qv")], {}))(op), inp)
    for lab, kw in (("", {}), (" free", {"free": TRUE}), (" negative", {"negative": TRUE})):
        for inp in (FALSE, TRUE):
            add("add_variable%s%s" % (lab, " in place" if inp is TRUE else ""), "add_variable", (lambda kw: lambda w, r: ([w.sc("qc"), w.arr("q", const(m(w, r)))], dict(kw)))(kw), inp)
    for inp in (FALSE, TRUE):
        add("to_sef" + (" in place" if inp is TRUE else ""), "to_sef", lambda w, r: ([], {}), inp)
        add("clear_steps" + (" in place" if inp is TRUE else ""), "clear_steps", lambda w, r: ([], {}), inp)
        add("to_canonical_form" + (" in place" if inp is TRUE else ""), "to_canonical_form", lambda w, r: ([w.lst(*[C(i + 1) for i in range(m(w, r))])], {}), inp, None, True)
    add("dual", "dual", lambda w, r: ([], {}))
    add("copy", "copy", lambda w, r: ([], {}))
    add("auxiliary", "auxiliary", lambda w, r: ([], {}), None, None, True)
    add("simplex_iteration", "simplex_iteration", lambda w, r: ([w.lst(*[C(i + 1) for i in range(m(w, r))])], {}), None, 2, True)
    add("relax", "relax", lambda w, r: ([], {}))
    return out


def apply(w, r, op):
    label, name, mk, inp, pick, sef = op
    args, kw = mk(w, r)
    if inp is not None:
        kw["in_place"] = inp
    kw.setdefault("show_steps", FALSE) if name in ("to_sef", "to_canonical_form", "dual", "auxiliary", "simplex_iteration") else None
    v = w.call(r, name, *args, **kw)
    return w.I.getitem(v, C(pick)) if pick is not None else v


def check(ck, nm, w, r, anchor):
    v = view_lp(w, r, VW)
    t = mk("list", *[v[k] for k in VW])
    def spec(ev):
        o, i, f, g = (ev.ev(v[k]) for k in VW[:4])
        return o == "max" and all(x == "=" for x in i) and not list(f) and not list(g)
    ck.equal(nm, w, v["is_sef"], spec, anchor, n=6, rule="is_sef against its definition")


def run(ck):
    O = ops()
    for kind in ("LP", "IP"):
        dotted = {"LP": LPC, "IP": IPC}[kind]
        have = public_methods(dotted)
        for lab, rows, cols, obj in START:
            if kind == "IP" and not ck.thorough and lab not in ("sef", "le", "mixed", "min"):
                continue
            def f0():
                w = ck.world(cap=CAP)
                lp = build(w, kind, rows, cols, obj)
                check(ck, "sef/%s/new/%s" % (kind, lab), w, lp.r, dotted + ".__init__")
            ck.scen("sef/%s/new/%s" % (kind, lab), f0, dotted + ".__init__")
            for a in O:
                if a[1] not in have:
                    continue
                second = [None] + (O if kind == "LP" and (ck.thorough or lab in ("sef", "mixed") and a[1] not in ("clear_steps",)) else [])
                nm = "sef/%s/%s/%s" % (kind, lab, a[0])
                def f():
                    w = ck.world(cap=CAP)
                    lp = build(w, kind, rows, cols, obj)
                    r1 = apply(w, lp.r, a)
                    check(ck, nm, w, r1, dotted + "." + a[1])
                    if r1 != lp.r:
                        check(ck, nm + "/original", w, lp.r, dotted + "." + a[1])
                    st = w.I.st.copy()
                    for b in second[1:]:
                        if b[1] not in have or b[1] == "clear_steps" or (b[3] is FALSE and not ck.thorough):
                            continue
                        w.I.st = st.copy()
                        n0 = len(w.I.imprecise)
                        def g():
                            try:
                                r2 = apply(w, r1, b)
                            except Dead:
                                return
                            check(ck, nm + "/" + b[0], w, r2, dotted + "." + b[1])
                        try:
                            g()
                        except (Giveup, Unknown, Undef) as e:
                            ck.add(nm + "/" + b[0], "unknown", None, str(e)[:100])
                        del w.I.imprecise[n0:]
                if a[5] and lab != "sef":
                    continue
                ck.scen(nm, f, dotted + "." + a[1])
