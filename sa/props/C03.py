"""No sharing: (a) writing to any array or list after passing it to a constructor or an operation never changes what the
program shows; (b) after deriving a program, every in-place operation on, and every element write to the arrays of, one
of the two leaves the other as it was; (c) no operation writes to its arguments.  Decided on the abstract heap: each
possible later write is performed in the abstract state and the other object's observations are compared."""
from .lpmeth import *
from .C02 import result_program
from .C05 import ops, apply

TECHNIQUE = "abstract heap with aliasing: later writes performed in the abstract state, observations of the other object compared"


def scribble(w, v, tag="z"):
    """write something new into a mutable object"""
    o = w.I.obj(v) if isinstance(v, Ref) else None
    if isinstance(o, Nd):
        nm = "scribble%d" % len(tm.META)
        t = tm.sym(nm, ndim=len(o.shape), shape=tuple(o.shape), inp=True, py="float")
        w.I.nd_write(v, t)
        return True
    if isinstance(o, Lst):
        inner = False
        for it in o.items:
            if isinstance(it.v, Ref):
                inner = scribble(w, it.v) or inner
        if o.items and not inner and o.items[0].m == "1":
            x = o.items[0].v
            y = C("=") if isinstance(x, C) and isinstance(x.v, str) and x.v != "=" else (C("<=") if isinstance(x, C) and isinstance(x.v, str) else C(1) if not (isinstance(x, C) and x.v == 1) else C(2))
            w.I.put(v, Lst(o.kind, (It(y),) + o.items[1:] + (It(y),), o.op))
        elif not inner:
            w.I.put(v, Lst(o.kind, o.items + (It(C("=")),), o.op))
        return True
    return False


def nested(w, name, m, n=None, py="float"):
    """the same data as plain nested lists of numbers"""
    if n is None:
        return w.lst(*[w.sc("%s%d" % (name, i), py) for i in range(m)])
    return w.lst(*[w.lst(*[w.sc("%s%d_%d" % (name, i, j), py) for j in range(n)]) for i in range(m)])


def run(ck):
    for kind in ("LP", "IP"):
        dotted = {"LP": LPC, "IP": IPC}[kind]
        # (a) constructor
        for lists in (False, True):
            for rows, cols, obj in ((["le", "ge"], ["free", "nn", "neg", "free"], "min"), (["eq"], ["nn", "nn"], "max")):
                nm = "ctor/%s/%s/%s" % (kind, "lists" if lists else "arrays", "+".join(cols))
                def f():
                    w = ck.world(cap=CAP)
                    m, n = len(rows), len(cols)
                    if lists:
                        A, b, c = nested(w, "A", m, n), nested(w, "b", m), nested(w, "c", n)
                    else:
                        A, b, c = w.arr("A", const(m), const(n)), w.arr("b", const(m)), w.arr("c", const(n))
                    ops_ = {"le": "<=", "ge": ">=", "eq": "="}
                    args = [A, b, c, w.sc("z"), C(obj), w.lst(*[C(ops_[r]) for r in rows]), w.lst(*[C(i + 1) for i, k in enumerate(cols) if k == "free"]), w.lst(*[C(i + 1) for i, k in enumerate(cols) if k == "neg"])]
                    names = ["A", "b", "c", "z", "objective", "inequalities", "free_variables", "negative_variables", "integral_variables"]
                    if kind == "IP":
                        args.append(w.lst(C(1)))
                    bargs = {i: w.desc(a) for i, a in enumerate(args) if isinstance(a, Ref)}
                    r = w.new(dotted, *args)
                    x = vec(w, "x", n)
                    for i in bargs:
                        unchanged(ck, nm + "/argument %s not written" % names[i], w, {"argument": bargs[i]}, {"argument": w.desc(args[i])}, {}, dotted + ".__init__", "the constructor does not write to its arguments")
                    before = view(w, r)
                    st0 = w.I.st.copy()
                    feas = w.desc(w.call(r, "is_feasible", x, show_steps=FALSE)) if kind == "IP" else None
                    for i in bargs:
                        w.I.st = st0.copy()
                        scribble(w, args[i])
                        unchanged(ck, nm + "/later write to %s" % names[i], w, before, view_in(w, w.I.st, r), {}, dotted + ".__init__", "a later change of the argument `%s` does not reach the program" % names[i])
                        if kind == "IP" and names[i] == "integral_variables":
                            unchanged(ck, nm + "/later write to %s, verdict" % names[i], w, {"is_feasible": feas}, {"is_feasible": w.desc(w.call(r, "is_feasible", x, show_steps=FALSE))}, {}, dotted + ".__init__", "a later change of the argument does not reach the program")
                ck.scen(nm, f, dotted + ".__init__")
        have = public_methods(dotted)
        # (c) in-place operations do not write to their arguments, nor keep them
        for label, name, mkargs, inp, pick, sef in ops():
            if name not in have or inp is not TRUE:
                continue
            nm = "argument/%s.%s" % (kind, label)
            def g():
                w = ck.world(cap=CAP)
                lp = build(w, kind, ["eq", "eq"], ["nn", "nn", "nn"], "max") if sef else build(w, kind, ["le", "eq"], ["nn", "free", "neg"], "min")
                args, kw = mkargs(w, lp.r)
                refs = [a for a in args if isinstance(a, Ref)]
                if not refs:
                    ck.ok(nm, dotted + "." + name, "no mutable arguments")
                    return
                b0 = [w.desc(a) for a in refs]
                kw = dict(kw)
                kw["in_place"] = TRUE
                w.call(lp.r, name, *args, **kw)
                for i, a in enumerate(refs):
                    unchanged(ck, "%s/argument %d not written" % (nm, i), w, {"argument": b0[i]}, {"argument": w.desc(a)}, {}, dotted + "." + name, "arguments are not written")
                before = view(w, lp.r)
                for i, a in enumerate(refs):
                    scribble(w, a)
                    unchanged(ck, "%s/later write to argument %d" % (nm, i), w, before, view_in(w, w.I.st, lp.r), {}, dotted + "." + name, "a later change of the argument does not reach the program")
            ck.scen(nm, g, dotted + "." + name)
        # (b) derived programs
        for label, name, mkargs, inp, pick, sef in ops():
            if name not in have or inp is TRUE:
                continue
            for lab, rows, cols, obj in ((("sef", ["eq", "eq"], ["nn", "nn", "nn"], "max"),) if sef else
                                         (("sef", ["eq", "eq"], ["nn", "nn", "nn"], "max"), ("mixed", ["le", "ge"], ["free", "neg", "nn"], "min"), ("alike", ["eq", "ge"], ["free", "neg"], "max"))):
                nm = "derived/%s.%s/%s" % (kind, label, lab)
                def h():
                    w = ck.world(cap=CAP)
                    lp = build(w, kind, rows, cols, obj)
                    w.call(lp.r, "is_feasible", vec(w, "x0", lp.n))     # so that there are recorded steps
                    d = apply(w, lp.r, (label, name, mkargs, inp, pick, sef))
                    ck.decide(nm + "/another program", w, isinstance(d, Ref) and d != lp.r, dotted + "." + name, "%s" % (d,))
                    if d == lp.r:
                        return
                    st0 = w.I.st.copy()
                    for who, a, b in (("derived", d, lp.r), ("original", lp.r, d)):
                        w.I.st = st0.copy()
                        before = view(w, b, steps=True)
                        names = LP_VIEW + ("steps",)
                        for at in ("A", "b", "c"):
                            w.I.st = st0.copy()
                            scribble(w, w.get(a, at))
                            unchanged(ck, "%s/write to %s of the %s" % (nm, at, who), w, before, view_in(w, w.I.st, b, names), {}, dotted + "." + name, "writing to `%s` of the %s does not reach the other" % (at, who))
                        for o2 in ops():
                            if o2[3] is not TRUE or o2[1] not in public_methods(LPC):
                                continue
                            w.I.st = st0.copy()
                            def k():
                                args, kw = o2[2](w, a)
                                kw = dict(kw)
                                kw["in_place"] = TRUE
                                return w.I.call(w.I.getattr(a, o2[1]), args, kw)
                            st, _, ex = w.I.run(k)
                            for s in ([st] if st is not None else []) + [s for s, _ in ex]:
                                w.I.st = s
                                unchanged(ck, "%s/%s on the %s" % (nm, o2[0], who), w, before, view_in(w, s, b, names), s.facts, dotted + "." + name, "%s on the %s does not reach the other" % (o2[0], who))
                        w.I.st = st0.copy()
                        st, _, ex = w.I.run(lambda: w.I.call(w.I.getattr(a, "is_feasible"), [vec(w, "x1", int_of(w, a))], {}))
                        if st is not None:
                            w.I.st = st
                            unchanged(ck, "%s/recording on the %s" % (nm, who), w, before, view_in(w, st, b, names), st.facts, dotted + "." + name, "steps recorded on the %s do not reach the other" % who)
                ck.scen(nm, h, dotted + "." + name)


def int_of(w, r):
    v = w.I.getitem(w.I.getattr(w.I.getattr(r, "A"), "shape"), C(1))
    return v.v
