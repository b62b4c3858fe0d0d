"""Copies, relaxations, equality: a copy of a program is of the same class and shows, answers and refuses the same,
integrality included; the relaxation is the linear program with the same data and no integrality; two linear programs
are equal exactly when all they show is equal; the optimal value is the value of the solution solve() reports.
Decided by abstract interpretation, comparing observation terms with the data of the original."""
from .lpmeth import *
from .C10 import want as feasible_want, gen_b, gen_x
from .C09 import Hook

TECHNIQUE = "abstract interpretation; observations and verdicts of the derived program compared with the data of the original"
SHAPES = [(["le", "ge", "eq"], ["nn", "neg", "free"], "max"), (["eq", "eq"], ["nn", "nn", "nn"], "max"), (["ge", "le"], ["free", "free", "nn"], "min"), (["eq"], ["neg", "nn", "nn"], "min")]
INTEGRAL = [None, [], [1], [2], [3, 1], [1, 2, 3]]


def klass(w, v):
    o = w.I.obj(v) if isinstance(v, Ref) else None
    return o.cls.name if isinstance(o, Inst) and hasattr(o.cls, "name") else None


def make(w, kind, rows, cols, obj, integral=None, name=""):
    if kind == "LP":
        return LP(w, rows=rows, cols=cols, objective=obj, exact=True, name=name)
    return LP(w, rows=rows, cols=cols, objective=obj, cls=IPC, exact=True, name=name, extra=[NONE if integral is None else w.lst(*[C(i) for i in integral])])


def derived(w, r, how):
    for h in how:
        r = w.call(r, h)
    return r


def verdict(ck, nm, w, lp, r, integral, anchor):
    """is_feasible of a derived program: the constraints of the original, and whole numbers where required"""
    x = w.arr("x", lp.n)
    res = w.I.run(lambda: w.I.call(w.I.getattr(r, "is_feasible"), [x], {"show_steps": FALSE}))
    def spec(ev):
        xs = list(ev.ev(mk("sym", "x")).d)
        f = feasible_want(V(ev, lp), xs)
        return ("ok", bool(f and all(xs[i - 1] == int(xs[i - 1]) for i in integral)))
    ck.outcome(nm, w, res, spec, anchor, gen={**gen_b(lp), **gen_x(lp, p=0.95)}, n=60 if not ck.thorough else 300, rule="feasibility verdict of the derived program")


def run(ck):
    for si, (rows, cols, obj) in enumerate(SHAPES):
        lab = ",".join(rows + cols + [obj])
        for how in (["copy"], ["copy", "copy"]):
            def f():
                w = ck.world(cap=CAP)
                lp = make(w, "LP", rows, cols, obj)
                anchor = LPC + ".copy"
                nm = "copy/LP/%s/%d" % (lab, len(how))
                r = derived(w, lp.r, how)
                ck.decide(nm + "/class", w, klass(w, r) == "LinearProgram" and r != lp.r, anchor, "a copy is another program of the same class")
                v = view_lp(w, r)
                for o in LP_VIEW:
                    ck.equal(nm + "/" + o, w, v[o], lambda ev: V(ev, lp).view()[o], anchor, n=6, rule="the copy's `%s`" % o)
            ck.scen("copy/LP/%s/%d" % (lab, len(how)), f, LPC + ".copy")
        for integral in INTEGRAL:
            for how in (["copy"], ["relax"], ["copy", "copy"], ["copy", "relax"], []):
                nm = "%s/IP/%s/%s" % (".".join(how) or "new", lab, integral)
                anchor = IPC + "." + (how[-1] if how else "is_feasible")
                def f():
                    w = ck.world(cap=CAP)
                    lp = make(w, "IP", rows, cols, obj, integral)
                    r = derived(w, lp.r, how)
                    ck.decide(nm + "/class", w, klass(w, r) == ("LinearProgram" if "relax" in how else "IntegerProgram"), anchor, "class of the derived program: %s" % klass(w, r))
                    v = view_lp(w, r)
                    for o in LP_VIEW:
                        ck.equal(nm + "/" + o, w, v[o], lambda ev: V(ev, lp).view()[o], anchor, n=4, rule="the derived program's `%s`" % o)
                    need = [] if "relax" in how else [1, 2, 3] if integral is None else integral
                    verdict(ck, nm + "/verdict", w, lp, r, need, anchor)
                ck.scen(nm, f, anchor)
        # copies made by an operation that is not in place keep integrality
        for integral in INTEGRAL[:4]:
            for op in ("add_constraint", "clear_steps", "add_constraint in place"):
                nm = "%s/IP/%s/%s" % (op, lab, integral)
                anchor = IPC + "." + op.split()[0]
                def f():
                    w = ck.world(cap=CAP)
                    lp = make(w, "IP", rows, cols, obj, integral)
                    if op == "clear_steps":
                        r = w.call(lp.r, "clear_steps")
                    else:
                        # 0 x <= 1 restricts nothing
                        r = w.call(lp.r, "add_constraint", w.lst(*[C(0)] * len(cols)), C("<="), C(1), in_place=TRUE if "place" in op else FALSE)
                    verdict(ck, nm + "/verdict", w, lp, r, [1, 2, 3] if integral is None else integral, anchor)
                ck.scen(nm, f, anchor)
    equality(ck)
    value(ck)


def equality(ck):
    anchor = LPC + ".__eq__"
    for si, (rows, cols, obj) in enumerate(SHAPES):
        def other(name, rows2, cols2, obj2):
            nm = "equal/%s/%s" % (",".join(rows + cols + [obj]), name)
            def f():
                w = ck.world(cap=CAP)
                a = make(w, "LP", rows, cols, obj)
                b = make(w, "LP", rows2, cols2, obj2, name="o")
                fits = (len(rows), len(cols)) == (len(rows2), len(cols2))
                def same_arr(src, k):
                    """mostly the data of the first program, one number changed now and then"""
                    def g(ev):
                        v = ev.ev(src)
                        which = ev.__dict__.setdefault("_differ", ev.rng.choice(["A", "b", "c", "z", None, None]))
                        if not isinstance(v, Arr):
                            return v + 1 if which == k else v
                        d = list(v.d)
                        if which == k and d:
                            i = ev.rng.randrange(len(d))
                            d[i] = d[i] + 1
                        return Arr(v.sh, d)
                    return g
                gen = {"o" + k: same_arr(t, k) for k, t in (("A", a.tA), ("b", a.tb), ("c", a.tc), ("z", a.tz))} if fits else {}
                res = w.I.run(lambda: w.I.compare_values(a.r, b.r) if hasattr(w.I, "compare_values") else w.I.call(w.I.getattr(a.r, "__eq__"), [b.r], {}))
                def spec(ev):
                    x, y = V(ev, a).view(), V(ev, b).view()
                    return ("ok", all(same(x[k], y[k]) for k in x))
                ck.outcome(nm, w, res, spec, anchor, gen=gen, n=40 if not ck.thorough else 200, rule="equal exactly when everything shown is equal")
            ck.scen(nm, f, anchor)
        other("same kinds", rows, cols, obj)
        other("other objective", rows, cols, "min" if obj == "max" else "max")
        other("other sense", rows[:-1] + ["ge" if rows[-1] != "ge" else "le"], cols, obj)
        other("equality row", rows[:-1] + ["eq" if rows[-1] != "eq" else "le"], cols, obj)
        other("other sign", rows, cols[:-1] + ["neg" if cols[-1] != "neg" else "nn"], obj)
        other("free variable", rows, cols[:-1] + ["free" if cols[-1] != "free" else "nn"], obj)
        other("another row", rows + ["eq"], cols, obj)
        other("another column", rows, cols + ["nn"], obj)
        def f():
            w = ck.world(cap=CAP)
            a = make(w, "LP", rows, cols, obj)
            b = w.call(a.r, "copy")
            res = w.I.run(lambda: w.I.call(w.I.getattr(a.r, "__eq__"), [b], {}))
            ck.outcome("equal/copy/%d" % si, w, res, lambda ev: ("ok", True), anchor, n=4, rule="a program equals its copy")
        ck.scen("equal/copy/%d" % si, f, anchor)


def value(ck):
    for kind in ("LP", "IP"):
        dotted = {"LP": LPC, "IP": IPC}[kind]
        anchor = dotted + ".optimal_value"
        for rows, cols, obj in SHAPES:
            for none in (False, True):
                nm = "optimal value/%s/%s%s" % (kind, ",".join(rows + cols + [obj]), "/no solution" if none else "")
                def f():
                    w = ck.world(cap=CAP)
                    lp = make(w, kind, rows, cols, obj)
                    def give(I, f, args, n, k):
                        if none:
                            return NONE
                        nt = I.desc(n)
                        return I.new(Nd(tm.sym("xs", ndim=1, shape=(nt,), inp=True, py="float"), (nt,), "float"))
                    hk = Hook(w, names=("solve",), give=give)
                    res = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, "optimal_value"), [], {}))
                    w.I.call_hook = None
                    if not hk.calls:
                        ck.add(nm, "unknown", anchor, "solve() is not called")
                        return
                    def spec(ev):
                        if none:
                            return ("ok", None)
                        p = V(ev, lp)
                        return ("ok", p.z + dot(p.c, ev.ev(mk("sym", "xs")).d))
                    ck.outcome(nm, w, res, spec, anchor, n=10, rule="value of the solution that solve() reports")
                ck.scen(nm, f, anchor)
