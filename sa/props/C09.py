"""Solving in the original variables: with the inner solver replaced by an unknown solution of the program it is called
on, solve() converts the program to standard equality form, starts the simplex method only on that form and only from a
basis that is feasible for it, and returns the unknown solution translated back (slacks dropped, split pairs subtracted,
negated variables negated), or None when there is none; the two-phase method runs phase one from the artificial basis of
the phase-one problem, continues with a feasible basis of the program, and reports infeasibility exactly when the
phase-one value is not zero.  Decided on the abstract call arguments and results."""
from .lpmeth import *
from .C08 import sef_view
from .C13 import truth, solution, sgn
from ..check import possible

TECHNIQUE = "abstract interpretation with a summary (unknown solution) for the inner solver; call arguments and result compared with the required translation"
FAM = [(["le", "ge"], ["free", "neg", "nn"], "max"), (["le", "eq"], ["neg", "free"], "min"), (["ge"], ["nn", "free", "free", "neg"], "max"), (["le", "le"], ["nn", "nn"], "max"),
       (["eq", "eq"], ["free", "nn", "free"], "max"), (["eq"], ["nn", "nn"], "min"), (["ge", "le", "eq"], ["free", "neg", "free", "nn", "neg"], "min"), (["le", "eq", "ge"], ["nn", "neg", "nn"], "max"),
       (["le"], ["neg"], "max"), (["eq", "le"], ["nn", "nn"], "min"), (["ge", "ge"], ["nn", "neg", "neg"], "min"), (["eq"], ["free", "free"], "max"),
       (["le", "eq"], ["free", "nn", "free", "free"], "min")]


class Hook:
    """replaces simplex / two_phase_simplex by an unknown solution of the right size"""

    def __init__(self, w, none=False, names=("simplex", "two_phase_simplex"), exc=None, give=None, assume=None):
        self.w, self.none, self.names, self.calls, self.exc, self.give, self.assume = w, none, names, [], exc, give, assume
        w.I.call_hook = self

    def __call__(self, I, f, args, kwargs):
        if f.name == "is_basis" and self.assume is not None and len(args) > 1 and isinstance(args[1], Ref):
            o = I.obj(args[1])
            if isinstance(o, Lst) and not o.op and all(i.m == "1" and i.g is None and isinstance(i.v, C) for i in o.items):
                r = self.assume(args[0], [i.v.v for i in o.items])
                if r is not None:
                    return C(r)
        if f.name not in self.names or f.cls is None or not args:
            return None
        basis = None
        if f.name == "simplex":
            basis = args[1] if len(args) > 1 else kwargs.get("basis")
        hook, I.call_hook = I.call_hook, None
        try:
            vw = view_in(self.w, I.st, args[0])
            bt = I.desc(basis) if basis is not None else None
            A = I.getattr(args[0], "A")
            shape = I.getattr(A, "shape")
            n = I.getitem(shape, C(1))
        finally:
            I.call_hook = hook
        self.calls.append((f.name, vw, bt, dict(I.st.facts), args[0]))
        if self.give is not None:
            return self.give(I, f, args, n, len(self.calls))
        if self.exc:
            I.raise_exc(self.exc, maybe=True)
        if self.none:
            return Tup((NONE, NONE, NONE))
        nt = I.desc(n)
        x = I.new(Nd(tm.sym("xs", ndim=1, shape=(nt,), inp=True, py="float"), (nt,), "float"))
        return Tup((x, I.new(Lst("list", (It(C(1)),))), NONE))


def cert(I, m):
    """an unknown certificate, as the inner solver returns one next to its solution"""
    return I.new(Nd(tm.sym("y1", ndim=1, shape=(const(m),), inp=True, py="float"), (const(m),), "float"))


def back(v, xs):
    out, p = [], 0
    for k in v.kind:
        if k == "free":
            out.append(xs[p] - xs[p + 1])
            p += 2
        else:
            out.append(-xs[p] if k == "neg" else xs[p])
            p += 1
    return arr1(out)


def check_basis(ck, nm, w, vw, bt, facts, anchor, gen=None, need=None, tries=60):
    """on every valuation that can take this path the start basis is a feasible basis of the program it is used on"""
    good, und = 0, None
    for t in range(tries):
        ev = Ev("%s/%s/%s" % (ck.seed, nm, t), gen=gen)
        try:
            if need is not None and not need(ev):
                continue
            A, b, ops = ev.ev(vw["A"]), list(ev.ev(vw["b"]).d), ev.ev(vw["is_sef"])
            Bv = [int(x) for x in ev.ev(bt)]
            if not possible(ev, facts):
                continue
            class P:
                m, n = A.sh
                rows = [list(r.d) for r in A.rows()]
            P.b = b
            ok = bool(ops) and truth(P, Bv)
            if ok:
                ok = all([sgn(e) >= 0 for e in solution(P, Bv)])
        except Unknown as e:
            und = str(e)[:120]
            break
        except (Undef, Skip):
            continue
        ck.vals += 1
        if not ok:
            from ..check import show, show_vals
            ck.add(nm, "violated", anchor, "simplex is started from %s, which is no feasible basis of %s x = %s; inputs %s" % (Bv, show(A), show(b), show_vals(ev)))
            return
        good += 1
    if und or not good:
        ck.add(nm, "unknown", anchor, und or "no valuation takes this path")
    else:
        ck.ok(nm, anchor, "start basis feasible; %d valuations" % good)


def run(ck):
    anchor = LPC + ".solve"
    for rows, cols, obj in FAM + ([(r, c, "max" if o == "min" else "min") for r, c, o in FAM] if ck.thorough else []):
        lab = "%s/%s/%s" % (obj, "+".join(rows), "+".join(cols))
        def f():
            w = ck.world()
            lp = LP(w, rows=rows, cols=cols, objective=obj, exact=True)
            hk = Hook(w)
            st, v, ex = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, "solve"), [], {"show_steps": FALSE}))
            w.I.call_hook = None
            if not hk.calls:
                ck.add("solve/%s" % lab, "unknown", anchor, "inner solver not called")
                return
            ck.outcome("solve/%s/translated back" % lab, w, (st, v, ex), lambda ev: ("ok", back(V(ev, lp), list(ev.ev(mk("sym", "xs")).d))), anchor, n=15, rule="solution of the original program from that of the converted one")
            if st is None:
                return
            w.I.st = st
            for i, (name, vw, bt, facts, recv) in enumerate(hk.calls):
                for k in ("A", "b", "c", "objective", "is_sef"):
                    ck.equal("solve/%s/call %d of %s/%s" % (lab, i, name, k), w, vw[k], lambda ev: sef_view(V(ev, lp))[k], anchor, n=8, rule="the program handed to %s is the converted one, `%s`" % (name, k))
                if bt is not None:
                    check_basis(ck, "solve/%s/start of call %d" % (lab, i), w, vw, bt, facts, anchor)
        ck.scen("solve/%s" % lab, f, anchor)
        def g():
            w = ck.world()
            lp = LP(w, rows=rows, cols=cols, objective=obj, exact=True)
            hk = Hook(w, none=True)
            res = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, "solve"), [], {"show_steps": FALSE}))
            w.I.call_hook = None
            ck.outcome("solve/%s/no solution" % lab, w, res, lambda ev: ("ok", None), anchor, n=5, rule="None when the converted program has no solution")
        ck.scen("solve/%s/no solution" % lab, g, anchor)
    # two phases
    anchor2 = LPC + ".two_phase_simplex"
    for m, n, B1 in [(1, 2, [1]), (1, 2, [2]), (2, 3, [1, 2]), (2, 3, [2, 3]), (2, 3, [1, 3])] + ([(2, 4, [2, 4]), (2, 2, [1, 2])] if ck.thorough else []):
        lab = "two phases/%dx%d/%s" % (m, n, B1)
        def f():
            w = ck.world()
            lp = LP(w, rows=["eq"] * m, cols=["nn"] * n, exact=True)
            def give(I, fn, args, nn, k):
                if args[0] == lp.r:
                    x2 = I.new(Nd(tm.sym("x2", ndim=1, shape=(const(n),), inp=True, py="float"), (const(n),), "float"))
                    y2 = I.new(Nd(tm.sym("y2", ndim=1, shape=(const(m),), inp=True, py="float"), (const(m),), "float"))
                    return Tup((x2, I.new(Lst("list", tuple(It(C(9)) for _ in range(m)))), y2))
                x1 = I.new(Nd(tm.sym("x1", ndim=1, shape=(const(m + n),), inp=True, py="float"), (const(m + n),), "float"))
                return Tup((x1, I.new(Lst("list", tuple(It(C(j)) for j in B1))), cert(I, m)))
            def g1(ev):
                v = V(ev, lp)
                if not truth(v, B1):
                    raise Undef()
                x = solution(v, B1)
                if any([sgn(e) < 0 for e in x]):
                    raise Undef()
                return arr1(x + [F(0)] * m)
            from .C13 import posb
            gen = dict(posb(lp, B1), x1=g1)
            hk = Hook(w, names=("simplex",), give=give, assume=lambda r, b: True if r == lp.r and b == B1 else None)
            st, v, ex = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, "two_phase_simplex"), [], {"show_steps": FALSE}))
            w.I.call_hook = None
            firsts = [c for c in hk.calls if c[4] != lp.r]
            seconds = [c for c in hk.calls if c[4] == lp.r]
            for i, (name, vw, bt, facts, recv) in enumerate(firsts):
                check_basis(ck, "%s/phase one start %d" % (lab, i), w, vw, bt, facts, anchor2)
            for i, (name, vw, bt, facts, recv) in enumerate(seconds):
                check_basis(ck, "%s/phase two start %d" % (lab, i), w, vw, bt, facts, anchor2, gen=gen, need=lambda ev: ev.ev(mk("sym", "x1")) is not None)
            if not firsts or not seconds:
                ck.add(lab + "/phases", "unknown", anchor2, "%d phase-one and %d phase-two starts seen" % (len(firsts), len(seconds)))
            if st is None:
                ck.add(lab, "unknown", anchor2, "no normal return")
                return
            w.I.st = st
            r0, r1 = (w.I.getitem(v, C(k)) for k in (0, 1))
            def want(ev):
                x1 = list(ev.ev(mk("sym", "x1")).d)
                s = sum(x1[n:], F(0))
                if s != 0 and abs(s) < F(1, 10 ** 4):
                    raise Skip()
                return s == 0
            def gx(ev):
                return arr1(abs(ev.rng.choice(ev.pool)) if i < n or ev.rng.random() < 0.4 else F(0) for i in range(m + n))
            def gpos(ev):
                A = ev.ev(lp.tA)
                return A
            # a valuation in which phase one ends at the value zero or not; the program's own basis B1 must be one
            def spec0(ev):
                if not truth(V(ev, lp), B1):
                    raise Skip()
                return list(ev.ev(mk("sym", "x2")).d) if want(ev) else None
            ck.equal(lab + "/solution", w, r0, lambda ev: (lambda s: arr1(s) if s is not None else None)(spec0(ev)), anchor2, n=30, gen={"x1": gx}, rule="solution of phase two, None when phase one ends above zero")
            ck.equal(lab + "/basis", w, r1, lambda ev: [9] * m if spec0(ev) is not None else None, anchor2, n=30, gen={"x1": gx}, rule="basis of phase two, None when phase one ends above zero")
        ck.scen(lab, f, anchor2)
    # degenerate phase one: an artificial variable stays in the basis at level zero; the program's own columns complete it
    for m, n, B1, x, good in [(2, 3, [1, 4], [2, 0, 0, 0, 0], [1, 3]), (2, 3, [1, 4], [2, 0, 0, 0, 0], [1, 2]), (2, 3, [3, 5], [0, 0, 1, 0, 0], [1, 3]), (2, 2, [1, 3], [1, 0, 0, 0], [1, 2]), (1, 2, [3], [0, 0, 0], [2]), (1, 2, [3], [0, 0, 0], [1]),
                              (2, 3, [4, 5], [0, 0, 0, 0, 0], [1, 3]), (3, 4, [2, 5, 6], [0, 3, 0, 0, 0, 0, 0], [1, 2, 4]), (3, 4, [2, 5, 6], [0, 3, 0, 0, 0, 0, 0], [2, 3, 4])]:
        lab = "two phases/degenerate/%dx%d/%s to %s" % (m, n, B1, good)
        def f():
            w = ck.world()
            lp = LP(w, rows=["eq"] * m, cols=["nn"] * n, exact=True)
            def give(I, fn, args, nn, k):
                if args[0] == lp.r:
                    return Tup((NONE, NONE, NONE))
                x1 = I.call(Ext("numpy.array"), [I.new(Lst("list", tuple(It(C(float(e))) for e in x)))], {})
                return Tup((x1, I.new(Lst("list", tuple(It(C(j)) for j in B1))), cert(I, m)))
            hk = Hook(w, names=("simplex",), give=give, assume=lambda r, b: sorted(b) == good if r == lp.r and all(1 <= j <= n for j in b) and len(b) == m else None)
            xs = [F(e) for e in x]
            def ga(ev):
                """only the columns `good` are independent"""
                A = [[ev.rng.choice(ev.pool) for _ in range(n)] for _ in range(m)]
                return arr2(A, n)
            def gb(ev):
                A = ev.ev(lp.tA)
                return arr1(dot(A.d[i * n:(i + 1) * n], xs[:n]) for i in range(m))
            def need(ev):
                class P:
                    rows = [list(r.d) for r in ev.ev(lp.tA).rows()]
                P.m, P.n = m, n
                return truth(P, good)
            st, v, ex = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, "two_phase_simplex"), [], {"show_steps": FALSE}))
            w.I.call_hook = None
            seconds = [c for c in hk.calls if c[4] == lp.r]
            for i, (name, vw, bt, facts, recv) in enumerate(seconds):
                check_basis(ck, "%s/phase two start %d" % (lab, i), w, vw, bt, {}, anchor2, gen={"b": gb}, need=need)
            if not seconds:
                ck.add(lab, "unknown", anchor2, "phase two not reached; %s" % ([(e.name, e.site) for _, e in ex][:3],))
        ck.scen(lab, f, anchor2)
