"""Basis queries: a list of columns is a basis exactly when it has one column per row, all in range, with nonsingular
submatrix; the basic solution solves the system on those columns and is zero elsewhere whatever their order; the basic,
feasible-basic and canonical-form verdicts agree.  Decided on the abstract value of each query for symbolic programs and
all orders, lengths, repetitions and out-of-range numbers of a small number of columns, and for generic bases."""
from .lpmeth import *
from .C16 import is_basis
from .C10 import gen_b

TECHNIQUE = "abstract interpretation; verdict terms and exits compared with the algebraic definition"


def det_of(v, B):
    d, inv = gauss(arr2([[v.rows[i][j - 1] for j in B] for i in range(v.m)], v.m))
    return d, inv


def truth(v, B):
    if len(B) != v.m or any(not 1 <= j <= v.n for j in B):
        return False
    if len(set(B)) != len(B):
        return False
    d, _ = det_of(v, B)
    if d != 0 and abs(d) < F(1, 10 ** 5):
        raise Skip()
    return d != 0


def solution(v, B):
    _, inv = det_of(v, B)
    xs = [dot(r.d, v.b) for r in inv.rows()]
    out = [F(0)] * v.n
    for j, x in zip(B, xs):
        out[j - 1] = x
    return out


def sgn(e):
    if e != 0 and abs(e) < F(1, 10 ** 5):
        raise Skip()
    return (e > 0) - (e < 0)


def run(ck):
    lists = [(1, 2, [1]), (1, 2, [2]), (1, 2, []), (1, 2, [1, 2]), (1, 2, [0]), (1, 2, [3]), (2, 3, [1, 2]), (2, 3, [2, 1]), (2, 3, [3, 1]), (2, 3, [2, 3]), (2, 3, [3, 2]),
             (2, 3, [1, 1]), (2, 3, [3, 3]), (2, 3, [0, 1]), (2, 3, [1, 0]), (2, 3, [4, 1]), (2, 3, [3, 4]), (2, 3, [1, -1]), (2, 3, [-1, 2]), (2, 3, [1]), (2, 3, [1, 2, 3]), (2, 2, [2, 1]), (2, 2, [1, 3]),
             (3, 4, [4, 1, 2]), (3, 4, [2, 3, 1]), (3, 4, [1, 2, 3]), (3, 3, [3, 1, 2]), (2, 3, [2, 2])]
    if ck.thorough:
        lists += [(3, 5, [5, 3, 1]), (3, 5, [2, 2, 4]), (3, 3, [1, 2, 3]), (3, 4, [4, 3, 2]), (3, 4, [5, 1, 2]), (2, 4, [4, 2]), (2, 4, [2, 4])]
    N = 25 if not ck.thorough else 150
    for m, n, Bv in lists:
        for as_array in (False, True):
            if as_array and (not Bv or len(Bv) != m):
                continue
            lab = "%dx%d/%s%s" % (m, n, Bv, " array" if as_array else "")
            def mk_B(w):
                if as_array:
                    return None
                return basis_x(w, Bv)
            if as_array:
                continue

            def go(meth, f):
                nm = "%s/%s" % (meth, lab)
                anchor = LPC + "." + meth
                def g():
                    w = ck.world()
                    sef = meth in ("is_basic_solution", "is_feasible_basic_solution")
                    rows = ["eq"] * m if sef else (["le", "ge", "eq"] * m)[:m]
                    cols = ["nn"] * n if sef else (["free", "nn", "neg"] * n)[:n]
                    lp = LP(w, rows=rows, cols=cols, objective="max", exact=True)
                    f(nm, w, lp, anchor)
                ck.scen(nm, g, anchor)
            gb = {}

            def t_basis(nm, w, lp, anchor):
                res = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, "is_basis"), [mk_B(w)], {}))
                ck.outcome(nm, w, res, lambda ev: ("ok", truth(V(ev, lp), Bv)), anchor, n=N, gen=sing(lp, Bv), rule="is a basis")
            go("is_basis", t_basis)

            def t_cbs(nm, w, lp, anchor):
                res = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, "compute_basic_solution"), [mk_B(w)], {}))
                def spec(ev):
                    v = V(ev, lp)
                    return ("ok", arr1(solution(v, Bv))) if truth(v, Bv) else ("raise", {"ArithmeticError", "ValueError"})
                ck.outcome(nm, w, res, spec, anchor, n=N, gen=sing(lp, Bv), rule="basic solution")
            go("compute_basic_solution", t_cbs)

            def t_feas(nm, w, lp, anchor):
                res = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, "is_basis_feasible"), [mk_B(w)], {}))
                def spec(ev):
                    v = V(ev, lp)
                    return ("ok", truth(v, Bv) and all([sgn(e) >= 0 for e in solution(v, Bv)]))
                ck.outcome(nm, w, res, spec, anchor, n=N, gen=dict(sing(lp, Bv), **posb(lp, Bv)), rule="basis with nonnegative basic solution")
            go("is_basis_feasible", t_feas)

            def t_basic(which):
                def t(nm, w, lp, anchor):
                    x = vec(w, "x", lp.n)
                    res = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, which), [x, mk_B(w)], {}))
                    def spec(ev):
                        v = V(ev, lp)
                        xs = list(ev.ev(mk("sym", "x")).d)
                        if which == "is_feasible_basic_solution" and any([sgn(e) < 0 for e in xs]):
                            if not truth(v, Bv):
                                raise Skip()       # both a refusal and a verdict are right
                            return ("ok", False)
                        if not truth(v, Bv):
                            return ("raise", {"ValueError"})
                        r = True
                        for j, e in enumerate(xs):
                            if j + 1 not in Bv and sgn(e):
                                r = False
                        for i in range(v.m):
                            val = dot(v.rows[i], xs)
                            if not clear(val, v.b[i], F(1, 10 ** 3)):
                                raise Skip()
                            if val != v.b[i]:
                                r = False
                        return ("ok", r)
                    ck.outcome(nm, w, res, spec, anchor, n=N * 2, gen=dict(sing(lp, Bv), **dict(gen_b(lp), x=sparse(lp, Bv))), rule="basic solution verdict")
                return t
            go("is_basic_solution", t_basic("is_basic_solution"))
            go("is_feasible_basic_solution", t_basic("is_feasible_basic_solution"))

            def t_canon(nm, w, lp, anchor):
                res = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, "is_canonical_form_for"), [mk_B(w)], {}))
                def spec(ev):
                    v = V(ev, lp)
                    if not truth(v, Bv):
                        return ("ok", False)
                    def is_can(B):
                        return all(v.rows[i][j - 1] == (1 if i == k else 0) for i in range(v.m) for k, j in enumerate(B)) and all(v.c[j - 1] == 0 for j in B)
                    a = is_can(Bv)
                    if a != is_can(sorted(Bv)):
                        raise Skip()
                    for i in range(v.m):
                        for j in Bv:
                            e = v.rows[i][j - 1]
                            if not clear(e, F(0), ab=F(1, 10 ** 3)) or not clear(e, F(1), ab=F(1, 10 ** 3)):
                                raise Skip()
                    return ("ok", a)
                ck.outcome(nm, w, res, spec, anchor, n=N * 2, gen=canonish(lp, Bv), rule="canonical form verdict")
            go("is_canonical_form_for", t_canon)
    # wrong sizes of the point
    for which in ("is_basic_solution", "is_feasible_basic_solution"):
        for k in (2, 4):
            nm = "%s/point of size %d" % (which, k)
            def f():
                w = ck.world()
                lp = LP(w, rows=["eq", "eq"], cols=["nn"] * 3, exact=True)
                res = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, which), [vec(w, "x", k), basis_x(w, [1, 2])], {}))
                ck.outcome(nm, w, res, lambda ev: ("raise", {"ValueError"}), LPC + "." + which, n=10, rule="wrong size refused")
            ck.scen(nm, f, LPC + "." + which)
    # generic bases of any size
    for asc in (False, True):
        nm = "is_basis/generic/%s" % ("sorted" if asc else "any order")
        def g():
            w = ck.world()
            lp = is_sef_lp(w)
            Bs = basis(w, "eq", lp.n, asc=asc)
            g_ = gen_basis(lp, asc=asc)
            res = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, "is_basis"), [Bs], {}))
            ck.outcome(nm, w, res, lambda ev: ("ok", truth(V(ev, lp), basis_of(ev))), LPC + ".is_basis", gen=g_, sizes=sef_sizes, rule="is a basis")
        ck.scen(nm, g, LPC + ".is_basis")
        nm2 = "compute_basic_solution/generic/%s" % ("sorted" if asc else "any order")
        def h():
            w = ck.world()
            lp = is_sef_lp(w)
            Bs = basis(w, "eq", lp.n, asc=asc)
            g_ = gen_basis(lp, asc=asc)
            res = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, "compute_basic_solution"), [Bs], {}))
            def spec(ev):
                v, Bq = V(ev, lp), basis_of(ev)
                return ("ok", arr1(solution(v, Bq))) if truth(v, Bq) else ("raise", {"ArithmeticError", "ValueError"})
            ck.outcome(nm2, w, res, spec, LPC + ".compute_basic_solution", gen=g_, sizes=sef_sizes, rule="basic solution")
        ck.scen(nm2, h, LPC + ".compute_basic_solution")


def sing(lp, B):
    """matrices whose basis columns are now and then dependent"""
    def f(ev):
        m, n = len(lp.rows), len(lp.cols)
        A = [[ev.rng.choice(ev.pool) for _ in range(n)] for _ in range(m)]
        ok = [j for j in B if 1 <= j <= n]
        if len(ok) > 1 and ev.rng.random() < 0.25:
            k = ev.rng.choice(ev.pool)
            for r in A:
                r[ok[0] - 1] = k * r[ok[1] - 1]
        elif len(ok) == 1 and ev.rng.random() < 0.2:
            for r in A:
                r[ok[0] - 1] = F(0)
        elif m > 1 and ev.rng.random() < 0.15:
            A[0] = list(A[1])
        return arr2(A, n)
    return {lp.name + "A": f}


def posb(lp, B):
    def f(ev):
        A = ev.ev(lp.tA)
        m, n = A.sh
        x = [abs(ev.rng.choice(ev.pool)) if ev.rng.random() < 0.85 else ev.rng.choice(ev.pool) for _ in B]
        return arr1(sum((A.d[i * n + j - 1] * e for j, e in zip(B, x) if 1 <= j <= n), F(0)) for i in range(m))
    return {lp.name + "b": f}


def sparse(lp, B):
    def f(ev):
        n = len(lp.cols)
        out = []
        for j in range(n):
            e = ev.rng.choice(ev.pool)
            e = abs(e) if ev.rng.random() < 0.85 else e
            if j + 1 not in B and ev.rng.random() < 0.85:
                e = F(0)
            out.append(e)
        return arr1(out)
    return f


def canonish(lp, B):
    def fa(ev):
        m, n = len(lp.rows), len(lp.cols)
        A = [[ev.rng.choice(ev.pool) for _ in range(n)] for _ in range(m)]
        if ev.rng.random() < 0.8:
            for k, j in enumerate(B):
                if 1 <= j <= n:
                    for i in range(m):
                        A[i][j - 1] = F(1 if i == k else 0)
        p = ev.rng.random()
        if p < 0.15:                    # the unit columns in another order, or columns that only add up to one
            at = list(range(m))
            ev.rng.shuffle(at)
            for k, j in enumerate(B):
                if 1 <= j <= n and k < m:
                    for i in range(m):
                        A[i][j - 1] = F(1 if i == at[k] else 0)
        elif p < 0.3 and m > 1:
            for k, j in enumerate(B):
                if 1 <= j <= n and k < m:
                    A[(k + 1) % m][j - 1] = ev.rng.choice((F(2), F(-1), F(1, 2)))
                    A[k][j - 1] = 1 - A[(k + 1) % m][j - 1]
        elif p < 0.55 and any(1 <= j <= n for j in B):
            j = ev.rng.choice([j for j in B if 1 <= j <= n])
            A[ev.rng.randrange(m)][j - 1] += ev.rng.choice([1, -1, F(1, 2)])
        return arr2(A, n)
    def fc(ev):
        n = len(lp.cols)
        p = ev.rng.random()
        return arr1((F(0) if j + 1 in B and p < 0.7 else ev.rng.choice(ev.pool)) for j in range(n))
    return {lp.name + "A": fa, lp.name + "c": fc}
