"""Certificates: the verifiers accept a certificate exactly when it proves the claim (y.A >= 0 and y.b < 0 for
infeasibility; x feasible, d >= 0, A d = 0 and c.d > 0 for unboundedness; c - y.A <= 0 for optimality), outside the
numerical tolerance zone."""
from .lpspec import *
from .C10 import feasible, gen_b, gen_x


def sgn(x):
    """-1 / 0 / 1, Skip in the tolerance zone"""
    if x != 0 and abs(x) < F(1, 10 ** 6):
        raise Skip()
    return (x > 0) - (x < 0)


def run(ck):
    def one(meth, names, spec, gen):
        for lists in (False, True) if ck.thorough else (False,):
            nm = meth + ("/list arguments" if lists else "")
            def f():
                w = ck.world()
                lp = is_sef_lp(w)
                dims = {"y": lp.m, "x": lp.n, "d": lp.n}
                args = [w.arr(a, dims[a]) for a in names]
                res = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, meth), args, {}))
                def s(ev):
                    return ("ok", spec(V(ev, lp), *[ev.ev(mk("sym", a)).d for a in names]))
                ck.outcome(nm, w, res, s, LPC + "." + meth, gen=gen(lp), sizes=sef_sizes, n=150 if not ck.thorough else 600, rule="verdict on the certificate")
            ck.scen(nm, f, LPC + "." + meth)

    def inf(v, y):
        return all(sgn(dot(y, v.col(j))) >= 0 for j in range(v.n)) and sgn(dot(y, v.b)) < 0

    def unb(v, x, d):
        ok = feasible(v, x)
        if ok is None:
            raise Skip()
        return bool(ok and sgn(dot(v.c, d)) > 0 and all(sgn(dot(r, d)) == 0 for r in v.rows) and all(sgn(e) >= 0 for e in d))

    def opt(v, y):
        return all(sgn(v.c[j] - dot(y, v.col(j))) <= 0 for j in range(v.n))

    def gen_inf(lp):
        def fa(ev):
            m, n = ev.size("eq"), int(ev.ev(lp.n))
            y = ev.ev(mk("sym", "y")).d
            cols = []
            for _ in range(n):
                col = [ev.rng.choice(ev.pool) for _ in range(m)]
                if dot(y, col) < 0 and ev.rng.random() < 0.75:
                    col = [-q for q in col]
                if ev.rng.random() < 0.2:
                    col = [F(0)] * m
                cols.append(col)
            return arr2([[cols[j][i] for j in range(n)] for i in range(m)], n)
        return {"A": fa}

    def gen_unb(lp):
        def fa(ev):
            m, n = ev.size("eq"), int(ev.ev(lp.n))
            d = ev.ev(mk("sym", "d")).d
            rows = []
            for _ in range(m):
                r = [ev.rng.choice(ev.pool) for _ in range(n)]
                nz = [j for j in range(n) if d[j] != 0]
                if nz and ev.rng.random() < 0.85:
                    j = nz[0]
                    r[j] = -dot([q for k, q in enumerate(r) if k != j], [q for k, q in enumerate(d) if k != j]) / d[j]
                rows.append(r)
            return arr2(rows, n)
        def fd(ev):
            return arr1(abs(q) if ev.rng.random() < 0.85 else q for q in [ev.rng.choice(ev.pool) for _ in range(int(ev.ev(lp.n)))])
        g = {"A": fa, "d": fd}
        g.update(gen_b(lp))
        g.update(gen_x(lp, p=0.95))
        return g

    def gen_opt(lp):
        def fc(ev):
            A = ev.ev(lp.tA)
            y = ev.ev(mk("sym", "y")).d
            return arr1(dot(y, [A.d[i * A.sh[1] + j] for i in range(A.sh[0])]) - ev.rng.choice([0, 0, 1, 2, 3, F(1, 2), -1]) for j in range(A.sh[1]))
        return {"c": fc}

    one("verify_infeasibility", ["y"], inf, gen_inf)
    one("verify_unboundedness", ["x", "d"], unb, gen_unb)
    one("verify_optimality", ["y"], opt, gen_opt)
