"""One simplex step: from a feasible basis the step stops with the basic solution when no reduced cost is positive,
reports unboundedness when the entering column (the first one with positive reduced cost) has no positive entry, and
otherwise exchanges it for the first column attaining the smallest ratio; the returned program is the canonical form for
the given basis.  Decided on the abstract value of the returned triple."""
from .lpspec import *
from .C16 import is_basis, canon

ANCHOR = LPC + ".simplex_iteration"


def sg(x):
    if x != 0 and abs(x) < F(1, 10 ** 6):
        raise Skip()
    return (x > 0) - (x < 0)


def step(v, B):
    """('opt', x, B) / ('unb', None, None) / ('go', None, B')"""
    B = sorted(B)
    q = canon(v, B)
    c = list(q["c"].d)
    A, b = q["A"].rows(), list(q["b"].d)
    A = [list(r.d) for r in A]
    x = [F(0)] * v.n
    for i, j in enumerate(B):
        x[j - 1] = b[i]
    N = [j for j in range(1, v.n + 1) if j not in B]
    pos = [j for j in N if sg(c[j - 1]) > 0]
    if any(sg(e) < 0 for e in b):
        if not pos:
            return "infeasible", None, None
        raise Skip()
    if not pos:
        return "opt", arr1(x), B
    k = pos[0]
    col = [A[i][k - 1] for i in range(v.m)]
    if not any(sg(e) > 0 for e in col):
        return "unb", None, None
    ratios = [(b[i] / col[i], i) for i in range(v.m) if col[i] > 0]
    t = min(ratios)[0]
    for r, i in ratios:
        if r != t and abs(r - t) < F(1, 10 ** 6):
            raise Skip()
    leave = next(i for r, i in ratios if r == t)
    return "go", None, sorted(B[:leave] + B[leave + 1:] + [k])


def gen_x(lp, B):
    """right-hand sides that make the basis mostly feasible, costs of mixed signs"""
    def fb(ev):
        v = V0(ev, lp)
        out = []
        xs = [abs(ev.rng.choice(ev.pool)) if ev.rng.random() < 0.95 else ev.rng.choice(ev.pool) for _ in B]
        q = ev.rng.random()
        if q < 0.25:
            xs[0] = F(0)
        elif q < 0.35:
            xs = [F(0)] * len(xs)               # every ratio is zero
        elif q < 0.6 and v.sh[1] > len(B):      # every ratio of one column is the same
            k, t = ev.rng.choice([j for j in range(v.sh[1]) if j + 1 not in B]), abs(ev.rng.choice(ev.pool))
            return arr1(t * v.d[i * v.sh[1] + k] for i in range(v.sh[0]))
        for i in range(v.sh[0]):
            out.append(sum((v.d[i * v.sh[1] + j - 1] * x for j, x in zip(B, xs)), F(0)))
        return arr1(out)
    def fc(ev):
        n = int(ev.ev(lp.n))
        if ev.rng.random() < 0.35:
            return arr1(-abs(ev.rng.choice(ev.pool)) if j + 1 not in B else F(0) for j in range(n))
        return arr1(ev.rng.choice(ev.pool) for _ in range(n))
    return {lp.name + "b": fb, lp.name + "c": fc}


def V0(ev, lp):
    return ev.ev(lp.tA)


def combos(ck):
    out = [(1, 2, [2]), (1, 3, [1]), (2, 2, [1, 2]), (2, 3, [3, 1]), (2, 3, [1, 2]), (2, 4, [3, 4]), (2, 3, [2, 2]), (2, 4, [4, 2]), (2, 3, [2]), (2, 3, [1, 4])]
    if ck.thorough:
        out += [(2, 4, [1, 4]), (2, 5, [2, 4]), (3, 5, [1, 2, 3]), (3, 4, [4, 2, 1]), (1, 4, [3]), (2, 3, [0, 1])]
    return out


def run(ck):
    for m, n, B in combos(ck):
        for inp in (False, True):
            nm = "step/%dx%d/%s/%s" % (m, n, ",".join(map(str, B)), "in_place" if inp else "copy")
            if inp and not ck.thorough and (m, n, B) not in ((2, 3, [3, 1]), (2, 4, [3, 4]), (2, 3, [2, 2])):
                continue
            def f():
                w = ck.world()
                lp = LP(w, rows=["eq"] * m, cols=["nn"] * n, exact=True)
                res = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, "simplex_iteration"), [basis_x(w, B)], {"in_place": C(inp), "show_steps": C(False)}))
                g = gen_x(lp, [j for j in B if 1 <= j <= n])
                def spec(ev):
                    v = V(ev, lp)
                    if not is_basis(v, B):
                        if len(set(B)) == m and all(1 <= j <= n for j in B):
                            raise Skip()
                        return ("raise", {"ValueError"})
                    r = step(v, B)
                    if r[0] == "infeasible":
                        return ("raise", {"ArithmeticError"})
                    return ("ok", [r[1], r[2]])
                cur = None
                if res[0] is not None:
                    w.I.st = res[0]
                    part = [w.I.getitem(res[1], C(k)) for k in range(3)]
                    res2 = (res[0], Tup((part[0], part[1])), res[2])
                else:
                    res2 = res
                ck.outcome(nm, w, res2, spec, ANCHOR, gen=g, n=160 if not ck.thorough else 400, rule="(solution, next basis) of one step", cmp=same_pair)
                if res[0] is None or len(set(B)) != m or not all(1 <= j <= n for j in B):
                    return
                w.I.st = res[0]
                v = view_lp(w, part[2])
                def vs(k):
                    def s(ev):
                        p = V(ev, lp)
                        if not is_basis(p, B):
                            raise Skip()
                        if step(p, B)[0] == "infeasible":
                            raise Skip()
                        return canon(p, sorted(B))[k]
                    return s
                for k in ("A", "b", "c", "z", "objective", "inequalities", "is_sef"):
                    ck.equal(nm + "/program " + k, w, v[k], vs(k), ANCHOR, gen=g, n=15, rule="program after the step, observation `%s`" % k)
            ck.scen(nm, f, ANCHOR)


def same_pair(got, want):
    from ..ev import same
    if not isinstance(got, (list, tuple)) or len(got) != 2:
        return False
    for a, b in zip(got, want):
        if b is None:
            if a is not None:
                return False
        elif not same(a, b):
            return False
    return True
