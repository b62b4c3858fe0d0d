"""Branch and bound: with the relaxation solver replaced by unknown solutions, the first subproblem is the relaxation,
each pair of subproblems is its parent plus one row bounding one fractional integral variable (floor on one side, ceiling
on the other) with everything else kept, no point with a fractional integral variable is returned, and the better answer
for the objective wins.  Decided on the abstract programs the solver is called on and on the abstract result."""
from .lpmeth import *
from ..check import possible

TECHNIQUE = "abstract interpretation with a summary (unknown solution) for the relaxation solver; subproblems and result compared with the branching rule"
anchor = IPC + ".branch_and_bound"


def integral(x):
    f = abs(x - round(x))
    if 0 < f < F(1, 10 ** 4):
        raise Skip()
    return f == 0


class Hook:
    def __init__(self, w, m, oracle):
        self.w, self.m, self.oracle, self.calls = w, m, oracle, []
        w.I.call_hook = self

    def __call__(self, I, f, args, kwargs):
        if f.name != "solve" or f.cls is None or not args:
            return None
        I.call_hook = None
        try:
            vw = view_in(self.w, I.st, args[0])
        finally:
            I.call_hook = self
        ops = vw["inequalities"]
        node = None
        if ops is not None and ops.op == "list" and all(a.op == "c" for a in ops.args):
            node = tuple(a.args[0] for a in ops.args)[self.m:]
        self.calls.append((node, vw, dict(I.st.facts)))
        return self.oracle(I, node)


def run(ck):
    N = 40 if not ck.thorough else 200
    cases = []
    for obj in ("max", "min"):
        for ints in (None, [1], [2], [2, 1]):
            for kids in ("both", "lower", "upper", "none"):
                cases.append((["le", "ge"], ["nn", "free"], obj, ints, kids))
        cases.append((["eq", "le"], ["neg", "nn"], obj, None, "both"))
        cases.append((["le"], ["nn"], obj, None, "deep"))
        cases.append((["le"], ["nn", "neg", "free"], obj, [3, 1], "both"))
    for rows, cols, obj, ints, kids in cases:
        m, n = len(rows), len(cols)
        lab = "branch/%s/%s/%s/%s/%s" % (obj, "+".join(rows), "+".join(cols), ints, kids)
        def f():
            w = ck.world()
            ex = [w.lst(*[C(i) for i in ints])] if ints is not None else []
            lp = LP(w, rows=rows, cols=cols, objective=obj, exact=True, cls=IPC, extra=ex)
            def sol(I, nm):
                return I.new(Nd(tm.sym(nm, ndim=1, shape=(const(n),), inp=True, py="float"), (const(n),), "float"))
            def whole(I, xs):
                return I.call(Ext("numpy.array"), [I.new(Lst("list", tuple(It(C(float(e))) for e in xs)))], {})
            LX, UX = [3, -2, 4][:n], [5, 1, -3][:n]
            def oracle(I, node):
                if node == ():
                    return sol(I, "xr")
                if node == ("<=",):
                    return whole(I, LX) if kids in ("both", "lower") else sol(I, "xl") if kids == "deep" else NONE
                if node == (">=",):
                    return whole(I, UX) if kids in ("both", "upper", "deep") else NONE
                return NONE
            hk = Hook(w, m, oracle)
            res = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, "branch_and_bound"), [], {}))
            w.I.call_hook = None
            idx = [i - 1 for i in ints] if ints is not None else list(range(n))
            def gx(ev):
                return arr1(ev.rng.choice(ev.pool) if ev.rng.random() < 0.4 else F(ev.rng.randrange(-3, 4)) for _ in range(n))
            gen = {"xr": gx, "xl": gx}
            def best(v, lo, up):
                if lo is None or up is None:
                    return lo or up
                a, b = dot(v.c, lo), dot(v.c, up)
                if abs(a - b) < F(1, 10 ** 5):
                    raise Skip()
                return lo if (a > b) == (obj == "max") else up
            def spec(ev):
                v = V(ev, lp)
                x = list(ev.ev(mk("sym", "xr")).d)
                if all([integral(x[i]) for i in idx]):
                    return ("ok", arr1(x))
                lo = [F(e) for e in LX] if kids in ("both", "lower") else None
                if kids == "deep":
                    l = list(ev.ev(mk("sym", "xl")).d)
                    lo = l if all([integral(l[i]) for i in idx]) else None
                r = best(v, lo, [F(e) for e in UX] if kids in ("both", "upper", "deep") else None)
                return ("ok", arr1(r) if r is not None else None)
            ck.outcome(lab + "/result", w, res, spec, anchor, n=N, gen=gen, rule="result of branching")
            roots = [c for c in hk.calls if c[0] == ()]
            kidcalls = [c for c in hk.calls if c[0] in (("<=",), (">=",))]
            if not roots or any(c[0] is None for c in hk.calls):
                ck.add(lab + "/root", "unknown", anchor, "first subproblem not recognised")
                return
            for k in LP_VIEW:
                ck.equal("%s/root %s" % (lab, k), w, roots[0][1][k], lambda ev: V(ev, lp).view()[k], anchor, n=5, rule="the first subproblem is the relaxation, `%s`" % k)
            sides = {c[0] for c in kidcalls}
            ck.decide(lab + "/two sides", w, len(sides) == 2, anchor, "subproblems with added bounds: %s" % sorted(sides))
            for q, (node, vw, facts) in enumerate(kidcalls):
                child(ck, "%s/subproblem %d" % (lab, q), w, lp, node, vw, facts, gen, idx, m, n)
        ck.scen(lab, f, anchor)


def child(ck, nm, w, lp, node, vw, facts, gen, idx, m, n):
    good, und = 0, None
    for t in range(40):
        ev = Ev("%s/%s/%s" % (ck.seed, nm, t), gen=gen)
        try:
            v = V(ev, lp)
            x = list(ev.ev(mk("sym", "xr")).d)
            if not possible(ev, facts):
                continue
            if all([integral(x[i]) for i in idx]):
                continue
            got = {k: ev.ev(vw[k]) for k in LP_VIEW}
        except Unknown as e:
            und = str(e)[:100]
            break
        except (Undef, Skip):
            continue
        ck.vals += 1
        A, b = [list(r.d) for r in got["A"].rows()], list(got["b"].d)
        why = None
        if A[:m] != v.rows or b[:m] != v.b or list(got["inequalities"])[:m] != v.ops:
            why = "the parent's constraints are not kept"
        elif len(A) != m + 1 or len(b) != m + 1:
            why = "not exactly one bound added"
        elif list(got["c"].d) != v.c or got["z"] != v.z or got["objective"] != v.obj:
            why = "the objective is not kept"
        elif list(got["free_variables"]) != v.free or list(got["negative_variables"]) != v.neg:
            why = "the sign restrictions are not kept"
        else:
            row = A[m]
            js = [j for j in range(n) if row[j] != 0]
            if len(js) != 1 or row[js[0]] != 1:
                why = "the added row is no bound on one variable"
            elif js[0] not in idx or x[js[0]].denominator == 1:
                why = "the bounded variable is not a fractional integral variable"
            else:
                fl = x[js[0]].numerator // x[js[0]].denominator
                if b[m] != (fl if node == ("<=",) else fl + 1):
                    why = "the bound is not the rounded value"
        if why:
            from ..check import show
            ck.add(nm, "violated", anchor, "%s: relaxation solution %s, subproblem A %s b %s %s" % (why, show(x), show(got["A"]), show(b), got["inequalities"]))
            return
        good += 1
    if und or not good:
        ck.add(nm, "unknown", anchor, und or "no valuation takes this path")
    else:
        ck.ok(nm, anchor, "parent plus one bound; %d valuations" % good)
