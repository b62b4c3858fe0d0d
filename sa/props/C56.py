"""The simplex method is its steps, one after another: started from a feasible basis it ends exactly where the documented steps end,
and what it returns proves the answer.  Decided on the abstract triple returned after at most a few rounds (programs whose run needs
more rounds are out of scope) and, for any number of rounds, with the single step replaced by a scripted summary."""
from .lpmeth import *
import ast
from .. import terms as tm
from .C09 import Hook
from .C13 import truth, solution, sgn
from .C16 import is_basis
from .C17 import gen_x, sg, step
from ..ev import same

TECHNIQUE = "abstract interpretation; terms of the returned solution, basis and certificate compared with the documented steps"
A1 = LPC + ".simplex"
A2 = LPC + ".two_phase_simplex"


def proves(v, sol, cert, end):
    """the certificate shows what the answer claims"""
    if end == "opt":
        if not isinstance(cert, Arr) or len(cert.d) != v.m:
            return False
        y = [num(e) for e in cert.d]
        return all(v.c[j] - dot(y, v.col(j)) <= 0 for j in range(v.n)) and dot(y, v.b) == dot(v.c, sol)
    if not isinstance(cert, (tuple, list)) or len(cert) != 2:
        return False
    x, d = ([num(e) for e in q.d] if isinstance(q, Arr) else None for q in cert)
    if x is None or d is None or len(x) != v.n or len(d) != v.n:
        return False
    return all(e >= 0 for e in x + d) and all(dot(r, x) == e for r, e in zip(v.rows, v.b)) and all(dot(r, d) == 0 for r in v.rows) and dot(v.c, d) > 0


def flipped(v):
    """phase one in standard equality form: rows, right-hand side and costs"""
    A, b = [], []
    for i in range(v.m):
        s = -1 if sg(v.b[i]) < 0 else 1
        A.append([s * e for e in v.rows[i]] + [F(int(i == k)) for k in range(v.m)])
        b.append(s * v.b[i])
    return A, b, [F(0)] * v.n + [F(-1)] * v.m


def multipliers(A, c, B):
    """y with y A_B = c_B"""
    d, inv = gauss(arr2([[r[j - 1] for j in B] for r in A], len(B)))
    if d == 0 or abs(d) < F(1, 10 ** 5):
        raise Skip()
    inv = [list(r.d) for r in inv.rows()]
    return [sum((c[B[i] - 1] * inv[i][k] for i in range(len(B))), F(0)) for k in range(len(B))]


class Script:
    """the first rounds of the method are given: each call of the single step returns the next basis of the script"""

    def __init__(self, w, bases):
        self.w, self.bases, self.calls = w, bases, []
        w.I.call_hook = self

    def __call__(self, I, f, args, kwargs):
        if f.name != "simplex_iteration" or f.cls is None or not args:
            return None
        k = len(self.calls)
        if k >= len(self.bases):
            if k == len(self.bases):
                self.note(I, args, kwargs)
            return None
        self.note(I, args, kwargs)
        hook, I.call_hook = I.call_hook, None
        try:
            p = I.call(I.getattr(args[0], "copy"), [], {})
            b = I.new(Lst("list", tuple(It(C(j)) for j in self.bases[k])))
        finally:
            I.call_hook = hook
        return Tup((NONE, b, p))

    def note(self, I, args, kwargs):
        basis = args[1] if len(args) > 1 else kwargs.get("basis")
        hook, I.call_hook = I.call_hook, None
        try:
            self.calls.append((view_in(self.w, I.st, args[0]), I.desc(basis) if basis is not None else None))
        finally:
            I.call_hook = hook


def run(ck):
    # the last round is the real one, the rounds before it are given
    for m, n, B, given in [(1, 2, [1], []), (1, 3, [2], []), (2, 3, [1, 2], []), (2, 3, [3, 1], []), (2, 4, [2, 4], []), (1, 2, [1], [[2]]), (1, 3, [3], [[2], [1]]), (2, 3, [2, 1], [[1, 3]]),
                           (2, 3, [1, 2], [[2, 3], [1, 3], [1, 2]]), (2, 4, [1, 2], [[1, 4], [3, 4]])] + ([(2, 4, [3, 4], []), (3, 4, [1, 2, 3], []), (3, 4, [1, 2, 3], [[2, 3, 4], [1, 2, 4]]), (2, 5, [2, 4], [])] if ck.thorough else []):
        nm = "simplex/%dx%d/from %s%s" % (m, n, B, "/rounds lead to %s" % given if given else "")
        last = given[-1] if given else B
        def f():
            w = ck.world(unroll=0)
            lp = LP(w, rows=["eq"] * m, cols=["nn"] * n, exact=True)
            v0 = {k: w.desc(x) if not isinstance(x, tm.T) else x for k, x in view_in(w, w.I.st, lp.r).items()}
            hk = Script(w, given)
            res = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, "simplex"), [basis_x(w, B)], {"show_steps": FALSE}))
            w.I.call_hook = None
            if len(hk.calls) < len(given):
                ck.add(nm, "unknown", A1, "the single step is called %d times" % len(hk.calls))
                return
            for i, (vw, bt) in enumerate(hk.calls):
                if bt is None:
                    continue
                ck.equal("%s/basis of round %d" % (nm, i + 1), w, S(bt, "any"), lambda ev: list(([B] + given)[i]), A1, n=2, rule="every round starts from the basis the round before returned")
                for k in ("A", "b", "c", "is_sef"):
                    ck.equal("%s/round %d/%s" % (nm, i + 1, k), w, vw[k], lambda ev: ev.ev(v0[k]), A1, n=4, rule="every round works on the program, `%s`" % k)

            def spec(ev):
                v = V(ev, lp)
                if not is_basis(v, last) or not is_basis(v, B):
                    raise Skip()
                kind, x, B2 = step(v, last)
                if kind not in ("opt", "unb"):
                    raise Skip()
                return ("ok", (v, kind, x, B2))

            def cmp(got, want):
                v, kind, x, B2 = want
                if not isinstance(got, (list, tuple)) or len(got) != 3:
                    return False
                if kind == "opt":
                    return same(got[0], x) and same(got[1], B2) and proves(v, [num(e) for e in x.d], got[2], kind)
                return got[0] is None and got[1] is None and proves(v, None, got[2], kind)
            ck.outcome(nm, w, res, spec, A1, gen=gen_x(lp, last), n=120 if not ck.thorough else 500, rule="answer and certificate", cmp=cmp)
        ck.scen(nm, f, A1)
    # what the two-phase method returns
    for m, n, B1 in [(1, 2, [3]), (1, 2, [1]), (2, 2, [3, 4]), (2, 3, [4, 5]), (2, 3, [1, 5]), (2, 3, [3, 4])] + ([(3, 3, [4, 5, 6]), (3, 3, [1, 5, 6]), (2, 4, [2, 6])] if ck.thorough else []):
        nm = "two phases/%dx%d/phase one ends at %s" % (m, n, B1)
        def f():
            w = ck.world()
            lp = LP(w, rows=["eq"] * m, cols=["nn"] * n, exact=True)
            def give(I, fn, args, nn, k):
                hook, I.call_hook = I.call_hook, None
                try:
                    if args[0] == lp.r:
                        return Tup((w.arr("x2", const(n)), I.new(Lst("list", tuple(It(C(9)) for _ in range(m)))), w.arr("y2", const(m))))
                    y = user_cert(I, args[0], B1)
                    return Tup((I.call(Ext("numpy.array"), [w.lst(*[C(float(j == n) + (0.5 if j > n else 0.0)) for j in range(m + n)])], {}), I.new(Lst("list", tuple(It(C(j)) for j in B1))), y))
                finally:
                    I.call_hook = hook
            Hook(w, names=("simplex",), give=give)
            st, v, ex = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, "two_phase_simplex"), [], {"show_steps": FALSE}))
            w.I.call_hook = None
            if st is None:
                ck.add(nm, "unknown", A2, "no normal return")
                return

            def spec(ev):
                p = V(ev, lp)
                A, b, c = flipped(p)
                y = multipliers(A, c, B1)
                return ("ok", [None, None, arr1(-e if sg(q) < 0 else e for e, q in zip(y, p.b))])
            w.I.st = st
            ck.outcome(nm, w, (st, v, ex), spec, A2, n=40 if not ck.thorough else 200, rule="certificate of infeasibility", cmp=lambda g, q: isinstance(g, (list, tuple)) and len(g) == 3 and g[0] is None and g[1] is None and same(g[2], q[2]))
        ck.scen(nm, f, A2)


def user_cert(I, p, B):
    """inv(A_B^T) c_B of the program p, as the method returns it"""
    lam = ast.parse("lambda A, c, B, inv: inv(A[:, B].T) @ c[B]", mode="eval").body
    return I.call(Fn(lam), [I.getattr(p, "A"), I.getattr(p, "c"), I.new(Lst("list", tuple(It(C(j - 1)) for j in B))), Ext("numpy.linalg.inv")], {})
