"""Canonical form: for a basis of a program in SEF the rewritten program is the original premultiplied by the
inverse of the basis columns, with the reduced objective c - c_B B^-1 A and constant z + c_B B^-1 b; an index set that is
no basis is rejected.  Decided on the abstract values of the result's observations."""
from .lpspec import *

ANCHOR = LPC + ".to_canonical_form"


def is_basis(v, B):
    if len(B) != v.m or any(not 1 <= j <= v.n for j in B):
        return False
    d, _ = gauss(arr2([[v.rows[i][j - 1] for j in B] for i in range(v.m)], v.m))
    return abs(d) >= TOL


def canon(v, B):
    M = arr2([[v.rows[i][j - 1] for j in B] for i in range(v.m)], v.m)
    d, inv = gauss(M)
    if inv is None:
        raise Skip()
    R = inv.rows()
    A = [[dot(R[i].d, v.col(j)) for j in range(v.n)] for i in range(v.m)]
    b = [dot(R[i].d, v.b) for i in range(v.m)]
    cb = [v.c[j - 1] for j in B]
    c = [v.c[j] - dot(cb, [A[i][j] for i in range(v.m)]) for j in range(v.n)]
    out = v.view()
    out.update(A=arr2(A, v.n), b=arr1(b), c=arr1(c), z=v.z + dot(cb, b))
    return out


def run(ck):
    for inp in (False, True):
        for asc in (False, True):
            nm = "canonical/%s/%s" % ("in_place" if inp else "copy", "sorted basis" if asc else "any basis order")
            def f():
                w = ck.world()
                lp = is_sef_lp(w)
                B = basis(w, "eq", lp.n, asc=asc)
                base = w.snapshot()
                res = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, "to_canonical_form"), [B], {"in_place": C(inp)}))
                g = gen_basis(lp, asc=asc)
                ck.outcome(nm + "/accepts exactly bases", w, (res[0], None, res[2]),
                           lambda ev: ("ok",) if is_basis(V(ev, lp), basis_of(ev)) else ("raise", {"ValueError"}), ANCHOR, gen=g, sizes=sef_sizes)
                if res[0] is None:
                    return
                w.I.st = res[0]
                v = view_lp(w, res[1])
                def spec(k):
                    def s(ev):
                        p = V(ev, lp)
                        Bv = basis_of(ev)
                        if not is_basis(p, Bv):
                            raise Skip()
                        return canon(p, Bv)[k]
                    return s
                for k in LP_VIEW:
                    ck.equal(nm + "/" + k, w, v[k], spec(k), ANCHOR, gen=g, sizes=sef_sizes, rule="canonical form, observation `%s`" % k)
            ck.scen(nm, f, ANCHOR)
