"""Maximising f is minimising -f: both runs are interpreted with the same uninterpreted f, gradient and Hessian, once as given and once
negated, and must give the same iterate as a term; any other objective is rejected with ValueError."""
from .uncspec import *
from .C49 import aslist
from ..scen import words

TECHNIQUE = "relational abstract interpretation: the two runs over uninterpreted functions are compared as terms"


def run(ck):
    for meth in METHODS:
        for kind in ("array", "list"):
            for lst in (False, True):
                for cap in (0, 1, 2) + ((3,) if meth == "newton_method" else ()):
                    if cap > 1 and (lst or kind == "list") and not ck.thorough:
                        continue
                    anchor = UC + "." + meth
                    nm = "%s/x as %s%s/%s rounds" % (meth, kind, ", derivatives as lists" if lst else "", cap)
                    def f():
                        w = ck.world(unroll=ROUNDS, rec_limit=30)
                        runs = []
                        for obj, sign in (("max", 1), ("min", -1)):
                            fs = fns(sign, lst)
                            r = w.new(UC, fs[0], C(obj))
                            st0 = w.I.st.copy()
                            x = point(w, kind)
                            runs.append(call(w, r, meth, x, fs, cap))
                            w.I.st = st0
                        (s1, v1, e1), (s2, v2, e2) = runs
                        k1, k2 = sorted(e.name for _, e in e1), sorted(e.name for _, e in e2)
                        ck.decide(nm + "/ways to end", w, (s1 is None) == (s2 is None) and k1 == k2, anchor, "maximising f ends with %s, minimising -f with %s" % ((s1 is not None, k1), (s2 is not None, k2)))
                        if s1 is None or s2 is None:
                            return
                        w.I.st = s1
                        t1 = w.desc(v1)
                        w.I.st = s2
                        t2 = w.desc(v2)
                        if t1 is t2:
                            ck.ok(nm + "/iterate", anchor, "the two terms are identical")
                        else:
                            ck.equal(nm + "/iterate", w, t1, lambda ev: aslist(ev.ev(t2)), anchor, n=200, rule="maximising f against minimising -f", cmp=lambda a, b: same(aslist(a), b))
                    ck.scen(nm, f, anchor)
    A = UC + ".__init__"
    for o in words("min", "max", "minimize", "maximise", "minmax") + [None, 0, 1, True, -1, "symbolic"]:
        nm = "objective %r" % (o,)
        def f():
            w = ck.world()
            fs = fns()
            v = w.sc("objective", py="str") if o == "symbolic" else C(o)
            res = w.I.run(lambda: w.I.call(w.cls(UC), [fs[0], v], {}))
            if o == "symbolic":
                names = {e.name for _, e in res[2]}
                facts = [(t, val) for t, val in (res[0].facts.items() if res[0] is not None else [])]
                ck.decide(nm, w, names == {"ValueError"}, A, "an arbitrary text must be rejected with ValueError unless it is `min` or `max`; analysis finds %s" % sorted(names))
            else:
                ck.outcome(nm, w, (res[0], None, res[2]), lambda ev: ("ok",) if o in ("min", "max") and isinstance(o, str) else ("raise", {"ValueError"}), A, n=1, rule="objective")
        ck.scen(nm, f, A)
