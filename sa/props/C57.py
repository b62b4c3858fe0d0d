"""A random program is a well-formed program of the size asked for, whatever is drawn: rows and columns as asked, one sense per row, a
valid objective, every variable of exactly one kind, entries of the magnitude asked for.  Decided on the abstract program that the
generator builds from unknown draws."""
from .lpmeth import *
from ..ev import Arr

TECHNIQUE = "abstract interpretation with unknown random draws; shape, lists and magnitude of the constructed program as terms"
A1 = LPC + ".random"
SEEN = ("A", "b", "c", "z", "objective", "inequalities", "free_variables", "negative_variables", "positive_variables", "is_sef")


def well_formed(got, m, n, mag):
    A, b, c, z, obj, ops, free, neg, pos, sef = got
    if not (isinstance(A, Arr) and isinstance(b, Arr) and isinstance(c, Arr)):
        return False
    if tuple(A.sh) != (m, n) or tuple(b.sh) != (m,) or tuple(c.sh) != (n,):
        return False
    kinds = [list(q.d) if isinstance(q, Arr) else list(q) for q in (free, neg, pos)]
    if sorted(int(e) for q in kinds for e in q) != list(range(1, n + 1)):
        return False
    if obj not in ("max", "min") or len(ops) != m or any(q not in ("=", "<=", ">=") for q in ops):
        return False
    if any(abs(e) > mag for q in (A, b, c) for e in q.d) or abs(z) > mag:
        return False
    return bool(sef) == (obj == "max" and len(kinds[2]) == n and all(q == "=" for q in ops))


def drawn(ev, how, of):
    """one outcome of a random draw"""
    if how == "choice":
        v = ev.rng.choice(of)
        return v if isinstance(v, str) else F(v)
    lo, hi = F(of[0]), F(of[1])
    return lo + (hi - lo) * ev.rng.choice((F(0), F(1, 2), F(1, 3), F(99, 100), F(1, 1000), F(2, 3), F(999999, 1000000)))


def run(ck):
    for m, n, mag in [(1, 1, 100), (2, 3, 10), (3, 2, 5), (2, 2, 1), (1, 4, 1000), (4, 1, 3), (0, 0, 0)][:6] + ([(3, 4, 7), (4, 3, 7), (5, 2, 1)] if ck.thorough else []):
        for how in ("positional", "named"):
            nm = "random/%dx%d/%s" % (m, n, how)
            def f():
                w = ck.world()
                def go():
                    fn = w.I.getattr(w.cls(LPC), "random")
                    r = w.I.call(fn, [C(m), C(n), C(mag)], {}) if how == "positional" else w.I.call(fn, [], {"columns": C(n), "magnitude": C(mag), "rows": C(m)})
                    return Tup(tuple(w.I.getattr(r, k) for k in SEEN))
                res = w.I.run(go)
                ck.outcome(nm, w, res, lambda ev: ("ok", None), A1, gen={"rnd*": drawn}, n=60 if not ck.thorough else 300, rule="a well-formed program of the size and magnitude asked for",
                           cmp=lambda got, want: isinstance(got, (list, tuple)) and len(got) == len(SEEN) and well_formed(got, m, n, mag))
            ck.scen(nm, f, A1)
    nm = "random/defaults"
    def g():
        w = ck.world()
        res = w.I.run(lambda: (lambda r: Tup(tuple(w.I.getattr(r, k) for k in SEEN)))(w.I.call(w.I.getattr(w.cls(LPC), "random"), [], {})))
        ck.outcome(nm, w, res, lambda ev: ("ok", None), A1, gen={"rnd*": drawn}, n=20, rule="four rows, six columns and entries up to a hundred unless told otherwise",
                   cmp=lambda got, want: isinstance(got, (list, tuple)) and len(got) == len(SEEN) and well_formed(got, 4, 6, 100))
    ck.scen(nm, g, A1)
