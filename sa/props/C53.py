"""Row reduction: a matrix is reported to be in row reduced echelon form exactly when it is, for fully symbolic matrices of every small
shape; reducing a matrix of symbols (of every pattern of zero and positive entries for which each pivot decision is settled) gives, as
terms, its row reduced echelon form, and leaves the matrix given alone."""
import itertools
import random
from .lpspec import *
from ..ev import Arr, Undef
from .. import terms as tm

TECHNIQUE = "abstract interpretation of fully symbolic small matrices; verdict term and reduced matrix compared with the definition of the row reduced echelon form"
NOTE = "Bounded: matrices of up to 3 rows and 4 columns; reduction for entries whose zero pattern settles the pivots. Entries within rounding of zero or one are out of scope. Trusted: the interpreter's models."
IS, TO = LPC + ".is_in_rref", LPC + ".to_rref"


def rref(M):
    M = [[F(x) for x in r] for r in M]
    r = 0
    for c in range(len(M[0])):
        k = next((i for i in range(r, len(M)) if M[i][c]), None)
        if k is None:
            continue
        M[r], M[k] = M[k], M[r]
        M[r] = [x / M[r][c] for x in M[r]]
        for i in range(len(M)):
            if i != r and M[i][c]:
                M[i] = [a - b * M[i][c] for a, b in zip(M[i], M[r])]
        r += 1
        if r == len(M):
            break
    return M


def near(m, n):
    """matrices in, or one change away from, the form"""
    def f(ev):
        g = ev.rng
        M = rref([[g.choice([0, 0, 1, 1, 2, -3]) for _ in range(n)] for _ in range(m)])
        k = g.random()
        if k < 0.25:
            g.shuffle(M)
        elif k < 0.5:
            M[g.randrange(m)][g.randrange(n)] = F(g.choice([0, 1, 2, -1]))
        elif k < 0.6:
            i, s = g.randrange(m), g.choice([2, -1])
            M[i] = [s * x for x in M[i]]
        elif k < 0.7 and m > 1:
            i, j = g.sample(range(m), 2)
            M[i] = [a + b for a, b in zip(M[i], M[j])]
        return Arr((m, n), [x for r in M for x in r])
    return f


def verdict(ck, m, n):
    nm = "verdict on %d by %d matrices" % (m, n)
    def go():
        w = ck.world()
        lp = LP(w, rows=["eq"] * m, cols=["nn"] * n, exact=True)
        t = w.desc(w.get(lp.r, "is_in_rref"))
        def spec(ev):
            M = V(ev, lp).rows
            return rref(M) == [list(r) for r in M]
        ck.equal(nm, w, t, spec, IS, n=60 if not ck.thorough else 400, gen={"A": near(m, n)}, rule="in row reduced echelon form", cmp=lambda a, b: bool(a) == b)
    ck.scen(nm, go, IS)


def pivots(pat):
    """the pattern settles every pivot: reducing generic positive values, the entries inspected are plain (never a difference)"""
    m, n = len(pat), len(pat[0])
    M = [[x for x in r] for r in pat]      # 0 zero, 1 plain, 2 sum/difference
    r = 0
    for c in range(n):
        if r == m:
            break
        if any(M[i][c] == 2 for i in range(r, m)):
            return False
        k = next((i for i in range(r, m) if M[i][c]), None)
        if k is None:
            continue
        M[r], M[k] = M[k], M[r]
        for i in range(m):
            if i != r and M[i][c]:
                for j in range(n):
                    if M[r][j]:
                        M[i][j] = 0 if j == c else 2 if M[i][j] else (3 if M[r][j] != 2 else 2)
                M[i] = [1 if x == 3 else x for x in M[i]]
        r += 1
    return True


def reduce(ck, pats, m, n, seq):
    nm = "reduction of %d by %d matrices%s" % (m, n, " /%d" % seq if seq else "")
    def go():
        for pat in pats:
            w = ck.world(exact=True, rounds=200)
            lp = LP(w, rows=["eq"], cols=["nn", "nn"], exact=True)
            # entries far from zero; here and there an exact one, which needs no division
            es = [[(C(1) if (seq + i * n + j + pats.index(pat)) % 3 == 0 else w.sc("a%d%d" % (i, j), lo=2)) if pat[i][j] else C(0) for j in range(n)] for i in range(m)]
            arr = w.do(lambda: w.I.call(Ext("numpy.array"), [w.lst(*[w.lst(*r) for r in es])], {}))
            before = w.desc(arr)
            st, v, excs = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, "to_rref"), [arr], {}))
            if excs and not w.I.imprecise:
                ck.add(nm, "violated", TO, "pattern %s ends with %s" % (pat, excs[0][1].name))
                return
            w.I.st = st
            if w.desc(arr) is not before:
                ck.add(nm, "violated", TO, "pattern %s: the matrix given is changed" % (pat,))
                return
            def spec(ev):
                return Arr((m, n), [x for r in rref([[ev.ev(w.desc(x)) for x in r] for r in es]) for x in r])
            if not ck.equal(nm + " " + str(pat), w, w.desc(v), spec, TO, n=3, rule="the reduced matrix"):
                return
            ck.absorb()
    ck.scen(nm, go, TO)


def run(ck):
    rnd = random.Random(ck.seed)
    for m, n in ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3), (2, 4)):
        verdict(ck, m, n)
    for m, n in ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (3, 4)):
        ps = [p for p in itertools.product(itertools.product((0, 1), repeat=n), repeat=m) if pivots(p)]
        keep = 300 if ck.thorough else 40
        if len(ps) > keep:
            ps = rnd.sample(ps, keep)
        for q in range(0, len(ps), 10):
            reduce(ck, ps[q:q + 10], m, n, q // 10)
