"""Random interpretation of abstract values.

The abstract interpreter yields, for every observable, one closed term over the symbolic inputs.
Two terms (or a term and a specification) are compared by giving the inputs random exact rational
values and small sizes (Gulwani/Necula style random interpretation of value graphs): different
values refute equality, any part that the analysis could not describe makes the answer unknown.
Nothing of the analysed program is executed here; only the computed terms are evaluated.
"""
import math
import random
import re
import string
from fractions import Fraction as F
from . import terms as tm
from .terms import T, mk


class Unknown(Exception):
    pass


class Undef(Exception):
    """the term has no value for this valuation (bad index, division by zero, ...)"""


class Arr:
    __slots__ = ("sh", "d")

    def __init__(self, sh, d):
        self.sh, self.d = tuple(sh), list(d)

    def __eq__(self, o):
        return isinstance(o, Arr) and o.sh == self.sh and all(x == y for x, y in zip(self.d, o.d))

    def __hash__(self):
        return hash((self.sh, tuple(self.d)))

    def __repr__(self):
        return "arr%s" % (self.tolist(),)

    def tolist(self):
        def f(sh, d):
            if not sh:
                return d[0]
            if len(sh) == 1:
                return list(d)
            n = 1
            for k in sh[1:]:
                n *= k
            return [f(sh[1:], d[i * n:(i + 1) * n]) for i in range(sh[0])]
        return f(self.sh, self.d)

    def rows(self):
        n = 1
        for k in self.sh[1:]:
            n *= k
        if len(self.sh) == 1:
            return list(self.d)
        return [Arr(self.sh[1:], self.d[i * n:(i + 1) * n]) for i in range(self.sh[0])]


def num(x):
    if isinstance(x, bool):
        return F(int(x))
    if isinstance(x, (int, F)):
        return F(x)
    if isinstance(x, float):
        return x if math.isinf(x) or math.isnan(x) else F(x)
    if isinstance(x, Arr):
        return x
    raise Undef("number expected: %r" % (x,))


def toarr(v):
    """nested lists / numbers -> Arr or scalar"""
    if isinstance(v, (list, tuple)):
        rs = [toarr(x) for x in v]
        if not rs:
            return Arr((0,), [])
        if isinstance(rs[0], Arr):
            if any(not isinstance(r, Arr) or r.sh != rs[0].sh for r in rs):
                raise Undef("ragged")
            return Arr((len(rs),) + rs[0].sh, [x for r in rs for x in r.d])
        return Arr((len(rs),), rs)
    return v


def bc(f, *xs):
    """elementwise with numpy broadcasting"""
    if not any(isinstance(x, Arr) for x in xs):
        return f(*xs)
    nd = max(len(x.sh) for x in xs if isinstance(x, Arr))
    shs = [((1,) * (nd - len(x.sh)) + x.sh) if isinstance(x, Arr) else (1,) * nd for x in xs]
    out = []
    for k in range(nd):
        ds = {s[k] for s in shs} - {1}
        if len(ds) > 1:
            raise Undef("shape")
        out.append(ds.pop() if ds else 1)
    strides = []
    for s in shs:
        st, m = [], 1
        for k in reversed(range(nd)):
            st.append(0 if s[k] == 1 else m)
            m *= s[k]
        strides.append(st[::-1])
    res = []
    def rec(k, offs):
        if k == nd:
            res.append(f(*[x.d[o] if isinstance(x, Arr) else x for x, o in zip(xs, offs)]))
            return
        for i in range(out[k]):
            rec(k + 1, [o + i * st[k] for o, st in zip(offs, strides)])
    rec(0, [0] * len(xs))
    return Arr(out, res)


def ix(i):
    if isinstance(i, bool):
        raise Undef("bool index")
    if isinstance(i, (int,)):
        return i
    if isinstance(i, F) and i.denominator == 1:
        return int(i)
    raise Undef("index %r" % (i,))


def take(a, axis, i, scalar):
    if not isinstance(a, Arr) or axis >= len(a.sh):
        raise Undef("take")
    n = a.sh[axis]
    pre = 1
    for k in a.sh[:axis]:
        pre *= k
    post = 1
    for k in a.sh[axis + 1:]:
        post *= k
    idx = [i] if scalar else i
    js = []
    for j in idx:
        j = ix(j)
        if not -n <= j < n:
            raise Undef("index out of range")
        js.append(j % n)
    d = []
    for p in range(pre):
        for j in js:
            b = (p * n + j) * post
            d += a.d[b:b + post]
    sh = a.sh[:axis] + (() if scalar else (len(js),)) + a.sh[axis + 1:]
    if sh == ():
        return d[0]
    return Arr(sh, d)


def put(a, axis, idx, scalar, new):
    n = a.sh[axis]
    js = []
    for j in ([idx] if scalar else idx):
        j = ix(j)
        if not -n <= j < n:
            raise Undef("index out of range")
        js.append(j % n)
    pre = 1
    for k in a.sh[:axis]:
        pre *= k
    post = 1
    for k in a.sh[axis + 1:]:
        post *= k
    sub = a.sh[:axis] + (() if scalar else (len(js),)) + a.sh[axis + 1:]
    if isinstance(new, Arr):
        z = Arr(sub, [0] * (pre * len(js) * post)) if sub else None
        nv = bc(lambda x, y: x, new, z) if z is not None else new.d[0]
        if isinstance(nv, Arr) and nv.sh != sub:
            raise Undef("shape")
        vals = nv.d if isinstance(nv, Arr) else [nv]
    else:
        vals = [new] * (pre * len(js) * post)
    d = list(a.d)
    k = 0
    for p in range(pre):
        for j in js:
            b = (p * n + j) * post
            for q in range(post):
                d[b + q] = vals[k]
                k += 1
    return Arr(a.sh, d)


def transpose(a):
    if not isinstance(a, Arr) or len(a.sh) < 2:
        return a
    m, n = a.sh
    return Arr((n, m), [a.d[i * n + j] for j in range(n) for i in range(m)])


def matmul(a, b):
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        return bc(lambda x, y: num(x) * num(y), a, b)
    A = a if len(a.sh) == 2 else Arr((1,) + a.sh, a.d)
    B = b if len(b.sh) == 2 else Arr(b.sh + (1,), b.d)
    if A.sh[1] != B.sh[0]:
        raise Undef("matmul shape")
    m, k, n = A.sh[0], A.sh[1], B.sh[1]
    d = [sum((num(A.d[i * k + t]) * num(B.d[t * n + j]) for t in range(k)), F(0)) for i in range(m) for j in range(n)]
    if len(a.sh) == 1 and len(b.sh) == 1:
        return d[0]
    if len(a.sh) == 1:
        return Arr((n,), d)
    if len(b.sh) == 1:
        return Arr((m,), d)
    return Arr((m, n), d)


def gauss(a):
    """(det, inverse or None)"""
    if not isinstance(a, Arr) or len(a.sh) != 2 or a.sh[0] != a.sh[1]:
        raise Undef("square matrix expected")
    n = a.sh[0]
    M = [[num(x) for x in a.d[i * n:(i + 1) * n]] + [F(int(i == j)) for j in range(n)] for i in range(n)]
    det = F(1)
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            return F(0), None
        if p != c:
            M[c], M[p] = M[p], M[c]
            det = -det
        det *= M[c][c]
        f = M[c][c]
        M[c] = [x / f for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                g = M[r][c]
                M[r] = [x - g * y for x, y in zip(M[r], M[c])]
    return det, Arr((n, n), [x for r in M for x in r[n:]])


def rank(a):
    m, n = a.sh
    M = [[num(x) for x in a.d[i * n:(i + 1) * n]] for i in range(m)]
    r = 0
    for c in range(n):
        p = next((i for i in range(r, m) if M[i][c] != 0), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        for i in range(r + 1, m):
            f = M[i][c] / M[r][c]
            M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        r += 1
    return r


_SEGS = {}


def segs_of(t):
    r = _SEGS.get(t)
    if r is None:
        s = set()
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if not isinstance(x, T):
                if isinstance(x, tuple):
                    st += list(x)
                continue
            if x in seen:
                continue
            seen.add(x)
            if x.op in ("idx", "ord", "acc") and isinstance(x.args[0], str):
                s.add(x.args[0])
            st += list(x.args)
        r = _SEGS[t] = frozenset(s)
    return r


_FREE = {}
BINDERS = ("many", "opt", "tab", "alls", "anys", "sums")


def free_segs(t):
    """segments whose current member the term depends on (those it ranges over itself are left out)"""
    if not isinstance(t, T):
        return frozenset().union(*map(free_segs, t)) if isinstance(t, tuple) else frozenset()
    r = _FREE.get(t)
    if r is None:
        r = frozenset().union(*map(free_segs, t.args))
        if t.op in ("idx", "ord", "acc") and isinstance(t.args[0], str):
            r |= {t.args[0]}
        elif t.op in BINDERS and isinstance(t.args[0], str):
            r -= {t.args[0]} | set(t.args[0].split("\u00d7"))
        _FREE[t] = r
    return r


POOL = [F(0), F(1), F(-1), F(2), F(-2), F(3), F(-3), F(1, 2), F(-1, 2), F(5), F(-4), F(7, 3)]


def root(q):
    """square root of a rational, exact where it is rational, else to 40 digits"""
    q = F(q)
    n, d = q.numerator, q.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return F(a, b)
    k = 10 ** 80
    return F(math.isqrt(q.numerator * k // q.denominator), 10 ** 40)


SPARSE = [F(0), F(0), F(0), F(1), F(-1), F(2)]
TIES = [F(1), F(1), F(2), F(-1)]


class Ev:
    def __init__(self, seed, sizes=None, gen=None, maxsize=2, pool=POOL, force=None):
        self.force = force or {}
        self.drawn = set()
        self.rng = random.Random(seed)
        self.sizes = dict(sizes or {})
        self.gen = gen or {}
        self.maxsize = maxsize
        self.pool = pool
        self.vals = {}
        self.apps = {}
        self.bind = {}
        self.accs = {}
        self.memo = {}
        self.names = 0
        self.steps = 0

    # ---- sizes and indices
    def size(self, seg):
        s = seg.rstrip("'")
        if s in self.sizes:
            return self.sizes[s]
        if "\u00d7" in s:
            n = 1
            for p in s.split("\u00d7"):
                n *= self.size(p)
            return n
        u = tm.UNIV_OF.get(s)
        if u in tm.UDIM:
            n = ix(self.ev(tm.UDIM[u]))
            if n < 0:
                n = 0
            return n
        if s in tm.UNIV_OF or s in tm.UNIVERSE:
            n = self.rng.randint(1, self.maxsize)
            self.sizes[s] = n
            return n
        raise Unknown("size of " + s)

    def pos(self, seg, k):
        s = seg.rstrip("'")
        u = tm.UNIV_OF.get(s)
        off = 0
        if u is not None and u not in tm.UDIM:
            for x in tm.UNIVERSE[u]:
                if x == s:
                    break
                off += self.size(x)
        return off + k

    def with_bind(self, seg, k, f):
        old = self.bind.get(seg)
        self.bind[seg] = k
        try:
            return f()
        finally:
            if old is None:
                del self.bind[seg]
            else:
                self.bind[seg] = old

    def over(self, seg, f):
        """[f() for every element of the segment]"""
        if "\u00d7" in seg:
            ps = seg.split("\u00d7")
            def rec(k):
                if k < 0:
                    return [f()]
                out = []
                for j in range(self.size(ps[k])):
                    out += self.with_bind(ps[k], j, lambda: rec(k - 1))
                return out
            return rec(len(ps) - 1)
        return [self.with_bind(seg, k, f) for k in range(self.size(seg))]

    # ---- inputs
    def draw(self, t, py, lo=-math.inf, hi=math.inf):
        if py == "bool":
            return self.rng.random() < 0.5
        if py == "str":
            self.names += 1
            return "s%d_%s" % (self.names, self.rng.choice("abcdef"))
        iv = tm.IV.get(t)
        if iv:
            lo, hi = max(lo, iv[0]), min(hi, iv[1])
        self.drawn.add(t)
        if t in self.force:
            f = self.force[t]
            if isinstance(f, tm.T):
                f = self.vals.get(f, 0)
            if lo <= f <= hi and not isinstance(f, Arr) and (py != "int" or F(f).denominator == 1):
                return F(f)
        for _ in range(60):
            x = self.rng.choice(self.pool)
            if py == "int":
                x = F(math.floor(x))
            if lo <= x <= hi:
                return x
        if lo > -math.inf:
            return F(lo) + (1 if lo + 1 <= hi else 0)
        if hi < math.inf:
            return F(hi)
        raise Unknown("draw")

    def value(self, t):
        if t in self.vals:
            return self.vals[t]
        nm = t.args[0]
        md = tm.META.get(t)
        d = md.get("cap_def") if md else None
        if d is not None:
            try:
                v = self.vals[t] = self.ev(d)
                return v
            except Unknown:
                pass
        if nm in self.gen:
            v = self.gen[nm](self)
        elif md is not None and md.get("draw") and "rnd*" in self.gen:
            sh = [ix(self.ev(d)) for d in md["shape"]] if md.get("ndim") else None
            n = 1
            for k in sh or ():
                n *= k
            v = [self.gen["rnd*"](self, *md["draw"]) for _ in range(n)]
            v = Arr(sh, v) if sh is not None else v[0]
        elif md is None or not md.get("inp"):
            raise Unknown("symbol " + nm)
        elif md.get("ndim"):
            sh = [ix(self.ev(d)) for d in md["shape"]]
            n = 1
            for k in sh:
                n *= k
            v = Arr(sh, [self.draw(t, md.get("py") or "float") for _ in range(n)])
        else:
            v = self.draw(t, md.get("py") or "float")
        self.vals[t] = v
        return v

    # ---- evaluation
    def ev(self, t):
        self.steps += 1
        if self.steps > 400000:
            raise Unknown("budget")
        ss = segs_of(t)
        key = (t, tuple((s, self.bind.get(s), self.accs.get(s, (0,))[0]) for s in sorted(ss))) if ss else t
        if key in self.memo:
            r = self.memo[key]
            if isinstance(r, Exception):
                raise r
            return r
        try:
            m = getattr(self, "o_" + t.op, None)
            if m is None:
                raise Unknown("op " + t.op)
            r = m(*t.args)
        except (Unknown, Undef) as e:
            self.memo[key] = e
            raise
        except (TypeError, ZeroDivisionError, IndexError, KeyError, OverflowError, ValueError, AttributeError) as e:
            e2 = Undef("%s: %s" % (type(e).__name__, e))
            self.memo[key] = e2
            raise e2
        self.memo[key] = r
        return r

    def n(self, t):
        return num(self.ev(t))

    def o_sym(self, nm):
        return self.value(mk("sym", nm))

    def o_rx(self, mode, pattern, flags, a):
        import re
        return getattr(re.compile(pattern, flags), mode)(self.ev(a)) is not None

    def o_rxn(self, pattern, flags, a):
        import re
        return F(len(list(re.compile(pattern, flags).finditer(self.ev(a)))))

    def o_rxg(self, op, pattern, flags, a, i, k=None):
        import re
        r, s = re.compile(pattern, flags), self.ev(a)
        if k is None:
            m = getattr(r, op)(s)
        else:
            ms = list(r.finditer(s))
            k = ix(self.ev(k))
            m = ms[k] if k < len(ms) else None
        if m is None:
            raise Undef("no match")
        g = m.group(i)
        return "" if g is None and op == "findall" else g

    def o_norm(self, a):
        v = self.ev(a)
        q = sum(num(x) ** 2 for x in (v.d if isinstance(v, Arr) else [v]))
        return root(q)

    def o_app(self, nm, *a):
        return self.app(nm, *[self.ev(x) for x in a])

    def app(self, nm, *vs):
        """value of the caller's function nm at the given values; a list of numbers names the same point as an array"""
        vs = tuple(Arr((len(v),), list(v)) if isinstance(v, (list, tuple)) and v and not isinstance(v[0], (list, tuple)) else v for v in vs)
        k = (nm, vs)
        if k not in self.apps:
            s = mk("sym", nm)
            md = tm.META.get(s)
            if nm in self.gen:
                self.apps[k] = self.gen[nm](self, *vs)
            elif md is None or not md.get("inp"):
                raise Unknown("app " + nm)
            else:
                py = md.get("py") or "float"
                iv = md.get("iv") or (-math.inf, math.inf)
                if md.get("ndim"):
                    if md.get("shape"):
                        sh = [ix(self.ev(d)) for d in md["shape"]]
                    else:
                        sh = next(v for v in vs if isinstance(v, Arr)).sh
                    n = 1
                    for q in sh:
                        n *= q
                    self.apps[k] = Arr(sh, [self.draw(None, py, *iv) for _ in range(n)])
                else:
                    self.apps[k] = self.draw(None, py, *iv)
        return self.apps[k]

    def o_c(self, v):
        return v

    def o_lin(self, k, ms):
        out = F(k)
        for a, c in ms:
            v = self.ev(a)
            out = bc(lambda x, y: num(x) + F(c) * num(y), out, v)
        return out

    def o_prod(self, *a):
        out = F(1)
        for x in a:
            out = bc(lambda p, q: num(p) * num(q), out, self.ev(x))
        return out
    o_mul = o_prod

    def o_add(self, *a):
        out = self.ev(a[0])
        for x in a[1:]:
            out = bc(lambda p, q: num(p) + num(q), out, self.ev(x))
        return out

    def o_recip(self, a):
        def f(x):
            if num(x) == 0:
                raise Undef("1/0")
            if isinstance(num(x), float):
                return F(0)
            return 1 / num(x)
        return bc(f, self.ev(a))

    def o_abs(self, a):
        return bc(lambda x: abs(num(x)), self.ev(a))

    def o_floor(self, a):
        return bc(lambda x: F(math.floor(num(x))), self.ev(a))

    def o_ceil(self, a):
        return bc(lambda x: F(math.ceil(num(x))), self.ev(a))

    def o_int(self, a):
        return bc(lambda x: F(math.trunc(num(x))), self.ev(a))

    def o_round(self, a, *k):
        if k:
            raise Unknown("round digits")
        return bc(lambda x: F(round(num(x))), self.ev(a))

    def o_float(self, a):
        return bc(num, self.ev(a))

    def o_sign(self, a):
        return bc(lambda x: F((num(x) > 0) - (num(x) < 0)), self.ev(a))

    def o_mod(self, a, b):
        return bc(lambda x, y: num(x) % num(y), self.ev(a), self.ev(b))

    def o_pow(self, a, b):
        def f(x, y):
            y = num(y)
            if y.denominator != 1 or abs(y) > 6:
                raise Unknown("pow")
            return num(x) ** int(y)
        return bc(f, self.ev(a), self.ev(b))

    def o_min2(self, *a):
        out = self.ev(a[0])
        for x in a[1:]:
            out = bc(lambda p, q: min(num(p), num(q)), out, self.ev(x))
        return out

    def o_max2(self, *a):
        out = self.ev(a[0])
        for x in a[1:]:
            out = bc(lambda p, q: max(num(p), num(q)), out, self.ev(x))
        return out

    def guarded(self, seg, t, g=None):
        def f():
            if g is not None and not self.ev(g):
                return None
            return (self.ev(t),)
        return [x[0] for x in self.over(seg, f) if x is not None]

    def o_minof(self, seg, t, g=None):
        xs = [num(x) for x in self.guarded(seg, t, g)]
        if not xs:
            raise Undef("min of nothing")
        return min(xs)

    def o_maxof(self, seg, t, g=None):
        xs = [num(x) for x in self.guarded(seg, t, g)]
        if not xs:
            raise Undef("max of nothing")
        return max(xs)

    def o_sums(self, seg, t):
        out = F(0)
        for x in self.guarded(seg, t):
            out = bc(lambda p, q: num(p) + num(q), out, x)
        return out

    def o_sum(self, t):
        v = self.ev(t)
        if isinstance(v, Arr):
            return sum((num(x) for x in v.d), F(0))
        if isinstance(v, (list, tuple, set)):
            return sum((num(x) for x in v), F(0))
        raise Unknown("sum")

    def o_last(self, seg, t, g=None):
        xs = self.guarded(seg, t, g)
        if not xs:
            raise Undef("last of nothing")
        return xs[-1]

    def o_first(self, seg, c):
        for k in range(self.size(seg)):
            if self.with_bind(seg, k, lambda: self.ev(c)):
                return F(self.pos(seg, k))
        raise Undef("first of nothing")

    def o_fold(self, seg, t0, step, g):
        cur = self.ev(t0)
        old = self.accs.get(seg)
        try:
            for k in range(self.size(seg)):
                self.accs[seg] = (self.steps, cur)
                self.steps += 1
                def f():
                    if g is not None and g.op != "c" and not self.ev(g):
                        return self.accs[seg][1]
                    return self.ev(step)
                cur = self.with_bind(seg, k, f)
        finally:
            if old is None:
                self.accs.pop(seg, None)
            else:
                self.accs[seg] = old
        return cur

    def o_acc(self, seg, name=None):
        if seg not in self.accs:
            raise Unknown("acc")
        v = self.accs[seg][1]
        if name is not None:
            if not isinstance(v, dict) or name not in v:
                raise Unknown("acc name")
            return v[name]
        return v

    def o_mfold(self, seg, locs, which, g):
        """simultaneous fold; locs = ((name, t0, step), ...)"""
        cur = {nm: self.ev(t0) for nm, t0, _ in locs}
        old = self.accs.get(seg)
        try:
            for k in range(self.size(seg)):
                self.accs[seg] = (self.steps, cur)
                self.steps += 1
                def f():
                    if g is not None and g.op != "c" and not self.ev(g):
                        return self.accs[seg][1]
                    return {nm: self.ev(step) for nm, _, step in locs}
                cur = self.with_bind(seg, k, f)
        finally:
            if old is None:
                self.accs.pop(seg, None)
            else:
                self.accs[seg] = old
        return cur[which]

    def o_idx(self, seg):
        if seg in self.bind:
            return F(self.pos(seg, self.bind[seg]))
        raise Unknown("unbound index " + seg)

    def o_ord(self, seg):
        if seg in self.bind:
            return F(self.bind[seg])
        raise Unknown("unbound index " + seg)

    def o_size(self, seg):
        return F(self.size(seg))

    def o_ran(self, seg):
        return self.size(seg) > 0

    def o_len(self, t):
        if t.op == "where":
            return F(len(self.ev(t)))
        if t.op in ("many", "opt"):
            return F(len(self.items([t])))
        v = self.ev(t)
        if isinstance(v, Arr):
            return F(v.sh[0])
        return F(len(v))

    def o_dim(self, t, k):
        v = self.ev(t)
        return F(v.sh[k])

    def o_shape(self, t):
        return tuple(F(x) for x in self.ev(t).sh)

    def o_size_(self, t):
        return F(len(self.ev(t).d))

    def o_ndim(self, t):
        return F(len(self.ev(t).sh))

    # ---- booleans
    def o_not(self, a):
        return bc(lambda x: not x, self.ev(a))

    def nary(self, args, unit):
        arr = None
        err = None
        for x in args:
            try:
                v = self.ev(x)
            except (Undef, Unknown) as e:
                err = err or e
                continue
            if isinstance(v, Arr):
                arr = v if arr is None else bc((lambda p, q: bool(p) and bool(q)) if unit else (lambda p, q: bool(p) or bool(q)), arr, v)
            elif bool(v) != unit:
                return not unit
        if err is not None:
            raise err
        return arr if arr is not None else unit

    def o_and(self, *a):
        return self.nary(a, True)

    def o_or(self, *a):
        return self.nary(a, False)

    def o_lt0(self, a):
        return bc(lambda x: num(x) < 0, self.ev(a))

    def o_eq0(self, a):
        return bc(lambda x: num(x) == 0, self.ev(a))

    def o_ite(self, c, a, b):
        cv = self.ev(c)
        if isinstance(cv, Arr):
            return bc(lambda q, x, y: x if q else y, cv, self.ev(a), self.ev(b))
        return self.ev(a) if cv else self.ev(b)

    def o_alls(self, seg, c):
        return self.allsany(seg, c, True)

    def o_anys(self, seg, c):
        return self.allsany(seg, c, False)

    def allsany(self, seg, c, unit):
        err = None
        def f():
            try:
                return bool(self.ev(c))
            except (Undef, Unknown) as e:
                return e
        for v in self.over(seg, f):
            if isinstance(v, Exception):
                err = v
            elif v != unit:
                return not unit
        if err is not None:
            raise err
        return unit

    def o_all(self, t):
        v = self.ev(t)
        return all(v.d) if isinstance(v, Arr) else all(v) if isinstance(v, (list, tuple)) else bool(v)

    def o_any(self, t):
        v = self.ev(t)
        return any(v.d) if isinstance(v, Arr) else any(v) if isinstance(v, (list, tuple)) else bool(v)

    def o_isclose(self, x, y, rt, at, kind):
        r, a = self.n(rt), self.n(at)
        if kind.args[0] == "np":
            f = lambda p, q: num(p) == num(q) if unbounded(p) or unbounded(q) else abs(num(p) - num(q)) <= a + r * abs(num(q))
        else:
            f = lambda p, q: num(p) == num(q) or not (unbounded(p) or unbounded(q)) and abs(num(p) - num(q)) <= max(r * max(abs(num(p)), abs(num(q))), a)
        return bc(f, self.ev(x), self.ev(y))

    def o_truthy(self, t):
        v = self.ev(t)
        if isinstance(v, Arr):
            if len(v.d) != 1:
                raise Undef("truth of array")
            return bool(v.d[0])
        return bool(v)

    def o_nonempty(self, t):
        v = self.ev(t)
        return (v.sh[0] if isinstance(v, Arr) else len(v)) > 0

    def o_isnone(self, t):
        return self.ev(t) is None

    def o_eq(self, a, b):
        x, y = self.ev(a), self.ev(b)
        return x == y

    def o_eqs(self, a, b):
        return self.ev(a) == self.ev(b)

    def o_slt(self, a, b):
        return self.ev(a) < self.ev(b)

    def o_tlt(self, op, a, b):
        x, y = self.ev(a), self.ev(b)
        return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op]

    def o_cmp(self, op, a, b):
        x, y = self.ev(a), self.ev(b)
        if op in ("Lt", "LtE", "Gt", "GtE"):
            if isinstance(x, (int, F, float)):
                x, y = num(x), num(y)
            return {"Lt": lambda: x < y, "LtE": lambda: x <= y, "Gt": lambda: x > y, "GtE": lambda: x >= y}[op]()
        if op in ("Eq", "NotEq"):
            return (x == y) == (op == "Eq")
        raise Unknown("cmp " + op)

    def o_substr(self, a, b):
        return self.ev(a) in self.ev(b)

    def o_in(self, a, b):
        x = self.ev(a)
        c = self.ev(b)
        if isinstance(c, Arr):
            return x in c.d
        return x in c

    # ---- strings
    def o_cat(self, *a):
        return "".join(self.ev(x) for x in a)

    def o_fmt(self, fs, t):
        v = self.ev(t)
        if isinstance(v, str) and not fs:
            return v
        if not fs:
            return notation(t, v)
        if isinstance(fs, str) and isinstance(v, F) and fs[-1] in "eEfFgG%":
            return format(float(v), fs)
        raise Unknown("notation of a number")

    def o_str(self, t):
        v = self.ev(t)
        return v if isinstance(v, str) else notation(t, v)

    def o_char(self, t):
        raise Unknown("char")

    # ---- collections
    def items(self, xs):
        out = []
        for t in xs:
            if t.op == "many":
                out += self.flat(t.args[0], t.args[1])
            elif t.op == "opt":
                s = t.args[0]
                if t.args[1].op != "grd" and tm.UNIV_OF.get(s.split("\u00d7")[0]) is None:
                    raise Unknown("open multiplicity")
                out += self.flat(s, t.args[1])
            elif t.op == "grd":
                if self.ev(t.args[0]):
                    out += self.items([t.args[1]])
            else:
                out.append(self.ev(t))
        return out

    def flat(self, seg, t):
        rs = self.over(seg, lambda: self.items([t]))
        return [x for r in rs for x in r]

    def o_list(self, *xs):
        return self.items(xs)

    def o_olist(self, *xs):
        raise Unknown("open list")

    def o_setof(self, op, *xs):
        if op:
            raise Unknown("open set")
        return frozenset(hashable(x) for x in self.items(xs))

    def o_dict(self, op, *xs):
        if op:
            raise Unknown("open dict")
        d = {}
        for k, v in self.items(xs):
            d[hashable(k)] = v
        return d

    def o_kv(self, k, v):
        return (self.ev(k), self.ev(v))

    def o_tup(self, *xs):
        return tuple(self.ev(x) for x in xs)

    def o_inst(self, name, *kvs):
        return ("inst", name) + tuple((x.args[0].args[0], self.ev(x.args[1])) for x in kvs)

    def o_get(self, d, k):
        dv, kv = self.ev(d), hashable(self.ev(k))
        if kv not in dv:
            raise Undef("key")
        return dv[kv]

    def o_item(self, c, i):
        if not isinstance(i, T):
            v = self.ev(c)
            return list(v)[i] if not isinstance(v, Arr) else v.rows()[i]
        v, k = self.ev(c), self.ev(i)
        if isinstance(v, dict):
            return v[k]
        if isinstance(v, Arr):
            return v.rows()[ix(k)]
        if isinstance(v, (set, frozenset)):
            raise Undef("set item")
        return v[ix(k)]

    # ---- arrays
    def o_arr(self, nd, t):
        return toarr(self.ev(t))

    def o_mm(self, *fs):
        out = self.ev(fs[0])
        for f in fs[1:]:
            out = matmul(out, self.ev(f))
        return out

    def o_tr(self, a):
        return transpose(self.ev(a))

    def o_inv(self, a):
        v = self.ev(a)
        if not isinstance(v, Arr):
            return 1 / num(v)
        d, i = gauss(v)
        if i is None:
            raise Undef("singular")
        return i

    def o_det(self, a):
        return gauss(self.ev(a))[0]

    def o_eye(self, n):
        k = self.ev(n)
        if k == "n":
            raise Unknown("eye of unknown size")
        k = ix(k)
        return Arr((k, k), [F(int(i == j)) for i in range(k) for j in range(k)])

    def index(self, i, n):
        """list of positions denoted by a non-scalar index term"""
        if i.op == "slice":
            lo, hi, st = [self.ev(x) for x in i.args[:3]]
            f = lambda x: None if x is None else ix(x)
            return list(range(n))[slice(f(lo), f(hi), f(st))]
        v = self.ev(i)
        if isinstance(v, Arr):
            v = v.d
        if v and all(isinstance(x, bool) for x in v):
            if len(v) != n:
                raise Undef("mask length")
            return [k for k, x in enumerate(v) if x]
        return [ix(x) for x in v]

    def o_slice(self, *a):
        raise Unknown("slice value")

    def o_sel(self, a, axis, i, scalar):
        v = self.ev(a)
        if not isinstance(v, Arr):
            raise Undef("sel of scalar")
        if scalar:
            return take(v, axis, self.ev(i), True)
        return take(v, axis, self.index(i, v.sh[axis]), False)

    def o_elem(self, v, i):
        x = self.ev(v)
        if not isinstance(x, Arr):
            return x
        return take(x, 0, self.ev(i), True)

    def o_elem2(self, m, i, j):
        return take(take(self.ev(m), 0, self.ev(i), True), 0, self.ev(j), True)

    def unbound(self, t):
        return [s for s in sorted(free_segs(t)) if s not in self.bind and s not in self.accs] if isinstance(t, T) else []

    def o_upd(self, a, where, new):
        v = self.ev(a)
        if where[0] == "ax":
            _, axis, i, scalar = where
            free = self.unbound(i)
            if free:
                if len(free) > 1:
                    raise Unknown("update over two axes")
                for k in range(self.size(free[0])):
                    v = self.with_bind(free[0], k, lambda: put(v, axis, self.ev(i) if scalar else self.index(i, v.sh[axis]), scalar, self.ev(new)))
                return v
            return put(v, axis, self.ev(i) if scalar else self.index(i, v.sh[axis]), scalar, self.ev(new))
        if where[0] == "2":
            _, i, j = where
            if self.unbound(i) or self.unbound(j):
                free = sorted(set(self.unbound(i)) | set(self.unbound(j)))
                if len(free) > 1:
                    raise Unknown("update over two axes")
                for k in range(self.size(free[0])):
                    v = self.with_bind(free[0], k, lambda: self.put2(v, i, j, new))
                return v
            return self.put2(v, i, j, new)
        raise Unknown("upd")

    def put2(self, v, i, j, new):
        r = take(v, 0, self.ev(i), True)
        return put(v, 0, self.ev(i), True, put(r, 0, self.ev(j), True, self.ev(new)))

    def o_scaleat(self, a, axis, i, k):
        v = self.ev(a)
        def one(v, js):
            for j in js:
                old = take(v, axis, j, True)
                v = put(v, axis, j, True, bc(lambda x: num(x) * F(k), old))
            return v
        if i.op in ("list", "where", "slice") :
            return one(v, self.index(i, v.sh[axis]))
        free = self.unbound(i)
        if free:
            if len(free) > 1:
                raise Unknown("update over two axes")
            for q in range(self.size(free[0])):
                j = self.with_bind(free[0], q, lambda: self.ev(i))
                v = one(v, [j])
            return v
        return one(v, [self.ev(i)])

    def o_full(self, v, *dims):
        x = self.ev(v)
        sh = [ix(self.ev(d)) for d in dims]
        n = 1
        for k in sh:
            n *= k
        if isinstance(x, Arr):
            return bc(lambda p, q: p, x, Arr(sh, [0] * n))
        return Arr(sh, [x] * n)

    def o_where(self, t):
        v = self.ev(t)
        return Arr((sum(1 for x in v.d if x),), [F(k) for k, x in enumerate(v.d) if x])

    def o_firsttrue(self, t):
        v = self.ev(t)
        return F(next((k for k, x in enumerate(v.d) if x), 0))

    def o_rowb(self, t):
        v = self.ev(t)
        return Arr((1,) + v.sh, v.d) if isinstance(v, Arr) and len(v.sh) == 1 else v

    def o_colb(self, t):
        v = self.ev(t)
        return Arr(v.sh + (1,), v.d) if isinstance(v, Arr) and len(v.sh) == 1 else v

    def o_tab(self, seg, t, g, nd):
        xs = self.guarded(seg, t, None if g.op == "c" else g)
        if not xs:
            return Arr((0,) * 1, [])
        return toarr([x.tolist() if isinstance(x, Arr) else x for x in xs])

    def o_stack(self, nd, axis, *parts):
        ps = []
        for p, l in parts:
            v = self.ev(p)
            if not isinstance(v, Arr):
                v = Arr((1,), [v]) if nd == 1 else v
            if isinstance(v, Arr) and len(v.sh) < nd:
                v = Arr(v.sh[:axis] + (1,) + v.sh[axis:], v.d) if len(v.sh) == nd - 1 else v
            if not isinstance(v, Arr):
                ps.append(v)
                continue
            if v.sh == (0,) and nd > 1:
                continue
            ps.append(v)
        arrs = [p for p in ps if isinstance(p, Arr)]
        if not arrs:
            if nd == 1:
                return Arr((0,), [])
            raise Undef("empty stack")
        other = arrs[0].sh[:axis] + arrs[0].sh[axis + 1:]
        fixed = []
        for p in ps:
            if not isinstance(p, Arr):
                sh = other[:axis] + (1,) + other[axis:]
                n = 1
                for k in sh:
                    n *= k
                p = Arr(sh, [p] * n)
            if len(p.sh) != nd or p.sh[:axis] + p.sh[axis + 1:] != other:
                raise Undef("stack shape")
            fixed.append(p)
        if axis == 0:
            return Arr((sum(p.sh[0] for p in fixed),) + other, [x for p in fixed for x in p.d])
        rows = []
        for i in range(other[0]):
            for p in fixed:
                w = p.sh[1]
                rows += p.d[i * w:(i + 1) * w]
        return Arr((other[0], sum(p.sh[1] for p in fixed)), rows)

    def o_insert(self, a, axis, pos, val):
        v, p, x = self.ev(a), ix(self.ev(pos)), self.ev(val)
        n = v.sh[axis]
        if not -n <= p <= n:
            raise Undef("insert position")
        if p < 0:
            p += n
        other = v.sh[:axis] + v.sh[axis + 1:]
        m = 1
        for k in other:
            m *= k
        if isinstance(x, Arr):
            xv = bc(lambda s, t: s, x, Arr(other, [0] * m)).d if other else x.d
        else:
            xv = [x] * m
        if axis == 0:
            return Arr((n + 1,) + other, v.d[:p * m] + xv + v.d[p * m:])
        d = []
        for i in range(v.sh[0]):
            row = v.d[i * n:(i + 1) * n]
            d += row[:p] + [xv[i]] + row[p:]
        return Arr((v.sh[0], n + 1), d)

    def o_delete(self, a, axis, pos):
        v, p = self.ev(a), ix(self.ev(pos))
        n = v.sh[axis]
        if not -n <= p < n:
            raise Undef("delete position")
        p %= n
        return take(v, axis, [k for k in range(n) if k != p], False)

    def o_pos(self, lst, i):
        v, k = self.ev(lst), self.ev(i)
        if isinstance(v, Arr):
            v = v.d
        return F(v.index(k))

    def o_epos(self, lst, x):
        """position of a member while its sequence is enumerated (known when the members are distinct)"""
        v = self.ev(lst)
        v = list(v.rows() if isinstance(v, Arr) else v)
        k = self.ev(x)
        if isinstance(v, frozenset) or v.count(k) != 1:
            raise Unknown("position of a repeated member")
        return F(v.index(k))

    def o_index(self, lst, x):
        return F(list(self.ev(lst)).index(self.ev(x)))

    def o_count(self, lst, x):
        return F(list(self.ev(lst)).count(self.ev(x)))

    def o_rounddec(self, t, dec):
        n = ix(self.ev(dec))
        return bc(lambda x: F(round(num(x), n)), self.ev(t))

    def o_fn(self, name, nd, *args):
        vs = [self.ev(x) if isinstance(x, T) else x for x in args if not (isinstance(x, T) and x.op == "slice")]
        vs = [toarr(list(v)) if isinstance(v, (list, tuple)) else toarr(sorted(v)) if isinstance(v, (set, frozenset)) else v for v in vs]
        if name == "delete":
            v, n = vs[0], vs[1]
            out = set(self.index(args[2], v.sh[n]))
            if any(not -v.sh[n] <= k < v.sh[n] for k in out):
                raise Undef("delete position")
            out = {k % v.sh[n] for k in out}
            return take(v, n, [k for k in range(v.sh[n]) if k not in out], False)
        f = FNS.get(name)
        if f is None:
            raise Unknown("fn " + str(name))
        return f(*vs)

    def o_newaxis(self, t, i=None):
        raise Unknown("newaxis")

    def o_ext(self, nm, *a):
        if nm in ("max", "min", "sum") and len(a) >= 1:
            xs = self.items(a)
            ys = []
            for x in xs:
                ys += x.d if isinstance(x, Arr) else [x]
            if nm == "sum":
                return sum((num(y) for y in ys), F(0))
            if not ys:
                raise Undef(nm + " of nothing")
            return (max if nm == "max" else min)(ys)
        if nm in ("argmax", "argmin") and len(a) == 1:
            d = [num(x) for x in self.ev(a[0]).d]
            return F(d.index(max(d) if nm == "argmax" else min(d)))
        if nm in ("rank", "matrix_rank"):
            return F(rank(self.ev(a[0])))
        if nm in ("any*", "all*"):
            return self.allsany(a[0], a[1], nm == "all*")
        if nm in ("float", "int") and len(a) == 1:
            v = self.ev(a[0])
            if isinstance(v, str):
                return F(float(v)) if nm == "float" else F(int(v))
            return F(num(v)) if nm == "float" else F(math.trunc(num(v)))
        if nm == "sort":
            v = self.ev(a[0])
            return Arr(v.sh, sorted(v.d)) if isinstance(v, Arr) else sorted(v)
        if nm.startswith("str.") and nm[4:] in STR:
            v = [self.ev(x) for x in a]
            if isinstance(v[0], str):
                try:
                    r = getattr(v[0], nm[4:])(*[int(x) if isinstance(x, F) and x.denominator == 1 else x for x in v[1:]])
                except (TypeError, ValueError) as e:
                    raise Undef(str(e))
                return F(r) if isinstance(r, int) and not isinstance(r, bool) else r
        if nm == "round" and len(a) == 2:
            return F(round(float(num(self.ev(a[0]))), int(num(self.ev(a[1])))))
        if nm in ("log", "log10", "log2"):
            v = [float(num(self.ev(x))) for x in a]
            if v[0] <= 0 or len(v) > 1 and (v[1] <= 0 or v[1] == 1):
                raise Undef("logarithm")
            return F(getattr(math, nm)(*v))
        if nm == "format":
            v = [self.ev(x) for x in a]
            if isinstance(v[0], str) and all(isinstance(x, (str, F)) for x in v[1:]):
                nums = any(isinstance(x, F) for x in v[1:])
                for lit, field, spec, conv in string.Formatter().parse(v[0]):
                    if field is not None and (nums and (not spec or spec[-1] not in "eEfFgG%s") or conv):
                        raise Unknown("notation of a number")
                return v[0].format(*[float(x) if isinstance(x, F) else x for x in v[1:]])
        if nm == "str%":
            f, v = self.ev(a[0]), self.ev(a[1])
            v = tuple(v) if isinstance(v, (list, tuple)) else (v,)
            if isinstance(f, str) and all(isinstance(x, (str, F)) for x in v):
                kinds = re.findall(r"%[-+ #0]*\d*(?:\.\d+)?(.)", f.replace("%%", ""))
                if len(kinds) != len(v) or any(k not in ("s" if isinstance(x, str) else "dieEfFgG") for k, x in zip(kinds, v)):
                    raise Unknown("notation of a number")
                return f % tuple(x if isinstance(x, str) else int(x) if k in "di" else float(x) for k, x in zip(kinds, v))
        if nm == "maketrans":
            v = [self.ev(x) for x in a]
            if all(isinstance(x, str) for x in v):
                return str.maketrans(*v)
        if nm == "join":
            v = self.items(a)
            if all(isinstance(x, str) for x in v):
                return v[0].join(v[1:])
        raise Unknown("ext " + str(nm))


def notation(t, v):
    """the text of a number whose Python type the term tells"""
    if isinstance(v, F):
        if t.op in ("floor", "ceil", "int", "len", "size", "idx") and v.denominator == 1:
            return str(int(v))
        if t.op == "ext" and t.args[0] == "round" and len(t.args) == 3 or t.op == "float":
            return repr(float(v))
    raise Unknown("notation of a number")


STR = {"rstrip", "strip", "lstrip", "replace", "lower", "upper", "translate", "title", "zfill", "ljust", "rjust", "center", "expandtabs", "capitalize", "removeprefix", "removesuffix",
       "startswith", "endswith", "isdigit", "isalpha", "isalnum", "isspace", "isnumeric", "find", "count", "rfind"}


def along(f, v, axis):
    """f of every line of v along the axis (of all entries when the axis is None)"""
    if not isinstance(v, Arr):
        return f([v])
    if axis is None or len(v.sh) == 1:
        return f(v.d)
    rows = [r.d for r in (v if axis == 1 else transpose(v)).rows()]
    return Arr((len(rows),), [f(r) for r in rows])


def some(name, f):
    def g(xs):
        if not xs:
            raise Undef(name + " of nothing")
        return f(xs)
    return g


def product(xs):
    out = F(1)
    for x in xs:
        out *= num(x)
    return out


def nums(v):
    return [num(x) for x in v.d] if isinstance(v, Arr) else [num(v)]


def vec(xs):
    return Arr((len(xs),), xs)


def f_repeat(v, n):
    xs = v.d if isinstance(v, Arr) else [v]
    ns = [ix(k) for k in n.d] if isinstance(n, Arr) else [ix(n)] * len(xs)
    if len(ns) == 1:
        ns = ns * len(xs)
    if len(ns) != len(xs) or any(k < 0 for k in ns):
        raise Undef("repeat")
    return vec([x for x, k in zip(xs, ns) for _ in range(k)])


def f_insert(v, p, x):
    n, k = v.sh[0], ix(p)
    if not -n <= k <= n:
        raise Undef("insert position")
    k += n if k < 0 else 0
    return vec(v.d[:k] + x.d + v.d[k:])


def f_filldiag(v, x):
    d = list(v.d)
    for i in range(min(v.sh)):
        d[i * v.sh[1] + i] = x
    return Arr(v.sh, d)


def f_cumsum(v):
    out, s = [], F(0)
    for x in nums(v):
        s += x
        out.append(s)
    return vec(out)


FNS = {
    "sum": lambda v, axis: along(lambda xs: sum((num(x) for x in xs), F(0)), v, axis),
    "count_nonzero": lambda v, axis: along(lambda xs: F(sum(1 for x in xs if num(x) != 0)), v, axis),
    "max": lambda v, axis: along(some("max", lambda xs: max(num(x) for x in xs)), v, axis),
    "min": lambda v, axis: along(some("min", lambda xs: min(num(x) for x in xs)), v, axis),
    "prod": lambda v, axis: along(product, v, axis),
    "mean": lambda v, axis: along(some("mean", lambda xs: sum((num(x) for x in xs), F(0)) / len(xs)), v, axis),
    "argmax": lambda v, axis: along(some("argmax", lambda xs: F(xs.index(max(xs)))), v, axis),
    "argmin": lambda v, axis: along(some("argmin", lambda xs: F(xs.index(min(xs)))), v, axis),
    "all": lambda v, axis: along(lambda xs: all(bool(x) for x in xs), v, axis),
    "any": lambda v, axis: along(lambda xs: any(bool(x) for x in xs), v, axis),
    "append": lambda v, w: vec((v.d if isinstance(v, Arr) else [v]) + (w.d if isinstance(w, Arr) else [w])),
    "insert": f_insert, "repeat": f_repeat, "filldiag": f_filldiag, "cumsum": f_cumsum,
    "diagonal": lambda v: vec([v.d[i * v.sh[1] + i] for i in range(min(v.sh))]),
    "flat": lambda v: vec(v.d),
    "unique": lambda v: vec(sorted(set(v.d))),
    "sort": lambda v: vec(sorted(v.d)),
    "argsort": lambda v: vec([F(k) for k in sorted(range(len(v.d)), key=lambda k: v.d[k])]),
    "flip": lambda v: vec(v.d[::-1]),
    "diff": lambda v: vec([num(b) - num(a) for a, b in zip(v.d, v.d[1:])]),
    "setdiff1d": lambda v, w: vec(sorted(set(v.d) - set(w.d if isinstance(w, Arr) else [w]))),
    "union1d": lambda v, w: vec(sorted(set(v.d) | set(w.d))),
    "intersect1d": lambda v, w: vec(sorted(set(v.d) & set(w.d))),
    "isin": lambda v, w: vec([x in w.d for x in v.d]) if isinstance(v, Arr) else v in w.d,
}


def unbounded(v):
    return isinstance(v, float) and math.isinf(v)


def hashable(v):
    if isinstance(v, list):
        return tuple(hashable(x) for x in v)
    if isinstance(v, dict):
        return tuple(sorted((k, hashable(x)) for k, x in v.items()))
    if isinstance(v, set):
        return frozenset(v)
    return v


def same(x, y):
    """equality of evaluated observations (containers compared by content)"""
    if isinstance(x, Arr) or isinstance(y, Arr):
        if isinstance(x, (list, tuple)):
            x = toarr(x)
        if isinstance(y, (list, tuple)):
            y = toarr(y)
        return isinstance(x, Arr) and isinstance(y, Arr) and x == y
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, dict) and isinstance(y, dict):
        return set(x) == set(y) and all(same(x[k], y[k]) for k in x)
    if isinstance(x, bool) != isinstance(y, bool) and (isinstance(x, bool) and not isinstance(y, (int, F)) or isinstance(y, bool) and not isinstance(x, (int, F))):
        return False
    return x == y
