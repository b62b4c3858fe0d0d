"""Term domain: a value-numbering domain of interned terms kept in a normal form.

Scalars and arrays are linear combinations of atoms; matrix products are flat
chains with transposes and inverses pushed to the factors.  Two expressions
that a maintainer would call "the same formula" get the same term.  Intervals
and the sizes of index segments decide comparisons.
"""
from fractions import Fraction
import math

_TAB = {}
META = {}      # sym term -> dict(ndim, shape, py)
_NDIM = {}


class T:
    __slots__ = ("op", "args", "_s", "_h")

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (mk, (self.op,) + self.args)

    def __lt__(self, o):
        return key(self) < key(o)


def _freeze(a):
    if isinstance(a, (list,)):
        return tuple(_freeze(x) for x in a)
    return a


def mk(op, *args):
    k = (op, tuple((type(a).__name__ if isinstance(a, (bool, int, float)) else None, a) for a in args))
    t = _TAB.get(k)
    if t is None:
        t = T()
        t.op, t.args = op, args
        t._s = None
        t._h = len(_TAB)
        _TAB[k] = t
    return t


def key(t):
    """Deterministic ordering key."""
    if t._s is None:
        t._s = show(t)
    return t._s


def show(t):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x) for x in t) + ")"
        if isinstance(t, Fraction):
            return str(t.numerator) if t.denominator == 1 else "%g" % float(t)
        return repr(t)
    if t._s is not None:
        return t._s
    if t.op == "sym":
        r = str(t.args[0])
    elif t.op == "idx":
        r = "i[%s]" % t.args[0]
    elif t.op == "size":
        r = "|%s|" % t.args[0]
    elif t.op == "c":
        r = repr(t.args[0])
    elif t.op == "lin":
        k, ms = t.args
        parts = []
        for a, c in ms:
            if c == 1:
                parts.append(show(a))
            elif c == -1:
                parts.append("-" + show(a))
            else:
                parts.append(show(c) + "*" + show(a))
        if k != 0 or not parts:
            parts.append(show(k))
        r = "(" + " + ".join(parts) + ")"
    elif t.op == "mm":
        r = "(" + " @ ".join(show(a) for a in t.args) + ")"
    else:
        r = t.op + "(" + ",".join(show(a) for a in t.args) + ")"
    t._s = r
    return r


# ------------------------------------------------------------------ atoms

def sym(name, ndim=0, shape=(), py=None, **kw):
    t = mk("sym", name)
    META[t] = dict(ndim=ndim, shape=tuple(shape), py=py, **kw)
    return t


def const(v):
    """Numeric constant as lin, others as 'c'."""
    if isinstance(v, bool) or not isinstance(v, (int, float, Fraction)):
        return mk("c", v)
    if isinstance(v, float) and (math.isinf(v) or math.isnan(v)):
        return mk("c", v)
    return mk("lin", Fraction(v), ())


ZERO = const(0)
ONE = const(1)


def is_lin_const(t):
    return t.op == "lin" and not t.args[1]


def infinite(t):
    return t.op == "c" and isinstance(t.args[0], float) and math.isinf(t.args[0])


def lin_parts(t):
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return Fraction(0), {t: Fraction(1)}


def mk_lin(k, d):
    items = [(a, c) for a, c in d.items() if c != 0]
    if k == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: key(p[0]))
    return mk("lin", Fraction(k), tuple(items))


def add(a, b):
    if a.op == "c" or b.op == "c":
        for x, y in ((a, b), (b, a)):
            if infinite(x) and is_lin_const(y):
                return x
        return mk("add", *sorted((a, b), key=key))
    ka, da = lin_parts(a)
    kb, db = lin_parts(b)
    d = dict(da)
    for x, c in db.items():
        d[x] = d.get(x, Fraction(0)) + c
    return mk_lin(ka + kb, d)


def smul(k, a):
    """constant times term"""
    k = Fraction(k)
    if a.op == "c":
        if k and infinite(a):
            return a if k > 0 else mk("c", -a.args[0])
        return mk("mul", const(k), a)
    ka, da = lin_parts(a)
    return mk_lin(ka * k, {x: c * k for x, c in da.items()})


def neg(a):
    return smul(-1, a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if is_lin_const(a):
        return smul(a.args[0], b)
    if is_lin_const(b):
        return smul(b.args[0], a)
    # distribute over sums when both are linear with few terms
    ka, da = lin_parts(a)
    kb, db = lin_parts(b)
    if len(da) * len(db) > 16 or a.op == "c" or b.op == "c":
        return mk("mul", *sorted((a, b), key=key))
    out = const(ka * kb)
    for x, c in da.items():
        if kb:
            out = add(out, smul(c * kb, x))
        for y, e in db.items():
            fs = []
            for f in (x, y):
                fs += list(f.args) if f.op == "prod" else [f]
            fs.sort(key=key)
            # f * recip(f) cancels
            changed = True
            while changed:
                changed = False
                for f in fs:
                    if f.op == "recip" and f.args[0] in fs:
                        fs.remove(f)
                        fs.remove(f.args[0])
                        changed = True
                        break
            if not fs:
                out = add(out, const(c * e))
            elif len(fs) == 1:
                out = add(out, smul(c * e, fs[0]))
            else:
                out = add(out, mk_lin(0, {mk("prod", *fs): c * e}))
    if ka:
        for y, e in db.items():
            out = add(out, smul(ka * e, y))
    return out


def recip(a):
    if is_lin_const(a) and a.args[0] != 0:
        return const(1 / a.args[0])
    if a.op == "recip":
        return a.args[0]
    k, d = lin_parts(a)
    if k == 0 and len(d) == 1 and a.op == "lin":
        (x, c), = d.items()
        return smul(1 / c, recip(x))
    return mk("recip", a)


def div(a, b):
    return mul(a, recip(b))


# ------------------------------------------------------------------ arrays

def ndim(t):
    if t in _NDIM:
        return _NDIM[t]
    r = _ndim(t)
    if t.op != "sym":
        _NDIM[t] = r
    return r


def _maxn(xs):
    m = 0
    for x in xs:
        n = ndim(x)
        if n is None:
            return None
        m = max(m, n)
    return m


ELEMWISE = {"abs", "neg", "floor", "ceil", "round", "not", "and", "or", "lt0", "eq0", "le0", "prod", "recip",
            "add", "mul", "pow", "isclose", "int", "sqrt", "mod", "min2", "max2", "ite", "float"}


def _ndim(t):
    o, a = t.op, t.args
    if o == "sym":
        return META.get(t, {}).get("ndim")
    if o in ("idx", "size", "elem", "det", "dot", "sum", "len", "all", "any", "norm", "in", "any1", "maxof", "minof",
             "elem2", "pos", "ord", "alls", "anys", "sums", "first", "last", "truthy", "eqs", "ran", "dim", "rx"):
        return 0
    if o == "c":
        return 0
    if o == "lin":
        return _maxn([x for x, _ in a[1]]) if a[1] else 0
    if o in ELEMWISE:
        return _maxn(a)
    if o == "mm":
        f, l = ndim(a[0]), ndim(a[-1])
        if f is None or l is None:
            return None
        return max(0, f + l - 2)
    if o == "tr":
        return ndim(a[0])
    if o == "inv" or o == "eye":
        return 2
    if o == "sel":
        n = ndim(a[0])
        if n is None:
            return None
        return n - 1 if a[3] else n
    if o in ("upd", "insert", "delete", "scaleat"):
        return ndim(a[0])
    if o == "full":
        return len(a) - 1
    if o == "stack":
        return a[0]
    if o == "where":
        return 1
    if o in ("rowb", "colb"):
        return 2
    if o == "fn":
        return a[1]
    if o == "arr":
        return a[0]
    if o == "app":
        return META.get(mk("sym", a[0]), {}).get("ndim")
    return None


def rowb(t):
    """a vector seen as a matrix of one row, which broadcasts over any number of rows"""
    return mk("rowb", t) if ndim(t) == 1 else t


def colb(t):
    """a vector seen as a matrix of one column, which broadcasts over any number of columns"""
    return mk("colb", t) if ndim(t) == 1 else t


def align(ts, nds):
    """operands of one elementwise operation: vectors meeting a matrix become its rows"""
    if 2 not in nds:
        return ts
    return [rowb(t) if n == 1 else t for t, n in zip(ts, nds)]


def _sel_in(x, axis, idx, scalar):
    """sel of an operand of an elementwise operation (operands of one row or column broadcast)"""
    if not scalar and (x.op == "colb" and axis == 1 or x.op == "rowb" and axis == 0):
        return x
    return sel(x, axis, idx, scalar)


def tr(a):
    n = ndim(a)
    if a.op == "rowb":
        return mk("colb", a.args[0])
    if a.op == "colb":
        return mk("rowb", a.args[0])
    if n is not None and n < 2:
        return a
    if a.op == "tr":
        return a.args[0]
    if a.op == "eye":
        return a
    if a.op == "inv":
        return inv(tr(a.args[0]))
    if a.op == "lin":
        k, d = lin_parts(a)
        if k == 0:
            out = ZERO
            for x, c in d.items():
                out = add(out, smul(c, tr(x)))
            return out
    if a.op == "mm":
        return mm_chain([tr(x) for x in reversed(a.args)])
    if a.op == "sel" and not a.args[3]:
        return sel(tr(a.args[0]), 1 - a.args[1], a.args[2], False)
    if a.op == "upd" and a.args[1][0] == "ax":
        return upd(tr(a.args[0]), ("ax", 1 - a.args[1][1]) + a.args[1][2:], tr(a.args[2]))
    if a.op == "scaleat":
        return scaleat(tr(a.args[0]), 1 - a.args[1], a.args[2], a.args[3])
    return mk("tr", a)


def inv(a):
    if a.op == "inv":
        return a.args[0]
    if a.op == "eye":
        return a
    k, d = lin_parts(a)
    if a.op == "lin" and k == 0 and len(d) == 1:
        (x, c), = d.items()
        return smul(1 / c, inv(x))
    if a.op == "mm" and all(ndim(x) == 2 for x in a.args) and all(x.op == "inv" or x.op in ("eye",) for x in a.args):
        return mm_chain([inv(x) for x in reversed(a.args)])
    return mk("inv", a)


def _expand(x):
    """list of (coef, chain) for a matrix/vector term"""
    k, d = lin_parts(x)
    if x.op == "lin":
        if k != 0 or any(a.op in ("rowb", "colb") or ndim(a) == 0 for a in d):
            return None
        out = []
        for a, c in d.items():
            out.append((c, list(a.args) if a.op == "mm" else [a]))
        return out
    if x.op == "mm":
        return [(Fraction(1), list(x.args))]
    return [(Fraction(1), [x])]


def mm(a, b):
    ea, eb = _expand(a), _expand(b)
    if ea is None or eb is None:
        return mk("mm", a, b)
    out = ZERO
    # a product that is a vector is kept as matrix ... vector; as a left factor it is vector matrix ...
    ea = [(c, [tr(f) for f in reversed(x)] if len(x) > 1 and ndim(x[-1]) == 1 and ndim(x[0]) != 1 else x) for c, x in ea]
    for ca, xa in ea:
        for cb, xb in eb:
            out = add(out, smul(ca * cb, mm_chain(xa + xb)))
    return out


def mm_chain(fs):
    fs = list(fs)
    # vectors inside: a (row-vector-matrix chain) result times something
    i = 0
    changed = True
    while changed:
        changed = False
        for i in range(len(fs) - 1):
            x, y = fs[i], fs[i + 1]
            if (x.op == "inv" and x.args[0] is y) or (y.op == "inv" and y.args[0] is x):
                rest = fs[:i] + fs[i + 2:]
                fs = rest if rest else [mk("eye", mk("dim", x.args[0] if x.op == "inv" else x, const(0)))]
                changed = True
                break
            if x.op == "eye" and len(fs) > 1:
                fs = fs[:i] + fs[i + 1:]
                changed = True
                break
            if y.op == "eye":
                fs = fs[:i + 1] + fs[i + 2:]
                changed = True
                break
    if len(fs) == 1:
        return fs[0]
    # scaled factors come out
    nd = [ndim(f) for f in fs]
    # interior vectors split the chain: (… v)(w …)
    if nd[0] == 1 and nd[-1] != 1:
        fs = [tr(f) for f in reversed(fs)]
    elif nd[0] == 1 and nd[-1] == 1:
        alt = [tr(f) for f in reversed(fs)]
        if tuple(map(key, alt)) < tuple(map(key, fs)):
            fs = alt
    # transposing may have produced sums / inverses that cancel now
    for i in range(len(fs) - 1):
        x, y = fs[i], fs[i + 1]
        if (x.op == "inv" and x.args[0] is y) or (y.op == "inv" and y.args[0] is x):
            return mm_chain(fs)
    return mk("mm", *fs)


def nth_plain(lst, i):
    """the k-th member of a list whose members are all single and unconditional"""
    if lst.op == "list" and is_const_num(i) and all(isinstance(x, T) and x.op not in ("grd", "many", "opt") for x in lst.args):
        k = i.args[0]
        if k == int(k) and 0 <= k < len(lst.args):
            return lst.args[int(k)]
    return None


def is_const_num(i):
    return isinstance(i, T) and i.op == "lin" and not i.args[1]


def sel(a, axis, idx, scalar):
    """select along an axis; idx is a term; scalar tells whether the axis is dropped"""
    if a.op == "lin":
        k, d = lin_parts(a)
        if k == 0 or True:
            out = const(k) if k else ZERO
            for x, c in d.items():
                out = add(out, smul(c, _sel_in(x, axis, idx, scalar)))
            return out
    if scalar and ndim(a) == 1 and axis == 0:
        return elem(a, idx)
    if a.op == "rowb":
        if axis == 0 and scalar:
            return a.args[0]
        if axis == 1:
            return mk("full", elem(a.args[0], idx), ONE) if scalar else mk("rowb", sel(a.args[0], 0, idx, False))
        return mk("sel", a, axis, idx, bool(scalar))
    if a.op == "colb":
        if axis == 1 and scalar:
            return a.args[0]
        if axis == 0:
            return mk("full", elem(a.args[0], idx), ONE) if scalar else mk("colb", sel(a.args[0], 0, idx, False))
        return mk("sel", a, axis, idx, bool(scalar))
    if a.op == "sel" and a.args[1] == axis and not a.args[3] and scalar:
        j = nth_plain(a.args[2], idx)
        if j is not None:
            return sel(a.args[0], axis, j, True)
    if a.op == "tr":
        n = ndim(a)
        if scalar and n == 2:
            return sel(a.args[0], 1 - axis, idx, True)
    if a.op in ("stack", "insert", "delete") and scalar:
        r = stack_sel(a, axis, idx)
        if r is not None:
            return r
    if a.op == "ite":
        return ite(*[_sel_in(x, axis, idx, scalar) if (ndim(x) or 0) > 0 else x for x in a.args])
    if a.op == "full":
        dims = list(a.args[1:])
        if scalar:
            del dims[axis]
            return mk("full", a.args[0], *dims) if dims else a.args[0]
    if a.op == "upd" and a.args[1][0] == "ax" and a.args[1][1] == axis and a.args[1][2] is idx and a.args[1][3] == scalar:
        return a.args[2]
    if a.op == "upd" and a.args[1][0] == "ax" and a.args[1][1] == axis and disjoint_idx(a.args[1][2], idx):
        return sel(a.args[0], axis, idx, scalar)
    if a.op == "scaleat" and a.args[1] == axis and a.args[2] is idx:
        return smul(a.args[3], sel(a.args[0], axis, idx, scalar))
    if a.op == "scaleat" and a.args[1] == axis and disjoint_idx(a.args[2], idx):
        return sel(a.args[0], axis, idx, scalar)
    if a.op == "mm" and ndim(a) == 2:
        if axis == 0:
            return mm(sel(a.args[0], 0, idx, scalar), mm_chain(a.args[1:]))
        return mm(mm_chain(a.args[:-1]), sel(a.args[-1], 1, idx, scalar))
    if a.op in ELEMWISE:
        return mk(a.op, *[_sel_in(x, axis, idx, scalar) if isinstance(x, T) and (ndim(x) or 0) > 0 else x for x in a.args])
    return mk("sel", a, axis, idx, bool(scalar))


def stack(nd, axis, parts):
    """parts: [(term, length term)]; nested stacks along the same axis are flattened"""
    out = []
    for p, l in parts:
        if p.op == "stack" and p.args[0] == nd and p.args[1] == axis:
            out += list(p.args[2:])
        else:
            out.append((p, l))
    if len(out) == 1 and ndim(out[0][0]) == nd:
        return out[0][0]
    return mk("stack", nd, axis, *out)


def before(i, j):
    """True if index i < j for certain, False if i >= j for certain"""
    d = sub(i, j)
    lo, hi = bounds(d)
    if hi <= -1:
        return True
    if lo >= 0:
        return False
    return None


def stack_sel(v, axis, i):
    """content of v at scalar index i along axis (None when not resolvable)"""
    o = v.op
    if o == "stack":
        if v.args[1] != axis:
            parts = []
            for p, l in v.args[2:]:
                if ndim(p) == v.args[0]:
                    q = sel(p, axis, i, True)
                else:          # a vector stacked as one row/column
                    q = elem(p, i)
                parts.append((q, l))
            return stack(v.args[0] - 1, 0, parts)
        off = ZERO
        for p, l in v.args[2:]:
            end = add(off, l)
            lo, hi = before(i, off), before(i, end)
            if lo is False and hi is True:
                if ndim(p) == v.args[0] - 1 and ndim(p) != v.args[0]:
                    return p
                if v.args[0] == 1:
                    return elem(p, sub(i, off))
                return sel(p, axis, sub(i, off), True)
            if hi is not False:
                return None
            off = end
        return None
    if o == "insert" and v.args[1] == axis:
        a, _, pos, val = v.args
        if i is pos:
            return val
        b = before(i, pos)
        if b is True:
            return sel(a, axis, i, True)
        if b is False and before(pos, i) is True:
            return sel(a, axis, sub(i, ONE), True)
    if o == "insert" and ndim(v) == 2:
        a, ax, pos, val = v.args
        return insert(sel(a, axis, i, True), 0, pos, elem(val, i) if ndim(val) else val)
    if o == "delete" and v.args[1] == axis:
        a, _, pos = v.args
        b = before(i, pos)
        if b is True:
            return sel(a, axis, i, True)
        if b is False:
            return sel(a, axis, add(i, ONE), True)
    return None


def insert(a, axis, pos, val):
    return mk("insert", a, axis, pos, val)


def disjoint_idx(i, j):
    """two index terms that certainly address different positions"""
    if i.op == "list" or j.op == "list":
        li = i.args if i.op == "list" else (i,)
        lj = j.args if j.op == "list" else (j,)
        if all(isinstance(x, T) for x in li + lj):
            def member(x):
                while x.op in ("many", "opt", "grd"):
                    x = x.args[1]
                return x
            li, lj = [member(x) for x in li], [member(x) for x in lj]
            return all(disjoint_idx(x, y) for x in li for y in lj)
        return False
    if i.op == "first" and i in FIRST_BASE:
        i = FIRST_BASE[i]
    if j.op == "first" and j in FIRST_BASE:
        j = FIRST_BASE[j]
    if i.op == "idx" and j.op == "idx":
        a, b = i.args[0].rstrip("'"), j.args[0].rstrip("'")
        if a != b:
            return UNIV_OF.get(a) is not None and UNIV_OF.get(a) == UNIV_OF.get(b)
        return False
    d = sub(i, j)
    if is_lin_const(d) and d.args[0] != 0:
        return True
    if i.op == "where" or j.op == "where":
        return False
    lo, hi = bounds(d)
    return lo > 0 or hi < 0


def elem(v, i):
    """element i of a vector term"""
    n = ndim(v)
    if n == 0:
        return v
    o = v.op
    if o == "lin":
        k, d = lin_parts(v)
        out = const(k)
        for x, c in d.items():
            out = add(out, smul(c, elem(x, i)))
        return out
    if o in ELEMWISE:
        if o == "prod":
            out = ONE
            for x in v.args:
                out = mul(out, elem(x, i))
            return out
        if o == "recip":
            return recip(elem(v.args[0], i))
        return norm_bool(mk(o, *[elem(x, i) if isinstance(x, T) else x for x in v.args]))
    if o == "full":
        return v.args[0]
    if o == "ite":
        return ite(v.args[0], elem(v.args[1], i), elem(v.args[2], i))
    if o in ("stack", "insert", "delete"):
        r = stack_sel(v, 0, i)
        if r is not None:
            return r
    if o == "upd" and v.args[1][0] == "ax":
        j, sc = v.args[1][2], v.args[1][3]
        if sc and j is i:
            return v.args[2]
        if not sc and j.op == "list":
            members = j.args
            if i in members or i.op == "idx" and mk("many", i.args[0], i) in members:
                nv = v.args[2]
                if ndim(nv) == 0:
                    return nv
                return mk("elem", nv, mk("pos", j, i))
        if disjoint_idx(i, j):
            return elem(v.args[0], i)
    if o == "scaleat":
        if v.args[2] is i:
            return smul(v.args[3], elem(v.args[0], i))
        if disjoint_idx(v.args[2], i):
            return elem(v.args[0], i)
    if o == "rstack":
        # positions are resolved only for stacked scalars at known offsets
        pass
    if o == "mm" and ndim(v.args[0]) == 2:
        row = sel(v.args[0], 0, i, True)
        return mm(row, mm_chain(v.args[1:]))
    if o == "sel" and ndim(v.args[0]) == 1 and not v.args[3]:
        base, _, idx, _ = v.args
        j = nth_plain(idx, i)
        if j is not None:
            return elem(base, j)
        if idx.op == "slice":
            a, b = idx.args[0], idx.args[1]
            if a.op == "c" and a.args[0] is None:
                return elem(base, i)
            return elem(base, add(i, a))
    if o == "sel" and ndim(v.args[0]) == 2 and v.args[3]:
        # row/col vector element
        base, axis, idx, _ = v.args
        if axis == 0:
            return mk("elem2", base, idx, i)
        return mk("elem2", base, i, idx)
    return mk("elem", v, i)





def upd(a, where, new):
    """functional update.  where = ('ax', axis, idx, scalar) | ('2', i, j)"""
    if where[0] == "ax":
        _, axis, idx, scalar = where
        old = sel(a, axis, idx, scalar)
        # a constant multiple of the old content -> scaleat
        k = ratio(new, old)
        if k is not None:
            if a.op == "scaleat" and a.args[1] == axis and a.args[2] is idx:
                # old already contains the factor
                return scaleat(a.args[0], axis, idx, a.args[3] * k)
            return scaleat(a, axis, idx, k)
        if a.op == "upd" and a.args[1] == where:
            return upd(a.args[0], where, new)
    return mk("upd", a, where, new)


def ratio(new, old):
    if new is old:
        return Fraction(1)
    ko, do = lin_parts(old)
    kn, dn = lin_parts(new)
    if not do or set(do) != set(dn):
        return None
    r = None
    for a in do:
        q = dn[a] / do[a]
        if r is None:
            r = q
        elif q != r:
            return None
    if kn != ko * r:
        return None
    return r


def scaleat(a, axis, idx, k):
    if k == 1:
        return a
    return mk("scaleat", a, axis, idx, Fraction(k))


# ------------------------------------------------------------------ booleans

def ite(c, a, b):
    if a is b:
        return a
    if c.op == "c":
        return a if c.args[0] else b
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "c" and b.op == "c" and isinstance(a.args[0], bool) and isinstance(b.args[0], bool):
        return c if a.args[0] else bnot(c)
    if a.op == "c" and isinstance(a.args[0], bool):
        return bool_nary("or", [c, b]) if a.args[0] else bool_nary("and", [bnot(c), b])
    if b.op == "c" and isinstance(b.args[0], bool):
        return bool_nary("or", [bnot(c), a]) if b.args[0] else bool_nary("and", [c, a])
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.op in ("upd", "scaleat") and ndim(c) == 0 and a.args[0] is b:
        r = gated_upd(c, a, False)
        if r is not None:
            return r
    if b.op in ("upd", "scaleat") and ndim(c) == 0 and b.args[0] is a:
        r = gated_upd(c, b, True)
        if r is not None:
            return r
    if a.op != "c" and b.op != "c":
        ka, da = lin_parts(a)
        kb, db = lin_parts(b)
        com = {x: k for x, k in da.items() if db.get(x) == k}
        if com:
            base = mk_lin(0, com)
            return add(base, ite(c, sub(a, base), sub(b, base)))
    return mk("ite", c, a, b)


def gated_upd(c, u, neg):
    """ite(c, u, base) where u changes one place of its base: the place gets the gated content"""
    base = u.args[0]
    if u.op == "scaleat":
        where, new = ("ax", u.args[1], u.args[2], True), None
        if u.args[2].op != "idx":
            return None
    else:
        where, new = u.args[1], u.args[2]
        if where[0] == "ax" and (not where[3] or where[2].op != "idx"):
            return None
        if where[0] == "2" and not (where[1].op == "idx" or where[2].op == "idx"):
            return None
    if where[0] == "ax":
        old = sel(base, where[1], where[2], True)
        if new is None:
            new = smul(u.args[3], old)
    elif where[0] == "2":
        old = elem(sel(base, 0, where[1], True), where[2])
    else:
        return None
    return mk("upd", base, where, ite(c, old, new) if neg else ite(c, new, old))


def alls(seg, cond):
    if cond.op == "c":
        return cond
    if cond.op == "and":
        return bool_nary("and", [alls(seg, x) for x in cond.args])
    if not mentions_idx(cond, seg):
        return cond
    return mk("alls", seg, cond)


def anys(seg, cond):
    return bnot(alls(seg, bnot(cond)))


def mentions_idx(t, seg):
    return mentions(t, mk("idx", seg)) or mentions(t, mk("ord", seg))


def norm_bool(t):
    if t.op == "ite":
        return ite(*t.args)
    if t.op == "alls":
        return alls(*t.args)
    if t.op in ("lt0", "eq0"):
        return lt0(t.args[0]) if t.op == "lt0" else eq0(t.args[0])
    if t.op == "not":
        x = t.args[0]
        if x.op == "not":
            return x.args[0]
        if x.op == "c":
            return mk("c", not x.args[0])
        if x.op == "lt0":       # not (L<0)  <=>  -L<=0 ; keep as not(lt0)
            return mk("not", x)
        return t
    if t.op == "lt0":
        return lt0(t.args[0])
    if t.op == "eq0":
        return eq0(t.args[0])
    if t.op in ("and", "or"):
        return bool_nary(t.op, t.args)
    return t


def bool_nary(op, args):
    flat = []
    for a in args:
        if a.op == op:
            flat += a.args
        else:
            flat.append(a)
    unit = (op == "and")
    out = []
    for a in flat:
        if a.op == "c":
            if bool(a.args[0]) != unit:
                return mk("c", not unit)
            continue
        if a not in out:
            out.append(a)
    if not out:
        return mk("c", unit)
    if len(out) == 1:
        return out[0]
    for a in out:
        if bnot(a) in out:
            return mk("c", not unit)
    out.sort(key=key)
    return mk(op, *out)


def bnot(t):
    if t.op == "c":
        return mk("c", not t.args[0])
    if t.op == "not":
        return t.args[0]
    if t.op == "and":
        return bool_nary("or", [bnot(a) for a in t.args])
    if t.op == "or":
        return bool_nary("and", [bnot(a) for a in t.args])
    return mk("not", t)


def lt0(L):
    if is_lin_const(L):
        return mk("c", L.args[0] < 0)
    if (ndim(L) or 0) == 0:
        lo, hi = bounds(L)
        if hi < 0:
            return mk("c", True)
        if lo >= 0:
            return mk("c", False)
    k, d = lin_parts(L)
    if (ndim(L) or 0) == 0:
        for a, c in d.items():
            if a.op in ("minof", "maxof", "min2", "max2"):
                rest = sub(L, smul(c, a))
                # c*max < -rest for all members, c*min < -rest for some member (c > 0); dual for c < 0
                every = (a.op in ("maxof", "max2")) == (c > 0)
                if a.op in ("minof", "maxof"):
                    if len(a.args) < 3 or not isinstance(a.args[0], str):
                        continue
                    seg, t, g = a.args[:3]
                    body = lt0(add(rest, smul(c, t)))
                    if every:
                        return alls(seg, body if g.op == "c" else bool_nary("or", [bnot(g), body]))
                    return anys(seg, body if g.op == "c" else bool_nary("and", [g, body]))
                return bool_nary("and" if every else "or", [lt0(add(rest, smul(c, t))) for t in a.args])
    # scale to canonical magnitude
    m = max((abs(c) for c in d.values()), default=Fraction(1))
    if m not in (0, 1):
        L = smul(1 / m, L)
    return mk("lt0", L)


def eq0(L):
    if is_lin_const(L):
        return mk("c", L.args[0] == 0)
    if (ndim(L) or 0) == 0:
        lo, hi = bounds(L)
        if hi < 0 or lo > 0:
            return mk("c", False)
        if lo == hi == 0:
            return mk("c", True)
    k, d = lin_parts(L)
    if not k and len(d) == 1:
        # a quotient vanishes exactly when its numerator does
        f = next(iter(d))
        if f.op == "recip" and (ndim(f) or 0) == 0:
            return mk("c", False)
        if f.op == "prod" and any(x.op == "recip" for x in f.args):
            fs = [x for x in f.args if x.op != "recip"]
            if fs and all((ndim(x) or 0) == 0 for x in f.args):
                r = fs[0]
                for x in fs[1:]:
                    r = mul(r, x)
                return eq0(r)
    first = sorted(d.items(), key=lambda p: key(p[0]))
    if first:
        L = smul(1 / first[0][1], L)
    return mk("eq0", L)


# ------------------------------------------------------------------ intervals

IV = {}          # scenario-given: term -> (lo, hi)
SCALE = {}       # positive symbol -> rank: symbols of a higher rank are more than a million times those of lower ranks; the constant 1 has rank 0
TINY = 1e-300
SIZES_MIN = 1
UNIV_OF = {}     # segment name -> universe name
UNIVERSE = {}    # universe name -> list of segments
UDIM = {}        # universe name -> dimension term, when not the sum of its segments
FIRST_BASE = {}  # first(seg, cond) -> the index term it ranges over


def reset_scenario():
    IV.clear()
    SCALE.clear()
    _CAP.clear()
    _NDIM.clear()
    UNIV_OF.clear()
    UNIVERSE.clear()
    UDIM.clear()
    FIRST_BASE.clear()


def universe(name, segs):
    UNIVERSE[name] = list(segs)
    for s in segs:
        UNIV_OF[s] = name
    out = ZERO
    for s in segs:
        out = add(out, mk("size", s))
    return out


def prime(seg):
    """a second, independent generic index of the same segment"""
    new = seg + "'"
    if new not in UNIV_OF:
        UNIV_OF[new] = UNIV_OF.get(seg)
        a = {mk("idx", seg): mk("idx", new), mk("ord", seg): mk("ord", new)}
        for t, iv in list(IV.items()):
            if mentions_idx(t, seg):
                IV.setdefault(rewrite(t, lambda x: a.get(x)), iv)
    return new


def dim_of(name):
    if name in UDIM:
        return UDIM[name]
    out = ZERO
    for s in UNIVERSE[name]:
        out = add(out, mk("size", s))
    return out


INF = math.inf


def _m(c, iv):
    lo, hi = iv
    c = float(c)
    if c == 0:
        return (0.0, 0.0)
    a, b = c * lo, c * hi
    return (a, b) if a <= b else (b, a)


_BUSY = set()


def bounds(t):
    """interval of a scalar term (numbers); (-inf, inf) when unknown"""
    if t in IV:
        return IV[t]
    if t in _BUSY:
        return (-INF, INF)
    _BUSY.add(t)
    try:
        return _bounds(t)
    finally:
        _BUSY.discard(t)


def _bounds(t):
    o = t.op
    if t in SCALE:
        return (1e6, INF) if SCALE[t] > 0 else (TINY, 1e-6)
    if o == "c":
        v = t.args[0]
        if isinstance(v, float) and not math.isnan(v):
            return (v, v)
        return (-INF, INF)
    if o == "size":
        return (SIZES_MIN, INF)
    if o == "len":
        return (0, INF)
    if o == "idx":
        return (0, INF)
    if o == "lin":
        k, ms = t.args
        if SCALE and ms and all(a in SCALE for a, _ in ms):
            parts = [(SCALE[a], e) for a, e in ms] + ([(0, k)] if k else [])
            r, c = max(parts)
            if sum(q == r for q, e in parts) == 1 and sum(abs(e) for q, e in parts if q < r) <= 100000 * abs(c):
                low = abs(float(c)) / 2 if r == 0 else TINY
                return (low, INF) if c > 0 else (-INF, -low)
        n = neg(t)
        if n in IV:
            lo, hi = IV[n]
            return (-hi, -lo)
        # a registered interval for the atom part (up to scale)
        if ms:
            part = mk_lin(0, dict(ms))
            for cand, sgn in ((part, 1), (neg(part), -1)):
                if cand in IV and part is not t:
                    lo, hi = _m(sgn, IV[cand])
                    return (float(k) + lo, float(k) + hi)
            c0 = ms[0][1]
            if abs(c0) != 1:
                sc = smul(1 / abs(c0), part)
                if sc in IV or neg(sc) in IV:
                    lo, hi = _m(abs(c0), bounds(sc))
                    return (float(k) + lo, float(k) + hi)
        # upper bound: positive idx -> dim-1 ; negative idx -> 0
        def side(upper):
            d = {}
            kk = k
            for a, c in ms:
                if a.op == "idx" and a.args[0] in UNIV_OF and ((c > 0) == upper):
                    dm = sub(dim_of(UNIV_OF[a.args[0]]), ONE)
                    dk, dd = lin_parts(dm)
                    kk += c * dk
                    for x, e in dd.items():
                        d[x] = d.get(x, Fraction(0)) + c * e
                else:
                    d[a] = d.get(a, Fraction(0)) + c
            tot = float(kk)
            for a, c in d.items():
                if c == 0:
                    continue
                lo, hi = _m(c, bounds(a))
                tot += hi if upper else lo
            return tot
        return (side(False), side(True))
    if o == "abs":
        lo, hi = bounds(t.args[0])
        if lo >= 0:
            return (lo, hi)
        if hi <= 0:
            return (-hi, -lo)
        return (0.0, max(-lo, hi))
    if o == "prod":
        lo, hi = 1.0, 1.0
        for f in t.args:
            a, b = bounds(f)
            ps = []
            for x in (lo, hi):
                for y in (a, b):
                    if (x == 0 and math.isinf(y)) or (y == 0 and math.isinf(x)):
                        ps.append(0.0)
                    else:
                        ps.append(x * y)
            lo, hi = min(ps), max(ps)
        return (lo, hi)
    if o == "recip":
        lo, hi = bounds(t.args[0])
        if lo > 0 or hi < 0:
            return tuple(sorted((1 / hi if not math.isinf(hi) else 0.0, 1 / lo if not math.isinf(lo) else 0.0)))
        return (-INF, INF)
    if o in ("int", "floor", "ceil", "round"):
        lo, hi = bounds(t.args[0])
        f = {"int": math.trunc, "floor": math.floor, "ceil": math.ceil, "round": round}[o]
        return tuple(x if math.isinf(x) else float(f(x)) for x in (lo, hi))
    if o == "float":
        return bounds(t.args[0])
    if o in ("minof", "maxof"):
        return bounds(t.args[1])
    if o == "min2":
        bs = [bounds(a) for a in t.args]
        return (min(b[0] for b in bs), min(b[1] for b in bs))
    if o == "max2":
        bs = [bounds(a) for a in t.args]
        return (max(b[0] for b in bs), max(b[1] for b in bs))
    if o == "norm":
        return (0.0, INF)
    if o == "ite":
        a, b = bounds(t.args[1]), bounds(t.args[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    return (-INF, INF)


def tri(t, facts=None):
    """three-valued evaluation of a boolean term"""
    if facts:
        f = facts.get(t)
        if f is not None:
            return f
    o = t.op
    if o == "c":
        return bool(t.args[0])
    if o == "not":
        r = tri(t.args[0], facts)
        return None if r is None else not r
    if o == "and":
        res = True
        for a in t.args:
            r = tri(a, facts)
            if r is False:
                return False
            if r is None:
                res = None
        return res
    if o == "or":
        res = False
        for a in t.args:
            r = tri(a, facts)
            if r is True:
                return True
            if r is None:
                res = None
        return res
    if o == "lt0":
        lo, hi = bounds(t.args[0])
        if hi < 0:
            return True
        if lo >= 0:
            return False
        if facts:
            f = facts.get(mk("eq0", eq0(t.args[0]).args[0])) if eq0(t.args[0]).op == "eq0" else None
            if f is True:
                return False
            g = lt0(neg(t.args[0]))
            if facts.get(g) is True:
                return False
        return None
    if o == "eq0":
        lo, hi = bounds(t.args[0])
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
        if facts:
            for s in (t.args[0], neg(t.args[0])):
                if facts.get(lt0(s)) is True:
                    return False
        return None
    if o == "alls":
        r = tri(t.args[1], facts)
        return r
    if o == "ite":
        r = tri(t.args[0], facts)
        if r is not None:
            return tri(t.args[1] if r else t.args[2], facts)
        a, b = tri(t.args[1], facts), tri(t.args[2], facts)
        return a if a == b else None
    if o == "isclose":
        # isclose(a, b, rtol, atol, kind)
        a, b, rt, at = t.args[:4]
        d = mk("abs", sub(a, b))
        if sub(a, b) is ZERO:
            return True
        lo, hi = bounds(d)
        blo, bhi = bounds(mk("abs", b))
        alo, ahi = bounds(mk("abs", a))
        rt, at = float(rt.args[0]), float(at.args[0])
        if t.args[4].args[0] == "np":
            tlo, thi = at + rt * blo, at + rt * bhi if not math.isinf(bhi) else INF
        else:
            mlo, mhi = max(alo, blo), max(ahi, bhi)
            tlo, thi = max(at, rt * mlo), max(at, rt * mhi if not math.isinf(mhi) else INF)
        if hi <= tlo:
            return True
        if lo > thi:
            return False
        return None
    return None


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if not isinstance(t, T):
        if isinstance(t, tuple):
            for x in t:
                subterms(x, seen)
        return seen
    if t in seen:
        return seen
    seen.add(t)
    for a in t.args:
        if isinstance(a, T):
            subterms(a, seen)
        elif isinstance(a, tuple):
            subterms(a, seen)
    return seen


_SUBC = {}


def mentions(t, target):
    s = _SUBC.get(t)
    if s is None:
        s = _SUBC[t] = frozenset(subterms(t))
    return target in s


def rewrite(t, f):
    """bottom-up rebuild with normalising constructors; f maps atoms (returns None to keep)"""
    r = f(t)
    if r is not None:
        return r
    o, a = t.op, t.args
    if o == "lin":
        out = const(a[0])
        for x, c in a[1]:
            out = add(out, smul(c, rewrite(x, f)))
        return out
    if not any(isinstance(x, T) for x in a) and not any(isinstance(x, tuple) for x in a):
        return t
    def rw(x):
        if isinstance(x, T):
            return rewrite(x, f)
        if isinstance(x, tuple):
            return tuple(rw(y) for y in x)
        return x
    na = [rw(x) for x in a]
    return rebuild(o, na)


def rebuild(o, na):
    if o == "mm":
        out = na[0]
        for x in na[1:]:
            out = mm(out, x)
        return out
    if o == "tr":
        return tr(na[0])
    if o == "inv":
        return inv(na[0])
    if o == "sel":
        return sel(*na)
    if o == "elem":
        return elem(*na)
    if o == "upd":
        return upd(*na)
    if o == "scaleat":
        return scaleat(*na)
    if o == "prod":
        out = ONE
        for x in na:
            out = mul(out, x)
        return out
    if o == "recip":
        return recip(na[0])
    return norm_bool(mk(o, *na))


# ------------------------------------------------------------ size limit
_W = {}
_CAP = {}


def weight(t):
    """number of nodes of the term written out (capped)"""
    w = _W.get(t)
    if w is None:
        w = 1
        for a in t.args:
            w += weight_arg(a)
            if w > 100000:
                break
        _W[t] = w
    return w


def weight_arg(a):
    if isinstance(a, T):
        return weight(a)
    if isinstance(a, tuple):
        return sum(weight_arg(x) for x in a)
    return 0


BOOLOPS = ("rx", "not", "and", "or", "lt0", "le0", "eq0", "all", "any")


def opaque_for(t, shape=None):
    if t.op == "not":
        return bnot(opaque_for(t.args[0]))
    c = _CAP.get(t)
    if c is None:
        isb = t.op in BOOLOPS
        free = sorted((x for x in set(subterms(t)) if x.op in ("idx", "ord") or (x.op == "sym" and META.get(x, {}).get("phi"))), key=key)
        nm = "cap#%d" % len(_CAP)
        nd = 0 if isb else (ndim(t) or 0)
        s = sym(nm, ndim=nd, py="bool" if isb else "float", cap=True, inp=True, shape=tuple(shape or ()))
        c = mk("app", nm, *free) if free else s
        if not free:
            META[s]["cap_def"] = t
        _CAP[t] = c
        if not isb:
            b = bounds(t)
            if b and nd == 0:
                IV[c] = b
    return c
