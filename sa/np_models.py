"""Models of the numpy functions and array methods: content terms, shapes, and who owns the data."""
import functools
import math
from . import terms as tm
from .terms import T, mk, const, sym, add, sub, mul, neg, lt0, eq0, bnot, bool_nary, ite, elem, sel, upd
from .values import *
from . import builtin_models as bm
from .builtin_models import nd_new, view, arr_of, as_val, boolv, py_of_dt, axis_items, bshape, shape_of, dt_of

ONE = const(1)


def dtype_of(I, v, default):
    """'float' 'int' 'bool' 'object' from a dtype argument"""
    if v is None or isinstance(v, C) and v.v is None:
        return default
    v = I.resolve(v)
    if isinstance(v, Ext):
        n = v.name.split(".")[-1]
        if n.startswith("float") or n in ("double", "single", "half", "floating", "longdouble"):
            return "float"
        if n.startswith("int") or n.startswith("uint") or n in ("intp", "integer", "long"):
            return "int"
        if n.startswith("bool"):
            return "bool"
        if n.startswith("str"):
            return "str"
        return "object"
    if isinstance(v, C) and isinstance(v.v, str):
        n = v.v.lstrip("<>=|")
        if n.startswith(("float", "f", "d")):
            return "float"
        if n.startswith(("int", "i", "u")):
            return "int"
        if n.startswith(("bool", "?")):
            return "bool"
        return "object"
    if isinstance(v, Cls):
        return "object"
    return default


def cast(t, old, new):
    if old == new or new in ("object",):
        return t
    if new == "float":
        if old == "bool":
            return ite(t, const(1), const(0)) if (tm.ndim(t) or 0) == 0 else mk("float", t)
        return t
    if new == "int":
        if old == "bool":
            return ite(t, const(1), const(0)) if (tm.ndim(t) or 0) == 0 else mk("float", t)
        return t if old == "int" else mk("int", t)
    if new == "bool":
        return bnot(eq0(t))
    return mk("cast", new, t)


def shape_arg(I, v):
    """tuple of dimension terms"""
    v = I.resolve(v)
    if isinstance(v, Tup):
        out = []
        for x in v.vs:
            t = I.scalar_t(I.resolve(x))
            if t is None:
                return None
            out.append(I.norm(t))
        return tuple(out)
    if isinstance(v, Ref) and isinstance(I.obj(v), Lst):
        o = I.obj(v)
        if o.op or any(it.m != "1" or it.g is not None for it in o.items):
            return None
        return shape_arg(I, Tup(tuple(it.v for it in o.items)))
    t = I.scalar_t(v)
    if t is None:
        return None
    if isinstance(v, C) and isinstance(v.v, float):
        I.raise_exc("TypeError", "expected a sequence of integers or a single integer", internal=True)
    return (I.norm(t),)


def full(I, sh, val, dt):
    if sh is None:
        return nd_new(I, mk("full?", val), None, dt)
    for d in sh:
        if tm.bounds(d)[1] < 0:
            I.raise_exc("ValueError", "negative dimensions are not allowed", internal=True)
    if not sh:
        return as_val(val, py_of_dt(dt))
    return nd_new(I, mk("full", val, *sh), tuple(sh), dt)


def phi_arg(f):
    """apply a model under each alternative of gated arguments"""
    def g(I, a, k):
        a = [I.resolve(x) for x in a]
        for n, v in enumerate(a):
            if isinstance(v, Phi):
                return I.each(v, lambda q: g(I, a[:n] + [q] + a[n + 1:], k))
        return f(I, a, k)
    return g


def isarr(I, v):
    return isinstance(v, Ref) and isinstance(I.obj(v), Nd)


def as_arr(I, v):
    """(term, shape, dt)"""
    return arr_of(I, v)


def np_array(I, a, k):
    v = a[0]
    if isinstance(v, Phi):
        return I.each(v, lambda q: np_array(I, [q] + list(a[1:]), k))
    if isinstance(v, U):
        r = nd_new(I, mk("arr", None, v.t), None)
        return r
    t, sh, dt = arr_of(I, v)
    nd = dtype_of(I, a[1] if len(a) > 1 else k.get("dtype"), dt)
    t = cast(t, dt, nd)
    c = k.get("copy")
    if c is not None and isarr(I, v) and dt == nd and I.truth(c) is False:
        return v
    if isinstance(v, (C, S)):
        if isinstance(v, C) and isinstance(v.v, str):
            return nd_new(I, t, (), "str")
        return nd_new(I, t, (), nd)
    return nd_new(I, t, sh, nd)


def np_asarray(I, a, k):
    v = a[0]
    if isarr(I, v):
        o = I.obj(v)
        nd = dtype_of(I, a[1] if len(a) > 1 else k.get("dtype"), o.dt)
        if nd == o.dt:
            return v
        if o.dt == "num":
            # may or may not need a conversion
            pass
    return np_array(I, a, {x: y for x, y in k.items() if x == "dtype"})


def np_copy(I, a, k):
    v = a[0]
    t, sh, dt = arr_of(I, v)
    return nd_new(I, t, sh, dt)


def maker(val, like=False):
    def f(I, a, k):
        if like:
            t, sh, dt = arr_of(I, a[0])
            dt = dtype_of(I, a[1] if len(a) > 1 else k.get("dtype"), dt)
        else:
            s = a[0] if a else k.get("shape")
            sh = shape_arg(I, s)
            dt = dtype_of(I, a[1] if len(a) > 1 else k.get("dtype"), "float")
        if val is None:
            I.fresh_n += 1
            v = sym("uninit%d" % I.fresh_n, py="float", inp=True)   # arbitrary content: no observable may depend on it
        else:
            v = const(val)
        return full(I, sh, v, dt)
    return f


def np_full(I, a, k):
    a = list(a)
    s = a[0] if a else k["shape"]
    v = a[1] if len(a) > 1 else k["fill_value"]
    dt = dtype_of(I, a[2] if len(a) > 2 else k.get("dtype"), dt_of(I, v))
    return full(I, shape_arg(I, s), I.desc(v), dt)


def np_eye(I, a, k):
    t = I.scalar_t(I.resolve(a[0]))
    if t is None:
        return nd_new(I, mk("eye", I.desc(a[0])), None)
    return nd_new(I, mk("eye", t), (t, t))


def np_arange(I, a, k):
    a = [x for x in a]
    lo, hi, st = C(0), a[0], None
    if len(a) > 1:
        lo, hi = a[0], a[1]
    if len(a) > 2:
        st = a[2]
    if st is None and all(I.py_of(I.resolve(x)) == "int" for x in (lo, hi)):
        r = bm.make_range(I, lo, hi)
        t, sh, dt = arr_of(I, r)
        return nd_new(I, t, sh, "int")
    return I.unk("arange", *a)


def elementwise(name, f, dt=None, py=None):
    def g(I, a, k):
        v = a[0]
        if isinstance(v, U):
            return I.unk("np." + name, v)
        if isinstance(v, (C, S)):
            t = I.desc(v)
            d = dt or (I.py_of(v) if I.py_of(v) in ("int", "float") else "float")
            r = f(t)
            if d == "bool":
                return boolv(I, r)
            return as_val(r, "float" if d == "float" else d)
        t, sh, d = arr_of(I, v)
        r = f(t)
        if sh == ():
            return as_val(r, py_of_dt(dt or d))
        out = k.get("out")
        if out is not None and isarr(I, I.resolve(out)):
            I.nd_write(I.resolve(out), r)
            return out
        return nd_new(I, r, sh, dt or d)
    return phi_arg(g)


def ew_round(I, a, k):
    v = a[0]
    dec = a[1] if len(a) > 1 else k.get("decimals", C(0))
    t, sh, d = arr_of(I, v)
    r = mk("round", t) if isinstance(dec, C) and dec.v == 0 else mk("rounddec", t, I.desc(dec))
    if sh == ():
        return as_val(r, py_of_dt(d))
    return nd_new(I, r, sh, d)


def b2(v):
    return {"Add": "Add", "Sub": "Sub"}.get(v, v)


def binop(op):
    def g(I, a, k):
        r = I.binop(op, a[0], a[1])
        out = k.get("out", a[2] if len(a) > 2 else None)
        if out is not None and isarr(I, I.resolve(out)):
            o = I.resolve(out)
            I.nd_write(o, I.desc(r) if not isinstance(r, (C, S)) else bm.bcast(I.desc(r), I.obj(o).shape or ()))
            return o
        return r
    return phi_arg(g)


def cmpop(op):
    return phi_arg(lambda I, a, k: I.compare(op, a[0], a[1]))


def logical(op):
    def g(I, a, k):
        ts, shs = [], []
        for v in a[:2]:
            if isinstance(v, U):
                return I.unk("np.logical_" + op, *a)
            t, sh, d = arr_of(I, v)
            if d != "bool" and not bm_isb(t):
                t = bnot(eq0(t))
            ts.append(t)
            shs.append(sh)
        if op == "not":
            r = bnot(ts[0])
            sh = shs[0]
        else:
            r = bool_nary(op, tm.align(ts, nd_of(*shs)))
            sh = bshape(I, shs[0], shs[1])
        if sh == "err":
            I.raise_exc("ValueError", "operands could not be broadcast", internal=False)
        if sh == ():
            return boolv(I, r)
        return nd_new(I, r, sh, "bool")
    return phi_arg(g)


def nd_of(*shs):
    return [len(s) if s is not None else None for s in shs]


def fn(I, name, args, sh, dt):
    """result of a numpy function known by its definition only; sh None stands for a vector of unknown length"""
    if sh == ():
        return as_val(mk("fn", name, 0, *args), py_of_dt(dt))
    t = mk("fn", name, 1 if sh is None else len(sh), *args)
    return nd_new(I, t, (mk("len", t),) if sh is None else sh, dt)


def nonzero_t(t, d):
    return t if d == "bool" or bm_isb(t) else bnot(eq0(t))


def none(v):
    return v is None or isinstance(v, C) and v.v is None


def bm_isb(t):
    from .interp import is_boolish
    return is_boolish(t)


def pointwise_term(t, axes_idx):
    for i in axes_idx:
        t = sel(t, 0, i, True) if (tm.ndim(t) or 0) >= 1 else t
    return t


def at(t, i):
    """entry i along the first axis (scalar terms broadcast)"""
    if (tm.ndim(t) or 0) == 0:
        return t
    if t.op in tm.ELEMWISE or t.op in ("lt0", "eq0", "isclose", "not", "and", "or"):
        n = tm.ndim(t)
        def one(x):
            if not isinstance(x, T):
                return x
            m = tm.ndim(x)
            if m == n:
                return at(x, i)
            return x
        if t.op in ("lt0", "eq0"):
            return lt0(at(t.args[0], i)) if t.op == "lt0" else eq0(at(t.args[0], i))
        if t.op == "not":
            return bnot(at(t.args[0], i))
        if t.op in ("and", "or"):
            return bool_nary(t.op, [at(x, i) for x in t.args])
        if t.op == "isclose":
            return bm.isclose_t(one(t.args[0]), one(t.args[1]), t.args[2], t.args[3], t.args[4].args[0])
        if t.op == "prod":
            out = ONE
            for x in t.args:
                out = mul(out, one(x))
            return out
        if t.op == "ite":
            return ite(*[one(x) for x in t.args])
        if t.op == "abs":
            return bm.t_abs(one(t.args[0]))
        return mk(t.op, *[one(x) for x in t.args])
    if t.op == "lin":
        k, d = tm.lin_parts(t)
        out = const(k)
        for x, c in d.items():
            out = add(out, tm.smul(c, at(x, i)))
        return out
    if t.op == "rowb":
        return t.args[0]
    if tm.ndim(t) == 1:
        return elem(t, i)
    return sel(t, 0, i, True)


def quantify(I, which, t, sh, used=()):
    """and/or over every entry"""
    if sh is None:
        return mk("all" if which == "all" else "any", t)
    if not sh or (tm.ndim(t) == 0):
        return t
    cs = []
    for i, m, s in axis_items(I, sh[0], t, 0):
        if s is not None and s in used:
            n = tm.prime(s)
            mp = {mk("idx", s): mk("idx", n), mk("ord", s): mk("ord", n)}
            i, s = tm.rewrite(i, lambda x: mp.get(x)), n
        c = quantify(I, which, at(t, i), sh[1:], used + ((s,) if s else ()))
        if m != "1":
            if m == "*":
                # possibly no entry at all
                c = mk("ext", which + "*", s, c) if c.op != "c" or bool(c.args[0]) != (which == "all") else c
            else:
                c = tm.alls(s, c) if which == "all" else tm.anys(s, c)
        cs.append(c)
    return bool_nary("and" if which == "all" else "or", cs)


def allany(which):
    def g(I, a, k):
        v = a[0]
        if isinstance(v, U):
            return I.unk("np." + which, v)
        ax = k.get("axis", a[1] if len(a) > 1 else None)
        if isinstance(v, Ref) and isinstance(I.obj(v), Inst):
            return I.unk("np." + which, v)
        t, sh, d = arr_of(I, v)
        if d != "bool" and not bm_isb(t):
            t = bnot(eq0(t))
        if ax is not None and not (isinstance(ax, C) and ax.v is None):
            rs = red_shape(I, sh, ax)
            if rs is None:
                return nd_new(I, mk("ext", which, t, I.desc(ax)), None, "bool")
            if rs == ():
                return boolv(I, quantify(I, which, t, sh))
            return fn(I, which, (t, ax.v % len(sh)), rs, "bool")
        return boolv(I, quantify(I, which, t, sh))
    return phi_arg(g)


def red_shape(I, sh, ax):
    if sh is None or not isinstance(ax, C) or not isinstance(ax.v, int):
        return None
    n = ax.v % len(sh)
    return sh[:n] + sh[n + 1:]


def reduction(which):
    def g(I, a, k):
        v = a[0]
        if isinstance(v, U):
            return I.unk("np." + which, v)
        ax = k.get("axis", a[1] if len(a) > 1 else None)
        t, sh, d = arr_of(I, v)
        if ax is not None and not (isinstance(ax, C) and ax.v is None):
            rs = red_shape(I, sh, ax)
            if rs == ():
                ax = None
            elif rs is None or not none(k.get("keepdims")):
                return nd_new(I, mk("ext", which, t, I.desc(ax)), rs if none(k.get("keepdims")) else None, d)
            else:
                return fn(I, which, (t, ax.v % len(sh)), rs, "int" if which == "count_nonzero" else d)
        if which == "count_nonzero":
            if sh is None:
                return S(mk("ext", which, t), "int")
            t, d = ite(nonzero_t(t, d), const(1), const(0)), "int"
            if len(sh) == 0:
                return as_val(t, "int")
            if len(sh) == 1:
                return reduction("sum")(I, [nd_new(I, t, sh, "int")], {})
            return fn(I, "sum", (t, None), (), "int")
        if which in ("prod", "mean") and sh is not None:
            return fn(I, which, (t, None), (), "float" if which == "mean" else d)
        if which in ("max", "min"):
            if sh is not None and len(sh) == 1:
                its = tuple(It(as_val(at(t, i), py_of_dt(d)), m, s) for i, m, s in axis_items(I, sh[0], t, 0))
                if not its:
                    I.raise_exc("ValueError", "zero-size array to reduction operation", internal=True)
                return bm.minmax(which)(I, [I.new(Lst("list", its))], {})
            return fn(I, which, (t, None), (), d) if sh else S(mk("ext", which, t), py_of_dt(d))
        if which == "sum":
            if sh is not None and len(sh) == 1:
                its = tuple(It(as_val(at(t, i), py_of_dt(d)), m, s) for i, m, s in axis_items(I, sh[0], t, 0))
                return bm.b_sum(I, [I.new(Lst("list", its))], {})
            return fn(I, "sum", (t, None), (), d) if sh else S(mk("sum", t), py_of_dt(d))
        return S(mk("ext", which, t), "int" if which.startswith("arg") or which == "count_nonzero" else py_of_dt(d))
    return phi_arg(g)


def argred(which):
    def g(I, a, k):
        v = a[0]
        t, sh, d = arr_of(I, v)
        if d == "bool" and which == "argmax":
            # index of the first true entry
            n = sh[0] if sh else mk("len", t)
            r = mk("firsttrue", t)
            lo, hi = 0.0, tm.bounds(n)[1]
            tm.IV.setdefault(r, (0.0, tm.INF))
            tm.IV.setdefault(sub(r, n), (-tm.INF, -1.0))
            return S(r, "int")
        ax = k.get("axis", a[1] if len(a) > 1 else None)
        if not none(ax) and sh is not None and len(sh) == 2:
            rs = red_shape(I, sh, ax)
            if rs is not None:
                return fn(I, which, (t, ax.v % 2), rs, "int")
        r = mk("ext", which, t)
        tm.IV.setdefault(r, (0.0, tm.INF))
        return S(r, "int")
    return phi_arg(g)


def np_where(I, a, k):
    c = a[0]
    if len(a) == 1:
        t, sh, d = arr_of(I, c)
        if d != "bool" and not bm_isb(t):
            t = bnot(eq0(t))
        return Tup((nd_new(I, mk("where", t), (mk("len", mk("where", t)),), "int"),))
    tc, sc, _ = arr_of(I, c)
    if not bm_isb(tc):
        tc = bnot(eq0(tc))
    tx, sx, dx = arr_of(I, a[1])
    ty, sy, dy = arr_of(I, a[2])
    sh = bshape(I, bshape(I, sc, sx) if sc is not None and sx is not None else None, sy) if sy is not None else None
    r = ite(*tm.align([tc, tx, ty], nd_of(sc, sx, sy)))
    if sh == ():
        return as_val(r, py_of_dt(dx))
    return nd_new(I, r, None if sh == "err" else sh, dx if dx == dy else "float")


def np_flatnonzero(I, a, k):
    r = np_where(I, a[:1], k)
    return r.vs[0]


def np_isclose(I, a, k):
    tx, sx, dx = arr_of(I, a[0])
    ty, sy, dy = arr_of(I, a[1])
    rt = I.scalar_t(k.get("rtol", a[2] if len(a) > 2 else C(1e-5)))
    at_ = I.scalar_t(k.get("atol", a[3] if len(a) > 3 else C(1e-8)))
    sh = bshape(I, sx, sy)
    if sh == "err":
        I.raise_exc("ValueError", "operands could not be broadcast", internal=False)
    tx, ty = tm.align([tx, ty], nd_of(sx, sy))
    # |a-b| <= atol + rtol*|b| with a constant zero reference is |a| <= atol
    r = bm.isclose_t(tx, ty, rt, at_, "np")
    if sh == ():
        return boolv(I, r)
    return nd_new(I, r, sh, "bool")


def np_allclose(I, a, k):
    for v in a[:2]:
        if isinstance(v, U):
            return S(mk("ext", "allclose", *[I.desc(x) for x in a[:2]]), "bool")
    r = np_isclose(I, a, k)
    if isarr(I, r):
        return boolv(I, quantify(I, "all", I.nd_t(r), I.obj(r).shape))
    return r


def np_array_equal(I, a, k):
    tx, sx, dx = arr_of(I, a[0])
    ty, sy, dy = arr_of(I, a[1])
    if sx is not None and sy is not None:
        if len(sx) != len(sy):
            return FALSE
        cs = []
        for p, q in zip(sx, sy):
            cs.append(eq0(sub(p, q)))
        sh = bool_nary("and", cs) if cs else mk("c", True)
        if I.tri(sh) is False:
            return FALSE
        if tx is ty:
            return boolv(I, sh)
        return boolv(I, bool_nary("and", [sh, quantify(I, "all", eq0(sub(tx, ty)), sx)]))
    if tx is ty:
        return TRUE
    return S(mk("ext", "array_equal", tx, ty), "bool")


# ------------------------------------------------------------ stacking

def part_of(I, v, nd, axis):
    """(term, length along axis, other dims, dt) of one stacked operand, promoted to nd dims"""
    t, sh, dt = arr_of(I, v)
    if sh is None:
        return t, mk("len", t), None, dt
    if len(sh) == 0:
        return t, ONE, (), dt
    if len(sh) == nd:
        return t, sh[axis], sh[:axis] + sh[axis + 1:], dt
    if len(sh) == nd - 1:
        return t, ONE, sh, dt
    return t, mk("len", t), None, dt


def stack_arrs(I, vs, nd, axis, strict=True):
    parts, n, others, dts = [], const(0), [], set()
    ok = True
    for v, m, seg, g in vs:
        if isinstance(v, U):
            parts.append((v.t, mk("len", v.t)))
            n = add(n, mk("len", v.t))
            ok = False
            continue
        t, l, o, dt = part_of(I, v, nd, axis)
        dts.add(dt)
        if o is None:
            ok = False
        elif len(o) == nd - 1:
            others.append(o)
        if m != "1" or g is not None:
            d = mk("size", seg) if m == "+" and g is None and l is ONE else mk("len", mk("many", seg or "?", t))
            parts.append((mk("tab", seg or "?", t, g if g is not None else mk("c", True), nd), d))
            n = add(n, d)
            continue
        if l.op == "lin" and tm.is_lin_const(l) and l.args[0] == 0:
            continue
        parts.append((t, l))
        n = add(n, l)
    for o in others[1:]:
        for x, y in zip(others[0], o):
            if x is not y and I.tri(eq0(I.norm(sub(x, y)))) is False:
                I.raise_exc("ValueError", "all the input array dimensions must match exactly", internal=False)
    dt = "float" if "float" in dts or not dts else ("int" if "int" in dts else dts.copy().pop())
    if len(parts) == 1 and tm.ndim(parts[0][0]) == nd:
        t = parts[0][0]
    else:
        t = tm.stack(nd, axis, parts)
    if not ok or (nd > 1 and not others):
        return nd_new(I, t, None, dt)
    oth = others[0] if others else ()
    sh = oth[:axis] + (n,) + oth[axis:]
    return nd_new(I, t, sh, dt)


def seq_parts(I, v):
    """elements of the sequence of arrays"""
    out = []
    for it in bm.iter_items(I, v):
        x = I.resolve(it.v)
        out.append((x, it.m, it.seg, it.g))
    return out


def with_phi(I, vs, f):
    """f(list) under each alternative of the gated members"""
    for n, (v, m, s, g) in enumerate(vs):
        v = I.resolve(v)
        if isinstance(v, Phi):
            return I.each(v, lambda q: with_phi(I, vs[:n] + [(q, m, s, g)] + vs[n + 1:], f))
    return f([(I.resolve(v), m, s, g) for v, m, s, g in vs])


def dims_of(I, v):
    if isinstance(v, U):
        return None
    sh = shape_of(I, v)
    return None if sh is None else len(sh)


def np_vstack(I, a, k):
    return with_phi(I, seq_parts(I, a[0]), lambda vs: stack_arrs(I, vs, 2, 0))


def np_hstack(I, a, k):
    def f(vs):
        ds = [dims_of(I, v) for v, *_ in vs]
        d = max([x for x in ds if x is not None] or [1])
        if d <= 1:
            return stack_arrs(I, vs, 1, 0)
        return stack_arrs(I, vs, 2, 1)
    return with_phi(I, seq_parts(I, a[0]), f)


def np_concatenate(I, a, k):
    ax = k.get("axis", a[1] if len(a) > 1 else C(0))
    def f(vs):
        ds = [x for x in (dims_of(I, v) for v, *_ in vs) if x is not None]
        d = max(ds or [1])
        if ds and min(ds) != d:
            I.raise_exc("ValueError", "all the input arrays must have same number of dimensions", internal=False)
        if isinstance(ax, C) and ax.v is None:
            return I.unk("concatenate flat", *[v for v, *_ in vs])
        n = ax.v if isinstance(ax, C) else 0
        if n < 0:
            n += d
        if n >= d:
            I.raise_exc("ValueError", "axis out of bounds", internal=True)
        return stack_arrs(I, vs, d, n)
    return with_phi(I, seq_parts(I, a[0]), f)


def np_stack(I, a, k):
    ax = k.get("axis", a[1] if len(a) > 1 else C(0))
    def f(vs):
        ds = [x for x in (dims_of(I, v) for v, *_ in vs) if x is not None]
        d = max(ds or [0])
        n = ax.v if isinstance(ax, C) else 0
        if n < 0:
            n += d + 1
        return stack_arrs(I, vs, d + 1, n)
    return with_phi(I, seq_parts(I, a[0]), f)


def np_column_stack(I, a, k):
    return with_phi(I, seq_parts(I, a[0]), lambda vs: stack_arrs(I, vs, 2, 1))


def r_(I, parts):
    def f(vs):
        ds = [x for x in (dims_of(I, v) for v, *_ in vs) if x is not None]
        d = max(ds or [1]) or 1
        if ds and d > 1 and min(x for x in ds) != d:
            I.raise_exc("ValueError", "all the input arrays must have same number of dimensions", internal=False)
        return stack_arrs(I, vs, d, 0)
    return with_phi(I, [(p, "1", None, None) for p in parts], f)


def c_(I, parts):
    return with_phi(I, [(p, "1", None, None) for p in parts], lambda vs: stack_arrs(I, vs, 2, 1))


def np_append(I, a, k):
    ax = k.get("axis", a[2] if len(a) > 2 else None)
    if ax is None or isinstance(ax, C) and ax.v is None:
        def f(vs):
            ds = [dims_of(I, v) for v, *_ in vs]
            if any(d is None or d > 1 for d in ds):
                return fn(I, "append", [arr_of(I, v)[0] if not isinstance(v, U) else v.t for v, *_ in vs], None, "float")
            return stack_arrs(I, vs, 1, 0)
        return with_phi(I, [(p, "1", None, None) for p in a[:2]], f)
    return np_concatenate(I, [Tup((a[0], a[1]))], {"axis": ax})


def np_insert(I, a, k):
    arr, pos, val = a[0], a[1], a[2]
    ax = k.get("axis", a[3] if len(a) > 3 else None)
    t, sh, dt = arr_of(I, arr)
    if isinstance(pos, (C, S)) and I.py_of(pos) in ("int", "num", "any") and sh is not None:
        n = 0 if (ax is None or isinstance(ax, C) and ax.v is None) else (ax.v if isinstance(ax, C) else None)
        if (ax is None or isinstance(ax, C) and ax.v is None) and len(sh) != 1:
            n = None
        if n is not None:
            n %= len(sh)
            p = I.norm(I.scalar_t(pos))
            tv = bm.val_t(I, val)
            sv = shape_of(I, val)
            if sv is not None and len(sv) == 1 and len(sh) == 1:
                if tm.is_lin_const(sv[0]) and sv[0].args[0] == 1:
                    tv = at(tv, const(0))
                else:
                    return fn(I, "insert", (t, p, tv), (add(sh[0], sv[0]),), dt)
            nsh = sh[:n] + (add(sh[n], ONE),) + sh[n + 1:]
            if p is sh[n]:
                return nd_new(I, tm.stack(len(sh), n, [(t, sh[n]), (tv, ONE)]), nsh, dt)
            return nd_new(I, tm.insert(t, n, p, tv), nsh, dt)
    return nd_new(I, mk("ext", "insert", t, I.desc(pos), I.desc(val), I.desc(ax) if ax is not None else mk("c", None)), None, dt)


def np_delete(I, a, k):
    arr, pos = a[0], a[1]
    ax = k.get("axis", a[2] if len(a) > 2 else None)
    t, sh, dt = arr_of(I, arr)
    if isinstance(pos, (C, S)) and I.py_of(pos) in ("int", "num", "any") and sh is not None:
        n = 0 if (ax is None or isinstance(ax, C) and ax.v is None) and len(sh) == 1 else (ax.v if isinstance(ax, C) and isinstance(ax.v, int) else None)
        if n is not None:
            n %= len(sh)
            p = bm.neg_index(I, I.norm(I.scalar_t(pos)), sh[n])
            bm.check_bounds(I, p, sh[n])
            nsh = sh[:n] + (sub(sh[n], ONE),) + sh[n + 1:]
            return nd_new(I, mk("delete", t, n, p), nsh, dt)
    if sh is not None and (len(sh) == 1 or len(sh) == 2 and isinstance(ax, C) and isinstance(ax.v, int)):
        n = 0 if none(ax) else ax.v % len(sh)
        it = bm.idx_term(I, pos)
        if it is not None and not it[1]:
            t2 = mk("fn", "delete", len(sh), t, n, it[0])
            return nd_new(I, t2, sh[:n] + (mk("dim", t2, const(n)) if len(sh) > 1 else mk("len", t2),) + sh[n + 1:], dt)
    return nd_new(I, mk("ext", "delete", t, I.desc(pos), I.desc(ax) if ax is not None else mk("c", None)), None, dt)


# ------------------------------------------------------------ linear algebra

def linalg_raise(I):
    if I.may_raise_linalg:
        I.raise_exc("LinAlgError", "singular", internal=False, maybe=True)


def la_inv(I, a, k):
    t, sh, dt = arr_of(I, a[0])
    linalg_raise(I)
    return nd_new(I, tm.inv(t), sh, "float")


def la_det(I, a, k):
    t, sh, dt = arr_of(I, a[0])
    while t.op == "tr":
        t = t.args[0]
    return S(mk("det", t), "float")


def la_solve(I, a, k):
    t, sh, dt = arr_of(I, a[0])
    tb, sb, db = arr_of(I, a[1])
    linalg_raise(I)
    if isinstance(a[0], U) or isinstance(a[1], U):
        return I.unk("solve", *a)
    return nd_new(I, tm.mm(tm.inv(t), tb) if tm.ndim(t) == 2 and tm.ndim(tb) else mk("ext", "solve", t, tb), sb, "float")


def la_norm(I, a, k):
    t, sh, dt = arr_of(I, a[0])
    if len(a) > 1 or k:
        return S(mk("ext", "norm", t, *[I.desc(x) for x in a[1:]]), "float")
    return S(mk("norm", t), "float")


def la_other(name):
    def g(I, a, k):
        linalg_raise(I)
        return I.unk("linalg." + name, *a)
    return g


def np_transpose(I, a, k):
    v = a[0]
    if isarr(I, v):
        return I.getattr(v, "T")
    t, sh, dt = arr_of(I, v)
    return nd_new(I, tm.tr(t), tuple(reversed(sh)) if sh is not None else None, dt)


def np_issubdtype(I, a, k):
    d, w = I.resolve(a[0]), I.resolve(a[1])
    def nm(x):
        if isinstance(x, Ext):
            return x.name.split(".")[-1]
        return None
    dn, wn = nm(d), nm(w)
    groups = {"float": {"floating", "inexact", "number", "float", "float64", "generic"},
              "int": {"integer", "signedinteger", "number", "int", "int64", "generic"},
              "bool": {"bool_", "bool", "generic"}, "str": {"str_", "character", "flexible", "generic", "str"},
              "object": {"object_", "object", "generic"}}
    if dn in groups and wn:
        return C(wn in groups[dn])
    if dn == "num" and wn == "number":
        return TRUE
    return S(mk("ext", "issubdtype", I.desc(d), I.desc(w)), "bool")


def np_sign(I, a, k):
    t, sh, dt = arr_of(I, a[0])
    r = mk("sign", t)
    return as_val(r, "float") if sh == () else nd_new(I, r, sh, dt)


def np_dot(I, a, k):
    x, y = a[0], a[1]
    if isinstance(x, (C, S)) or isinstance(y, (C, S)):
        return I.binop("Mult", x, y)
    return bm.matmul(I, x, y)


def np_outer(I, a, k):
    (tx, sx, dx), (ty, sy, dy) = arr_of(I, a[0]), arr_of(I, a[1])
    if sx is None or sy is None or len(sx) != 1 or len(sy) != 1:
        return nd_new(I, mk("ext", "outer", tx, ty), None)
    return nd_new(I, mul(tm.colb(tx), tm.rowb(ty)), (sx[0], sy[0]), dx if dx == dy else "float")


def np_fill_diagonal(I, a, k):
    r = I.resolve(a[0])
    if isarr(I, r):
        sh = I.obj(r).shape
        v = I.desc(a[1])
        if sh is not None and len(sh) == 2 and tm.ndim(v) == 0:
            I.nd_write(r, mk("fn", "filldiag", 2, I.nd_t(r), v))
        else:
            I.nd_write(r, mk("wr?", I.nd_t(r), "diag", v))
    return NONE


def np_diag(I, a, k):
    t, sh, d = arr_of(I, a[0])
    if len(a) > 1 or k or sh is None or len(sh) not in (1, 2):
        return nd_new(I, mk("ext", "diag", t), None)
    if len(sh) == 1:
        return nd_new(I, mul(mk("eye", sh[0]), tm.rowb(t)), (sh[0], sh[0]), d)
    return fn(I, "diagonal", (t,), (sh[0],) if sh[0] is sh[1] else None, d)


def np_take(I, a, k):
    r = I.resolve(a[0])
    ax = k.get("axis", a[2] if len(a) > 2 else None)
    if not isarr(I, r):
        r = np_array(I, [r], {})
    sh = I.obj(r).shape
    if sh is None or not (len(sh) == 1 and none(ax)) and not (isinstance(ax, C) and isinstance(ax.v, int)):
        return I.unk("numpy.take", *a)
    v = bm.axis_index(I, r, 0 if none(ax) else ax.v % len(sh), I.resolve(a[1]))
    if isarr(I, v) and I.obj(v).base is not None:
        return nd_new(I, I.nd_t(v), I.obj(v).shape, I.obj(v).dt)
    return v


def np_repeat(I, a, k):
    t, sh, d = arr_of(I, a[0])
    ax = k.get("axis", a[2] if len(a) > 2 else None)
    n, sn, _ = arr_of(I, a[1])
    if sh is None or sn is None or not none(ax) or len(sh) > 1:
        return I.unk("numpy.repeat", *a)
    if len(sh) == 0 and len(sn) == 0:
        return nd_new(I, mk("full", t, n), (n,), d)
    if len(sn) == 1 and tm.is_lin_const(sn[0]) and len(sh) == 1 and sh[0] is sn[0]:
        return nd_new(I, tm.stack(1, 0, [(mk("full", elem(t, const(j)), elem(n, const(j))), elem(n, const(j))) for j in range(int(sn[0].args[0]))]),
                      (functools.reduce(add, [elem(n, const(j)) for j in range(int(sn[0].args[0]))], const(0)),), d)
    return fn(I, "repeat", (t, n), None, d)


def by_definition(name, dt=None, n=1, same=False):
    """vector-valued functions evaluated by their definition; same tells that the shape is that of the argument"""
    def g(I, a, k):
        if k or len(a) != n or any(isinstance(x, U) for x in a):
            return I.unk("numpy." + name, *a)
        rs = [arr_of(I, x) for x in a]
        if any(sh is None or len(sh) > 1 for t, sh, d in rs):
            return I.unk("numpy." + name, *a)
        return fn(I, name, [t for t, sh, d in rs], rs[0][1] if same else None, dt or rs[0][2])
    return phi_arg(g)


def np_pad(I, a, k):
    t, sh, d = arr_of(I, a[0])
    mode, val = k.get("mode", a[2] if len(a) > 2 else C("constant")), k.get("constant_values", C(0))
    w = k.get("pad_width", a[1] if len(a) > 1 else None)
    w = I.resolve(w) if w is not None else None
    its = [I.resolve(i.v) for i in bm.iter_items(I, w) if i.m == "1" and i.g is None] if isinstance(w, (Tup, Ref)) else [w, w] if isinstance(w, (C, S)) else []
    if len(its) == 1 and isinstance(its[0], Tup):
        its = list(its[0].vs)
    if sh is None or len(sh) != 1 or not (isinstance(mode, C) and mode.v == "constant") or len(its) != 2 or not all(isinstance(x, (C, S)) for x in its + [val]):
        return I.unk("numpy.pad", *a)
    lo, hi = [I.norm(I.scalar_t(x)) for x in its]
    for n in (lo, hi):
        if I.tri(lt0(n)) is True:
            I.raise_exc("ValueError", "negative pad width", internal=True)
    parts = [(mk("full", I.desc(val), n), n) for n in (lo,)] + [(t, sh[0])] + [(mk("full", I.desc(val), n), n) for n in (hi,)]
    parts = [(p, n) for p, n in parts if not (tm.is_lin_const(n) and n.args[0] == 0)]
    return nd_new(I, tm.stack(1, 0, parts), (add(add(lo, sh[0]), hi),), d)


def np_expand(I, a, k):
    r, ax = I.resolve(a[0]), k.get("axis", a[1] if len(a) > 1 else None)
    if not isarr(I, r):
        r = np_array(I, [r], {})
    sh = I.obj(r).shape
    if sh is not None and len(sh) == 1 and isinstance(ax, C) and ax.v in (0, 1, -1, -2):
        return bm.as_row(I, r) if ax.v in (0, -2) else bm.as_col(I, r)
    return I.unk("numpy.expand_dims", *a)


def np_atleast_2d(I, a, k):
    r = I.resolve(a[0])
    if len(a) != 1:
        return I.unk("numpy.atleast_2d", *a)
    if not isarr(I, r):
        r = np_array(I, [r], {})
    sh = I.obj(r).shape
    if sh is not None and len(sh) == 2:
        return r
    if sh is not None and len(sh) == 1:
        return bm.as_row(I, r)
    return I.unk("numpy.atleast_2d", *a)


def np_squeeze(I, a, k):
    r = I.resolve(a[0])
    if isarr(I, r) and not k and len(a) == 1:
        sh = I.obj(r).shape
        one = lambda d: tm.is_lin_const(d) and d.args[0] == 1
        if sh is not None and len(sh) == 1 and not one(sh[0]) and tm.bounds(sh[0])[0] >= 2:
            return r
        if sh is not None and len(sh) == 2 and one(sh[0]) != one(sh[1]):
            return view(I, r, ("vec", 0 if one(sh[0]) else 1), (sh[1] if one(sh[0]) else sh[0],))
    return I.unk("numpy.squeeze", *a)


def np_put(I, a, k):
    r = I.resolve(a[0])
    if isarr(I, r) and not k and len(a) == 3 and I.obj(r).shape is not None and len(I.obj(r).shape) == 1:
        bm.nd_setitem(I, r, I.resolve(a[1]), I.resolve(a[2]))
        return NONE
    if isarr(I, r):
        I.nd_write(r, mk("wr?", I.nd_t(r), "put", *[I.desc(x) for x in a[1:]]))
    return NONE


def np_mask_put(I, a, k):
    r = I.resolve(a[0])
    if isarr(I, r):
        I.nd_write(r, mk("wr?", I.nd_t(r), "put", *[I.desc(x) for x in a[1:]]))
    return NONE


def np_copyto(I, a, k):
    r = I.resolve(a[0])
    if isarr(I, r):
        t, sh, dt = arr_of(I, a[1])
        I.nd_write(r, bm.bcast(t, I.obj(r).shape or ()))
    return NONE


def np_sort(I, a, k):
    t, sh, dt = arr_of(I, a[0])
    return nd_new(I, mk("ext", "sort", t), sh, dt)


def np_unique(I, a, k):
    t, sh, dt = arr_of(I, a[0])
    return fn(I, "unique", (t,), None, dt) if sh is not None and not k else nd_new(I, mk("ext", "unique", t), None, dt)


def np_shape(I, a, k):
    sh = shape_of(I, a[0])
    return I.unk("shape", a[0]) if sh is None else Tup(tuple(as_val(d, "int") for d in sh))


def np_minimum(which):
    def g(I, a, k):
        if all(isinstance(x, (C, S)) for x in a[:2]):
            return bm.minmax(which)(I, list(a[:2]), {})
        ta, sa, da = arr_of(I, a[0])
        tb, sb, db = arr_of(I, a[1])
        ta, tb = tm.align([ta, tb], nd_of(sa, sb))
        return nd_new(I, mk(which + "2", *sorted((ta, tb), key=tm.key)), bshape(I, sa, sb), da)
    return phi_arg(g)


def np_random(name):
    def g(I, a, k):
        I.effects.append(("random", "numpy.random." + name, I.site()))
        I.fresh_n += 1
        size = k.get("size")
        if name in ("uniform", "normal") and len(a) > 2:
            size = a[2]
        elif name in ("rand", "randn"):
            size = Tup(tuple(a)) if a else None
        elif name == "randint" and len(a) > 2:
            size = a[2]
        elif name in ("random", "random_sample") and a:
            size = a[0]
        if name in ("seed", "shuffle"):
            return NONE
        nums = [v.v for v in map(I.resolve, a[:2]) if isinstance(v, C) and isinstance(v.v, (int, float))]
        draw = None
        if name in ("random", "random_sample", "rand") or name == "uniform" and not a:
            draw = ("between", (0, 1))
        elif name == "uniform" and len(nums) == 2:
            draw = ("between", (min(nums), max(nums)))
        elif name == "randint" and len(nums) == 2 and nums[0] < nums[1] < nums[0] + 1000:
            draw = ("choice", tuple(range(nums[0], nums[1])))
        if size is None or isinstance(size, C) and size.v is None:
            t = sym("rnd%d" % I.fresh_n)
            if draw:
                tm.META.setdefault(t, {})["draw"] = draw
            return S(t, "float")
        sh = shape_arg(I, size)
        t = sym("rnd%d" % I.fresh_n, ndim=len(sh) if sh is not None else None, shape=sh or ())
        if draw:
            tm.META.setdefault(t, {})["draw"] = draw
        return nd_new(I, t, sh, "float")
    return g


def num_ctor(dt):
    """np.float64(x), np.int64(x)"""
    def g(I, a, k):
        v = a[0] if a else C(0)
        if isinstance(v, (C, S)):
            return bm.BI[dt if dt in ("float", "int", "bool") else "float"](I, [v], {})
        return np_array(I, [v], {"dtype": Ext("numpy." + dt)})
    return phi_arg(g)


FN = {
    "array": phi_arg(np_array), "asarray": phi_arg(np_asarray), "asanyarray": phi_arg(np_asarray), "ascontiguousarray": phi_arg(np_asarray),
    "copy": phi_arg(np_copy), "zeros": maker(0), "ones": maker(1), "empty": maker(None), "full": np_full,
    "zeros_like": phi_arg(maker(0, True)), "ones_like": phi_arg(maker(1, True)), "empty_like": phi_arg(maker(None, True)),
    "eye": np_eye, "identity": np_eye, "arange": phi_arg(np_arange), "round": phi_arg(ew_round), "around": phi_arg(ew_round),
    "floor": elementwise("floor", lambda t: mk("floor", t)), "ceil": elementwise("ceil", lambda t: mk("ceil", t)), "trunc": elementwise("trunc", lambda t: mk("int", t)),
    "rint": elementwise("rint", lambda t: mk("round", t)),
    "abs": elementwise("abs", bm.t_abs), "absolute": elementwise("abs", bm.t_abs), "fabs": elementwise("abs", bm.t_abs), "negative": elementwise("neg", neg),
    "sqrt": elementwise("sqrt", lambda t: mk("sqrt", t)), "square": elementwise("square", lambda t: mul(t, t)), "reciprocal": elementwise("recip", tm.recip),
    "sign": phi_arg(np_sign), "where": phi_arg(np_where), "nonzero": phi_arg(lambda I, a, k: np_where(I, a[:1], k)), "flatnonzero": phi_arg(np_flatnonzero), "argwhere": lambda I, a, k: I.unk("argwhere", *a),
    "concatenate": np_concatenate, "vstack": np_vstack, "row_stack": np_vstack, "hstack": np_hstack, "append": np_append, "insert": phi_arg(np_insert), "delete": phi_arg(np_delete),
    "stack": np_stack, "column_stack": np_column_stack,
    "isclose": phi_arg(np_isclose), "allclose": phi_arg(np_allclose), "array_equal": phi_arg(np_array_equal),
    "logical_or": logical("or"), "logical_and": logical("and"), "logical_not": logical("not"),
    "all": allany("all"), "any": allany("any"), "alltrue": allany("all"),
    "sum": reduction("sum"), "max": reduction("max"), "min": reduction("min"), "amax": reduction("max"), "amin": reduction("min"),
    "prod": reduction("prod"), "mean": reduction("mean"), "count_nonzero": reduction("count_nonzero"),
    "argmax": argred("argmax"), "argmin": argred("argmin"), "argsort": by_definition("argsort", "int", 1, True),
    "dot": phi_arg(np_dot), "matmul": phi_arg(lambda I, a, k: bm.matmul(I, a[0], a[1])), "inner": phi_arg(np_dot), "vdot": phi_arg(np_dot), "outer": phi_arg(np_outer),
    "linalg.inv": phi_arg(la_inv), "linalg.det": phi_arg(la_det), "linalg.solve": phi_arg(la_solve), "linalg.norm": phi_arg(la_norm),
    "linalg.matrix_rank": phi_arg(lambda I, a, k: S(mk("ext", "rank", arr_of(I, a[0])[0]), "int")), "linalg.pinv": la_other("pinv"), "linalg.lstsq": la_other("lstsq"),
    "transpose": phi_arg(np_transpose), "issubdtype": np_issubdtype, "shape": phi_arg(np_shape), "ndim": phi_arg(lambda I, a, k: C(len(shape_of(I, a[0]))) if shape_of(I, a[0]) is not None else I.unk("ndim", a[0])),
    "isscalar": phi_arg(lambda I, a, k: C(isinstance(a[0], (C, S)))),
    "add": binop("Add"), "subtract": binop("Sub"), "multiply": binop("Mult"), "divide": binop("Div"), "true_divide": binop("Div"), "power": binop("Pow"), "mod": binop("Mod"),
    "less": cmpop("Lt"), "less_equal": cmpop("LtE"), "greater": cmpop("Gt"), "greater_equal": cmpop("GtE"), "equal": cmpop("Eq"), "not_equal": cmpop("NotEq"),
    "minimum": np_minimum("min"), "maximum": np_minimum("max"),
    "fill_diagonal": np_fill_diagonal, "put": np_put, "place": np_mask_put, "putmask": np_mask_put, "take": np_take, "repeat": np_repeat,
    "pad": phi_arg(np_pad), "expand_dims": phi_arg(np_expand), "atleast_2d": phi_arg(np_atleast_2d), "cumsum": by_definition("cumsum", None, 1, True), "flip": by_definition("flip", None, 1, True),
    "diff": by_definition("diff"), "union1d": by_definition("union1d", None, 2), "intersect1d": by_definition("intersect1d", None, 2), "copyto": np_copyto,
    "sort": phi_arg(np_sort), "unique": phi_arg(np_unique),
    "isnan": elementwise("isnan", lambda t: mk("ext", "isnan", t), "bool"), "isinf": elementwise("isinf", lambda t: mk("ext", "isinf", t), "bool"), "isfinite": elementwise("isfinite", lambda t: mk("ext", "isfinite", t), "bool"),
    "diag": phi_arg(np_diag), "float64": num_ctor("float"), "int64": num_ctor("int"), "bool_": num_ctor("bool"), "float32": num_ctor("float"), "int32": num_ctor("int"),
    "reshape": lambda I, a, k: nd_method(I, I.resolve(a[0]), I.obj(I.resolve(a[0])), "reshape", list(a[1:]), k) if isarr(I, I.resolve(a[0])) else I.unk("reshape", *a),
    "ravel": lambda I, a, k: nd_method(I, I.resolve(a[0]), I.obj(I.resolve(a[0])), "ravel", list(a[1:]), k) if isarr(I, I.resolve(a[0])) else I.unk("ravel", *a),
    "squeeze": phi_arg(np_squeeze), "atleast_1d": lambda I, a, k: a[0], "linspace": lambda I, a, k: I.unk("linspace", *a), "setdiff1d": by_definition("setdiff1d", None, 2),
    "set_printoptions": lambda I, a, k: NONE, "array2string": lambda I, a, k: I.opaque("array2string", "str", a[0]), "ndarray": lambda I, a, k: maker(None)(I, a, k),
    "errstate": lambda I, a, k: I.unk("errstate"), "isin": by_definition("isin", "bool", 2, True), "in1d": by_definition("isin", "bool", 2, True),
}


def call(I, name, args, kwargs):
    f = FN.get(name)
    if f is not None:
        return f(I, list(args), dict(kwargs))
    if name.startswith("random."):
        return np_random(name[7:])(I, list(args), dict(kwargs))
    if name.startswith("linalg."):
        return la_other(name[7:])(I, list(args), dict(kwargs))
    if name in ("save", "savetxt", "savez", "load", "loadtxt", "fromfile", "memmap"):
        I.effects.append(("file", "numpy." + name, I.site()))
    # unknown numpy function: pure, result does not alias its arguments unless shown otherwise
    return I.unk("numpy." + name, *args)


# ------------------------------------------------------------ methods

def is_one(d):
    return tm.is_lin_const(d) and d.args[0] == 1


def flat_view(I, r, o, t, sh):
    """all entries in one row: a view, unless the array is not stored in that order"""
    if is_one(sh[0]) or is_one(sh[1]):
        n = 0 if is_one(sh[0]) else 1
        return view(I, r, ("vec", n), (sh[1 - n],))
    if o.base is not None:
        I.imp("array method ravel")
        return U(mk("fn", "flat", 1, t), frozenset([r.a]))
    return view(I, r, ("flat",), (mul(sh[0], sh[1]),))


def reshaped(I, r, o, t, sh, dt, args, kwargs):
    if kwargs or not args:
        return None
    to = shape_arg(I, args[0] if len(args) == 1 else Tup(tuple(args)))
    if to is None or len(to) > 2 or len(sh) not in (1, 2):
        return None
    free = [tm.is_lin_const(d) and d.args[0] == -1 for d in to]
    agrees = lambda d, n: d is n or I.tri(eq0(I.norm(sub(d, n)))) is True
    if len(sh) == 2:
        if all(not f and agrees(d, n) for d, n, f in zip(to, sh, free)) and len(to) == 2:
            return view(I, r, ("id",), sh)
        if len(to) == 1 and (free[0] or agrees(to[0], mul(sh[0], sh[1]))):
            return flat_view(I, r, o, t, sh)
        return None
    if len(to) == 1:
        return view(I, r, ("id",), sh) if free[0] or agrees(to[0], sh[0]) else None
    for n in (0, 1):
        if is_one(to[n]) and (free[1 - n] or agrees(to[1 - n], sh[0])):
            return (bm.as_row if n == 0 else bm.as_col)(I, r)
    return None


def nd_method(I, r, o, name, args, kwargs):
    t = I.nd_t(r)
    sh, dt = o.shape, o.dt
    a = [r] + list(args)
    if name == "copy" or name == "__copy__" or name == "__deepcopy__":
        return nd_new(I, t, sh, dt)
    if name == "astype":
        d = dtype_of(I, args[0] if args else kwargs.get("dtype"), dt)
        c = kwargs.get("copy")
        if c is not None and I.truth(c) is False and d == dt:
            return r
        return nd_new(I, cast(t, dt, d), sh, d)
    if name == "tolist":
        if sh is None:
            return I.new(Lst("list", (It(S(mk("elem", t, mk("idx", "any")), py_of_dt(dt)), "*", "nd"),), True))
        if len(sh) == 0:
            return as_val(t, py_of_dt(dt))
        items = []
        for it in bm.nd_items(I, r):
            v = it.v
            if isarr(I, v):
                v = nd_method(I, v, I.obj(v), "tolist", [], {})
            items.append(It(v, it.m, it.seg, it.g))
        return I.new(Lst("list", tuple(items)))
    if name in ("all", "any"):
        return FN[name](I, a, kwargs)
    if name in ("sum", "max", "min", "mean", "prod"):
        return FN[name](I, a, kwargs)
    if name in ("argmax", "argmin", "argsort", "nonzero", "round", "dot", "transpose"):
        return FN[name](I, a, kwargs)
    if name == "item":
        if sh == ():
            return as_val(t, py_of_dt(dt))
        if len(args) == 1 and isinstance(args[0], Tup):
            args = list(args[0].vs)
        if not args:
            return S(mk("item", t, 0), py_of_dt(dt))
        return bm.nd_index(I, r, Tup(tuple(args)) if len(args) > 1 else args[0])
    if name == "fill":
        v = I.desc(args[0])
        I.nd_write(r, mk("full", v, *sh) if sh else (v if sh == () else mk("wr?", t, "fill", v)))
        return NONE
    if name == "sort":
        I.nd_write(r, mk("ext", "sort", t))
        return NONE
    if name in ("put", "itemset", "partition", "resize", "setfield", "setflags", "byteswap"):
        I.nd_write(r, mk("wr?", t, name, *[I.desc(x) for x in args]))
        return NONE
    if name in ("flatten",):
        if sh is not None and len(sh) == 1:
            return nd_new(I, t, sh, dt)
        n = sh[0] if sh is not None and len(sh) == 1 else (mul(sh[0], sh[1]) if sh is not None and len(sh) == 2 else None)
        if sh is not None and len(sh) == 2 and tm.is_lin_const(sh[0]) and sh[0].args[0] == 1:
            return nd_new(I, sel(t, 0, const(0), True), (sh[1],), dt)
        return fn(I, "flat", (t,), (n,), dt) if n is not None else nd_new(I, mk("ext", "flat", t), None, dt)
    if name in ("take", "repeat", "cumsum", "squeeze") and sh is not None:
        return FN[name](I, a, kwargs)
    if name == "diagonal" and not args and sh is not None:
        return np_diag(I, a, kwargs)
    if name == "ravel" and sh is not None and len(sh) == 2 and not args and not kwargs:
        return flat_view(I, r, o, t, sh)
    if name == "reshape" and sh is not None:
        v = reshaped(I, r, o, t, sh, dt, args, kwargs)
        if v is not None:
            return v
    if name in ("ravel", "reshape", "squeeze", "view", "swapaxes", "diagonal"):
        I.imp("array method " + name)
        if name == "ravel" and sh is not None and len(sh) == 1:
            return view(I, r, ("id",), sh)
        nsh = None
        if name == "reshape":
            nsh = shape_arg(I, args[0] if len(args) == 1 else Tup(tuple(args)))
            if nsh is not None and any(tm.is_lin_const(d) and d.args[0] == -1 for d in nsh):
                nsh = None
            if nsh is None and sh is not None and len(sh) == 1:
                s2 = shape_arg(I, args[0] if len(args) == 1 else Tup(tuple(args)))
                if s2 is not None and len(s2) == 1:
                    return view(I, r, ("id",), sh)
        u = mk("ext", name, t, *[I.desc(x) for x in args])
        return U(u, frozenset([r.a]))
    if name in ("__len__",):
        return bm.length(I, r)
    if name in ("clip", "cumsum", "repeat", "take", "conj", "std", "var"):
        return nd_new(I, mk("ext", name, t, *[I.desc(x) for x in args]), None, dt)
    return I.unk("array method " + name, r, *args)
