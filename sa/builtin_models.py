"""Models of the built-in types and of the standard library functions the package uses."""
import ast
import math
from . import terms as tm
from .terms import ZERO, T, mk, const, sym, add, sub, mul, neg, lt0, eq0, bnot, bool_nary, ite, elem, sel, upd
from .values import *

BUILTINS = {"len", "range", "enumerate", "zip", "map", "filter", "list", "tuple", "set", "frozenset", "dict", "sorted", "reversed",
            "min", "max", "sum", "any", "all", "abs", "round", "int", "float", "str", "bool", "isinstance", "issubclass", "type",
            "hasattr", "getattr", "setattr", "iter", "next", "print", "repr", "id", "hash", "callable", "super", "exit", "quit",
            "object", "divmod", "pow", "property", "staticmethod", "classmethod", "open", "input", "slice", "vars", "NotImplemented",
            "complex", "bytes", "chr", "ord", "format", "Ellipsis", "__import__", "eval", "exec", "compile", "delattr", "globals", "locals",
            "bytearray", "dir", "ascii", "bin", "hex", "oct", "memoryview", "breakpoint", "help"}


def num(v):
    return isinstance(v, C) and isinstance(v.v, (int, float)) or isinstance(v, S) and v.py in ("int", "float", "num", "bool", "any")


def term(I, v):
    return I.desc(v)


def as_val(t, py):
    if t.op == "c":
        return C(t.args[0])
    if tm.is_lin_const(t):
        k = t.args[0]
        if py == "int" and k.denominator == 1:
            return C(int(k))
        if py == "float":
            return C(float(k))
        if py == "num" and k.denominator == 1:
            return S(t, "num")
    return S(t, py)


def boolv(I, c):
    if isinstance(c, bool):
        return C(c)
    r = I.tri(c)
    return C(r) if r is not None else S(c, "bool")


def cat(ts):
    out = []
    for t in ts:
        if t.op == "cat":
            out += t.args
        else:
            out.append(t)
    m = []
    for t in out:
        if m and t.op == "c" and m[-1].op == "c" and isinstance(t.args[0], str) and isinstance(m[-1].args[0], str):
            m[-1] = mk("c", m[-1].args[0] + t.args[0])
        else:
            m.append(t)
    m = [t for t in m if not (t.op == "c" and t.args[0] == "")] or [mk("c", "")]
    if len(m) == 1 and m[0].op == "c":
        return C(m[0].args[0])
    if len(m) == 1:
        return S(m[0], "str")
    return S(mk("cat", *m), "str")


# ------------------------------------------------------------------ axes

def axis_items(I, dim, content=None, axis=0):
    """[(index term, mult, seg)] covering 0..dim-1"""
    if tm.is_lin_const(dim):
        n = int(dim.args[0])
        if n <= 12:
            return [(const(k), "1", None) for k in range(max(n, 0))]
    for u in tm.UNIVERSE:
        if u not in tm.UDIM and tm.dim_of(u) is dim:
            return [(mk("idx", s), "+", s) for s in tm.UNIVERSE[u]]
    if dim.op == "size":
        return [(mk("ord", dim.args[0]), "+", dim.args[0])]
    if content is not None and content.op == "stack" and content.args[1] == axis:
        out = []
        off = const(0)
        for p, l in content.args[2:]:
            for i, m, s in axis_items(I, l):
                out.append((add(i, off), m, s))
            off = add(off, l)
        if off is dim:
            return out
    name = "n=" + tm.key(dim)
    if name not in tm.UNIVERSE:
        tm.UNIVERSE[name] = [name]
        tm.UNIV_OF[name] = name
        tm.UDIM[name] = dim
    lo, hi = tm.bounds(dim)
    if hi <= 0:
        return []
    if tm.is_lin_const(dim):
        mult = "+"
    else:
        mult = "+" if lo >= 1 else "*"
    return [(mk("idx", name), mult, name)]


def make_range(I, lo, hi, step=None):
    return I.new(Lst("range", (It(lo), It(hi)) + ((It(step),) if step is not None else ())))


def range_items(I, o):
    lo, hi = o.items[0].v, o.items[1].v
    step = o.items[2].v if len(o.items) > 2 else None
    if step is not None:
        if isinstance(step, C) and step.v == -1:
            # hi < i <= lo, descending
            tl, th = I.scalar_t(lo), I.scalar_t(hi)
            n = sub(tl, th)
            out = []
            for i, m, s in axis_items(I, n):
                if m == "1":
                    out.append(It(as_val(sub(tl, i), "int")))
                else:
                    out.append(It(S(add(add(th, const(1)), i), "int"), m, s))
            return out
        if all(isinstance(x, C) for x in (lo, hi, step)) and step.v:
            r = range(lo.v, hi.v, step.v)
            if len(r) <= 24:
                return [It(C(x)) for x in r]
        return [It(I.unk("range step", lo, hi, step), "*", "step")]
    tl, th = I.scalar_t(lo), I.scalar_t(hi)
    if tl is None or th is None:
        return [It(S(mk("unk", "range", I.desc(lo), I.desc(hi)), "int"), "*", "range")]
    n = I.norm(sub(th, tl))
    out = []
    for i, m, s in axis_items(I, n):
        out.append(It(as_val(add(i, tl), "int"), m, s))
    return out


def iter_items(I, v):
    v = I.resolve(v)
    if isinstance(v, Tup):
        return [It(x) for x in v.vs]
    if isinstance(v, C):
        if isinstance(v.v, str):
            return [It(C(ch)) for ch in v.v]
        if isinstance(v.v, (tuple, list)):
            return [It(C(x)) for x in v.v]
        I.raise_exc("TypeError", "not iterable", internal=True)
    if isinstance(v, S):
        if v.py == "str":
            # the characters of the string
            return [It(S(mk("char", v.t), "str"), "*" if not tm.META.get(v.t, {}).get("multi") else "+", "char:" + tm.key(v.t))]
        if v.py in ("int", "float", "bool", "num"):
            I.raise_exc("TypeError", "not iterable", internal=True)
        return [It(S(mk("item", v.t, 0), "any"), "*", "it:" + tm.key(v.t))]
    if isinstance(v, U):
        return [It(U(mk("item", v.t, 0), v.refs), "*", "it:" + tm.key(v.t))]
    if isinstance(v, Phi):
        out = []
        for g, x in v.alts:
            for it in iter_items(I, x):
                out.append(It(it.v, it.m, it.seg, g if it.g is None else bool_nary("and", [g, it.g])))
        return out
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, Lst):
            if o.kind == "range":
                return range_items(I, o)
            out = list(o.items)
            if I.set_order == "rev" and o.kind in ("set", "frozenset"):
                out.reverse()
            if o.op and not any(i.m == "*" and isinstance(i.v, U) for i in out):
                out.append(It(U(mk("member", I.desc(v))), "*", "open%d" % v.a))
            return out
        if isinstance(o, Dct):
            out = [It(d.k, d.m, d.seg, d.g) for d in o.items]
            if o.op and not any(i.m == "*" and isinstance(i.v, U) for i in out):
                out.append(It(U(mk("member", I.desc(v))), "*", "open%d" % v.a))
            return out
        if isinstance(o, Nd):
            return nd_items(I, v)
        if isinstance(o, Inst):
            m = I.find_m(o.cls, "__iter__")
            if m is not None:
                return iter_items(I, I.call_fn(Fn(m, cls=m.cls, module=m.module), [v], {}))
    if isinstance(v, StrView):
        return v.items
    return [It(I.unk("iterate", v), "*", "unk")]


class StrView:
    pass


def nd_items(I, r):
    o = I.obj(r)
    sh = o.shape
    t = I.nd_t(r)
    if sh is None or len(sh) == 0:
        return [It(S(mk("elem", t, mk("idx", "any")), "float"), "*", "ndany")]
    out = []
    for i, m, s in axis_items(I, sh[0], t, 0):
        out.append(It(nd_index(I, r, as_val(i, "int")), m, s))
    return out


# ------------------------------------------------------------------ arrays

def nd_new(I, t, shape, dt="float"):
    return I.new(Nd(t, shape, dt))


def view(I, r, step, shape):
    o = I.obj(r)
    if o.base is not None:
        return I.new(Nd(None, shape, o.dt, o.base, o.path + (step,)))
    return I.new(Nd(None, shape, o.dt, r.a, (step,)))


def py_of_dt(dt):
    return {"float": "float", "int": "int", "bool": "bool", "str": "str"}.get(dt, "any")


def idx_term(I, i):
    """(term, scalar, new dim or None, is_mask)"""
    if isinstance(i, C):
        if isinstance(i.v, bool) or i.v is None:
            return None
        if isinstance(i.v, (int,)):
            return (const(i.v), True, None)
        if isinstance(i.v, float):
            return None
    if isinstance(i, S):
        return (I.norm(i.t), True, None)
    if isinstance(i, Slice):
        def f(x):
            return mk("c", None) if isinstance(x, C) and x.v is None else I.desc(x)
        return (mk("slice", f(i.lo), f(i.hi), f(i.step)), False, i)
    if isinstance(i, Ref):
        o = I.obj(i)
        if isinstance(o, Nd):
            t = I.nd_t(i)
            if o.dt == "bool":
                return (mk("where", t), False, S(mk("len", mk("where", t)), "int"))
            if o.shape == ():
                return (t, True, None)
            return (t, False, S(o.shape[0] if o.shape else mk("len", t), "int"))
        if isinstance(o, Lst):
            if o.kind == "range":
                its = range_items(I, o)
                return (mk("list", *[I.wrap_item(I.desc(x.v), x) for x in its]), False, S(length(I, i), "int"))
            return (I.desc(i), False, S(length(I, i), "int"))
    if isinstance(i, U):
        return (i.t, False, S(mk("len", i.t), "int"))
    return None


def neg_index(I, t, dim):
    """python negative constants count from the end"""
    if tm.is_lin_const(t) and t.args[0] < 0 and dim is not None:
        return add(dim, t)
    return t


def slice_dim(I, sl, dim):
    lo, hi, st = sl.lo, sl.hi, sl.step
    if not (isinstance(st, C) and st.v is None):
        if isinstance(st, C) and st.v == 1:
            pass
        elif isinstance(st, C) and st.v == -1 and isinstance(lo, C) and lo.v is None and isinstance(hi, C) and hi.v is None:
            return dim
        else:
            return mk("len", mk("slice", I.desc(lo), I.desc(hi), I.desc(st), dim))
    def pos(x, dflt):
        if isinstance(x, C) and x.v is None:
            return dflt
        t = I.scalar_t(x)
        if t is None:
            return None
        b = tm.bounds(t)
        if b[1] < 0:
            return add(dim, t)
        return t
    a, b = pos(lo, const(0)), pos(hi, dim)
    if a is None or b is None:
        return mk("len", mk("slice", I.desc(lo), I.desc(hi), I.desc(st), dim))
    d = sub(b, a)
    return d


def norm_slice(I, sl, dim):
    """slice term with non-negative bounds where known"""
    def f(x, end):
        if isinstance(x, C) and x.v is None:
            return mk("c", None)
        t = I.scalar_t(x)
        if t is None:
            return I.desc(x)
        if tm.bounds(t)[1] < 0 and dim is not None:
            t = add(dim, t)
        if end and t is dim:
            return mk("c", None)
        if not end and tm.is_lin_const(t) and t.args[0] == 0:
            return mk("c", None)
        return t
    st = sl.step
    stt = mk("c", None) if isinstance(st, C) and st.v in (None, 1) else I.desc(st)
    return mk("slice", f(sl.lo, False), f(sl.hi, True), stt)


def merge_nums(I, v):
    """the numeric alternatives of a gated choice become one number; the rest stay alternatives"""
    if not isinstance(v, Phi):
        return v
    good = [(g, a) for g, a in v.alts if I.py_of(a) in ("int", "float", "num")]
    rest = [(g, a) for g, a in v.alts if I.py_of(a) not in ("int", "float", "num")]
    if not good:
        return v
    t = I.desc(good[-1][1])
    for g, a in reversed(good[:-1]):
        t = ite(g, I.desc(a), t)
    pys = {I.py_of(a) for g, a in good}
    n = S(t, pys.pop() if len(pys) == 1 else "num")
    if not rest:
        return n
    gg = good[0][0] if len(good) == 1 else bool_nary("or", [g for g, a in good])
    return Phi(((gg, n),) + tuple(rest))


def over_index(I, i, f):
    """f(index) for every alternative of the parts of an index"""
    if isinstance(i, Phi):
        i = merge_nums(I, I.resolve(i))
        return I.each(i, lambda x: over_index(I, x, f))
    if isinstance(i, Tup):
        for k, x in enumerate(i.vs):
            if isinstance(x, Phi):
                x = merge_nums(I, I.resolve(x))
                return I.each(x, lambda y: over_index(I, Tup(i.vs[:k] + (y,) + i.vs[k + 1:]), f))
    return f(i)


def nd_index(I, r, i):
    if isinstance(i, Phi) or isinstance(i, Tup) and any(isinstance(x, Phi) for x in i.vs):
        return over_index(I, i, lambda j: nd_index(I, r, j))
    o = I.obj(r)
    sh = o.shape
    t = I.nd_t(r)
    if sh is None:
        ti = idx_term(I, i) if not isinstance(i, Tup) else None
        if isinstance(i, Tup):
            return S(mk("sel?", t, I.desc(i)), "any")
        if ti is None or not ti[1]:
            return nd_new(I, mk("sel?", t, I.desc(i)), None, o.dt)
        n = tm.ndim(t)
        if n == 1:
            return S(elem(t, ti[0]), py_of_dt(o.dt))
        return U(mk("sel?", t, I.desc(i)), frozenset([r.a]))
    if isinstance(i, Tup):
        ix = list(i.vs)
        if len(ix) == 1 and isinstance(ix[0], Ref):
            return nd_index(I, r, ix[0])
        ix = [x for x in ix]
        if any(isinstance(x, C) and x.v is None for x in ix):
            rest = [x for x in ix if not (isinstance(x, C) and (x.v is None or x.v is Ellipsis))]
            if len(ix) - len(rest) == 1 and len(rest) == 1 and len(sh) == 1 or len(ix) == 2 and not rest and len(sh) == 1:
                v = nd_index(I, r, rest[0]) if rest else r
                if isinstance(v, Ref) and isinstance(I.obj(v), Nd) and I.obj(v).shape is not None and len(I.obj(v).shape) == 1:
                    return as_row(I, v) if isinstance(ix[0], C) and ix[0].v is None else as_col(I, v)
            return nd_new(I, mk("newaxis", t, I.desc(i)), None, o.dt)
        if len(ix) == 2 and len(sh) == 2:
            a, b = ix
            # both scalar
            ta, tb = idx_term(I, a), idx_term(I, b)
            if ta is None or tb is None:
                return U(mk("sel?", t, I.desc(i)), frozenset([r.a]))
            if ta[1] and tb[1]:
                check_bounds(I, ta[0], sh[0])
                check_bounds(I, tb[0], sh[1])
                row = sel(t, 0, neg_index(I, ta[0], sh[0]), True)
                return as_val(elem(row, neg_index(I, tb[0], sh[1])), py_of_dt(o.dt))
            full = lambda x: isinstance(x, Slice) and all(isinstance(y, C) and y.v is None for y in (x.lo, x.hi)) and isinstance(x.step, C) and x.step.v in (None, 1)
            if full(a):
                return axis_index(I, r, 1, b)
            if full(b):
                return axis_index(I, r, 0, a)
            r1 = axis_index(I, r, 0, a)
            return axis_index(I, r1, 0 if ta[1] else 1, b) if isinstance(r1, Ref) else r1
        return U(mk("sel?", t, I.desc(i)), frozenset([r.a]))
    if isinstance(i, C) and i.v is Ellipsis:
        return r
    return axis_index(I, r, 0, i)


def check_bounds(I, t, dim):
    """definite out-of-range access"""
    if I.tri(lt0(sub(t, dim))) is False:
        I.raise_exc("IndexError", "index out of bounds", internal=True)
    if I.tri(lt0(add(t, dim))) is True:
        I.raise_exc("IndexError", "index out of bounds", internal=True)


def as_row(I, r):
    """r[None, :] of a vector (a view)"""
    return view(I, r, ("rowb",), (const(1),) + I.obj(r).shape)


def as_col(I, r):
    """r[:, None] of a vector (a view)"""
    return view(I, r, ("colb",), I.obj(r).shape + (const(1),))


def axis_index(I, r, axis, i):
    o = I.obj(r)
    sh = o.shape
    t = I.nd_t(r)
    if isinstance(i, Ref) and isinstance(I.obj(i), Lst) and not I.obj(i).items and not I.obj(i).op:
        return nd_new(I, mk("empty"), tuple(const(0) if k == axis else d for k, d in enumerate(sh)), o.dt)
    if isinstance(i, Tup):
        i = I.new(Lst("list", tuple(It(x) for x in i.vs)))
    ti = idx_term(I, i)
    if ti is None:
        if isinstance(i, C) and i.v is None:
            return as_row(I, r) if len(sh) == 1 else nd_new(I, mk("newaxis", t), None, o.dt)
        if isinstance(i, C) and isinstance(i.v, (float, str)):
            I.raise_exc("IndexError", "invalid index", internal=True)
        return U(mk("sel?", t, I.desc(i)), frozenset([r.a]))
    it, scalar, nd = ti
    if scalar:
        it = neg_index(I, it, sh[axis])
        check_bounds(I, it, sh[axis])
        rest = sh[:axis] + sh[axis + 1:]
        if not rest:
            return as_val(sel(t, axis, it, True), py_of_dt(o.dt))
        return view(I, r, ("sel", axis, it, True), rest)
    if isinstance(nd, Slice):
        d = slice_dim(I, nd, sh[axis])
        it = norm_slice(I, nd, sh[axis])
        nsh = sh[:axis] + (d,) + sh[axis + 1:]
        if it.args[0] is mk("c", None) and it.args[1] is mk("c", None) and it.args[2] is mk("c", None):
            return view(I, r, ("id",), nsh)
        return view(I, r, ("sel", axis, it, False), nsh)
    nsh = sh[:axis] + (nd.t if isinstance(nd, S) else const(nd.v),) + sh[axis + 1:]
    return nd_new(I, sel(t, axis, it, False), nsh, o.dt)


def val_t(I, v):
    """content term of a value stored into an array"""
    if isinstance(v, Ref) and isinstance(I.obj(v), Lst):
        return arr_of(I, v)[0]
    if isinstance(v, Tup):
        return arr_of(I, v)[0]
    return I.desc(v)


def nd_setitem(I, r, i, v):
    if isinstance(i, Phi) or isinstance(i, Tup) and any(isinstance(x, Phi) for x in i.vs):
        return over_index(I, i, lambda j: nd_setitem(I, r, j, v) or NONE)
    o = I.obj(r)
    sh = o.shape
    t = I.nd_t(r)
    new = val_t(I, v)
    if o.dt == "int" and not (isinstance(v, C) and isinstance(v.v, int)) and I.py_of(v) != "int" and not (isinstance(v, Ref) and isinstance(I.obj(v), Nd) and I.obj(v).dt == "int"):
        new = mk("int", new)
    if sh is None:
        I.nd_write(r, mk("wr?", t, I.desc(i), new))
        return
    if isinstance(i, Tup) and len(i.vs) == 1:
        i = i.vs[0]
    if isinstance(i, Tup) and len(i.vs) == 2 and len(sh) == 2:
        a, b = i.vs
        full = lambda x: isinstance(x, Slice) and all(isinstance(y, C) and y.v is None for y in (x.lo, x.hi))
        ta, tb = idx_term(I, a), idx_term(I, b)
        if ta is None or tb is None:
            I.nd_write(r, mk("wr?", t, I.desc(i), new))
            return
        if full(a) and full(b):
            I.nd_write(r, bcast(new, sh))
            return
        def lst(x, tx, dim):
            if isinstance(tx[2], Slice):
                return norm_slice(I, tx[2], dim)
            return neg_index(I, tx[0], dim)
        if full(a):
            I.nd_write(r, upd(t, ("ax", 1, lst(b, tb, sh[1]), tb[1]), new))
            return
        if full(b):
            ks = rows_listed(ta[0], sh[0])
            if ks:
                for q, k in enumerate(ks):
                    t = upd(t, ("ax", 0, const(k), True), sel(new, 0, const(q), True) if tm.ndim(new) == 2 else new)
                I.nd_write(r, t)
                return
            I.nd_write(r, upd(t, ("ax", 0, lst(a, ta, sh[0]), ta[1]), new))
            return
        la, lb = lst(a, ta, sh[0]), lst(b, tb, sh[1])
        def part(vec, where, scalar, dim):
            ks = None if scalar else rows_listed(where, dim)
            if ks is None:
                return upd(vec, ("ax", 0, where, scalar), new)
            for q, k in enumerate(ks):
                vec = upd(vec, ("ax", 0, const(k), True), sel(new, 0, const(q), True) if tm.ndim(new) == 1 else new)
            return vec
        if ta[1]:
            row = sel(t, 0, la, True)
            I.nd_write(r, upd(t, ("ax", 0, la, True), part(row, lb, tb[1], sh[1])))
            return
        if tb[1]:
            col = sel(t, 1, lb, True)
            I.nd_write(r, upd(t, ("ax", 1, lb, True), part(col, la, ta[1], sh[0])))
            return
        I.nd_write(r, mk("wr?", t, I.desc(i), new))
        return
    if isinstance(i, Tup):
        I.nd_write(r, mk("wr?", t, I.desc(i), new))
        return
    if isinstance(i, Slice) and all(isinstance(y, C) and y.v is None for y in (i.lo, i.hi)):
        I.nd_write(r, bcast(new, sh))
        return
    if isinstance(i, C) and i.v is Ellipsis:
        I.nd_write(r, bcast(new, sh))
        return
    if isinstance(i, Ref) and isinstance(I.obj(i), Lst) and not I.obj(i).items and not I.obj(i).op:
        return
    ti = idx_term(I, i)
    if ti is None:
        I.nd_write(r, mk("wr?", t, I.desc(i), new))
        return
    it, scalar, nd = ti
    if isinstance(nd, Slice):
        it = norm_slice(I, nd, sh[0])
    if scalar:
        it = neg_index(I, it, sh[0])
        check_bounds(I, it, sh[0])
    ks = rows_listed(it, sh[0])
    if ks:
        for q, k in enumerate(ks):
            t = upd(t, ("ax", 0, const(k), True), sel(new, 0, const(q), True) if tm.ndim(new) == len(sh) else new)
        I.nd_write(r, t)
        return
    I.nd_write(r, upd(t, ("ax", 0, it, scalar), new))


def rows_listed(it, dim):
    """the distinct constant positions a list of positions names, or None"""
    if it.op == "slice" and tm.is_lin_const(dim) and dim.args[0] <= 12:
        none = mk("c", None)
        if not all(x is none or tm.is_lin_const(x) for x in it.args):
            return None
        return list(range(int(dim.args[0])))[slice(*[None if x is none else int(x.args[0]) for x in it.args])]
    if it.op != "list" or not it.args or not all(isinstance(x, T) and tm.is_lin_const(x) for x in it.args):
        return None
    ks = [x.args[0] for x in it.args]
    if len(set(ks)) != len(ks) or any(k.denominator != 1 or k < 0 for k in ks):
        return None
    return [int(k) for k in ks]


def bcast(t, sh):
    n = tm.ndim(t)
    if n == 0 and sh:
        return mk("full", t, *sh)
    return t


def nd_len(I, sh):
    return S(sh[0], "int") if sh else S(sym("len?"), "int")


def bshape(I, a, b):
    """broadcast two shapes; ('err', ) when certainly incompatible"""
    if a is None or b is None:
        return None
    if len(a) < len(b):
        a, b = b, a
    out = list(a)
    for k in range(1, len(b) + 1):
        x, y = a[-k], b[-k]
        if x is y:
            continue
        if tm.is_lin_const(y) and y.args[0] == 1:
            continue
        if tm.is_lin_const(x) and x.args[0] == 1:
            out[-k] = y
            continue
        d = I.norm(sub(x, y))
        if tm.is_lin_const(d) and d.args[0] == 0:
            continue
        one = const(1)
        if I.tri(eq0(d)) is False and I.tri(eq0(sub(x, one))) is False and I.tri(eq0(sub(y, one))) is False:
            return "err"
    return tuple(out)


def shape_of(I, v):
    if isinstance(v, Ref) and isinstance(I.obj(v), Nd):
        return I.obj(v).shape
    if isinstance(v, (C, S)):
        return ()
    if isinstance(v, Ref) and isinstance(I.obj(v), Lst) or isinstance(v, Tup):
        return arr_of(I, v)[1]
    return None


def dt_of(I, v):
    if isinstance(v, Ref) and isinstance(I.obj(v), Nd):
        return I.obj(v).dt
    p = I.py_of(v)
    return p if p in ("float", "int", "bool", "str") else "float"


def arith(op, a, b):
    if op == "Add":
        return add(a, b)
    if op == "Sub":
        return sub(a, b)
    if op == "Mult":
        return mul(a, b)
    if op == "Div":
        return tm.div(a, b)
    if op == "Mod":
        return mk("mod", a, b)
    if op == "FloorDiv":
        if tm.is_lin_const(a) and tm.is_lin_const(b) and b.args[0] != 0:
            return const(a.args[0] // b.args[0])
        return mk("floor", tm.div(a, b))
    if op == "Pow":
        if tm.is_lin_const(b) and b.args[0] == 2:
            return mul(a, a)
        if tm.is_lin_const(a) and tm.is_lin_const(b) and b.args[0].denominator == 1 and abs(b.args[0]) < 64 and a.args[0] != 0:
            return const(a.args[0] ** int(b.args[0]))
        return mk("pow", a, b)
    if op == "BitAnd":
        return bool_nary("and", [a, b])
    if op == "BitOr":
        return bool_nary("or", [a, b])
    return mk("op" + op, a, b)


def nd_binop(I, op, a, b):
    if op == "MatMult":
        return matmul(I, a, b)
    if isinstance(a, U) or isinstance(b, U):
        return I.unk("arith:" + op, a, b)
    ta, tb = val_t(I, a), val_t(I, b)
    sa, sb = shape_of(I, a), shape_of(I, b)
    sh = bshape(I, sa, sb)
    if sh == "err":
        I.raise_exc("ValueError", "operands could not be broadcast", internal=False)
    da, db = dt_of(I, a), dt_of(I, b)
    dt = "float" if "float" in (da, db) or op == "Div" else ("int" if "int" in (da, db) else da)
    if op in ("BitAnd", "BitOr") and da == db == "bool":
        dt = "bool"
    # orientation of mixed ranks matters: keep broadcasting explicit
    if sa is not None and sb is not None and len(sa) == 2 and len(sb) == 1:
        tb = tm.rowb(tb)
    elif sa is not None and sb is not None and len(sa) == 1 and len(sb) == 2:
        ta = tm.rowb(ta)
    if sh == ():
        return as_val(arith(op, ta, tb), py_of_dt(dt))
    return nd_new(I, arith(op, ta, tb), sh, dt)


def matmul(I, a, b):
    if isinstance(a, U) or isinstance(b, U):
        return I.unk("matmul", a, b)
    ta, tb = val_t(I, a), val_t(I, b)
    sa, sb = shape_of(I, a), shape_of(I, b)
    if sa is None or sb is None:
        n = tm.ndim(tm.mm(ta, tb)) if tm.ndim(ta) and tm.ndim(tb) else None
        if n == 0:
            return S(tm.mm(ta, tb), "float")
        return nd_new(I, tm.mm(ta, tb) if tm.ndim(ta) and tm.ndim(tb) else mk("mm?", ta, tb), None)
    if len(sa) == 0 or len(sb) == 0:
        I.raise_exc("ValueError", "matmul of scalar", internal=True)
    d1 = sa[-1]
    d2 = sb[0] if len(sb) == 1 else sb[-2]
    if d1 is not d2:
        d = I.norm(sub(d1, d2))
        if I.tri(eq0(d)) is False:
            I.raise_exc("ValueError", "matmul dimension mismatch", internal=False)
    sh = sa[:-1] + (sb[1:] if len(sb) == 2 else ())
    t = tm.mm(ta, tb)
    if not sh:
        return S(t, "float")
    return nd_new(I, t, sh)


def arr_of(I, v):
    """(term, shape, dtype) of np.array(v)"""
    v = I.resolve(v)
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, Nd):
            return I.nd_t(v), o.shape, o.dt
        if isinstance(o, Lst):
            its = iter_items(I, v)
            if o.op:
                return mk("arr", None, I.desc(v)), None, "float"
            return arr_items(I, its, v)
    if isinstance(v, Tup):
        return arr_items(I, [It(x) for x in v.vs], v)
    if isinstance(v, (C, S)):
        return I.desc(v), (), dt_of(I, v)
    return I.desc(v), None, "float"


def arr_items(I, its, v):
    if not its:
        return mk("stack", 1, 0), (const(0),), "float"
    parts, n = [], const(0)
    nd = None
    inner = None
    dts = set()
    for it in its:
        x = I.resolve(it.v)
        if isinstance(x, Ref) or isinstance(x, Tup):
            t, sh, dt = arr_of(I, x)
            if sh is None:
                return mk("arr", None, I.desc(v)), None, "float"
            k = len(sh)
            inner = sh
        elif isinstance(x, (C, S)):
            t, k, dt = I.desc(x), 0, dt_of(I, x)
        else:
            return mk("arr", None, I.desc(v)), None, "float"
        dts.add(dt)
        if nd is None:
            nd = k
        elif nd != k:
            return mk("arr", None, I.desc(v)), None, "float"
        if it.m == "1" and it.g is None:
            parts.append((t, const(1)))
            n = add(n, const(1))
        else:
            d = mk("size", it.seg) if it.m == "+" and it.g is None else mk("len", I.wrap_item(t, it))
            parts.append((mk("tab", it.seg or "?", t, it.g if it.g is not None else mk("c", True), nd + 1), d))
            n = add(n, d)
    dt = "float" if "float" in dts else ("int" if "int" in dts else ("bool" if dts == {"bool"} else "float"))
    sh = (n,) + (inner if inner is not None else ())
    # one array per index of a whole axis, given pointwise
    segs = [it.seg for it in its]
    if all(it.m == "+" and it.g is None for it in its):
        for u, ss in tm.UNIVERSE.items():
            if ss == segs:
                whole = whole_axis(I, its, segs, nd, u)
                if whole is not None:
                    return whole, sh, dt
    if len(parts) == 1 and parts[0][0].op == "tab":
        return parts[0][0], sh, dt
    return tm.stack(nd + 1, 0, parts), sh, dt


def whole_axis(I, its, segs, nd, u):
    """[v[i] for every i] is v itself"""
    base = None
    for it, s in zip(its, segs):
        x = I.resolve(it.v)
        t = I.desc(x) if not isinstance(x, Tup) else None
        if t is None:
            return None
        i = mk("idx", s)
        k, d = tm.lin_parts(t)
        if k != 0 or len(d) != 1:
            return None
        (a, c), = d.items()
        if a.op == "elem" and a.args[1] is i:
            b = tm.smul(c, a.args[0])
        elif a.op == "sel" and a.args[1] == 0 and a.args[2] is i and a.args[3]:
            b = tm.smul(c, a.args[0])
        else:
            return None
        if base is None:
            base = b
        elif base is not b:
            return None
    return base


# --------------------------------------------------------------- operators

def unary(I, op, v):
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, Nd):
            t = I.nd_t(v)
            if op == "USub":
                return nd_new(I, neg(t), o.shape, o.dt)
            if op == "UAdd":
                return nd_new(I, t, o.shape, o.dt)
            if op == "Invert":
                return nd_new(I, bnot(t), o.shape, o.dt)
        if isinstance(o, Inst):
            nm = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op]
            m = I.find_m(o.cls, nm)
            if m is not None:
                return I.call_fn(Fn(m, cls=m.cls, module=m.module), [v], {})
        I.raise_exc("TypeError", "bad operand for unary " + op, internal=True)
    if isinstance(v, C):
        if isinstance(v.v, (int, float)):
            return C(-v.v if op == "USub" else (+v.v if op == "UAdd" else ~v.v))
        I.raise_exc("TypeError", "bad operand for unary " + op, internal=True)
    if isinstance(v, S) and v.py != "str":
        if op == "USub":
            return as_val(neg(v.t), v.py)
        if op == "UAdd":
            return v
    if isinstance(v, Cls):
        mc = I.metaclass(v.c) if v.c.metaclass is not None else None
        m = I.find_m(mc, {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op]) if mc is not None else None
        if m is not None:
            return I.call_fn(Fn(m, cls=m.cls, module=m.module), [v], {})
    if isinstance(v, (S, Tup, Cls, Fn, Bound, BM, Mod)):
        I.raise_exc("TypeError", "bad operand for unary " + op, internal=True)
    return I.unk("unary" + op, v)


NOTIMPL = Ext("builtins.NotImplemented")


def dunder_bin(I, op, a, b, fwd, rev):
    """user-defined operator dispatch; None when no class takes part"""
    oa = I.obj(a) if isinstance(a, Ref) else None
    ob = I.obj(b) if isinstance(b, Ref) else None
    tried = False
    for recv, o, nm, other in ((a, oa, fwd, b), (b, ob, rev, a)):
        if recv is b and tried and rev.startswith("__r") and isinstance(oa, Inst) and isinstance(ob, Inst) and oa.cls is ob.cls:
            continue                # operands of one type: the reflected method is not tried
        if isinstance(o, Inst):
            m = I.find_m(o.cls, nm) if nm else None
            if m is not None:
                r = I.call_fn(Fn(m, cls=m.cls, module=m.module), [recv, other], {})
                if r == NOTIMPL:
                    tried = True
                    continue
                return r
            tried = True
        elif isinstance(recv, Cls) and recv.c.metaclass is not None:
            mc = I.metaclass(recv.c)
            m = I.find_m(mc, nm) if mc is not None and nm else None
            if m is not None:
                r = I.call_fn(Fn(m, cls=m.cls, module=m.module), [recv, other], {})
                if r == NOTIMPL:
                    tried = True
                    continue
                return r
            tried = True
    return "none" if tried else None


def binop(I, op, a, b):
    from .interp import DUNDER, UserFn
    r = dunder_bin(I, op, a, b, "__%s__" % DUNDER[op], "__r%s__" % DUNDER[op])
    if r == "none":
        I.raise_exc("TypeError", "unsupported operand for " + op, internal=False)
    if r is not None:
        return r
    isnd = lambda v: isinstance(v, Ref) and isinstance(I.obj(v), Nd)
    if isnd(a) or isnd(b):
        for v in (a, b):
            if isinstance(v, C) and (v.v is None or isinstance(v.v, str)):
                I.raise_exc("TypeError", "unsupported operand for " + op, internal=True)
        return nd_binop(I, op, a, b)
    if isinstance(a, U) or isinstance(b, U):
        if (isinstance(a, U) or num(a)) and (isinstance(b, U) or num(b)) and op in ("Add", "Sub", "Mult", "Div"):
            return U(arith(op, I.desc(a), I.desc(b)), frozenset(I.refs_of(a) | I.refs_of(b)))
        return I.unk("arith:" + op, a, b)
    # sequences
    sa = isinstance(a, Ref) and isinstance(I.obj(a), Lst)
    sb = isinstance(b, Ref) and isinstance(I.obj(b), Lst)
    if op == "Add":
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.vs + b.vs)
        if sa and sb:
            oa, ob = I.obj(a), I.obj(b)
            if oa.kind == ob.kind and oa.kind in ("list", "tuple"):
                return I.new(Lst(oa.kind, oa.items + ob.items, oa.op or ob.op))
            I.raise_exc("TypeError", "cannot add %s and %s" % (oa.kind, ob.kind), internal=True)
        if I.py_of(a) == "str" and I.py_of(b) == "str":
            return cat([I.desc(a), I.desc(b)])
    if op == "Mult":
        for x, n in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(I.obj(x), Lst) and I.obj(x).kind in ("list", "tuple"):
                o = I.obj(x)
                tn = I.scalar_t(n)
                if isinstance(n, C) and isinstance(n.v, int) and n.v <= 8:
                    return I.new(Lst(o.kind, o.items * max(n.v, 0), o.op))
                if tn is not None:
                    items = []
                    for i, m, s in axis_items(I, tn):
                        for it in o.items:
                            items.append(It(it.v, m if it.m == "1" else "*", s, it.g))
                    return I.new(Lst(o.kind, tuple(items), o.op))
            if I.py_of(x) == "str" and I.scalar_t(n) is not None:
                if isinstance(x, C) and isinstance(n, C) and isinstance(n.v, int):
                    return C(x.v * n.v)
                return S(mk("rep", I.desc(x), I.desc(n)), "str")
    if op == "Mod" and I.py_of(a) == "str":
        return S(mk("ext", "str%", I.desc(a), I.desc(b)), "str")
    if sa and sb and op in ("BitAnd", "BitOr", "Sub", "BitXor"):
        nm = {"BitAnd": "intersection", "BitOr": "union", "Sub": "difference", "BitXor": "symmetric_difference"}[op]
        return method(I, a, nm, [b], {})
    if isinstance(a, Ref) and isinstance(I.obj(a), Dct) and op == "BitOr":
        r = I.new(I.obj(a))
        method(I, r, "update", [b], {})
        return r
    for v in (a, b):
        if isinstance(v, C) and (v.v is None):
            I.raise_exc("TypeError", "unsupported operand None for " + op, internal=True)
        if isinstance(v, (Tup, Ref, Slice)) or I.py_of(v) == "str":
            I.raise_exc("TypeError", "unsupported operand for " + op, internal=True)
    if isinstance(a, C) and isinstance(b, C):
        try:
            f = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mult": lambda x, y: x * y, "Div": lambda x, y: x / y,
                 "FloorDiv": lambda x, y: x // y, "Mod": lambda x, y: x % y, "Pow": lambda x, y: x ** y, "BitAnd": lambda x, y: x & y,
                 "BitOr": lambda x, y: x | y, "BitXor": lambda x, y: x ^ y, "LShift": lambda x, y: x << y, "RShift": lambda x, y: x >> y}[op]
            return C(f(a.v, b.v))
        except ZeroDivisionError:
            I.raise_exc("ZeroDivisionError", "division by zero", internal=True)
        except Exception:
            return I.unk("const " + op, a, b)
    ta, tb = I.scalar_t(a), I.scalar_t(b)
    if ta is None or tb is None:
        return I.unk("arith:" + op, a, b)
    ta, tb = booln(I, a, ta), booln(I, b, tb)
    pa, pb = I.py_of(a), I.py_of(b)
    if pa == pb == "bool" and op in ("BitAnd", "BitOr"):
        return boolv(I, arith(op, ta, tb))
    if pa == "bool" and pb == "bool":
        pa = pb = "int"
    if op == "Div":
        py = "float"
        if I.tri(eq0(tb)) is True:
            I.raise_exc("ZeroDivisionError", "division by zero", internal=True)
    elif "float" in (pa, pb):
        py = "float"
    elif "any" in (pa, pb):
        py = "any"
    elif "num" in (pa, pb):
        py = "num"
    else:
        py = "int"
    return as_val(arith(op, ta, tb), py)


def booln(I, v, t):
    if isinstance(v, C) and isinstance(v.v, bool):
        return const(int(v.v))
    if I.py_of(v) == "bool":
        return ite(t, const(1), const(0))
    return t


# -------------------------------------------------------------- comparison

def compare(I, op, a, b):
    if op in ("Is", "IsNot"):
        r = same(I, a, b)
        if r is None:
            return S(bnot(mk("is", I.desc(a), I.desc(b))) if op == "IsNot" else mk("is", I.desc(a), I.desc(b)), "bool")
        if isinstance(r, T):
            return boolv(I, r if op == "Is" else bnot(r))
        return C(r if op == "Is" else not r)
    if op in ("In", "NotIn"):
        r = contains(I, b, a)
        if op == "NotIn":
            r = (not r) if isinstance(r, bool) else bnot(r)
        return boolv(I, r)
    nm = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]
    rv = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__gt__", "LtE": "__ge__", "Gt": "__lt__", "GtE": "__le__"}[op]
    r = dunder_bin(I, op, a, b, nm, rv)
    if r is not None and r != "none":
        return r
    if r == "none":
        if op == "NotEq":
            r2 = dunder_bin(I, "Eq", a, b, "__eq__", "__eq__")
            if r2 is not None and r2 != "none":
                c = I.truth(r2)
                return C(not c) if isinstance(c, bool) else S(bnot(c), "bool")
        if op in ("Eq", "NotEq"):
            return C((a == b) == (op == "Eq"))
        I.raise_exc("TypeError", "unorderable", internal=True)
    isnd = lambda v: isinstance(v, Ref) and isinstance(I.obj(v), Nd)
    if isnd(a) or isnd(b):
        if op in ("Eq", "NotEq") and (isinstance(a, C) and a.v is None or isinstance(b, C) and b.v is None):
            return nd_new(I, mk("c", op == "NotEq"), shape_of(I, a if isnd(a) else b), "bool")
        if isinstance(a, U) or isinstance(b, U):
            return I.unk("compare", a, b)
        sh = bshape(I, shape_of(I, a), shape_of(I, b))
        if sh == "err":
            if op == "Eq":
                return FALSE
            I.raise_exc("ValueError", "shape mismatch in comparison")
        t = cmp_t(op, *tm.align([val_t(I, a), val_t(I, b)], [len(s) if s is not None else None for s in (shape_of(I, a), shape_of(I, b))]))
        if sh == ():
            return boolv(I, t)
        return nd_new(I, t, sh, "bool")
    if op in ("Eq", "NotEq"):
        r = equal(I, a, b)
        if op == "NotEq":
            r = (not r) if isinstance(r, bool) else bnot(r)
        return boolv(I, r)
    # ordering
    for v in (a, b):
        if isinstance(v, C) and v.v is None:
            I.raise_exc("TypeError", "ordering with None", internal=True)
    if isinstance(a, C) and isinstance(b, C):
        try:
            return C({"Lt": a.v < b.v, "LtE": a.v <= b.v, "Gt": a.v > b.v, "GtE": a.v >= b.v}[op])
        except TypeError:
            I.raise_exc("TypeError", "ordering of different types", internal=True)
    if I.py_of(a) == "str" and I.py_of(b) == "str":
        r = str_lt(I, a, b) if op in ("Lt", "GtE") else str_lt(I, b, a)
        if op in ("LtE", "GtE"):
            r = (not r) if isinstance(r, bool) else bnot(r)
        return boolv(I, r)
    ta, tb = I.scalar_t(a), I.scalar_t(b)
    if ta is None and isinstance(a, U):
        ta = a.t
    if tb is None and isinstance(b, U):
        tb = b.t
    if ta is None or tb is None or I.py_of(a) == "str" or I.py_of(b) == "str":
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = I.obj(a), I.obj(b)
            if isinstance(oa, Lst) and isinstance(ob, Lst) and oa.kind in ("set", "frozenset"):
                x, y = (a, b) if op in ("LtE", "Lt") else (b, a)
                return method(I, x, "issubset", [y], {})
        if isinstance(a, Tup) and isinstance(b, Tup):
            return S(mk("tlt", op, I.desc(a), I.desc(b)), "bool")
        if (I.py_of(a) == "str") != (I.py_of(b) == "str") and not isinstance(a, U) and not isinstance(b, U) and "any" not in (I.py_of(a), I.py_of(b)):
            I.raise_exc("TypeError", "ordering of different types", internal=True)
        return S(mk("cmp", op, I.desc(a), I.desc(b)), "bool")
    ta, tb = booln(I, a, I.norm(ta)), booln(I, b, I.norm(tb))
    return boolv(I, cmp_t(op, ta, tb))


def inf_cmp(op, a, b):
    """comparison against an infinite constant"""
    def inf(t):
        return t.op == "c" and isinstance(t.args[0], float) and math.isinf(t.args[0])
    if inf(a) and inf(b):
        x, y = a.args[0], b.args[0]
        return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y, "Eq": x == y, "NotEq": x != y}[op]
    def finite(t):
        return t.op != "c" and all(not inf(x) for x in tm.subterms(t))
    if inf(b) and finite(a):
        x, y = 0.0, b.args[0]
        return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y, "Eq": False, "NotEq": True}[op]
    if inf(a) and finite(b):
        x, y = a.args[0], 0.0
        return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y, "Eq": False, "NotEq": True}[op]
    return None


def cmp_t(op, a, b):
    r = inf_cmp(op, a, b)
    if r is not None:
        return mk("c", r)
    if a.op == "c" or b.op == "c":
        return mk("cmp", op, a, b)
    if op == "Lt":
        return lt0(sub(a, b))
    if op == "Gt":
        return lt0(sub(b, a))
    if op == "LtE":
        return bnot(lt0(sub(b, a)))
    if op == "GtE":
        return bnot(lt0(sub(a, b)))
    if op == "Eq":
        return eq0(sub(a, b))
    return bnot(eq0(sub(a, b)))


def str_lt(I, a, b):
    ra, rb = rank(a), rank(b)
    if ra is not None and rb is not None:
        return ra < rb
    ta, tb = I.desc(a), I.desc(b)
    if ta is tb:
        return False
    c = mk("slt", ta, tb)
    r = I.tri(c)
    if r is not None:
        return r
    r = I.tri(mk("slt", tb, ta))
    if r is True:
        return False
    return c


def rank(v):
    if isinstance(v, S):
        return tm.META.get(v.t, {}).get("rank")
    return None


def same(I, a, b):
    """identity: True/False/None/term"""
    for x, y in ((a, b), (b, a)):
        if isinstance(y, C) and y.v is None:
            if isinstance(x, C):
                return x.v is None
            if isinstance(x, U):
                return mk("isnone", x.t)
            if isinstance(x, S):
                if x.py == "any":
                    return mk("isnone", x.t)
                if x.t.op == "isnone":
                    return None
                return False
            return False
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.a == b.a
    if isinstance(a, C) and isinstance(b, C):
        return a == b
    if isinstance(a, (Cls, Ext, Fn)) and isinstance(b, (Cls, Ext, Fn)):
        if isinstance(a, Ext) and isinstance(b, Ext):
            return norm_ext(a.name) == norm_ext(b.name)
        return a == b
    if isinstance(a, C) and isinstance(a.v, bool) and isinstance(b, S):
        return b.t if a.v else bnot(b.t) if b.py == "bool" else None
    if isinstance(b, C) and isinstance(b.v, bool) and isinstance(a, S):
        return a.t if b.v else bnot(a.t) if a.py == "bool" else None
    if isinstance(a, Ref) != isinstance(b, Ref) and not isinstance(a, U) and not isinstance(b, U):
        return False
    return None


def equal(I, a, b):
    """== : True/False/term"""
    a, b = I.resolve(a), I.resolve(b)
    if isinstance(a, C) and isinstance(b, C):
        return a.v == b.v
    for u, v in ((a, b), (b, a)):
        if isinstance(u, Ext) and u.name.startswith("dtype."):
            # a dtype equals the type it is made from
            from .np_models import dtype_of
            kind = u.name[6:]
            other = dtype_of(I, v, None)
            if other is None or kind not in ("float", "int", "bool", "str", "object"):
                return a is b or a == b or mk("eq", *sorted([I.desc(a), I.desc(b)], key=tm.key))
            small = isinstance(v, Ext) and any(v.name.endswith(x) for x in ("8", "16", "32"))
            return kind == other and not small
    if isinstance(a, U) or isinstance(b, U):
        ta, tb = I.desc(a), I.desc(b)
        if ta is tb:
            return True
        return mk("eq", *sorted([ta, tb], key=tm.key))
    if isinstance(a, Phi) or isinstance(b, Phi):
        return I.truth(I.compare("Eq", a, b))
    if isinstance(a, (C, S)) and isinstance(b, (C, S)):
        pa, pb = I.py_of(a), I.py_of(b)
        sa = pa == "str"
        sb = pb == "str"
        if sa and sb:
            return str_eq(I, a, b)
        if sa != sb and "any" not in (pa, pb):
            return False
        if (isinstance(a, C) and a.v is None) or (isinstance(b, C) and b.v is None):
            other = b if isinstance(a, C) and a.v is None else a
            if isinstance(other, S) and other.py == "any":
                return mk("isnone", other.t)
            return False
        if pa == "any" and sb or pb == "any" and sa:
            return mk("eq", *sorted([I.desc(a), I.desc(b)], key=tm.key))
        ta, tb = booln(I, a, I.desc(a)), booln(I, b, I.desc(b))
        if pa == pb == "bool":
            ta, tb = I.desc(a), I.desc(b)
            if ta is tb:
                return True
            for x, y in ((ta, tb), (tb, ta)):
                if x.op == "c":
                    return y if x.args[0] else bnot(y)
            return mk("eq", *sorted([ta, tb], key=tm.key))
        r = inf_cmp("Eq", ta, tb)
        if r is not None:
            return r
        c = eq0(sub(ta, tb)) if ta.op != "c" and tb.op != "c" else mk("eq", ta, tb)
        r = I.tri(c)
        return c if r is None else r
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.vs) != len(b.vs):
            return False
        cs = []
        for x, y in zip(a.vs, b.vs):
            r = equal(I, x, y)
            if r is False:
                return False
            if r is not True:
                cs.append(r)
        return bool_nary("and", cs) if cs else True
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.a == b.a:
            return True
        oa, ob = I.obj(a), I.obj(b)
        if type(oa) is not type(ob):
            return False
        ta, tb = I.desc(a), I.desc(b)
        if ta is tb and "olist" != ta.op:
            return True
        if isinstance(oa, (Lst, Dct)):
            ne1, ne2 = I.nonempty(oa), I.nonempty(ob)
            if (ne1 is True and ne2 is False) or (ne1 is False and ne2 is True):
                return False
            r = exact_equal(I, oa, ob)
            if r is not None:
                return r
            if isinstance(oa, Lst) and oa.kind in ("list", "tuple", "deque") and all(i.m == "1" and i.g is None for i in oa.items + ob.items) and not oa.op and not ob.op:
                return equal(I, Tup(tuple(i.v for i in oa.items)), Tup(tuple(i.v for i in ob.items)))
        return mk("eq", *sorted([ta, tb], key=tm.key))
    if isinstance(a, (Cls, Ext, Fn)) or isinstance(b, (Cls, Ext, Fn)):
        r = same(I, a, b)
        return r if r is not None else False
    if isinstance(a, S) and a.py == "any" or isinstance(b, S) and b.py == "any":
        return mk("eq", *sorted([I.desc(a), I.desc(b)], key=tm.key))
    return False


def exact_equal(I, oa, ob):
    """equality of dictionaries or sets whose members are known one by one; None when a comparison of members is open"""
    if oa.op or ob.op or any(i.m != "1" or i.g is not None for i in oa.items + ob.items):
        return None
    if isinstance(oa, Lst):
        sets = ("set", "frozenset")
        if oa.kind not in sets or ob.kind not in sets:
            return None
    if len(oa.items) != len(ob.items):
        return False
    cs = []
    for x in oa.items:
        hit = None
        for y in ob.items:
            m = equal(I, x.k, y.k) if isinstance(oa, Dct) else equal(I, x.v, y.v)
            if m is True:
                hit = y
                break
            if m is not False:
                return None
        if hit is None:
            return False
        if isinstance(oa, Dct):
            r = equal(I, x.v, hit.v)
            if r is False:
                return False
            if r is not True:
                cs.append(r)
    return bool_nary("and", cs) if cs else True


def norm_ext(n):
    n = n.replace("builtins.", "")
    return {"numpy.float64": "float"}.get(n, n) if False else n


def distinct_class(t):
    """(family) of a name symbol: symbols of a family are pairwise distinct"""
    if t.op == "sym":
        m = tm.META.get(t, {})
        if "name" in m:
            return ("n", t)
    if t.op == "app" and t.args[0].startswith("name:"):
        return ("g", t)
    return None


def str_eq(I, a, b):
    ta, tb = I.desc(a), I.desc(b)
    if ta is tb:
        return True
    if ta.op == "c" and tb.op == "c":
        return ta.args[0] == tb.args[0]
    da, db = distinct_class(ta), distinct_class(tb)
    if da and db:
        if da[0] == "n" and db[0] == "n":
            return False
        if da[0] != db[0]:
            return False        # named nodes are not among the generic ones
        # generic names of the same family
        fa, fb = ta.args, tb.args
        if fa[0] != fb[0]:
            # different families: distinct when declared so
            return False if tm.META.get(mk("sym", fa[0]), {}).get("disjoint", True) else mk("eqs", *sorted([ta, tb], key=tm.key))
        if tm.disjoint_idx(fa[1], fb[1]):
            return False
        return eq_idx(I, fa[1], fb[1])
    for x, y in ((ta, tb), (tb, ta)):
        if x.op == "c" and distinct_class(y):
            # a fresh node name is non-empty and unknown otherwise
            if x.args[0] == "":
                return False
        if x.op == "char" and distinct_class(y):
            base = x.args[0]
            mbase = tm.META.get(base, {})
            my = tm.META.get(y, {})
            # a single character against a name of several characters
            if my.get("multi"):
                return False
            if base is y:
                return True
            return mk("eqs", *sorted([ta, tb], key=tm.key))
        if x.op == "c" and y.op == "ext" and False:
            pass
    c = mk("eqs", *sorted([ta, tb], key=tm.key))
    r = I.tri(c)
    if r is None:
        # a symbol known to equal one literal differs from the others
        for f, v in I.st.facts.items():
            if v is True and f.op == "eqs":
                for x, y in ((ta, tb), (tb, ta)):
                    if x in f.args and y.op == "c":
                        o = f.args[0] if f.args[1] is x else f.args[1]
                        if o.op == "c" and o is not y:
                            return False
        m = tm.META.get(ta, {}).get("among") or tm.META.get(tb, {}).get("among")
        if m is not None:
            s, lit = (ta, tb) if tm.META.get(ta, {}).get("among") else (tb, ta)
            if lit.op == "c":
                if lit.args[0] not in m:
                    return False
                others = [x for x in m if x != lit.args[0]]
                if all(I.st.facts.get(mk("eqs", *sorted([s, mk("c", x)], key=tm.key))) is False for x in others):
                    return True
        m = tm.META.get(ta, {}).get("not_among") or tm.META.get(tb, {}).get("not_among")
        if m is not None:
            s, lit = (ta, tb) if tm.META.get(ta, {}).get("not_among") else (tb, ta)
            if lit.op == "c" and lit.args[0] in m:
                return False
    return c if r is None else r


def eq_idx(I, i, j):
    if i is j:
        return True
    c = eq0(sub(i, j))
    r = I.tri(c)
    return c if r is None else r


def item_matches(I, it, key):
    """does this (summarised) member equal key: True / False / term / 'may'"""
    r = equal(I, it.v if isinstance(it, It) else it.k, key)
    if it.m == "1":
        if r is True:
            return it.g if it.g is not None else True
        if r is False:
            return False
        return r if it.g is None else bool_nary("and", [r, it.g])
    kt = I.desc(it.v if isinstance(it, It) else it.k)
    if r is True:
        # member at the same generic index
        if it.m == "*" :
            return it.g if it.g is not None and it.seg and not isinstance(it.v if isinstance(it, It) else it.k, U) else "may"
        return it.g if it.g is not None else True
    if r is False and not isinstance(it.v if isinstance(it, It) else it.k, U):
        # distinct at the generic index; is it distinct at all of them?
        if all_distinct(I, it, key):
            return False
    if it.m == "+" and it.seg is not None and isinstance(r, T):
        # solve val(idx) == key for the index
        s = solve_idx(I, kt, I.desc(key), it.seg)
        if s == "no":
            return False
        if isinstance(s, tuple):
            if it.g is None:
                return True
            sub_ = {mk("idx", it.seg): s[1], mk("ord", it.seg): s[1]}
            return tm.rewrite(it.g, lambda x: sub_.get(x))
    if it.m == "*" and it.seg is not None and isinstance(r, T) and it.g is not None:
        s = solve_idx(I, kt, I.desc(key), it.seg)
        if s == "no":
            return False
        if isinstance(s, tuple):
            sub_ = {mk("idx", it.seg): s[1], mk("ord", it.seg): s[1]}
            return tm.rewrite(it.g, lambda x: sub_.get(x))
    if isinstance(r, T):
        s = solve_idx(I, kt, I.desc(key), it.seg) if it.seg else None
        if s == "no":
            return False
    return "may"


def solve_idx(I, kt, key, seg):
    """('=', index) when key is val(index) for an index of the segment; 'no' when for none"""
    i = mk("idx", seg)
    if kt.op == "lin" or kt is i:
        k, d = tm.lin_parts(kt)
        if set(d) == {i} and d[i] == 1:
            cand = sub(key, const(k))
            base = cand
            if base in tm.FIRST_BASE:
                base = tm.FIRST_BASE[base]
            if base.op == "idx":
                a, b = base.args[0].rstrip("'"), seg.rstrip("'")
                if a == b:
                    return ("=", cand)
                if tm.UNIV_OF.get(a) is not None and tm.UNIV_OF.get(a) == tm.UNIV_OF.get(b):
                    return "no"
            lo, hi = tm.bounds(sub(cand, i))
            if lo > 0 or hi < 0:
                return "no"
            u = tm.UNIV_OF.get(seg)
            if u is not None:
                # beyond the axis
                if I.tri(lt0(cand)) is True:
                    return "no"
                if I.tri(lt0(sub(cand, tm.dim_of(u)))) is False:
                    return "no"
                # a position of the axis known to lie in this (only) segment
                if len(tm.UNIVERSE[u]) == 1 and I.tri(lt0(cand)) is False and I.tri(lt0(sub(cand, tm.dim_of(u)))) is True:
                    return ("=", cand)
    if kt.op == "app" and key.op == "app" and kt.args[0] == key.args[0] and len(kt.args) == 2:
        return solve_idx(I, kt.args[1], key.args[1], seg)
    if kt.op == "tup" and key.op == "tup" and len(kt.args) == len(key.args):
        sol = None
        for x, y in zip(kt.args, key.args):
            if tm.mentions_idx(x, seg):
                s = solve_idx(I, x, y, seg)
                if s == "no":
                    return "no"
                if s is None:
                    return None
                if sol is None:
                    sol = s
                elif sol != s:
                    return None
            elif x is not y:
                dx, dy = distinct_class(x), distinct_class(y)
                if dx and dy and (dx[0] == "n" or dy[0] == "n"):
                    return "no"
                if x.op == "c" and y.op == "c":
                    return "no"
                return None
        return sol
    dx, dy = distinct_class(kt), distinct_class(key)
    if dx and dy and dx[0] != dy[0]:
        return "no"
    if dx and dy and dx[0] == dy[0] == "g" and kt.args[0] != key.args[0]:
        return "no"
    if dx and key.op == "char" and tm.META.get(mk("sym", kt.args[0]), {}).get("multi"):
        return "no"
    return None


def all_distinct(I, it, key):
    kt = I.desc(it.v if isinstance(it, It) else it.k)
    kk = I.desc(key)
    if it.seg is None:
        return True
    s = solve_idx(I, kt, kk, it.seg)
    if s == "no":
        return True
    if kt.op == "tup" and kk.op == "tup" and len(kt.args) != len(kk.args):
        return True
    if kt.op == "c" or (not tm.mentions_idx(kt, it.seg)):
        return True
    # different kinds of values
    return False


def contains(I, coll, key):
    """key in coll: True/False/term"""
    coll, key = I.resolve(coll), I.resolve(key)
    if isinstance(coll, Phi):
        outs = []
        for g, x in coll.alts:
            r = contains(I, x, key)
            outs.append(bool_nary("and", [g, r if isinstance(r, T) else mk("c", r)]))
        t = bool_nary("or", outs)
        r = I.tri(t)
        return t if r is None else r
    if isinstance(key, Phi):
        outs = []
        for g, x in key.alts:
            r = contains(I, coll, x)
            outs.append(bool_nary("and", [g, r if isinstance(r, T) else mk("c", r)]))
        t = bool_nary("or", outs)
        r = I.tri(t)
        return t if r is None else r
    if isinstance(coll, C) and coll.v is None:
        I.raise_exc("TypeError", "argument of type None is not iterable", internal=True)
    if I.py_of(coll) == "str":
        if isinstance(coll, C) and isinstance(key, C) and isinstance(key.v, str):
            return key.v in coll.v
        if I.desc(coll) is I.desc(key):
            return True
        return mk("substr", I.desc(key), I.desc(coll))
    if isinstance(coll, Tup):
        items, op = [It(x) for x in coll.vs], False
    elif isinstance(coll, Ref):
        o = I.obj(coll)
        if isinstance(o, Lst) and o.kind == "range":
            tl, th = I.scalar_t(o.items[0].v), I.scalar_t(o.items[1].v)
            tk = I.scalar_t(key)
            if len(o.items) == 2 and None not in (tl, th, tk):
                c = bool_nary("and", [bnot(lt0(sub(tk, tl))), lt0(sub(tk, th))])
                r = I.tri(c)
                return c if r is None else r
            return mk("in", I.desc(key), I.desc(coll))
        if isinstance(o, Nd):
            return mk("in", I.desc(key), I.desc(coll))
        if isinstance(o, (Lst, Dct)):
            items, op = list(o.items), o.op
        elif isinstance(o, Inst):
            m = I.find_m(o.cls, "__contains__")
            if m is not None:
                return I.truth(I.call_fn(Fn(m, cls=m.cls, module=m.module), [coll, key], {}))
            return mk("in", I.desc(key), I.desc(coll))
        else:
            return mk("in", I.desc(key), I.desc(coll))
    else:
        return mk("in", I.desc(key), I.desc(coll))
    conds, may = [], op
    for it in items:
        r = item_matches(I, it, key)
        if r is True:
            return True
        if r is False:
            continue
        if isinstance(r, T):
            x = I.tri(r)
            if x is True:
                return True
            if x is None:
                conds.append(r)
        else:
            may = True
    if may:
        c = mk("in", I.desc(key), I.desc(coll))
        conds.append(c)
    if not conds:
        return False
    c = bool_nary("or", conds)
    r = I.tri(c)
    return c if r is None else r


# --------------------------------------------------------------- subscripts

def length(I, v):
    """len as a term"""
    v = I.resolve(v)
    if isinstance(v, C) and isinstance(v.v, (str, tuple, list)):
        return const(len(v.v))
    if isinstance(v, Tup):
        return const(len(v.vs))
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, Nd):
            if o.shape:
                return o.shape[0]
            return mk("len", I.nd_t(v))
        if isinstance(o, Lst) and o.kind == "range":
            tl, th = I.scalar_t(o.items[0].v), I.scalar_t(o.items[1].v)
            if len(o.items) == 2 and tl is not None and th is not None:
                return sub(th, tl)
            return mk("len", I.desc(v))
        if isinstance(o, (Lst, Dct)):
            if o.op:
                return mk("len", I.desc(v))
            n = const(0)
            for it in o.items:
                if it.m == "1":
                    n = add(n, const(1) if it.g is None else ite(it.g, const(1), const(0)))
                elif it.m == "+" and it.g is None and it.seg:
                    n = add(n, seg_size(it.seg))
                else:
                    n = add(n, mk("len", I.wrap_item(I.desc(it.v if isinstance(it, It) else it.k), it)))
            return n
        if isinstance(o, Inst):
            m = I.find_m(o.cls, "__len__")
            if m is not None:
                return I.scalar_t(I.call_fn(Fn(m, cls=m.cls, module=m.module), [v], {})) or mk("len", I.desc(v))
    if isinstance(v, C):
        I.raise_exc("TypeError", "object has no len()", internal=True)
    if isinstance(v, S) and v.py in ("int", "float", "bool", "num"):
        I.raise_exc("TypeError", "object has no len()", internal=True)
    return mk("len", I.desc(v))


def seg_size(seg):
    s = seg.rstrip("'")
    if "\u00d7" in s:
        out = const(1)
        for p in s.split("\u00d7"):
            out = mul(out, seg_size(p))
        return out
    u = tm.UNIV_OF.get(s)
    if u in tm.UDIM:
        return tm.UDIM[u]
    return mk("size", s)


def getitem(I, o, i):
    if isinstance(o, RxM):
        from . import re_models
        return re_models.method(I, o, "__getitem__", [i], {})
    if isinstance(o, Ref):
        ob = I.obj(o)
        if isinstance(ob, Nd):
            if isinstance(i, Tup):
                i = Tup(tuple(I.resolve(x) for x in i.vs))
            return nd_index(I, o, i)
        if isinstance(ob, Lst):
            return lst_get(I, o, ob, i)
        if isinstance(ob, Dct):
            return dct_get(I, o, ob, i, None)
        if isinstance(ob, Inst):
            m = I.find_m(ob.cls, "__getitem__")
            if m is not None:
                return I.call_fn(Fn(m, cls=m.cls, module=m.module), [o, i], {})
            I.raise_exc("TypeError", "not subscriptable", internal=True)
    if isinstance(o, Tup):
        if isinstance(i, C) and isinstance(i.v, int):
            if -len(o.vs) <= i.v < len(o.vs):
                return o.vs[i.v]
            I.raise_exc("IndexError", "tuple index", internal=True)
        if isinstance(i, Slice) and all(isinstance(x, C) for x in (i.lo, i.hi, i.step)):
            return Tup(o.vs[slice(i.lo.v, i.hi.v, i.step.v)])
        return I.unk("tuple index", o, i)
    if isinstance(o, Cls):
        if o.c.metaclass is not None:
            mc = I.metaclass(o.c)
            m = I.find_m(mc, "__getitem__") if mc is not None else None
            if m is not None:
                return I.call_fn(Fn(m, cls=m.cls, module=m.module), [o, i], {})
        m = I.find_m(o.c, "__class_getitem__")
        if m is not None:
            return I.call_fn(Fn(m, cls=m.cls, module=m.module), [o, i], {})
        return U(mk("unk", "generic alias"))
    if isinstance(o, Ext):
        if o.name in ("numpy.r_", "numpy.c_"):
            return rc_stack(I, o.name[-2], i)
        if o.name in ("numpy.s_", "numpy.index_exp"):
            return i
        return U(mk("unk", "ext[]", mk("c", o.name)))
    if isinstance(o, C):
        if isinstance(o.v, str):
            if isinstance(i, C) and isinstance(i.v, int):
                if -len(o.v) <= i.v < len(o.v):
                    return C(o.v[i.v])
                I.raise_exc("IndexError", "string index", internal=True)
            if isinstance(i, Slice) and all(isinstance(x, C) for x in (i.lo, i.hi, i.step)):
                return C(o.v[slice(i.lo.v, i.hi.v, i.step.v)])
            return S(mk("ext", "str[]", I.desc(o), I.desc(i)), "str")
        I.raise_exc("TypeError", "not subscriptable", internal=True)
    if isinstance(o, S):
        if o.py == "str":
            if isinstance(i, C) and i.v == 0:
                return S(mk("char", o.t), "str")
            return S(mk("ext", "str[]", o.t, I.desc(i)), "str")
        if o.py in ("int", "float", "bool", "num"):
            I.raise_exc("TypeError", "number is not subscriptable", internal=True)
        return S(mk("item", o.t, I.desc(i)), "any")
    if isinstance(o, U):
        return U(mk("item", o.t, I.desc(i)), o.refs)
    return I.unk("subscript", o, i)


def lst_get(I, r, o, i):
    items = list(iter_items(I, r))
    if isinstance(i, Slice):
        if o.kind == "range":
            o = Lst("list", tuple(items))
        allone = all(x.m == "1" and x.g is None for x in items) and not o.op
        kind = o.kind if o.kind in ("list", "tuple") else "list"
        if allone and all(isinstance(x, C) for x in (i.lo, i.hi, i.step)):
            return I.new(Lst(kind, tuple(items[slice(i.lo.v, i.hi.v, i.step.v)])))
        none = lambda x: isinstance(x, C) and x.v is None
        if none(i.lo) and none(i.hi) and none(i.step):
            return I.new(Lst(kind, tuple(items), o.op))
        if none(i.lo) and none(i.hi) and isinstance(i.step, C) and i.step.v == -1:
            return I.new(Lst(kind, tuple(reversed(items)), o.op))
        if isinstance(i.lo, C) and isinstance(i.lo.v, int) and i.lo.v >= 0 and none(i.hi) and none(i.step) and len(items) >= i.lo.v \
                and all(x.m == "1" and x.g is None for x in items[:i.lo.v]):
            return I.new(Lst(kind, tuple(items[i.lo.v:]), o.op))
        refs = set()
        for x in items:
            refs |= I.refs_of(x.v)
        I.imp("list slice")
        return I.new(Lst(kind, tuple(It(x.v, "*", x.seg, x.g) for x in items), True))
    if isinstance(i, C) and isinstance(i.v, bool):
        i = C(int(i.v))
    if isinstance(i, C) and isinstance(i.v, int):
        k = i.v
        seq = items if k >= 0 else list(reversed(items))
        n = k if k >= 0 else -k - 1
        for j, x in enumerate(seq):
            if x.m != "1" or x.g is not None:
                break
            if j == n:
                return x.v
        else:
            if not o.op:
                I.raise_exc("IndexError", "list index", internal=True)
        if o.op and k >= 0 and not items:
            return U(mk("item", I.desc(r), const(k)))
        # within or after a summarised part: any of the remaining members
        rest = seq[j:] if seq else []
        if rest and j == n and rest[0].m == "+" and rest[0].g is None and len(rest) >= 1:
            return some_of(I, [rest[0]], "first" if k >= 0 else "last", r, i)
        return some_of(I, rest, "any", r, i)
    ti = I.scalar_t(i)
    if ti is None and isinstance(i, U):
        ti = i.t
    if ti is not None and not (isinstance(i, C) and isinstance(i.v, str)):
        ti = I.norm(ti)
        base = tm.FIRST_BASE.get(ti, ti)
        # list that runs over a whole axis or a segment
        segs = [x.seg for x in items]
        if all(x.m == "+" and x.g is None for x in items) and items:
            if base.op == "ord" or (base.op == "idx" and len(items) == 1 and tm.UNIVERSE.get(tm.UNIV_OF.get(base.args[0].rstrip("'")), [None])[0] != base.args[0].rstrip("'")):
                s = base.args[0].rstrip("'")
                for x in items:
                    if x.seg.rstrip("'") == s and len(items) == 1:
                        return subst_idx(I, x.v, x.seg, base.args[0])
            if base.op == "idx":
                s = base.args[0].rstrip("'")
                u = tm.UNIV_OF.get(s)
                if u is not None and tm.UNIVERSE.get(u) == [q.rstrip("'") for q in segs]:
                    for x in items:
                        if x.seg.rstrip("'") == s:
                            v = subst_idx(I, x.v, x.seg, base.args[0])
                            if base is not ti:
                                v = I.map_val(v, {base: ti})
                            return v
        # position certainly in the concrete prefix / suffix
        if all(x.m == "1" and x.g is None for x in items) and not o.op and 0 < len(items) <= 6:
            return some_of(I, items, "any", r, i)
        return some_of(I, items, "any", r, i)
    if isinstance(i, C) or isinstance(i, (Tup, Ref)):
        I.raise_exc("TypeError", "list indices must be integers", internal=True)
    return I.unk("list index", r, i)


def subst_idx(I, v, seg, seg2):
    if seg == seg2:
        return v
    m = {mk("idx", seg): mk("idx", seg2), mk("ord", seg): mk("ord", seg2)}
    return I.map_val(v, m)


def some_of(I, items, tag, r, i):
    """an unspecified member"""
    refs = set()
    scal = []
    for x in items:
        refs |= I.refs_of(x.v)
        t = I.scalar_t(x.v)
        scal.append((t, I.py_of(x.v)))
    t = mk("item", I.desc(r), I.desc(i))
    if items and all(a is not None for a, _ in scal) and len({p for _, p in scal}) == 1 and not refs:
        lo = min(tm.bounds(a)[0] for a, _ in scal if a.op != "c" or True)
        hi = max(tm.bounds(a)[1] for a, _ in scal)
        if (lo, hi) != (-tm.INF, tm.INF):
            tm.IV.setdefault(t, (lo, hi))
        return S(t, scal[0][1])
    if len(items) == 1 and isinstance(items[0].v, (Tup,)):
        return items[0].v if False else Tup(tuple(U(mk("item", t, k), frozenset(I.refs_of(x))) if I.scalar_t(x) is None else S(mk("item", t, k), I.py_of(x))
                                                  for k, x in enumerate(items[0].v.vs)))
    if len(items) == 1 and isinstance(items[0].v, Ref) and items[0].m == "1":
        return items[0].v
    return U(t, frozenset(refs))


def dct_get(I, r, o, key, default):
    """lookup; default None means raise KeyError"""
    key = I.resolve(key)
    alts, may = [], o.op
    own = [it for it in o.items if not (it.seg and it.seg.startswith("\u03c6"))]
    for it in own + [x for x in o.items if x not in own]:
        m = item_matches(I, it, key)
        if m is True:
            v = it.v
            if it.m != "1" and it.seg:
                s = solve_idx(I, I.desc(it.k), I.desc(key), it.seg)
                if isinstance(s, tuple):
                    v = I.map_val(v, {mk("idx", it.seg): s[1], mk("ord", it.seg): s[1]})
            return choose(I, alts, v) if alts else v
        if m is False:
            continue
        if isinstance(m, T):
            x = I.tri(m)
            if x is True:
                return choose(I, alts, it.v) if alts else it.v
            if x is False:
                continue
            v = it.v
            if it.m != "1" and it.seg:
                s = solve_idx(I, I.desc(it.k), I.desc(key), it.seg)
                if isinstance(s, tuple):
                    v = I.map_val(v, {mk("idx", it.seg): s[1], mk("ord", it.seg): s[1]})
            alts.append((m, v))
        else:
            may = True
            alts.append((mk("at", I.desc(key), I.desc(it.k), I.desc(r)), it.v))
    def missing():
        if default is not None:
            return default
        if o.default is not None:
            v = I.call(o.default, [], {})
            setitem(I, r, key, v)
            return v
        I.raise_exc("KeyError", tm.key(I.desc(key)), internal=True)
    if not alts and not may:
        return missing()
    if may:
        c = mk("in", I.desc(key), I.desc(r))
        present = I.tri(c)
        refs = set()
        for _, v in alts:
            refs |= I.refs_of(v)
        t = mk("get", I.desc(r), I.desc(key))
        vals = [v for _, v in alts if not isinstance(v, U)]
        if vals and all(I.scalar_t(v) is not None for v in vals) and len({I.py_of(v) for v in vals}) == 1:
            u = S(t, I.py_of(vals[0]))
        else:
            u = U(t, frozenset(refs))
        definite = [(g, v) for g, v in alts if g.op != "at"]
        if present is True:
            return choose(I, definite, u)
        if present is False and not definite:
            return missing()
        if default is None and o.default is None:
            # subscripting an unknown mapping: assume the caller knows; report a possible KeyError separately
            I.key_maybe = getattr(I, "key_maybe", 0) + 1
            return choose(I, definite, u)
        return I.branch(c if not definite else bool_nary("or", [c] + [g for g, _ in definite]), lambda: choose(I, definite, u), missing)
    allc = bool_nary("or", [g for g, _ in alts])
    if I.tri(allc) is True:
        return choose(I, alts[:-1], alts[-1][1])
    if default is not None or o.default is not None:
        return I.branch(allc, lambda: choose(I, alts[:-1], alts[-1][1]), missing)
    return I.branch(allc, lambda: choose(I, alts[:-1], alts[-1][1]), missing)


def choose(I, alts, last):
    out = last
    for g, v in reversed(alts):
        out = I.phi(g, v, out)
    return out


def setitem(I, o, i, v):
    if isinstance(o, Ref):
        ob = I.obj(o)
        if isinstance(ob, Nd):
            if isinstance(i, Tup):
                i = Tup(tuple(I.resolve(x) for x in i.vs))
            nd_setitem(I, o, i, v)
            return
        if isinstance(ob, Dct):
            dct_set(I, o, ob, i, v)
            return
        if isinstance(ob, Lst):
            if isinstance(i, C) and isinstance(i.v, int):
                n = len(ob.items)
                k = i.v if i.v >= 0 else n + i.v
                pre = ob.items[:k] if i.v >= 0 else ob.items[k:]
                if 0 <= k < n and all(x.m == "1" and x.g is None for x in pre) and ob.items[k].m == "1":
                    I.put(o, Lst(ob.kind, ob.items[:k] + (It(v),) + ob.items[k + 1:], ob.op))
                    return
            if isinstance(i, Slice) and all(isinstance(x, C) and x.v is None for x in (i.lo, i.hi, i.step)):
                I.put(o, Lst(ob.kind, tuple(iter_items(I, v)), False))
                return
            ti = I.scalar_t(i)
            if ti is not None:
                base = ti
                segs = [x.seg for x in ob.items]
                if base.op in ("idx", "ord"):
                    s = base.args[0]
                    for k, x in enumerate(ob.items):
                        if x.seg == s and x.m == "+" and x.g is None:
                            I.put(o, Lst(ob.kind, ob.items[:k] + (It(v, "+", s),) + ob.items[k + 1:], ob.op))
                            return
                # last element set by position len(...)-1
                n = length(I, o)
                if sub(n, const(1)) is ti and ob.items and ob.items[-1].m == "1":
                    I.put(o, Lst(ob.kind, ob.items[:-1] + (It(v),), ob.op))
                    return
            # unknown position: weak update
            I.imp("list store")
            items = []
            for x in ob.items:
                I.fresh_n += 1
                items.append(It(I.phi(sym("wk%d" % I.fresh_n), v, x.v), x.m, x.seg, x.g))
            I.put(o, Lst(ob.kind, tuple(items), ob.op))
            return
        if isinstance(ob, Inst):
            m = I.find_m(ob.cls, "__setitem__")
            if m is not None:
                I.call_fn(Fn(m, cls=m.cls, module=m.module), [o, i, v], {})
                return
    if isinstance(o, (C, Tup)):
        I.raise_exc("TypeError", "does not support item assignment", internal=True)
    if isinstance(o, U):
        for a in o.refs:
            weak_store(I, a, i, v)
        return
    I.imp("store into unknown")


def weak_store(I, a, i, v):
    ob = I.st.heap.get(a)
    I.fresh_n += 1
    g = sym("may%d" % I.fresh_n)
    if isinstance(ob, Nd):
        old = I.nd_t(Ref(a))
        I.nd_write(Ref(a), ite(g, mk("wr?", old, I.desc(i), I.desc(v)), old))
    elif isinstance(ob, Dct):
        I.st.heap[a] = Dct(ob.items + (DIt(i, v, "1", None, g),), ob.op, ob.default)
    elif isinstance(ob, Lst):
        I.st.heap[a] = Lst(ob.kind, ob.items + (It(v, "1", None, g),), True)


def dct_set(I, r, o, key, v):
    key = I.resolve(key)
    if isinstance(key, Ref) and isinstance(I.obj(key), (Lst, Dct, Nd)):
        if not (isinstance(I.obj(key), Lst) and I.obj(key).kind in ("tuple", "frozenset")):
            I.raise_exc("TypeError", "unhashable key", internal=True)
    items = list(o.items)
    unsure = []
    for k, it in enumerate(items):
        if it.seg is not None and it.seg.startswith("\u03c6"):
            continue          # keys of other iterations: the new entry shadows them
        m = item_matches(I, it, key)
        if m is True and it.m == "1":
            items[k] = DIt(it.k, v, "1", None, None)
            I.put(r, Dct(tuple(items), o.op, o.default))
            return
        if m is True:
            # summarised entry addressed at its own index: strong when the key is that generic index
            if I.desc(key) is I.desc(it.k):
                items[k] = DIt(it.k, v, it.m, it.seg, it.g)
                I.put(r, Dct(tuple(items), o.op, o.default))
                return
            s = solve_idx(I, I.desc(it.k), I.desc(key), it.seg) if it.seg else None
            I.fresh_n += 1
            items[k] = DIt(it.k, I.phi(eq0(sub(mk("idx", it.seg), s[1])) if isinstance(s, tuple) else sym("wk%d" % I.fresh_n), v, it.v), it.m, it.seg, it.g)
            I.put(r, Dct(tuple(items), o.op, o.default))
            return
        if m is not False:
            unsure.append((k, m))
    for k, m in unsure:
        it = items[k]
        g = m if isinstance(m, T) else mk("at", I.desc(key), I.desc(it.k), I.desc(r))
        items[k] = DIt(it.k, I.phi(g, v, it.v), it.m, it.seg, it.g)
        if it.m == "1" and isinstance(m, T) and it.g is not None:
            items[k] = DIt(it.k, items[k].v, it.m, it.seg, it.g)
    if unsure:
        g = bool_nary("and", [bnot(m if isinstance(m, T) else mk("at", I.desc(key), I.desc(items[k].k), I.desc(r))) for k, m in unsure])
        items.append(DIt(key, v, "1", None, g))
    else:
        items.append(DIt(key, v))
    I.put(r, Dct(tuple(items), o.op, o.default))


def delitem(I, o, i):
    if isinstance(o, Ref):
        ob = I.obj(o)
        i = I.resolve(i)
        if isinstance(ob, Dct):
            items = list(ob.items)
            unsure = False
            for k, it in enumerate(items):
                m = item_matches(I, it, i)
                if m is True and it.m == "1":
                    del items[k]
                    I.put(o, Dct(tuple(items), ob.op, ob.default))
                    return NONE
                if m is not False:
                    unsure = True
                    if m is True or isinstance(m, T):
                        g = bnot(m) if isinstance(m, T) else None
                        if it.m != "1" and it.seg:
                            s = solve_idx(I, I.desc(it.k), I.desc(i), it.seg)
                            if isinstance(s, tuple):
                                g = bnot(eq0(sub(mk("idx", it.seg), s[1])))
                            else:
                                g = None
                        if g is None:
                            I.fresh_n += 1
                            g = sym("del%d" % I.fresh_n)
                        items[k] = DIt(it.k, it.v, it.m if it.m != "+" else "*", it.seg, g if it.g is None else bool_nary("and", [g, it.g]))
                        if m is True:
                            I.put(o, Dct(tuple(items), ob.op, ob.default))
                            return NONE
            if not unsure and not ob.op:
                I.raise_exc("KeyError", tm.key(I.desc(i)), internal=True)
            I.put(o, Dct(tuple(items), ob.op, ob.default))
            return NONE
        if isinstance(ob, Lst):
            if isinstance(i, C) and isinstance(i.v, int) and all(x.m == "1" and x.g is None for x in ob.items) and not ob.op:
                xs = list(ob.items)
                if -len(xs) <= i.v < len(xs):
                    del xs[i.v]
                    I.put(o, Lst(ob.kind, tuple(xs), ob.op))
                    return NONE
                I.raise_exc("IndexError", "del", internal=True)
            if len(ob.items) == 1 and not ob.op and ob.items[0].m == "+" and ob.items[0].seg and ob.items[0].g is None and I.scalar_t(i) is not None and I.py_of(i) in ("int", "num"):
                x = ob.items[0]
                I.put(o, Lst(ob.kind, (It(x.v, x.m, x.seg, bnot(eq0(sub(mk("idx", x.seg), I.scalar_t(i))))),), ob.op))
                return NONE
            I.imp("list del")
            I.put(o, Lst(ob.kind, tuple(It(x.v, "*", x.seg, x.g) for x in ob.items), True))
            return NONE
    if isinstance(o, U):
        for a in o.refs:
            weak_store(I, a, i, NONE)
    return NONE


def set_add(I, r, it):
    o = I.obj(r)
    v = it.v
    if isinstance(v, Ref) and isinstance(I.obj(v), (Lst, Dct, Nd)) and not (isinstance(I.obj(v), Lst) and I.obj(v).kind in ("tuple", "frozenset")):
        I.raise_exc("TypeError", "unhashable type", internal=True)
    if it.m == "1" and it.g is None:
        conds = []
        for x in o.items:
            m = item_matches(I, x, v)
            if m is True:
                return
            if isinstance(m, T) and x.m == "1" and isinstance(v, S) and not isinstance(x.v, U):
                conds.append(m)
        if conds and it not in o.items:
            g = bnot(bool_nary("or", conds))
            r_ = I.tri(g)
            if r_ is False:
                return
            if r_ is None:
                I.put(r, Lst(o.kind, o.items + (It(it.v, "1", it.seg, g),), o.op))
                return
    if it in o.items:
        return
    for x in o.items:
        if x.v == it.v and x.m == it.m and x.seg == it.seg and x.g is None:
            return
        if x.v == it.v and x.m == it.m and x.seg == it.seg and it.g is not None and x.g is not None:
            g = bool_nary("or", [x.g, it.g])
            nx = It(x.v, x.m, x.seg, None if (g.op == "c" and g.args[0]) else g)
            I.put(r, Lst(o.kind, tuple(nx if y is x else y for y in o.items), o.op))
            return
    I.put(r, Lst(o.kind, o.items + (it,), o.op))


# ----------------------------------------------------------------- attributes

def attr(I, o, name):
    if isinstance(o, Ref):
        ob = I.obj(o)
        if isinstance(ob, Nd):
            sh = ob.shape
            if name == "shape":
                if sh is None:
                    n = tm.ndim(I.nd_t(o))
                    if n:
                        return Tup(tuple(S(mk("dim", I.nd_t(o), k), "int") for k in range(n)))
                    return U(mk("shape", I.nd_t(o)))
                return Tup(tuple(as_val(d, "int") for d in sh))
            if name == "ndim":
                if sh is None:
                    n = tm.ndim(I.nd_t(o))
                    return C(n) if n is not None else S(mk("ndim", I.nd_t(o)), "int")
                return C(len(sh))
            if name == "T":
                if sh is not None and len(sh) == 1:
                    return view(I, o, ("id",), sh)
                return view(I, o, ("tr",), tuple(reversed(sh)) if sh is not None else None)
            if name == "dtype":
                return Ext("dtype." + ob.dt)
            if name == "size":
                if sh is None:
                    return S(mk("size_", I.nd_t(o)), "int")
                out = const(1)
                for d in sh:
                    out = mul(out, d)
                return as_val(out, "int")
            if name == "flat":
                return method(I, o, "flatten", [], {})
            return BM(o, name)
        if isinstance(ob, (Lst, Dct)):
            if name not in KNOWN_METHODS[kind_of(ob)]:
                I.raise_exc("AttributeError", "%s.%s" % (kind_of(ob), name), internal=True)
            return BM(o, name)
    if isinstance(o, Tup) and not hasattr((), name) and not name.startswith("_"):
        I.raise_exc("AttributeError", "tuple.%s" % name, internal=True)
    if isinstance(o, (S, C)):
        if isinstance(o, C) and o.v is None:
            I.raise_exc("AttributeError", "None.%s" % name, internal=True)
        if I.py_of(o) == "str" and not hasattr("", name):
            I.raise_exc("AttributeError", "str.%s" % name, internal=True)
        if I.py_of(o) in ("int", "bool") and not hasattr(0, name) and name not in ("shape", "ndim", "dtype", "item", "all", "any", "T", "astype", "tolist", "copy", "sum", "max", "min"):
            I.raise_exc("AttributeError", "int.%s" % name, internal=True)
        if I.py_of(o) in ("float", "int", "bool") and not hasattr(0.0, name) and not hasattr(0, name) and name not in NP_SCALAR:
            I.raise_exc("AttributeError", "float.%s" % name, internal=True)
        if name in ("real",):
            return o
        return BM(o, name)
    if isinstance(o, Tup):
        return BM(o, name)
    if isinstance(o, Fn):
        if name == "__name__":
            return C(getattr(o.f, "name", "<lambda>"))
        return I.unk("fn." + name)
    if isinstance(o, RxM) and name == "string":
        return I.unk("match.string")
    if isinstance(o, RxPat) and name == "pattern":
        return C(o.pattern)
    if isinstance(o, (RxM, RxPat)):
        return BM(o, name)
    return I.unk("attr." + name, o)


def kind_of(ob):
    if isinstance(ob, Dct):
        return "dict"
    return ob.kind


# what a numpy number has beyond a plain one
NP_SCALAR = set("""T all any argmax argmin argsort astype base bit_count byteswap choose clip compress conj copy cumprod cumsum data device
diagonal dtype dump dumps fill flags flat flatten getfield item itemsize max mean min nbytes ndim newbyteorder nonzero prod ptp put ravel repeat
reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take to_device tobytes tofile tolist trace
transpose var view""".split())

KNOWN_METHODS = {
    "list": set(dir(list)), "tuple": set(dir(tuple)), "set": set(dir(set)), "frozenset": set(dir(frozenset)), "dict": set(dir(dict)),
    "deque": set(dir(__import__("collections").deque)), "range": set(dir(range)), "gen": {"send", "close", "throw", "__next__", "__iter__"},
    "iter": {"__next__", "__iter__"},
}


def ext_attr(I, o, name):
    full = o.name + "." + name
    if full in ("math.inf", "numpy.inf", "numpy.Inf", "numpy.infty"):
        return C(math.inf)
    if full in ("math.pi", "numpy.pi"):
        return C(math.pi)
    if full in ("math.nan", "numpy.nan"):
        return C(math.nan)
    if full == "numpy.newaxis":
        return NONE
    if full == "numpy.r_" or full == "numpy.c_":
        return Ext(full)
    if o.name.startswith("dtype.") and name == "kind":
        return C({"float": "f", "int": "i", "bool": "b", "str": "U"}.get(o.name[6:], "O"))
    return Ext(full)


# ---------------------------------------------------------------- methods

def method(I, r, name, args, kwargs):
    r = I.resolve(r)
    args = [I.resolve(a) for a in args]
    if isinstance(r, Ref):
        o = I.obj(r)
        if isinstance(o, Nd):
            from . import np_models
            return np_models.nd_method(I, r, o, name, args, kwargs)
        if isinstance(o, Dct):
            return dct_method(I, r, o, name, args, kwargs)
        if isinstance(o, Lst):
            return lst_method(I, r, o, name, args, kwargs)
        if isinstance(o, Inst):
            return I.call(I.getattr(r, name), args, kwargs)
    if isinstance(r, (RxPat, RxM)):
        from . import re_models
        return re_models.method(I, r, name, args, kwargs)
    if isinstance(r, (C, S)) and I.py_of(r) == "str":
        return str_method(I, r, name, args, kwargs)
    if isinstance(r, (C, S)):
        if name in ("item", "all", "any", "tolist", "copy", "astype", "sum", "max", "min", "__float__", "conjugate", "squeeze"):
            return r
        if name == "is_integer":
            t = I.desc(r)
            return boolv(I, eq0(sub(t, mk("floor", t)))) if t.op != "c" else C(False)
        return I.opaque("num." + name, "any", r, *args)
    if isinstance(r, Tup):
        if name == "index" or name == "count":
            return I.opaque("tuple." + name, "int", r, *args)
    if isinstance(r, Ext):
        return I.unk("ext method " + name)
    if isinstance(r, U):
        # may mutate what it refers to
        if name in ("append", "add", "extend", "update", "remove", "pop", "clear", "sort", "insert", "fill", "discard", "setdefault", "popleft", "appendleft", "reverse"):
            for a in r.refs:
                ob = I.st.heap.get(a)
                I.fresh_n += 1
                g = sym("may%d" % I.fresh_n)
                if isinstance(ob, Lst):
                    add_v = args[0] if args else NONE
                    I.st.heap[a] = Lst(ob.kind, ob.items + (It(add_v, "1", None, g),), True) if name in ("append", "add") else \
                        Lst(ob.kind, tuple(It(x.v, "*", x.seg, x.g) for x in ob.items) + tuple(It(z, "*", "?") for z in args), True)
                elif isinstance(ob, Dct):
                    I.st.heap[a] = Dct(tuple(DIt(x.k, x.v, "*", x.seg, x.g) for x in ob.items), True)
                elif isinstance(ob, Nd):
                    old = I.nd_t(Ref(a))
                    I.nd_write(Ref(a), ite(g, mk("wr?", old, name), old))
        refs = set(r.refs)
        for a in args:
            refs |= I.refs_of(a)
        return U(mk("call", name, r.t, *[I.desc(a) for a in args]), frozenset(refs))
    return I.unk("method " + name, r, *args)


def lst_method(I, r, o, name, args, kwargs):
    kind = o.kind
    def one():
        return args[0] if args else NONE
    if name in ("append",):
        I.put(r, Lst(kind, o.items + (It(one()),), o.op))
        return NONE
    if name == "appendleft":
        I.put(r, Lst(kind, (It(one()),) + o.items, o.op))
        return NONE
    if name == "add":
        set_add(I, r, It(one()))
        return NONE
    if name in ("extend", "extendleft"):
        its = tuple(iter_items(I, one()))
        I.put(r, Lst(kind, o.items + its, o.op or is_open(I, one())))
        return NONE
    if name == "update" and kind == "set":
        for a in args:
            for it in iter_items(I, a):
                set_add(I, r, it)
            if is_open(I, a):
                oo = I.obj(r)
                I.put(r, Lst(kind, oo.items, True))
        return NONE
    if name == "copy":
        return I.new(Lst(kind, o.items, o.op))
    if name == "clear":
        I.put(r, Lst(kind, (), False))
        return NONE
    if name == "insert":
        i, v = args[0], args[1]
        if isinstance(i, C) and i.v == 0:
            I.put(r, Lst(kind, (It(v),) + o.items, o.op))
        elif isinstance(i, C) and isinstance(i.v, int) and all(x.m == "1" and x.g is None for x in o.items) and not o.op:
            xs = list(o.items)
            xs.insert(i.v, It(v))
            I.put(r, Lst(kind, tuple(xs), o.op))
        elif I.scalar_t(i) is not None and length(I, r) is I.scalar_t(i):
            I.put(r, Lst(kind, o.items + (It(v),), o.op))
        else:
            I.imp("list insert")
            I.put(r, Lst(kind, o.items + (It(v),), o.op))
        return NONE
    if name in ("pop", "popleft", "popitem"):
        if kind == "set":
            if len(o.items) == 1 and o.items[0].m == "1" and o.items[0].g is None and not o.op:
                v = o.items[0].v
                I.put(r, Lst(kind, (), False))
                return v
            if I.set_order and o.items and not o.op and all(x.m == "1" and x.g is None for x in o.items):
                k = 0 if I.set_order == "fwd" else len(o.items) - 1
                v = o.items[k].v
                I.put(r, Lst(kind, o.items[:k] + o.items[k + 1:], False))
                return v
        left = name == "popleft" or (args and isinstance(args[0], C) and args[0].v == 0)
        at_end = name == "pop" and (not args or (isinstance(args[0], C) and args[0].v == -1))
        if not o.items and not o.op:
            I.raise_exc("IndexError", "pop from empty", internal=True)
        if kind != "set" and (left or at_end) and o.items:
            x = o.items[0] if left else o.items[-1]
            if x.m == "1" and x.g is None and not (o.op and at_end):
                I.put(r, Lst(kind, o.items[1:] if left else o.items[:-1], o.op))
                return x.v
        refs = set()
        for x in o.items:
            refs |= I.refs_of(x.v)
        t = mk("popped", I.desc(r), "l" if left else "r")
        I.put(r, Lst(kind, tuple(It(x.v, "*", x.seg, x.g) for x in o.items), True))
        pys = {I.py_of(x.v) for x in o.items}
        if o.items and not refs and len(pys) == 1 and all(I.scalar_t(x.v) is not None for x in o.items):
            return S(t, pys.pop())
        tups = [x.v for x in o.items if isinstance(x.v, Tup)]
        if tups and len(tups) == len(o.items) and len({len(x.vs) for x in tups}) == 1:
            return Tup(tuple(U(mk("item", t, k), frozenset().union(*[I.refs_of(x.vs[k]) for x in tups])) for k in range(len(tups[0].vs))))
        return U(t, frozenset(refs))
    if name in ("remove", "discard"):
        k0 = None
        unsure = []
        for k, x in enumerate(o.items):
            m = item_matches(I, x, one())
            if m is True and x.m == "1":
                k0 = k
                break
            if m is not False:
                unsure.append((k, m))
        if k0 is not None and not unsure:
            I.put(r, Lst(kind, o.items[:k0] + o.items[k0 + 1:], o.op))
            return NONE
        if k0 is None and not unsure and not o.op:
            if name == "remove":
                I.raise_exc("KeyError" if kind == "set" else "ValueError", "remove: not present", internal=True)
            return NONE
        items = list(o.items)
        for k, m in unsure:
            x = items[k]
            g = None
            if x.m != "1" and x.seg and (m is True or isinstance(m, T)):
                s = solve_idx(I, I.desc(x.v), I.desc(one()), x.seg)
                if isinstance(s, tuple):
                    g = bnot(eq0(sub(mk("idx", x.seg), s[1])))
            elif isinstance(m, T):
                g = bnot(m)
            if g is None:
                I.fresh_n += 1
                g = sym("rm%d" % I.fresh_n)
            items[k] = It(x.v, "*" if x.m == "+" and False else x.m, x.seg, g if x.g is None else bool_nary("and", [g, x.g]))
        if k0 is not None:
            I.imp("remove")
        I.put(r, Lst(kind, tuple(items), o.op))
        return NONE
    if name == "sort":
        I.put(r, Lst(kind, sort_items(I, o.items, kwargs), o.op))
        return NONE
    if name == "reverse":
        I.put(r, Lst(kind, tuple(reversed(o.items)), o.op))
        return NONE
    if name == "index":
        for k, x in enumerate(o.items):
            m = item_matches(I, x, one())
            if x.m != "1" or x.g is not None:
                break
            if m is True:
                return C(k)
            if m is not False:
                break
        return S(mk("index", I.desc(r), I.desc(one())), "int")
    if name == "count":
        if all(x.m == "1" for x in o.items) and not o.op:
            ms = [item_matches(I, x, one()) for x in o.items]
            if all(isinstance(m, bool) for m in ms):
                return C(sum(ms))
        return S(mk("count", I.desc(r), I.desc(one())), "int")
    if name in ("union", "difference", "intersection", "symmetric_difference", "__or__", "__and__", "__sub__"):
        if name in ("union", "__or__"):
            n = I.new(Lst(kind, o.items, o.op))
            method(I, n, "update", args, {})
            return n
        if name in ("difference", "__sub__", "intersection", "__and__"):
            inter = name in ("intersection", "__and__")
            items = o.items
            op = o.op
            for a in args:
                out = []
                for x in items:
                    c = member_all(I, a, x)
                    if c is True:
                        keep = inter
                    elif c is False:
                        keep = not inter
                    else:
                        keep = c if inter else bnot(c)
                    if keep is False:
                        continue
                    if keep is True:
                        out.append(x)
                    else:
                        out.append(It(x.v, x.m, x.seg, keep if x.g is None else bool_nary("and", [x.g, keep])))
                items = tuple(out)
            return I.new(Lst(kind, tuple(items), op))
        return I.new(Lst(kind, o.items, True))
    if name in ("difference_update", "intersection_update"):
        n = lst_method(I, r, o, "difference" if name.startswith("d") else "intersection", args, {})
        I.put(r, I.obj(n))
        return NONE
    if name in ("issubset", "__le__"):
        cs = []
        for x in o.items:
            c = member_all(I, one(), x)
            if c is True:
                continue
            ct = c if isinstance(c, T) else mk("c", c)
            if x.g is not None:
                ct = bool_nary("or", [bnot(x.g), ct])
            cs.append(tm.alls(x.seg, ct) if x.seg else ct)
        if o.op:
            return S(mk("ext", "issubset", I.desc(r), I.desc(one())), "bool")
        return boolv(I, bool_nary("and", cs) if cs else True)
    if name == "issuperset":
        return method(I, one(), "issubset", [r], {}) if isinstance(one(), Ref) else I.unk("issuperset", r, one())
    if name == "isdisjoint":
        n = lst_method(I, r, o, "intersection", args, {})
        c = I.nonempty(I.obj(n))
        if c is None:
            return S(mk("ext", "isdisjoint", I.desc(r), I.desc(one())), "bool")
        return C(not c) if isinstance(c, bool) else S(bnot(c), "bool")
    if name == "__next__":
        return call_ext(I, "builtins.next", [r], {})
    if name in ("__len__",):
        return as_val(length(I, r), "int")
    if name == "__contains__":
        return boolv(I, contains(I, r, one()))
    if name == "__getitem__":
        return getitem(I, r, one())
    if name == "rotate":
        return NONE
    return I.unk("list." + name, r, *args)


def is_open(I, v):
    return isinstance(v, U) or (isinstance(v, Ref) and getattr(I.obj(v), "op", False))


def member_all(I, coll, x):
    """is (every) element x of a collection in coll"""
    if isinstance(coll, (C, S)) and I.py_of(coll) == "str":
        pass
    return contains(I, coll, x.v) if not isinstance(coll, C) else any_match(I, iter_items(I, coll), x.v)


def any_match(I, items, v):
    for it in items:
        m = item_matches(I, it, v)
        if m is True:
            return True
    return False


def ascending(I, items):
    """are the (summarised) elements known to come in ascending order?"""
    last = None
    for x in items:
        t = I.scalar_t(x.v)
        if t is None or I.py_of(x.v) not in ("int", "float", "num"):
            return False
        if x.m == "1":
            lo = hi = t
        else:
            base = t if t.op != "lin" else None
            if t.op == "lin":
                k, d = tm.lin_parts(t)
                if len(d) == 1 and list(d.values())[0] == 1:
                    base = list(d)[0]
            if base is None:
                return False
            if base.op == "app" and tm.META.get(mk("sym", base.args[0]), {}).get("asc"):
                pass
            elif base.op not in ("idx", "ord") or base.args[0] != x.seg:
                return False
            lo = hi = t
        if last is not None:
            # every element of the previous group before every element of this one
            p, pt = last
            ok = False
            if pt.op == "c" and tm.bounds(sub(lo, pt))[0] >= 0:
                ok = True
            if x.seg and p.seg and tm.UNIV_OF.get(x.seg) is not None and tm.UNIV_OF.get(x.seg) == tm.UNIV_OF.get(p.seg):
                segs = tm.UNIVERSE[tm.UNIV_OF[x.seg]]
                ka, kb = (tm.lin_parts(pt)[0] if pt.op == "lin" else 0), (tm.lin_parts(t)[0] if t.op == "lin" else 0)
                ok = x.seg in segs and p.seg in segs and segs.index(p.seg) < segs.index(x.seg) and ka <= kb
            if not ok:
                return False
        last = (x, t)
    return True


def numeric_alts(I, v):
    """a gated choice of numbers as one number; alternatives that cannot be ordered raise TypeError"""
    if not isinstance(v, Phi):
        return v
    good = [(g, a) for g, a in v.alts if I.py_of(a) in ("int", "float", "num")]
    bad = [g for g, a in v.alts if isinstance(a, C) and (a.v is None or isinstance(a.v, str))]
    if not good or len(good) + len(bad) != len(v.alts):
        return v
    if bad:
        c = bad[0] if len(bad) == 1 else bool_nary("or", bad)
        I.branch(c, lambda: I.raise_exc("TypeError", "unorderable elements", internal=True), lambda: NONE)
    t = I.desc(good[-1][1])
    for g, a in reversed(good[:-1]):
        t = ite(g, I.desc(a), t)
    pys = {I.py_of(a) for g, a in good}
    return S(t, pys.pop() if len(pys) == 1 else "num")


def keyed_sort(I, items, kwargs):
    """stable sort of known members by key and direction, when the order of every two keys is decided"""
    if not all(x.m == "1" and x.g is None for x in items):
        return None
    rv = I.resolve(kwargs.get("reverse", FALSE))
    if not isinstance(rv, C):
        return None
    key = I.resolve(kwargs.get("key", NONE))
    ks = [x.v if isinstance(key, C) else I.call(key, [x.v], {}) for x in items]
    def less(a, b):
        c = I.truth(I.compare("Lt", a, b))
        return I.tri(c) if isinstance(c, T) else c
    out = []
    for k, x in zip(ks, items):
        pos = len(out)
        while pos:
            # stable: an element moves before the previous one only when strictly smaller (larger when reversed)
            c = less(out[pos - 1][0], k) if rv.v else less(k, out[pos - 1][0])
            if c not in (True, False):
                return None
            if not c:
                break
            pos -= 1
        out.insert(pos, (k, x))
    return tuple(x for _, x in out)


def sort_items(I, items, kwargs):
    if kwargs:
        r = keyed_sort(I, items, kwargs)
        if r is not None:
            return r
    if not kwargs and len(items) > 1:
        items = tuple(It(numeric_alts(I, x.v), x.m, x.seg, x.g) if isinstance(x.v, Phi) else x for x in items)
    if all(x.m == "1" and x.g is None for x in items) and not kwargs:
        vs = [x.v for x in items]
        if all(isinstance(v, C) for v in vs):
            try:
                return tuple(It(v) for v in sorted(vs, key=lambda c: c.v))
            except TypeError:
                return items
        if all(rank(v) is not None for v in vs):
            return tuple(sorted(items, key=lambda x: rank(x.v)))
        ts = [I.scalar_t(v) for v in vs]
        if all(t is not None for t in ts) and len(vs) <= 4:
            import itertools
            for p in itertools.permutations(range(len(vs))):
                if all(I.tri(lt0(sub(ts[p[k]], ts[p[k + 1]]))) is True for k in range(len(vs) - 1)):
                    return tuple(items[k] for k in p)
        if len(vs) == 2 and all(I.py_of(v) == "str" for v in vs):
            c = str_lt(I, vs[1], vs[0])
            if c is False:
                return items
            if c is True:
                return tuple(reversed(items))
            return (It(I.phi(c, vs[1], vs[0])), It(I.phi(c, vs[0], vs[1])))
    if len(items) <= 1 and all(x.m == "1" for x in items):
        return items
    if not kwargs and ascending(I, items):
        return items
    if not kwargs and items and all(I.py_of(x.v) in ("int", "float", "num") for x in items):
        if len(items) == 1 and items[0].m == "+" and items[0].g is None and items[0].seg in tm.UNIV_OF:
            whole = mk("ext", "sort", mk("list", I.wrap_item(I.desc(items[0].v), items[0])))
            t = mk("item", whole, mk("ord", items[0].seg))
            tm.IV.setdefault(t, tm.bounds(I.desc(items[0].v)))
            return (It(S(t, I.py_of(items[0].v)), "+", items[0].seg),)
        if all(x.m == "1" for x in items) and len(items) <= 8:
            whole = mk("ext", "sort", mk("list", *[I.wrap_item(I.desc(x.v), x) for x in items]))
            pys = {I.py_of(x.v) for x in items}
            py = pys.pop() if len(pys) == 1 else "num"
            n = ZERO
            for x in items:
                n = add(n, const(1) if x.g is None else ite(x.g, const(1), ZERO))
            sure = sum(x.g is None for x in items)
            out = []
            for k in range(len(items)):
                t = mk("item", whole, const(k))
                bs = [tm.bounds(I.desc(x.v)) for x in items]
                tm.IV.setdefault(t, (min(b[0] for b in bs), max(b[1] for b in bs)))
                out.append(It(S(t, py), "1", None, None if k < sure else lt0(sub(const(k), n))))
            return tuple(out)
        I.imp("sort order")
    elif len(items) > 1 or items[0].seg not in tm.UNIV_OF or kwargs:
        I.imp("sort order")
    return tuple(sorted(items, key=lambda x: (tm.key(I.desc(x.v)), x.m))) if not kwargs else items


def dct_method(I, r, o, name, args, kwargs):
    if name == "get":
        return dct_get(I, r, o, args[0], args[1] if len(args) > 1 else NONE)
    if name == "setdefault":
        d = args[1] if len(args) > 1 else NONE
        c = contains(I, r, args[0])
        def ins():
            dct_set(I, r, I.obj(r), args[0], d)
            return d
        def have():
            return dct_get(I, r, I.obj(r), args[0], None)
        return I.branch(c, have, ins)
    if name == "keys":
        return I.new(Lst("list", tuple(It(x.k, x.m, x.seg, x.g) for x in o.items), o.op)) if not o.op else I.new(Lst("list", tuple(iter_items(I, r)), True))
    if name == "values":
        return I.new(Lst("list", tuple(It(x.v, x.m, x.seg, x.g) for x in o.items), o.op))
    if name == "items":
        return I.new(Lst("list", tuple(It(Tup((x.k, x.v)), x.m, x.seg, x.g) for x in o.items), o.op))
    if name == "copy":
        return I.new(Dct(o.items, o.op, o.default))
    if name == "clear":
        I.put(r, Dct((), False, o.default))
        return NONE
    if name == "pop":
        c = contains(I, r, args[0])
        def have():
            v = dct_get(I, r, I.obj(r), args[0], None)
            delitem(I, r, args[0])
            return v
        def miss():
            if len(args) > 1:
                return args[1]
            I.raise_exc("KeyError", "pop", internal=True)
        return I.branch(c, have, miss)
    if name == "update":
        for a in args:
            a = I.resolve(a)
            ob = I.obj(a) if isinstance(a, Ref) else None
            if isinstance(ob, Dct):
                for it in ob.items:
                    if it.m == "1" and it.g is None:
                        dct_set(I, r, I.obj(r), it.k, it.v)
                    else:
                        cur = I.obj(r)
                        I.put(r, Dct(tuple(x for x in cur.items if x.k != it.k) + (it,), cur.op or ob.op, cur.default))
                if ob.op:
                    cur = I.obj(r)
                    I.put(r, Dct(cur.items, True, cur.default))
            else:
                for it in iter_items(I, a):
                    if isinstance(it.v, Tup) and len(it.v.vs) == 2 and it.m == "1" and it.g is None:
                        dct_set(I, r, I.obj(r), it.v.vs[0], it.v.vs[1])
                    elif isinstance(it.v, Tup) and len(it.v.vs) == 2:
                        cur = I.obj(r)
                        I.put(r, Dct(cur.items + (DIt(it.v.vs[0], it.v.vs[1], it.m, it.seg, it.g),), cur.op, cur.default))
                    else:
                        cur = I.obj(r)
                        I.put(r, Dct(cur.items, True, cur.default))
        for k, v in kwargs.items():
            dct_set(I, r, I.obj(r), C(k), v)
        return NONE
    if name == "popitem":
        I.put(r, Dct(tuple(DIt(x.k, x.v, "*", x.seg, x.g) for x in o.items), True, o.default))
        return I.unk("popitem", r)
    if name == "__contains__":
        return boolv(I, contains(I, r, args[0]))
    if name == "__getitem__":
        return getitem(I, r, args[0])
    if name == "fromkeys":
        return I.unk("fromkeys")
    return I.unk("dict." + name, r, *args)


def str_method(I, r, name, args, kwargs):
    if isinstance(r, C) and all(isinstance(a, C) for a in args) and not kwargs and name not in ("format",):
        try:
            v = getattr(r.v, name)(*[a.v for a in args])
            if isinstance(v, (list, tuple)):
                return I.new(Lst("list" if isinstance(v, list) else "tuple", tuple(It(C(x)) for x in v)))
            return C(v)
        except Exception as e:
            I.raise_exc(type(e).__name__, str(e), internal=True)
    if name == "join":
        its = iter_items(I, args[0])
        sep = r
        if all(x.m == "1" and x.g is None for x in its) and not is_open(I, args[0]):
            out = []
            for k, x in enumerate(its):
                xv = I.resolve(x.v)
                if I.py_of(xv) not in ("str", "any") and not isinstance(xv, (U, Phi)):
                    I.raise_exc("TypeError", "join: expected str", internal=True)
                if k:
                    out.append(I.desc(sep))
                out.append(I.desc(x.v))
            return cat(out)
        for x in its:
            xv = I.resolve(x.v)
            if isinstance(xv, (C, S)) and I.py_of(xv) not in ("str", "any"):
                I.raise_exc("TypeError", "join: expected str", internal=True)
        return S(mk("ext", "join", I.desc(r), *[I.wrap_item(I.desc(x.v), x) for x in its]), "str")
    if name == "format":
        # arity of the template against the arguments
        if isinstance(r, C):
            import string
            auto, need, ok = 0, 0, True
            keys = set()
            try:
                for lit, field, spec, conv in string.Formatter().parse(r.v):
                    if field is None:
                        continue
                    head = field.split(".")[0].split("[")[0]
                    if head == "":
                        auto += 1
                    elif head.isdigit():
                        need = max(need, int(head) + 1)
                    else:
                        keys.add(head)
            except ValueError:
                ok = False
            from .interp import StarArgs
            n = 0
            exact = True
            for a in args:
                if isinstance(a, StarArgs):
                    for it in a.items:
                        if it.m == "1" and it.g is None:
                            n += 1
                        else:
                            exact = False
                else:
                    n += 1
            if exact and ok and n < max(auto, need):
                I.raise_exc("IndexError", "replacement index out of range in %r with %d arguments" % (r.v, n), internal=True)
            if keys - set(kwargs):
                I.raise_exc("KeyError", "format key", internal=True)
        from .interp import StarArgs
        ts = []
        for a in args:
            if isinstance(a, StarArgs):
                ts += [I.wrap_item(I.desc(it.v), it) for it in a.items]
            else:
                ts.append(I.desc(a))
        return S(mk("ext", "format", I.desc(r), *ts), "str")
    if name in ("split", "splitlines", "rsplit"):
        if name == "split" and isinstance(r, S):
            return I.new(Lst("list", (It(S(mk("ext", "part", r.t, *[I.desc(a) for a in args]), "str"), "*", "split:" + tm.key(r.t)),), True))
        return I.new(Lst("list", (It(S(mk("ext", "part", I.desc(r)), "str"), "*", "split"),), True))
    if name in ("startswith", "endswith", "isdigit", "isalpha", "isalnum", "isidentifier", "isspace", "isnumeric"):
        return S(mk("ext", "str." + name, I.desc(r), *[I.desc(a) for a in args]), "bool")
    if name in ("find", "index", "count", "rfind"):
        return S(mk("ext", "str." + name, I.desc(r), *[I.desc(a) for a in args]), "int")
    if name in ("rstrip", "strip", "lstrip", "replace", "lower", "upper", "translate", "title", "zfill", "ljust", "rjust", "center", "expandtabs", "casefold", "capitalize", "removeprefix", "removesuffix"):
        return S(mk("ext", "str." + name, I.desc(r), *[I.desc(a) for a in args]), "str")
    if name == "partition":
        return Tup(tuple(S(mk("ext", "partition%d" % k, I.desc(r), *[I.desc(a) for a in args]), "str") for k in range(3)))
    return I.unk("str." + name, r, *args)


def to_str(I, v):
    v = I.resolve(v)
    if isinstance(v, Phi):
        return I.each(v, lambda x: to_str(I, x))
    if isinstance(v, C):
        return C(str(v.v))
    if isinstance(v, S) and v.py == "str":
        return v
    if isinstance(v, Ref) and isinstance(I.obj(v), Inst):
        for nm in ("__str__", "__repr__"):
            m = I.find_m(I.obj(v).cls, nm)
            if m is not None:
                return I.call_fn(Fn(m, cls=m.cls, module=m.module), [v], {})
    return S(mk("str", I.desc(v)), "str")


def rc_stack(I, which, i):
    from . import np_models
    parts = list(i.vs) if isinstance(i, Tup) else [i]
    return np_models.r_(I, parts) if which == "r" else np_models.c_(I, parts)


# ---------------------------------------------------------------- functions

PURE_PREFIX = ("math.", "numpy.", "operator.", "re.", "string.", "itertools.", "functools.", "decimal.", "typing.", "cmath.", "statistics.",
               "fractions.", "numbers.", "heapq.", "bisect.", "abc.", "enum.", "dataclasses.", "collections.", "copy.", "textwrap.", "warnings.")


def call_ext(I, name, args, kwargs):
    short = name
    if name.startswith("builtins."):
        f = BI.get(name[9:])
        if f is not None:
            return f(I, args, kwargs)
        base = name[9:]
        if base in EXC_PARENTS:
            from .interp import ExcVal
            return ExcVal(base)
        if base.startswith("object."):
            return NONE
        I.effects.append(("call", name, I.site()))
        return I.unk("builtin " + base, *args)
    if name.startswith("numpy.") or name.startswith("np."):
        from . import np_models
        return np_models.call(I, name[6:] if name.startswith("numpy.") else name[3:], args, kwargs)
    if name.startswith("dtype."):
        return I.unk("dtype")
    f = EX.get(name)
    if f is not None:
        return f(I, args, kwargs)
    if name.startswith("re."):
        from . import re_models
        f = re_models.MODELS.get(name)
        if f is not None:
            return f(I, args, kwargs)
    I.effects.append(("call", name, I.site()))
    root = name.split(".")[0]
    if root in ("random",):
        I.effects.append(("random", name, I.site()))
    return I.unk("call " + name, *args)


def b_len(I, a, k):
    v = I.resolve(a[0])
    if isinstance(v, Phi):
        return I.each(v, lambda x: b_len(I, [x], k))
    return as_val(length(I, v), "int")


def b_range(I, a, k):
    if len(a) == 1:
        a = [C(0)] + list(a)
    for x in a:
        x = I.resolve(x)
        if isinstance(x, C) and not isinstance(x.v, int):
            I.raise_exc("TypeError", "range of non-integer", internal=True)
        if isinstance(x, S) and x.py == "float":
            I.raise_exc("TypeError", "range of non-integer", internal=True)
    return I.new(Lst("range", tuple(It(x) for x in a)))


def b_enumerate(I, a, k):
    start = I.scalar_t(a[1]) if len(a) > 1 else I.scalar_t(k.get("start", C(0)))
    its = iter_items(I, a[0])
    pos = const(0)
    out = []
    segs = [x.seg for x in its]
    whole = False
    for u, ss in tm.UNIVERSE.items():
        if its and all(x.m == "+" and x.g is None for x in its) and ss == segs:
            whole = True
    for x in its:
        if x.m == "1" and x.g is None:
            if pos is None:
                i = mk("epos", I.desc(a[0]), I.desc(x.v))
            else:
                i = pos
                pos = add(pos, const(1))
        elif whole:
            i = mk("idx", x.seg)
        elif len(its) == 1 and x.m == "+" and x.g is None:
            i = mk("ord", x.seg)
        else:
            i = mk("epos", I.desc(a[0]), I.desc(x.v))
            tm.IV.setdefault(i, (0.0, tm.INF))
            pos = None
        out.append(It(Tup((as_val(add(i, start), "int"), x.v)), x.m, x.seg, x.g))
    return I.new(Lst("gen", tuple(out), is_open(I, a[0])))


def b_zip(I, a, k):
    ls = [iter_items(I, x) for x in a]
    if all(all(x.m == "1" and x.g is None for x in l) for l in ls):
        n = min((len(l) for l in ls), default=0)
        return I.new(Lst("gen", tuple(It(Tup(tuple(l[i].v for l in ls))) for i in range(n))))
    n = len(ls[0]) if ls else 0
    if all(len(l) == n for l in ls) and all(len({(l[i].m, l[i].seg, l[i].g) for l in ls}) == 1 for i in range(n)):
        return I.new(Lst("gen", tuple(It(Tup(tuple(l[i].v for l in ls)), ls[0][i].m, ls[0][i].seg, ls[0][i].g) for i in range(n))))
    # arrays of one length, laid out along different axes: the positions of one of them serve for all
    rs = [I.resolve(x) for x in a]
    if all(isinstance(x, Ref) and isinstance(I.obj(x), Nd) and I.obj(x).shape for x in rs):
        dims = [I.obj(x).shape[0] for x in rs]
        if all(I.norm(sub(dims[0], d)) is const(0) for d in dims[1:]):
            best = max(range(len(ls)), key=lambda q: len(ls[q]))
            out = []
            for i, m, sg in axis_items(I, dims[best], I.nd_t(rs[best]), 0):
                out.append(It(Tup(tuple(nd_index(I, x, as_val(i, "int")) for x in rs)), m, sg))
            return I.new(Lst("gen", tuple(out)))
    refs = set()
    vals = []
    for l in ls:
        rr = set()
        for x in l:
            rr |= I.refs_of(x.v)
        pys = {I.py_of(x.v) for x in l}
        t = mk("zipitem", *[I.wrap_item(I.desc(x.v), x) for x in l])
        if len(pys) == 1 and all(I.scalar_t(x.v) is not None for x in l) and l:
            vals.append(S(t, pys.pop()))
        else:
            vals.append(U(t, frozenset(rr)))
    I.imp("zip of different shapes")
    return I.new(Lst("gen", (It(Tup(tuple(vals)), "*", "zip"),)))


def map_items(I, its, f):
    """apply f to each (summarised) item, building a list"""
    out = I.new(Lst("gen", ()))
    class N:
        lineno = I.lineno
    saved = I.st.L
    def bind(v):
        I.st.L = dict(I.st.L)
        I.st.L["$m"] = v
    def body():
        v = f(I.st.L["$m"])
        o = I.obj(out)
        if v is not None:
            I.put(out, Lst("gen", o.items + (It(v),), o.op))
    I.run_loop(its, bind, body, N)
    I.st.L.pop("$m", None)
    return out


def b_map(I, a, k):
    if len(a) > 2:
        z = b_zip(I, a[1:], {})
        return map_items(I, iter_items(I, z), lambda v: I.call(a[0], list(v.vs) if isinstance(v, Tup) else [v], {}))
    r = map_items(I, iter_items(I, a[1]), lambda v: I.call(a[0], [v], {}))
    if is_open(I, a[1]):
        o = I.obj(r)
        I.put(r, Lst(o.kind, o.items, True))
    return r


def b_filter(I, a, k):
    out = I.new(Lst("gen", ()))
    class N:
        lineno = I.lineno
    def bind(v):
        I.st.L["$f"] = v
    def body():
        v = I.st.L["$f"]
        c = I.truth(v if isinstance(a[0], C) and a[0].v is None else I.call(a[0], [v], {}))
        def keep():
            o = I.obj(out)
            I.put(out, Lst("gen", o.items + (It(v),), o.op))
        I.branch(c, keep, lambda: None)
    I.run_loop(iter_items(I, a[1]), bind, body, N)
    I.st.L.pop("$f", None)
    if is_open(I, a[1]):
        o = I.obj(out)
        I.put(out, Lst(o.kind, o.items, True))
    return out


def mk_coll(kind):
    def f(I, a, k):
        if not a:
            return I.new(Lst(kind, ())) if kind != "tuple" else Tup(())
        v = I.resolve(a[0])
        if isinstance(v, Phi):
            return I.each(v, lambda x: f(I, [x], k))
        if kind == "tuple" and isinstance(v, Tup):
            return v
        its = iter_items(I, v)
        if kind in ("set", "frozenset"):
            r = I.new(Lst(kind, ()))
            for it in its:
                set_add(I, r, it)
            if is_open(I, v):
                I.put(r, Lst(kind, I.obj(r).items, True))
            return r
        if kind == "tuple" and all(x.m == "1" and x.g is None for x in its) and not is_open(I, v):
            return Tup(tuple(x.v for x in its))
        return I.new(Lst(kind, tuple(its), is_open(I, v)))
    return f


def b_dict(I, a, k):
    r = I.new(Dct(()))
    if a:
        dct_method(I, r, I.obj(r), "update", [I.resolve(a[0])], {})
    for n, v in k.items():
        dct_set(I, r, I.obj(r), C(n), v)
    return r


def b_sorted(I, a, k):
    its = tuple(iter_items(I, a[0]))
    kw = dict(k)
    if "reverse" in kw and isinstance(kw["reverse"], C) and not kw["reverse"].v:
        kw.pop("reverse")
    if "key" in kw and isinstance(I.resolve(kw["key"]), C):
        kw.pop("key")
    if "key" in kw:
        for it in its[:1]:
            try:
                I.call(kw["key"], [it.v], {})
            except Exception as e:
                if type(e).__name__ != "Dead":
                    raise
                raise
    return I.new(Lst("list", sort_items(I, its, kw), is_open(I, a[0])))


def b_reversed(I, a, k):
    return I.new(Lst("gen", tuple(reversed(iter_items(I, a[0]))), is_open(I, a[0])))


def minmax(which):
    def f(I, a, k):
        if len(a) == 1:
            v = I.resolve(a[0])
            if isinstance(v, Phi):
                return I.each(v, lambda x: f(I, [x], k))
            its = iter_items(I, v)
            if not its and not is_open(I, v):
                if "default" in k:
                    return k["default"]
                I.raise_exc("ValueError", "%s() of empty sequence" % which, internal=True)
        else:
            its = [It(x) for x in a]
        if len(its) == 1 and its[0].m == "1" and its[0].g is None and (len(a) > 1 or not is_open(I, I.resolve(a[0]))):
            return I.resolve(its[0].v)
        if all(x.m == "1" and x.g is None for x in its):
            if "key" in k:
                kw = {"key": k["key"]}
                if which == "max":
                    kw["reverse"] = C(True)
                r = keyed_sort(I, tuple(its), kw)
                if r is not None:
                    return I.resolve(r[0].v)
            elif all(rank(I.resolve(x.v)) is not None for x in its):
                return (min if which == "min" else max)((I.resolve(x.v) for x in its), key=rank)
        if "key" in k:
            refs = set()
            for x in its:
                refs |= I.refs_of(x.v)
            return U(mk("ext", which + "key", *[I.wrap_item(I.desc(x.v), x) for x in its]), frozenset(refs))
        vs = []
        for x in its:
            xv = I.resolve(x.v)
            if isinstance(xv, C) and isinstance(xv.v, str) or I.py_of(xv) == "str":
                return S(mk("ext", which, *[I.wrap_item(I.desc(y.v), y) for y in its]), "str")
            t = I.scalar_t(xv)
            if t is None:
                if isinstance(xv, (U, Phi, Tup)) or True:
                    refs = set()
                    for y in its:
                        refs |= I.refs_of(y.v)
                    return U(mk("ext", which, *[I.wrap_item(I.desc(y.v), y) for y in its]), frozenset(refs))
            vs.append((x, t))
        # constants only
        if all(isinstance(I.resolve(x.v), C) and x.m == "1" and x.g is None for x in its) and its:
            return C((min if which == "min" else max)(I.resolve(x.v).v for x in its))
        py = {I.py_of(I.resolve(x.v)) for x in its}
        p = py.pop() if len(py) == 1 else "num"
        ts = []
        lo, hi = None, None
        for x, t in vs:
            b = tm.bounds(t) if not (t.op == "c" and isinstance(t.args[0], float)) else (t.args[0], t.args[0])
            if x.m == "1" and x.g is None:
                ts.append(t)
            else:
                ts.append(mk("minof" if which == "min" else "maxof", x.seg or "?", t, x.g if x.g is not None else mk("c", True)))
        # drop dominated infinite constants
        keep = [t for t in ts if not (t.op == "c" and isinstance(t.args[0], float) and math.isinf(t.args[0]) and ((t.args[0] > 0) == (which == "min")))]
        if keep and len(keep) < len(ts):
            ts = keep
        # decided order
        changed = True
        while changed and len(ts) > 1:
            changed = False
            for x in ts:
                for y in ts:
                    if x is not y and x.op != "c" and y.op != "c":
                        c = I.tri(lt0(sub(x, y)))
                        worse = None
                        if c is True:
                            worse = y if which == "min" else x
                        elif c is False and I.tri(lt0(sub(y, x))) is not None:
                            worse = x if which == "min" else y
                        if worse is not None:
                            ts = [z for z in ts if z is not worse]
                            changed = True
                            break
                if changed:
                    break
        ts = list(dict.fromkeys(ts))
        if len(ts) == 1:
            t = ts[0]
        else:
            t = mk("min2" if which == "min" else "max2", *sorted(ts, key=tm.key))
        for tt in [t]:
            bs = [tm.bounds(x[1]) for x in vs]
            if tt.op in ("minof", "maxof"):
                tm.IV.setdefault(tt, (min(b[0] for b in bs), max(b[1] for b in bs)) if len(bs) == 1 else tm.bounds(tt))
        return as_val(t, p)
    return f


def b_sum(I, a, k):
    its = iter_items(I, a[0])
    out = a[1] if len(a) > 1 else C(0)
    for x in its:
        if x.m == "1" and x.g is None:
            out = I.binop("Add", out, x.v)
        else:
            t = I.scalar_t(I.resolve(x.v))
            ot = I.scalar_t(out)
            if t is None or ot is None:
                return I.unk("sum", a[0])
            if isinstance(x.v, S) and x.v.py == "bool":
                t = ite(t, const(1), const(0))
            if x.g is not None:
                t = ite(x.g, t, const(0))
            if x.m == "*":
                s = mk("sums*", x.seg or "?", t)
            else:
                s = I.sums(x.seg, t)
            out = as_val(add(ot, s), "num" if I.py_of(x.v) != "float" else "float")
    if is_open(I, a[0]):
        return S(mk("sum", I.desc(a[0])), "num")
    return out


def anyall(which):
    def f(I, a, k):
        v = I.resolve(a[0])
        if isinstance(v, Phi):
            return I.each(v, lambda x: f(I, [x], k))
        its = iter_items(I, v)
        cs = []
        for x in its:
            c = I.truth(x.v)
            ct = c if isinstance(c, T) else mk("c", c)
            if x.g is not None:
                ct = bool_nary("and", [x.g, ct]) if which == "any" else bool_nary("or", [bnot(x.g), ct])
            if x.m != "1":
                seg = x.seg or "?"
                if x.m == "*" and x.g is None:
                    if (which == "any" and c is False) or (which == "all" and c is True):
                        continue
                    ct = mk("ext", which + "*", seg, ct)
                else:
                    ct = tm.anys(seg, ct) if which == "any" else tm.alls(seg, ct)
            cs.append(ct)
        if is_open(I, v) and not isinstance(v, U):
            cs.append(mk("ext", which + "open", I.desc(v)))
        return boolv(I, bool_nary("or" if which == "any" else "and", cs))
    return f


def b_abs(I, a, k):
    v = I.resolve(a[0])
    if isinstance(v, Phi):
        return I.each(v, lambda x: b_abs(I, [x], k))
    if isinstance(v, C) and isinstance(v.v, (int, float)):
        return C(abs(v.v))
    if isinstance(v, S) and v.py != "str":
        return as_val(t_abs(v.t), v.py if v.py != "bool" else "int")
    if isinstance(v, Ref) and isinstance(I.obj(v), Nd):
        return nd_new(I, t_abs(I.nd_t(v)), I.obj(v).shape, I.obj(v).dt)
    if isinstance(v, U):
        return U(t_abs(v.t))
    I.raise_exc("TypeError", "bad operand for abs", internal=True)


def t_abs(t):
    if t.op == "c":
        return mk("abs", t)
    lo, hi = tm.bounds(t) if (tm.ndim(t) or 0) == 0 else (-tm.INF, tm.INF)
    if lo >= 0:
        return t
    if hi <= 0:
        return neg(t)
    if t.op == "abs":
        return t
    # canonical sign: |x| == |-x|
    n = neg(t)
    if tm.key(n) < tm.key(t):
        t = n
    return mk("abs", t)


def fl(fname, pyout=None):
    def f(I, a, k):
        v = I.resolve(a[0])
        if isinstance(v, Phi):
            return I.each(v, lambda x: f(I, [x] + list(a[1:]), k))
        if isinstance(v, C) and isinstance(v.v, (int, float)) and len(a) == 1 and not (isinstance(v.v, float) and (math.isinf(v.v) or math.isnan(v.v))):
            g = {"int": int, "floor": math.floor, "ceil": math.ceil, "round": round}[fname]
            return C(g(v.v))
        if fname == "int" and I.py_of(v) == "str":
            return S(mk("ext", "int", I.desc(v)), "int")
        if isinstance(v, S) and v.py in ("int",) and len(a) == 1:
            return v
        if isinstance(v, C) and v.v is None or isinstance(v, Ref) and not isinstance(I.obj(v), Nd):
            I.raise_exc("TypeError", "bad operand for " + fname, internal=True)
        t = I.desc(v)
        if fname == "int" and I.py_of(v) == "bool":
            return as_val(booln(I, v, t), "int")
        if len(a) > 1:
            return S(mk("ext", "round", t, I.desc(a[1])), "float")
        if fname == "int":
            lo, hi = tm.bounds(t)
            if lo >= 0:
                return as_val(flr(t), "int")
            return as_val(mk("int", t) if tm.bounds(t)[0] < 0 else flr(t), "int")
        if fname == "floor":
            return as_val(flr(t), "int")
        return as_val(mk(fname, t), "int")
    return f


def flr(t):
    return mk("floor", t)


def b_float(I, a, k):
    if not a:
        return C(0.0)
    v = I.resolve(a[0])
    if isinstance(v, Phi):
        return I.each(v, lambda x: b_float(I, [x], k))
    if isinstance(v, C):
        try:
            return C(float(v.v))
        except (TypeError, ValueError) as e:
            I.raise_exc(type(e).__name__, "float()", internal=True)
    if I.py_of(v) == "str":
        return S(mk("ext", "float", I.desc(v)), "float")
    if isinstance(v, S):
        return S(booln(I, v, v.t), "float")
    return S(I.desc(v), "float")


def b_str(I, a, k):
    return to_str(I, a[0]) if a else C("")


def b_bool(I, a, k):
    c = I.truth(a[0]) if a else False
    return C(c) if isinstance(c, bool) else S(c, "bool")


def type_names(I, v):
    """names of the types a value is an instance of (None if unknown)"""
    v = I.resolve(v)
    if isinstance(v, C):
        n = type(v.v).__name__
        return {"bool": ["bool", "int"], "NoneType": ["NoneType"], "ellipsis": ["ellipsis"]}.get(n, [n])
    if isinstance(v, S):
        t = v.py
        if t == "any" or t == "num":
            return None
        np_ = ["numpy.floating", "numpy.float64", "numpy.number", "numpy.generic"]
        if t == "float":
            return ["float"] if not tm.META.get(v.t, {}).get("npy") else ["float"] + np_
        return {"int": ["int"], "bool": ["bool", "int"], "str": ["str"]}[t]
    if isinstance(v, Tup):
        return ["tuple"]
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, Nd):
            return ["numpy.ndarray"]
        if isinstance(o, Dct):
            return ["dict"] + (["collections.defaultdict"] if o.default is not None else [])
        if isinstance(o, Lst):
            return {"gen": ["generator"], "deque": ["collections.deque"]}.get(o.kind, [o.kind])
        if isinstance(o, Inst):
            return [c for c in I.prog.mro(o.cls)]
    if isinstance(v, Cls):
        return ["type"]
    if isinstance(v, (Fn, Bound)):
        return ["function"]
    from .interp import UserFn
    if isinstance(v, UserFn):
        return ["function"]
    return None


ABSTRACT = {"collections.abc.Iterable": {"list", "tuple", "set", "dict", "str", "frozenset", "numpy.ndarray", "generator", "range", "collections.deque"},
            "collections.abc.Sequence": {"list", "tuple", "str", "range"}, "collections.abc.Set": {"set", "frozenset"},
            "collections.abc.Mapping": {"dict"}, "collections.abc.Sized": {"list", "tuple", "set", "dict", "str", "frozenset", "numpy.ndarray", "range"},
            "collections.abc.Callable": {"function"}, "typing.Callable": {"function"}, "collections.abc.Hashable": {"str", "int", "float", "tuple", "bool", "frozenset"},
            "numbers.Number": {"int", "float", "bool", "complex"}, "numbers.Real": {"int", "float", "bool"}, "numbers.Integral": {"int", "bool"},
            "numpy.floating": {"numpy.floating", "numpy.float64"}, "numpy.number": {"numpy.number"}, "numpy.generic": {"numpy.generic"},
            "typing.Iterable": {"list", "tuple", "set", "dict", "str"}}


def b_isinstance(I, a, k):
    v, c = I.resolve(a[0]), I.resolve(a[1])
    if isinstance(v, Phi):
        outs = []
        for g, x in v.alts:
            r = I.truth(b_isinstance(I, [x, c], k))
            outs.append(bool_nary("and", [g, r if isinstance(r, T) else mk("c", r)]))
        return boolv(I, bool_nary("or", outs))
    classes = list(c.vs) if isinstance(c, Tup) else [c]
    if isinstance(c, Ref) and isinstance(I.obj(c), Lst):
        classes = [x.v for x in I.obj(c).items]
    names = type_names(I, v)
    res = []
    for x in classes:
        if isinstance(x, Ext):
            n = x.name.replace("builtins.", "")
            if n == "object":
                return TRUE
            if names is None:
                if isinstance(v, S) and v.py == "num":
                    if n in ("int", "float"):
                        res.append(mk("isa", v.t, n))
                    else:
                        res.append(False if n not in ABSTRACT or "float" not in ABSTRACT[n] else True)
                    continue
                res.append(mk("isa", I.desc(v), n))
            elif n in ABSTRACT:
                res.append(any(y in ABSTRACT[n] for y in names if isinstance(y, str)))
            else:
                res.append(n in names)
        elif isinstance(x, Cls):
            if names is None:
                res.append(False if isinstance(v, S) and v.py == "num" else mk("isa", I.desc(v), x.c.name))
            else:
                res.append(any(y is x.c for y in names))
        else:
            res.append(mk("isa", I.desc(v), I.desc(x)))
    if any(r is True for r in res):
        return TRUE
    ts = [r for r in res if isinstance(r, T)]
    if not ts:
        return FALSE
    if isinstance(v, S) and v.py == "num" and {t.args[1] for t in ts if t.op == "isa" and isinstance(t.args[1], str)} >= {"int", "float"}:
        return TRUE
    return boolv(I, bool_nary("or", ts))


def b_type(I, a, k):
    v = I.resolve(a[0])
    if isinstance(v, Phi):
        return I.each(v, lambda x: b_type(I, [x], k))
    names = type_names(I, v)
    if names is None:
        return U(mk("type", I.desc(v)))
    n = names[0]
    if isinstance(n, str):
        if n == "float" and isinstance(v, S) and tm.META.get(v.t, {}).get("npy"):
            return Ext("numpy.float64")
        return Ext(n if "." in n else "builtins." + n)
    return Cls(n)


def b_hasattr(I, a, k):
    v, n = I.resolve(a[0]), I.resolve(a[1])
    if isinstance(v, Phi):
        outs = []
        for g, x in v.alts:
            r = I.truth(b_hasattr(I, [x, n], k))
            outs.append(bool_nary("and", [g, r if isinstance(r, T) else mk("c", r)]))
        return boolv(I, bool_nary("or", outs))
    if not isinstance(n, C):
        return S(mk("hasattr", I.desc(v), I.desc(n)), "bool")
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, Inst):
            if I.find_m(o.cls, n.v) is not None or o.get(n.v) is not None or I.prog.find_attr(o.cls, n.v):
                return TRUE
            if I.prog.find_method(o.cls, "__getattr__"):
                return S(mk("hasattr", I.desc(v), n.v), "bool")
            return FALSE
        if isinstance(o, Nd):
            import array
            return C(n.v in ("shape", "ndim", "dtype", "T", "__len__", "__iter__", "tolist", "copy", "size"))
        return C(n.v in KNOWN_METHODS.get(kind_of(o), ()))
    if isinstance(v, C):
        return C(hasattr(v.v, n.v))
    if isinstance(v, S) and v.py in ("int", "float", "bool", "str"):
        return C(hasattr({"int": 1, "float": 1.0, "bool": True, "str": ""}[v.py], n.v))
    if isinstance(v, S) and v.py == "num":
        return C(hasattr(1.0, n.v))
    if isinstance(v, Tup):
        return C(hasattr((), n.v))
    return S(mk("hasattr", I.desc(v), n.v), "bool")


def b_getattr(I, a, k):
    n = I.resolve(a[1])
    if isinstance(n, C) and isinstance(n.v, str):
        if len(a) > 2:
            c = I.truth(b_hasattr(I, a[:2], {}))
            return I.branch(c, lambda: I.getattr(a[0], n.v), lambda: a[2])
        return I.getattr(a[0], n.v)
    return I.unk("getattr", *a)


def b_setattr(I, a, k):
    n = I.resolve(a[1])
    if isinstance(n, C):
        I.setattr(a[0], n.v, a[2])
    return NONE


def b_next(I, a, k):
    v = I.resolve(a[0])
    its = iter_items(I, v)
    if not its and not is_open(I, v):
        if len(a) > 1:
            return a[1]
        I.raise_exc("StopIteration", internal=True)
    x = its[0] if its else None
    if x is not None and x.m == "1" and x.g is None:
        if isinstance(v, Ref) and isinstance(I.obj(v), Lst) and I.obj(v).kind in ("gen", "iter"):
            o = I.obj(v)
            I.put(v, Lst(o.kind, o.items[1:], o.op))
        return x.v
    if len(its) and all(y.m == "+" or y.m == "1" or y.g is not None for y in its):
        # the first member satisfying the guards
        conds = []
        alts = []
        for y in its:
            seg = y.seg
            if y.m == "1":
                alts.append((y.g if y.g is not None else mk("c", True), y.v))
                continue
            c = y.g if y.g is not None else mk("c", True)
            i = mk("idx", seg)
            f = mk("first", seg, c)
            tm.FIRST_BASE[f] = i
            if i in tm.IV:
                tm.IV.setdefault(f, tm.IV[i])
            alts.append((tm.anys(seg, c), I.map_val(y.v, {i: f})))
        any_ = bool_nary("or", [g for g, _ in alts])
        if len(a) > 1:
            return I.branch(any_ if I.tri(any_) is None else I.tri(any_), lambda: choose(I, alts[:-1], alts[-1][1]), lambda: a[1])
        r = I.tri(any_)
        if r is None:
            base = I.st
            I.st = base.copy()
            if I.assume(any_, False):
                I.raise_exc("StopIteration", internal=True, maybe=True)
            I.st = base
            I.assume(any_, True)
        elif r is False:
            I.raise_exc("StopIteration", internal=True)
        return choose(I, alts[:-1], alts[-1][1])
    refs = set()
    for y in its:
        refs |= I.refs_of(y.v)
    t = mk("next", I.desc(v))
    pys = {I.py_of(y.v) for y in its}
    if its and not refs and len(pys) == 1 and all(I.scalar_t(y.v) is not None for y in its):
        u = S(t, pys.pop())
    else:
        u = U(t, frozenset(refs))
    if len(a) > 1:
        return I.phi(mk("nonempty", I.desc(v)), u, a[1])
    return u


def b_iter(I, a, k):
    v = I.resolve(a[0])
    return I.new(Lst("gen", tuple(iter_items(I, v)), is_open(I, v)))


def b_exit(I, a, k):
    I.effects.append(("exit", "exit", I.site()))
    I.raise_exc("SystemExit", "exit()")


def b_none(I, a, k):
    return NONE


def b_print(I, a, k):
    I.effects.append(("print", "print", I.site()))
    for x in a:
        to_str(I, x)
    return NONE


def b_repr(I, a, k):
    v = I.resolve(a[0])
    if isinstance(v, Ref) and isinstance(I.obj(v), Inst):
        m = I.find_m(I.obj(v).cls, "__repr__")
        if m is not None:
            return I.call_fn(Fn(m, cls=m.cls, module=m.module), [v], {})
    return S(mk("ext", "repr", I.desc(v)), "str")


def b_issubclass(I, a, k):
    x, y = I.resolve(a[0]), I.resolve(a[1])
    if isinstance(x, Cls) and isinstance(y, Cls):
        return C(y.c in I.prog.mro(x.c))
    return S(mk("issub", I.desc(x), I.desc(y)), "bool")


def b_pow(I, a, k):
    return I.binop("Pow", a[0], a[1])


def b_callable(I, a, k):
    v = I.resolve(a[0])
    from .interp import UserFn
    return C(isinstance(v, (Fn, Bound, BM, Cls, Ext, UserFn)))


def b_open(I, a, k):
    I.effects.append(("file", "open", I.site()))
    return I.unk("open", *a)


BI = {"len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "map": b_map, "filter": b_filter, "list": mk_coll("list"),
      "tuple": mk_coll("tuple"), "set": mk_coll("set"), "frozenset": mk_coll("frozenset"), "dict": b_dict, "sorted": b_sorted,
      "reversed": b_reversed, "min": minmax("min"), "max": minmax("max"), "sum": b_sum, "any": anyall("any"), "all": anyall("all"),
      "abs": b_abs, "round": fl("round"), "int": fl("int"), "float": b_float, "str": b_str, "bool": b_bool, "isinstance": b_isinstance,
      "type": b_type, "hasattr": b_hasattr, "getattr": b_getattr, "setattr": b_setattr, "next": b_next, "iter": b_iter, "exit": b_exit,
      "quit": b_exit, "print": b_print, "repr": b_repr, "issubclass": b_issubclass, "pow": b_pow, "callable": b_callable, "open": b_open,
      "object": lambda I, a, k: I.unk("object"), "slice": lambda I, a, k: Slice(*( [NONE, a[0], NONE] if len(a) == 1 else (list(a) + [NONE])[:3])),
      "hash": lambda I, a, k: S(mk("ext", "hash", I.desc(a[0])), "int"), "id": lambda I, a, k: S(mk("ext", "id", I.desc(a[0])), "int"),
      "divmod": lambda I, a, k: Tup((I.binop("FloorDiv", a[0], a[1]), I.binop("Mod", a[0], a[1]))),
      "chr": lambda I, a, k: S(mk("ext", "chr", I.desc(a[0])), "str"), "ord": lambda I, a, k: S(mk("ext", "ord", I.desc(a[0])), "int"),
      "format": lambda I, a, k: S(mk("ext", "format2", *[I.desc(x) for x in a]), "str"),
      "super": lambda I, a, k: Super(a[0].c if a and isinstance(a[0], Cls) else None, a[1] if len(a) > 1 else NONE)}


def m_isclose(I, a, k):
    rt = I.scalar_t(k.get("rel_tol", a[2] if len(a) > 2 else C(1e-9)))
    at = I.scalar_t(k.get("abs_tol", a[3] if len(a) > 3 else C(0.0)))
    x, y = I.resolve(a[0]), I.resolve(a[1])
    for v in (x, y):
        if isinstance(v, Phi):
            if v is x:
                return I.each(v, lambda q: m_isclose(I, [q, y] + list(a[2:]), k))
            return I.each(v, lambda q: m_isclose(I, [x, q] + list(a[2:]), k))
    if isinstance(x, C) and isinstance(y, C) and isinstance(x.v, (int, float)) and isinstance(y.v, (int, float)) and tm.is_lin_const(rt) and tm.is_lin_const(at):
        return C(math.isclose(x.v, y.v, rel_tol=float(rt.args[0]), abs_tol=float(at.args[0])))
    tx, ty = I.desc(x), I.desc(y)
    return boolv(I, isclose_t(tx, ty, rt, at, "math"))


def isclose_t(x, y, rt, at, kind):
    inf = lambda t: t.op == "c" and isinstance(t.args[0], float) and math.isinf(t.args[0])
    if inf(x) or inf(y):
        if x is y:
            return mk("c", True)
        if inf(x) != inf(y):
            return mk("c", False)
    if x is y:
        return mk("c", True)
    if kind == "math" and at is tm.ZERO and tm.is_lin_const(rt) and rt.args[0] < 1 and (x is tm.ZERO or y is tm.ZERO):
        return eq0(y if x is tm.ZERO else x)        # |v| <= rt |v| holds for zero alone
    for u, v in ((x, y), (y, x)):
        if tm.is_lin_const(v) and tm.is_lin_const(rt) and tm.is_lin_const(at) and not tm.is_lin_const(u):
            # the whole range of u lies clear of the constant
            c, r, d = float(v.args[0]), float(rt.args[0]), float(at.args[0])
            lo, hi = tm.bounds(u)
            if r < 0.5 and (lo > c and lo - c > d + 2 * r * max(abs(c), abs(lo)) or hi < c and c - hi > d + 2 * r * max(abs(c), abs(hi))):
                return mk("c", False)
    return mk("isclose", x, y, rt, at, mk("c", kind))


def pure(tag, py):
    def f(I, a, k):
        vs = [I.resolve(x) for x in a]
        for n, v in enumerate(vs):
            if isinstance(v, Phi):
                return I.each(v, lambda q: f(I, [q if j == n else x for j, x in enumerate(vs)], k))
        if all(isinstance(v, C) and isinstance(v.v, (int, float)) for v in vs) and hasattr(math, tag):
            try:
                return C(getattr(math, tag)(*[v.v for v in vs]))
            except Exception as e:
                I.raise_exc(type(e).__name__, tag, internal=True)
        return S(mk("ext", tag, *[I.desc(v) for v in vs]), py)
    return f


def copy_copy(deep):
    def f(I, a, k):
        v = I.resolve(a[0])
        if isinstance(v, Phi):
            return I.each(v, lambda x: f(I, [x], k))
        memo = {}
        def cp(v, top=True):
            if isinstance(v, Ref):
                if v.a in memo:
                    return memo[v.a]
                o = I.obj(v)
                if isinstance(o, Inst) and I.find_m(o.cls, "__copy__" if not deep else "__deepcopy__") is not None:
                    m = I.find_m(o.cls, "__copy__" if not deep else "__deepcopy__")
                    return I.call_fn(Fn(m, cls=m.cls, module=m.module), [v] + ([I.new(Dct(()))] if deep else []), {})
                r = I.new(o)
                memo[v.a] = r
                if isinstance(o, Nd):
                    I.put(r, Nd(I.nd_t(v), o.shape, o.dt))
                elif deep:
                    if isinstance(o, Lst):
                        I.put(r, Lst(o.kind, tuple(It(cp(x.v), x.m, x.seg, x.g) for x in o.items), o.op))
                    elif isinstance(o, Dct):
                        I.put(r, Dct(tuple(DIt(cp(x.k), cp(x.v), x.m, x.seg, x.g) for x in o.items), o.op, o.default))
                    elif isinstance(o, Inst):
                        I.put(r, Inst(o.cls, tuple((n, cp(x)) for n, x in o.f)))
                return r
            if isinstance(v, Tup) and deep:
                return Tup(tuple(cp(x) for x in v.vs))
            if isinstance(v, U):
                return U(v.t, frozenset() if deep else v.refs)
            if isinstance(v, Phi) and deep:
                return Phi(tuple((g, cp(x)) for g, x in v.alts))
            return v
        return cp(v)
    return f


def c_deque(I, a, k):
    return mk_coll("deque")(I, a[:1], {})


def c_defaultdict(I, a, k):
    r = I.new(Dct((), False, a[0] if a else None))
    if len(a) > 1:
        dct_method(I, r, I.obj(r), "update", [a[1]], {})
    return r


def f_reduce(I, a, k):
    its = iter_items(I, a[1])
    acc = a[2] if len(a) > 2 else None
    class N:
        lineno = I.lineno
    if acc is None:
        if not its:
            if not is_open(I, a[1]):
                I.raise_exc("TypeError", "reduce of empty sequence", internal=True)
            return I.unk("reduce", a[1])
        acc = its[0].v
        its = its[1:] if its[0].m == "1" else its
    I.st.L["$r"] = acc
    def bind(v):
        I.st.L["$e"] = v
    def body():
        I.st.L["$r"] = I.call(a[0], [I.st.L["$r"], I.st.L["$e"]], {})
    I.run_loop(its, bind, body, N)
    v = I.st.L.pop("$r")
    I.st.L.pop("$e", None)
    return v


def rnd(name):
    def f(I, a, k):
        I.effects.append(("random", name, I.site()))
        I.fresh_n += 1
        t = sym("rnd%d" % I.fresh_n)
        if name == "random.shuffle":
            v = I.resolve(a[0])
            return NONE
        if name == "random.choice":
            its = iter_items(I, a[0])
            refs = set()
            for x in its:
                refs |= I.refs_of(x.v)
            vs = [x.v for x in its]
            if vs and all(isinstance(v, C) for v in vs):
                if all(isinstance(v.v, str) for v in vs):
                    s = sym("rnd%d" % I.fresh_n, py="str", among=tuple(v.v for v in vs), draw=("choice", tuple(v.v for v in vs)))
                    return S(s, "str")
                if all(isinstance(v.v, int) for v in vs):
                    tm.IV[t] = (float(min(v.v for v in vs)), float(max(v.v for v in vs)))
                    tm.META.setdefault(t, {})["draw"] = ("choice", tuple(v.v for v in vs))
                    return S(t, "int")
            return U(t, frozenset(refs))
        nums = [v.v for v in map(I.resolve, a) if isinstance(v, C) and isinstance(v.v, (int, float))]
        if name == "random.random":
            tm.META.setdefault(t, {})["draw"] = ("between", (0, 1))
        elif name == "random.uniform" and len(nums) == 2 == len(a):
            tm.META.setdefault(t, {})["draw"] = ("between", (min(nums), max(nums)))
        elif name == "random.randint" and len(nums) == 2 == len(a) and nums[0] <= nums[1] < nums[0] + 1000:
            tm.META.setdefault(t, {})["draw"] = ("choice", tuple(range(nums[0], nums[1] + 1)))
        if name in ("random.randint", "random.randrange"):
            return S(t, "int")
        if name == "random.sample":
            its = iter_items(I, a[0])
            return I.new(Lst("list", tuple(It(x.v, "*", x.seg, x.g) for x in its), True))
        if name == "random.seed":
            return NONE
        return S(t, "float")
    return f


def it_chain(I, a, k):
    items, op = [], False
    for x in a:
        items += iter_items(I, x)
        op = op or is_open(I, x)
    return I.new(Lst("gen", tuple(items), op))


def it_chain_from(I, a, k):
    items, op = [], is_open(I, a[0])
    for x in iter_items(I, a[0]):
        for y in iter_items(I, x.v):
            if x.m == "1" and x.g is None:
                items.append(y)
            else:
                items.append(I.multiply(y, x.seg or "?", x.m == "*", x))
    return I.new(Lst("gen", tuple(items), op))


def it_combinations(I, a, k):
    its = iter_items(I, a[0])
    n = I.resolve(a[1])
    if all(x.m == "1" and x.g is None for x in its) and isinstance(n, C) and not is_open(I, a[0]):
        import itertools
        return I.new(Lst("gen", tuple(It(Tup(tuple(x.v for x in c))) for c in itertools.combinations(its, n.v))))
    refs = set()
    for x in its:
        refs |= I.refs_of(x.v)
    if isinstance(n, C) and len(its) == 1 and its[0].seg:
        s = its[0].seg
        vs = [its[0].v]
        p = s
        for _ in range(n.v - 1):
            p = tm.prime(p)
            vs.append(subst_idx(I, its[0].v, s, p))
        return I.new(Lst("gen", (It(Tup(tuple(vs)), "*", s),)))
    return I.new(Lst("gen", (It(U(mk("combo", I.desc(a[0]), I.desc(n)), frozenset(refs)), "*", "combo"),)))


def f_partial(I, a, k):
    return PartialV(a[0], tuple(a[1:]), dict(k))


class PartialV:
    def __init__(self, f, a, k):
        self.f, self.a, self.k = f, a, k

    def apply(self, I, args):
        return I.call(self.f, list(self.a) + list(args), dict(self.k))


def op_getter(I, a, k):
    return GetterV([I.resolve(x) for x in a])


class GetterV:
    def __init__(self, keys):
        self.keys = keys

    def apply(self, I, args):
        if len(self.keys) == 1:
            return I.getitem(args[0], self.keys[0])
        return Tup(tuple(I.getitem(args[0], x) for x in self.keys))


EX = {"math.isclose": m_isclose, "math.floor": fl("floor"), "math.ceil": fl("ceil"), "math.fabs": b_abs,
      "math.log": pure("log", "float"), "math.log10": pure("log10", "float"), "math.sqrt": pure("sqrt", "float"), "math.atan2": pure("atan2", "float"), "math.exp": pure("exp", "float"),
      "math.isinf": pure("isinf", "bool"), "math.isnan": pure("isnan", "bool"), "math.isfinite": pure("isfinite", "bool"), "math.copysign": pure("copysign", "float"),
      "math.trunc": fl("int"), "math.pow": b_pow, "math.log2": pure("log2", "float"), "math.hypot": pure("hypot", "float"),
      "copy.copy": copy_copy(False), "copy.deepcopy": copy_copy(True),
      "collections.deque": c_deque, "collections.defaultdict": c_defaultdict, "collections.OrderedDict": b_dict, "collections.Counter": lambda I, a, k: I.unk("Counter", *a),
      "functools.reduce": f_reduce, "functools.partial": f_partial, "operator.itemgetter": op_getter,
      "itertools.chain": it_chain, "itertools.chain.from_iterable": it_chain_from, "itertools.combinations": it_combinations,
      "sys.exit": b_exit, "os._exit": b_exit, "os.abort": b_exit,
      "operator.add": lambda I, a, k: I.binop("Add", a[0], a[1]), "operator.sub": lambda I, a, k: I.binop("Sub", a[0], a[1]),
      "operator.mul": lambda I, a, k: I.binop("Mult", a[0], a[1]), "operator.neg": lambda I, a, k: unary(I, "USub", a[0]),
      "operator.le": lambda I, a, k: I.compare("LtE", a[0], a[1]), "operator.ge": lambda I, a, k: I.compare("GtE", a[0], a[1]),
      "operator.lt": lambda I, a, k: I.compare("Lt", a[0], a[1]), "operator.gt": lambda I, a, k: I.compare("Gt", a[0], a[1]),
      "operator.eq": lambda I, a, k: I.compare("Eq", a[0], a[1]), "operator.ne": lambda I, a, k: I.compare("NotEq", a[0], a[1]),
      "builtins.str.maketrans": lambda I, a, k: I.opaque("maketrans", "any", *a), "builtins.str.join": lambda I, a, k: str_method(I, a[0], "join", a[1:], k),
      "builtins.dict.fromkeys": lambda I, a, k: dict_fromkeys(I, a, k)}

for _n in ("random", "shuffle", "choice", "uniform", "randint", "randrange", "sample", "seed", "gauss", "choices", "normalvariate"):
    EX["random." + _n] = rnd("random." + _n)


def dict_fromkeys(I, a, k):
    r = I.new(Dct(()))
    v = a[1] if len(a) > 1 else NONE
    items = []
    for it in iter_items(I, a[0]):
        items.append(DIt(it.v, v, it.m, it.seg, it.g))
    I.put(r, Dct(tuple(items), is_open(I, a[0])))
    return r


BI["str.maketrans"] = EX["builtins.str.maketrans"]
BI["dict.fromkeys"] = EX["builtins.dict.fromkeys"]
BI["str.join"] = EX["builtins.str.join"]
