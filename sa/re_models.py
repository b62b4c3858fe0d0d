"""Models of the re module: exact on constant texts; on an unknown text a match is a condition `rx(mode, pattern, flags, text)`."""
import re
from . import terms as tm
from .terms import mk, const, bnot
from .values import *


def flags_of(I, v):
    v = I.resolve(v)
    if isinstance(v, C) and isinstance(v.v, int):
        return int(v.v)
    if isinstance(v, Ext) and v.name.startswith("re."):
        f = getattr(re, v.name.split(".")[-1], None)
        if isinstance(f, int):
            return int(f)
    return None


def compiled(I, v, flags=None):
    v = I.resolve(v)
    if isinstance(v, RxPat):
        return v
    f = 0 if flags is None else flags_of(I, flags)
    if isinstance(v, C) and isinstance(v.v, str) and f is not None:
        try:
            re.compile(v.v, f)
        except re.error:
            I.raise_exc("error", "bad pattern", internal=True)
        return RxPat(v.v, f)
    return None


def rx_compile(I, a, k):
    p = compiled(I, a[0], a[1] if len(a) > 1 else k.get("flags"))
    return p if p is not None else I.unk("re.compile", *a)


def concrete_match(m):
    if m is None:
        return NONE
    return RxM(tuple(C(x) for x in (m.group(0),) + m.groups()), tuple(sorted(m.re.groupindex.items())), m.span())


def sym_groups(p, s):
    try:
        r = re.compile(p.pattern, p.flags)
    except re.error:
        return (), 0, ()
    return r, r.groups, tuple(sorted(r.groupindex.items()))


def use(I, p, op, args, kwargs):
    s = I.resolve(args[0]) if args else None
    r, n, names = sym_groups(p, s)
    if op in ("sub", "subn") and len(args) > 1:
        s = I.resolve(args[1])
    if isinstance(s, C) and s.v is None or isinstance(s, C) and not isinstance(s.v, (str, bytes)):
        I.raise_exc("TypeError", "expected string", internal=True)
    rest = args[1:] if op not in ("sub", "subn") else [args[0]] + list(args[2:])
    cargs = [I.resolve(x) for x in rest]
    if isinstance(s, Phi):
        return I.each(s, lambda x: use(I, p, op, ([x] + list(args[1:])) if op not in ("sub", "subn") else [args[0], x] + list(args[2:]), kwargs))
    if isinstance(s, C) and all(isinstance(x, C) for x in cargs) and all(isinstance(I.resolve(x), C) for x in kwargs.values()):
        kw = {q: I.resolve(x).v for q, x in kwargs.items()}
        if op in ("match", "fullmatch", "search"):
            return concrete_match(getattr(r, op)(s.v, *[x.v for x in cargs], **kw))
        if op == "findall":
            return I.new(Lst("list", tuple(It(Tup(tuple(C(y) for y in x)) if isinstance(x, tuple) else C(x)) for x in r.findall(s.v, *[x.v for x in cargs]))))
        if op == "finditer":
            return I.new(Lst("list", tuple(It(concrete_match(m)) for m in r.finditer(s.v, *[x.v for x in cargs]))))
        if op == "split":
            return I.new(Lst("list", tuple(It(C(x)) for x in r.split(s.v, *[x.v for x in cargs], **kw))))
        if op == "sub":
            return C(r.sub(cargs[0].v, s.v, *[x.v for x in cargs[1:]], **kw))
    if I.py_of(s) == "str" and not cargs and not kwargs:
        t = I.desc(s)
        if op in ("match", "fullmatch", "search"):
            c = mk("rx", op, p.pattern, p.flags, t)
            v = I.tri(c)
            m = RxM(tuple(S(mk("rxg", op, p.pattern, p.flags, t, i), "str") for i in range(n + 1)), names)
            if v is True:
                return m
            if v is False:
                return NONE
            return Phi(((c, m), (bnot(c), NONE)))
        if op in ("findall", "finditer"):
            I.rx_log.append((dict(I.st.facts), p.pattern, p.flags, op, t))
            seg = "rx%d" % len(I.rx_log)
            tm.UNIV_OF[seg] = "U" + seg
            tm.UNIVERSE["U" + seg] = [seg]
            tm.UDIM["U" + seg] = mk("rxn", p.pattern, p.flags, t)
            g = [S(mk("rxg", op, p.pattern, p.flags, t, i, mk("idx", seg)), "str") for i in range(n + 1)]
            if op == "finditer":
                x = RxM(tuple(g), names)
            else:
                x = g[n] if n < 2 else Tup(tuple(g[1:]))
            return I.new(Lst("list", (It(x, "*", seg),)))
    return I.unk("re." + op, *args)


def rx_fn(op):
    def f(I, a, k):
        k = dict(k)
        fl = k.pop("flags", None)
        need = 2 if op not in ("sub", "subn") else 3
        a = list(a)
        if fl is None and len(a) > need and op in ("match", "fullmatch", "search", "findall", "finditer"):
            fl = a.pop(need)
        p = compiled(I, a[0], fl)
        if p is None:
            return I.unk("re." + op, *a)
        return use(I, p, op, a[1:], k)
    return f


def method(I, o, name, args, kwargs):
    if isinstance(o, RxPat):
        if name in ("match", "fullmatch", "search", "findall", "finditer", "split", "sub", "subn"):
            return use(I, o, name, args, kwargs)
        return I.unk("pattern." + name)
    def one(v):
        v = I.resolve(v)
        if isinstance(v, C) and isinstance(v.v, str):
            d = dict(o.names)
            if v.v not in d:
                I.raise_exc("IndexError", "no such group", internal=True)
            v = C(d[v.v])
        if isinstance(v, C) and isinstance(v.v, int):
            if not 0 <= v.v < len(o.groups):
                I.raise_exc("IndexError", "no such group", internal=True)
            return o.groups[v.v]
        return I.unk("group", v)
    if name in ("group", "__getitem__"):
        if not args:
            return o.groups[0]
        return one(args[0]) if len(args) == 1 else Tup(tuple(one(a) for a in args))
    if name == "groups":
        d = args[0] if args else kwargs.get("default", NONE)
        return Tup(tuple(d if isinstance(g, C) and g.v is None else g for g in o.groups[1:]))
    if name == "groupdict":
        return I.new(Dct(tuple(DIt(C(n), o.groups[i]) for n, i in o.names)))
    if name in ("start", "end", "span") and o.span is not None and not args:
        return {"start": C(o.span[0]), "end": C(o.span[1]), "span": Tup((C(o.span[0]), C(o.span[1])))}[name]
    return I.unk("match." + name)


MODELS = {"re.compile": rx_compile, "re.escape": lambda I, a, k: C(re.escape(a[0].v)) if isinstance(a[0], C) and isinstance(a[0].v, str) else I.unk("re.escape", *a)}
for _op in ("match", "fullmatch", "search", "findall", "finditer", "split", "sub", "subn"):
    MODELS["re." + _op] = rx_fn(_op)
