"""Abstract interpreter over the syntax tree of the package.

Flow-sensitive, with joins at control-flow merges (gated values: a merged value
remembers the branch condition that selects it), inlined calls, and loops
summarised over index segments.  Nothing of the package is imported or run.
"""
import ast
from . import terms as tm
from .terms import T, mk, const, sym, add, sub, mul, neg, lt0, eq0, bnot, bool_nary, tri, ite, elem, sel, upd
from .values import *
from .model import AnalysisBroken


CLOSED = {"c", "lin", "prod", "add", "abs", "lt0", "eq0", "not", "and", "or", "mm", "tr", "full", "eye", "upd", "stack", "sel", "elem", "elem2", "slice", "ite", "insert", "delete", "rowb", "colb", "min2", "max2", "recip", "scaleat"}
_closed = {}


def closed_truth(t):
    """truth of a condition over constant arrays only"""
    r = _closed.get(t, 0)
    if r == 0:
        r = None
        if all(x.op in CLOSED for x in tm.subterms(t)):
            from .ev import Ev
            try:
                v = Ev("closed").ev(t)
                r = v if isinstance(v, bool) else None
            except Exception:
                r = None
        _closed[t] = r
    return r


class Dead(Exception):
    """no path continues from here"""


class Giveup(Exception):
    """the analysis budget of one scenario is used up"""


class State:
    __slots__ = ("L", "heap", "facts")

    def __init__(self, L=None, heap=None, facts=None):
        self.L = L if L is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}

    def copy(self):
        return State(dict(self.L), dict(self.heap), dict(self.facts))


class Frame:
    def __init__(self, fn, cls, module):
        self.fn, self.cls, self.module = fn, cls, module
        self.returns = []
        self.loops = []
        self.yields = None
        self.entry = None


def mangle(name, cls):
    if name.startswith("__") and not name.endswith("__") and cls is not None:
        return "_" + cls.name.lstrip("_") + name
    return name


class Interp:
    MAXSTEPS = 400000

    def __init__(self, prog, may_raise_linalg=False, rec_limit=3, trace=False, cap=None, set_order=None, unroll=None, rounds=None, exact=False):
        from . import builtin_models
        self.bm = builtin_models
        self.prog = prog
        self.st = State()
        self.next = 1
        self.frames = []
        self.excs = []
        self.may_raise_linalg = may_raise_linalg
        self.rec_limit = rec_limit
        self.steps = 0
        self.set_order = set_order      # None, or the order ('fwd', 'rev') in which members of sets come: the real one depends on hashes
        self.rounds = rounds            # rounds of a while loop followed while its test is decided (None: 24, and one for `while True`)
        self.exact = exact              # give up rather than widen a while loop
        self.unroll = unroll            # None, or how many undecided rounds of a while loop are followed one by one instead of widening
        self.cuts = 0
        self.rx_log = []
        self.imprecise = []
        self.globals_cache = {}
        self.effects = []         # (kind, detail, site)
        self.sites = set()        # (function, line) analysed
        self.funcs = set()
        self.calls = 0
        self.rec_log = []
        self.call_hook = None
        self.call_log = None
        self.lineno = 0
        self.fresh_n = 0
        self.active = []
        self.loopinfo = {}
        self.prefix = {}
        self.cap = cap            # terms larger than this become opaque symbols (same term, same symbol)

    # ------------------------------------------------------------- helpers
    def site(self):
        f = self.frames[-1] if self.frames else None
        if f is None or f.fn is None:
            return "<scenario>"
        path = getattr(f.module, "path", "?")
        nm = getattr(f.fn, "qual", None)
        nm = nm.split(":")[1] if nm else "<lambda>"
        return "%s:%s:%s" % (path, self.lineno, nm)

    def small(self, t, shape=None):
        """t itself, or the opaque symbol that stands for it when it is too large to carry along"""
        if self.cap is None or tm.weight(t) <= self.cap:
            return t
        return tm.opaque_for(t, shape)

    def small_v(self, v):
        if self.cap is not None and isinstance(v, S):
            t = self.small(v.t)
            if t is not v.t:
                return S(t, v.py)
        return v

    def new(self, obj):
        if self.cap is not None and isinstance(obj, Nd) and obj.base is None:
            obj = Nd(self.small(obj.t, obj.shape), obj.shape, obj.dt)
        a = self.next
        self.next += 1
        self.st.heap[a] = obj
        return Ref(a)

    def obj(self, r):
        return self.st.heap.get(r.a)

    def put(self, r, obj):
        self.st.heap[r.a] = obj

    def imp(self, what):
        self.imprecise.append((what, self.site()))

    def unk(self, tag, *vals):
        refs = set()
        ts = []
        for v in vals:
            refs |= self.refs_of(v)
            ts.append(self.desc(v))
        self.imp(tag)
        return U(mk("unk", tag, *ts), frozenset(refs))

    def opaque(self, tag, py, *vals):
        """result of a pure function the analysis keeps uninterpreted"""
        return S(mk("ext", tag, *[self.desc(v) for v in vals]), py)

    def refs_of(self, v):
        if isinstance(v, Ref):
            return {v.a}
        if isinstance(v, Tup):
            return set().union(*[self.refs_of(x) for x in v.vs]) if v.vs else set()
        if isinstance(v, Phi):
            return set().union(*[self.refs_of(x) for _, x in v.alts])
        if isinstance(v, U):
            return set(v.refs)
        if isinstance(v, (Bound, BM)):
            return self.refs_of(v.recv)
        return set()

    # ------------------------------------------------ description of values
    def desc(self, v, depth=0):
        """content of a value as a term, independent of addresses"""
        if isinstance(v, C):
            return const(v.v) if isinstance(v.v, (int, float)) and not isinstance(v.v, bool) else mk("c", v.v)
        if isinstance(v, S):
            return self.norm(v.t)
        if isinstance(v, Tup):
            return mk("tup", *[self.desc(x, depth + 1) for x in v.vs])
        if isinstance(v, U):
            return v.t
        if isinstance(v, Phi):
            v2 = self.resolve(v)
            if not isinstance(v2, Phi):
                return self.desc(v2, depth)
            out = self.desc(v2.alts[-1][1], depth)
            for g, x in reversed(v2.alts[:-1]):
                out = ite(g, self.desc(x, depth), out)
            return out
        if isinstance(v, RxM):
            return mk("rxmatch", *[self.desc(g, depth + 1) for g in v.groups])
        if isinstance(v, RxPat):
            return mk("rxpat", v.pattern, v.flags)
        if v is UNBOUND:
            return mk("c", "<unbound>")
        if isinstance(v, Ref):
            o = self.obj(v)
            if o is None:
                return mk("c", "<dead>")
            if depth > 8:
                return mk("c", "<deep>")
            if isinstance(o, Nd):
                return self.norm(self.nd_t(v))
            if isinstance(o, Lst):
                xs = []
                for it in o.items:
                    t = self.desc(it.v, depth + 1)
                    t = self.wrap_item(t, it)
                    xs.append(t)
                if o.kind in ("set", "frozenset"):
                    xs.sort(key=tm.key)
                    return mk("setof", bool(o.op), *xs)
                if o.op:
                    return mk("olist", *xs)
                return mk("list", *xs)
            if isinstance(o, Dct):
                xs = []
                for it in o.items:
                    xs.append(self.wrap_item(mk("kv", self.desc(it.k, depth + 1), self.desc(it.v, depth + 1)), it))
                xs.sort(key=tm.key)
                return mk("dict", bool(o.op), *xs)
            if isinstance(o, Inst):
                return mk("inst", o.cls.name, *[mk("kv", mk("c", k), self.desc(x, depth + 1)) for k, x in o.f])
        if isinstance(v, Cls):
            return mk("c", "<class %s>" % v.c.name)
        if isinstance(v, (Fn,)):
            return mk("c", "<fn %s>" % getattr(v.f, "qual", "lambda"))
        if isinstance(v, Bound):
            return mk("bound", self.desc(v.fn), self.desc(v.recv, depth + 1))
        if isinstance(v, Ext):
            return mk("c", "<ext %s>" % v.name)
        if isinstance(v, Slice):
            return mk("slice", self.desc(v.lo), self.desc(v.hi), self.desc(v.step))
        return mk("c", "<%s>" % type(v).__name__)

    @staticmethod
    def wrap_item(t, it):
        if it.g is not None:
            t = mk("grd", it.g, t)
        if it.m == "+":
            t = mk("many", it.seg or "?", t)
        elif it.m == "*":
            t = mk("opt", it.seg or "?", t)
        return t

    # -------------------------------------------------------- conditions
    def norm(self, t):
        """simplify gated terms under the current facts"""
        facts = self.st.facts
        if not facts or not has_ite(t):
            return t
        def f(x):
            if x.op == "ite":
                r = tri(x.args[0], facts)
                if r is True:
                    return tm.rewrite(x.args[1], f)
                if r is False:
                    return tm.rewrite(x.args[2], f)
            return None
        return tm.rewrite(t, f)

    def tri(self, t):
        if t.op == "c":
            return bool(t.args[0])
        r = tri(t, self.st.facts)
        if r is None:
            n = self.norm(t)
            if n is not t:
                r = tri(n, self.st.facts)
        if r is None:
            r = closed_truth(t)
        if r is None:
            r = self.fact_closure(t)
        return r

    def fact_closure(self, t):
        # instantiate quantified facts on the generic index
        for f, val in self.st.facts.items():
            if f.op == "alls" and val is True:
                r = tri(t, {f.args[1]: True})
                if r is not None:
                    return r
        return None

    def assume(self, t, val):
        """False when contradictory"""
        r = self.tri(t)
        if r is not None:
            return r == val
        if t.op == "not":
            return self.assume(t.args[0], not val)
        if (t.op == "and" and val) or (t.op == "or" and not val):
            for a in t.args:
                if not self.assume(a, val):
                    return False
            return True
        self.st.facts[t] = val
        if t.op in ("and", "or"):
            # unit propagation
            und = [a for a in t.args if self.tri(a) is None]
            if len(und) == 1:
                return self.assume(und[0], val)
        # re-check earlier compound facts
        for f, v in list(self.st.facts.items()):
            if f is not t and f.op in ("and", "or") and ((f.op == "or") == v):
                und = [a for a in f.args if self.st.facts.get(a) is None and self.tri(a) is None]
                rs = [self.tri(a) for a in f.args]
                if v and f.op == "or" and all(r is False for r in rs):
                    return False
                if (not v) and f.op == "and" and all(r is True for r in rs):
                    return False
                if len(und) == 1 and und[0] not in self.st.facts and not any(r is v for r in rs):
                    if not self.assume(und[0], v):
                        return False
        return True

    def resolve(self, v):
        """drop refuted alternatives of a gated value"""
        if not isinstance(v, Phi):
            return v
        alts = []
        for g, x in v.alts:
            r = self.tri(g)
            if r is True:
                return self.resolve(x)
            if r is False:
                continue
            alts.append((g, x))
        if len(alts) == 1:
            return self.resolve(alts[0][1])
        if len(alts) == len(v.alts):
            return v
        if not alts:
            return v.alts[-1][1]
        return Phi(tuple(alts))

    def split(self, v):
        """make a Phi definite by splitting control: calls must use self.each"""
        raise NotImplementedError

    def each(self, v, f):
        """apply f to every alternative of v, joining states and results"""
        v = self.resolve(v)
        if not isinstance(v, Phi):
            return f(v)
        base = self.st
        outs = []
        for g, x in v.alts:
            self.st = base.copy()
            if not self.assume(g, True):
                continue
            try:
                r = f(x)
                outs.append((self.st, r))
            except Dead:
                pass
        return self.join_results(outs)

    def join_results(self, outs):
        if not outs:
            raise Dead()
        st, v = outs[-1]
        for s2, v2 in reversed(outs[:-1]):
            st, v = self.join(s2, st, v2, v)
        self.st = st
        return v

    # ------------------------------------------------------------- join
    def gate(self, s1, s2):
        return self.small(self._gate(s1, s2))

    def _gate(self, s1, s2):
        d1 = [(t, v) for t, v in s1.facts.items() if s2.facts.get(t) != v]
        d2 = [(t, v) for t, v in s2.facts.items() if s1.facts.get(t) != v]
        opp = [t if v else bnot(t) for t, v in d1 if (t in s2.facts and s2.facts[t] != v)]
        if opp:
            return opp[0] if len(opp) == 1 else bool_nary("and", opp[:1])
        if d1:
            return bool_nary("and", [t if v else bnot(t) for t, v in d1])
        if d2:
            return bnot(bool_nary("and", [t if v else bnot(t) for t, v in d2]))
        self.fresh_n += 1
        return sym("nd%d" % self.fresh_n, py="bool")

    def join(self, s1, s2, v1=NONE, v2=NONE):
        if s1 is s2:
            return s1, v1
        g = self.gate(s1, s2)
        out = State({}, {}, {t: v for t, v in s1.facts.items() if s2.facts.get(t) == v})
        self._g = g
        for k in set(s1.L) | set(s2.L):
            out.L[k] = self.phi(g, s1.L.get(k, UNBOUND), s2.L.get(k, UNBOUND))
        for a in set(s1.heap) | set(s2.heap):
            o1, o2 = s1.heap.get(a), s2.heap.get(a)
            if o1 is None or o2 is None:
                out.heap[a] = o1 if o2 is None else o2
            elif o1 is o2 or o1 == o2:
                out.heap[a] = o1
            else:
                out.heap[a] = self.join_obj(g, o1, o2)
        return out, self.phi(g, v1, v2)

    def phi(self, g, a, b):
        if a is b:
            return a
        if a is not UNBOUND and b is not UNBOUND and a == b:
            return a
        ta, tb = self.scalar_t(a), self.scalar_t(b)
        if ta is not None and tb is not None and not (isinstance(a, C) and isinstance(a.v, str)) and not (isinstance(b, C) and isinstance(b.v, str)):
            t = ite(g, ta, tb)
            pa, pb = self.py_of(a), self.py_of(b)
            if t.op == "c":
                return C(t.args[0])
            return S(t, pa if pa == pb else ("num" if {pa, pb} <= {"int", "float", "num"} else "any"))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.vs) == len(b.vs):
            return Tup(tuple(self.phi(g, x, y) for x, y in zip(a.vs, b.vs)))
        alts = []
        for gg, v in ((g, a), (bnot(g), b)):
            if isinstance(v, Phi):
                for g2, x in v.alts:
                    c = bool_nary("and", [gg, g2])
                    if c.op == "c" and not c.args[0]:
                        continue
                    alts.append((c, x))
            else:
                alts.append((gg, v))
        # merge equal alternatives
        m = []
        for gg, v in alts:
            for i, (g0, v0) in enumerate(m):
                if v0 is v or (v0 is not UNBOUND and v is not UNBOUND and v0 == v):
                    m[i] = (bool_nary("or", [g0, gg]), v0)
                    break
            else:
                m.append((gg, v))
        if len(m) == 1:
            return m[0][1]
        if len(m) > 12:
            refs = set()
            for _, v in m:
                refs |= self.refs_of(v)
            self.fresh_n += 1
            return U(sym("join%d" % self.fresh_n), frozenset(refs))
        return Phi(tuple(m))

    def scalar_t(self, v):
        if isinstance(v, C) and (isinstance(v.v, (int, float, bool))):
            return const(v.v) if not isinstance(v.v, bool) else mk("c", v.v)
        if isinstance(v, S):
            return v.t
        return None

    def py_of(self, v):
        if isinstance(v, C):
            return {bool: "bool", int: "int", float: "float", str: "str"}.get(type(v.v), "any")
        if isinstance(v, S):
            return v.py
        return "any"

    def join_obj(self, g, o1, o2):
        if isinstance(o1, Inst) and isinstance(o2, Inst) and o1.cls is o2.cls:
            d1, d2 = dict(o1.f), dict(o2.f)
            d = {k: self.phi(g, d1.get(k, UNBOUND), d2.get(k, UNBOUND)) for k in set(d1) | set(d2)}
            return Inst(o1.cls, tuple(sorted(d.items(), key=lambda p: p[0])))
        if isinstance(o1, Nd) and isinstance(o2, Nd):
            if o1.base is None and o2.base is None:
                sh = o1.shape
                if o1.shape is not None and o2.shape is not None and len(o1.shape) == len(o2.shape):
                    sh = tuple(ite(g, a, b) for a, b in zip(o1.shape, o2.shape))
                elif o1.shape != o2.shape:
                    sh = None
                return Nd(ite(g, o1.t, o2.t), sh, o1.dt if o1.dt == o2.dt else "object")
        if isinstance(o1, Lst) and isinstance(o2, Lst) and o1.kind == o2.kind:
            items = []
            a, b = list(o1.items), list(o2.items)
            i = 0
            while i < len(a) and i < len(b) and a[i] == b[i]:
                items.append(a[i])
                i += 1
            ra, rb = a[i:], b[i:]
            tail = []
            while ra and rb and ra[-1] == rb[-1]:
                tail.insert(0, ra.pop())
                rb.pop()
            if len(ra) == len(rb) and all(x.m == y.m and x.seg == y.seg and x.g == y.g for x, y in zip(ra, rb)):
                for x, y in zip(ra, rb):
                    items.append(It(self.phi(g, x.v, y.v), x.m, x.seg, x.g))
            else:
                for gg, xs in ((g, ra), (bnot(g), rb)):
                    for x in xs:
                        items.append(It(x.v, x.m, x.seg, gg if x.g is None else bool_nary("and", [gg, x.g])))
            return Lst(o1.kind, tuple(items + tail), o1.op or o2.op)
        if isinstance(o1, Dct) and isinstance(o2, Dct):
            items = []
            k2 = list(o2.items)
            for x in o1.items:
                for y in k2:
                    if x.k == y.k and x.m == y.m and x.seg == y.seg:
                        k2.remove(y)
                        if x.g == y.g:
                            items.append(DIt(x.k, self.phi(g, x.v, y.v), x.m, x.seg, x.g))
                        else:
                            gx = bool_nary("and", [g] + ([x.g] if x.g is not None else []))
                            gy = bool_nary("and", [bnot(g)] + ([y.g] if y.g is not None else []))
                            items.append(DIt(x.k, self.phi(g, x.v, y.v), x.m, x.seg, bool_nary("or", [gx, gy])))
                        break
                else:
                    items.append(DIt(x.k, x.v, x.m, x.seg, g if x.g is None else bool_nary("and", [g, x.g])))
            for y in k2:
                items.append(DIt(y.k, y.v, y.m, y.seg, bnot(g) if y.g is None else bool_nary("and", [bnot(g), y.g])))
            return Dct(tuple(items), o1.op or o2.op, o1.default or o2.default)
        self.imp("join of different objects")
        return o1

    # ---------------------------------------------------------- branching
    def truth(self, v):
        """True / False / condition term"""
        v = self.resolve(v)
        if isinstance(v, C):
            return bool(v.v)
        if isinstance(v, S):
            t = self.norm(v.t)
            if v.py == "bool" or is_boolish(t):
                r = self.tri(t)
                return t if r is None else r
            if v.py == "str":
                m = tm.META.get(t, {})
                if "empty" in m:
                    return not m["empty"]
                c = mk("truthy", t)
                r = self.tri(c)
                return c if r is None else r
            if v.py in ("int", "float", "num"):
                c = bnot(eq0(t))
                r = self.tri(c)
                return c if r is None else r
            c = mk("truthy", t)
            r = self.tri(c)
            return c if r is None else r
        if isinstance(v, Tup):
            return len(v.vs) > 0
        if isinstance(v, U):
            c = mk("truthy", v.t)
            r = self.tri(c)
            return c if r is None else r
        if isinstance(v, Phi):
            outs = []
            for g, x in v.alts:
                r = self.truth(x)
                rt = mk("c", r) if isinstance(r, bool) else r
                outs.append(bool_nary("and", [g, rt]))
            c = bool_nary("or", outs)
            r = self.tri(c)
            return c if r is None else r
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, Inst):
                m = self.prog.find_method(o.cls, "__bool__") or None
                if m is not None:
                    return self.truth(self.call_fn(Fn(m, cls=m.cls, module=m.module), [v], {}))
                m = self.prog.find_method(o.cls, "__len__")
                if m is not None:
                    return self.truth(self.call_fn(Fn(m, cls=m.cls, module=m.module), [v], {}))
                return True
            if isinstance(o, Nd):
                if o.shape == () or (o.shape is not None and all(tm.is_lin_const(d) and d.args[0] == 1 for d in o.shape)):
                    c = mk("truthy", self.nd_t(v))
                    return c
                if o.shape is None:
                    return mk("truthy", self.nd_t(v))
                n1 = all(self.tri(lt0(sub(const(1), d))) is False for d in o.shape)
                self.raise_exc("ValueError", "truth value of an array is ambiguous", internal=True, maybe=n1)
                return mk("truthy", self.nd_t(v))
            n = self.nonempty(o)
            if n is None:
                c = mk("nonempty", self.desc(v))
                r = self.tri(c)
                return c if r is None else r
            if isinstance(n, T):
                r = self.tri(n)
                return n if r is None else r
            return n
        return True

    def nonempty(self, o):
        """True/False/None or a condition term"""
        if isinstance(o, (Lst, Dct)):
            conds = []
            und = o.op
            for it in o.items:
                if it.m in ("1", "+"):
                    if it.g is None:
                        return True
                    conds.append(tm.anys(it.seg, it.g) if it.m == "+" else it.g)
                else:
                    und = True
            if und:
                return None
            if not conds:
                return False
            return bool_nary("or", conds)
        return True

    def branch(self, cond, then, other):
        """cond: True/False/term; runs then/other and joins; either may raise Dead"""
        if cond is True:
            return then()
        if cond is False:
            return other()
        base = self.st
        outs = []
        self.st = base.copy()
        if self.assume(cond, True):
            try:
                r = then()
                outs.append((self.st, r))
            except Dead:
                pass
        self.st = base.copy()
        if self.assume(cond, False):
            try:
                r = other()
                outs.append((self.st, r))
            except Dead:
                pass
        return self.join_results(outs)

    # --------------------------------------------------------- exceptions
    def raise_exc(self, name, msg=None, internal=False, maybe=False, val=None, sid=None):
        e = AbsExc(name, msg, self.site(), internal, val)
        self.excs.append((self.st.copy(), e))
        if not maybe:
            raise Dead()

    # ------------------------------------------------------------ running
    def exec_block(self, body):
        for s in body:
            self.exec(s)

    def tick(self, n):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Giveup()
        ln = getattr(n, "lineno", None)
        if ln:
            self.lineno = ln

    def exec(self, s):
        self.tick(s)
        getattr(self, "x_" + type(s).__name__, self.x_unknown)(s)

    def x_unknown(self, s):
        self.imp("statement " + type(s).__name__)

    def x_Pass(self, s):
        pass

    def x_Global(self, s):
        self.imp("global")

    x_Nonlocal = x_Global

    def x_Import(self, s):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            self.st.L[nm] = Ext(a.name if a.asname else nm)

    def x_ImportFrom(self, s):
        mod = self.frames[-1].module
        tmp = {}
        base = s.module or ""
        if s.level:
            pk = mod.name.split(".")
            if not mod.is_pkg:
                pk = pk[:-1]
            pk = pk[: len(pk) - (s.level - 1)]
            base = ".".join(pk + ([s.module] if s.module else []))
        for a in s.names:
            nm = a.asname or a.name
            if base in self.prog.modules:
                r = self.prog.resolve(self.prog.modules[base], a.name)
                self.st.L[nm] = self.resolved(r) if r else U(mk("unk", "import", mk("c", a.name)))
            else:
                self.st.L[nm] = Ext(base + "." + a.name)

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            new = self.augop(type(s.op).__name__, cur, self.eval(s.value))
            self.assign(t, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, t.attr)
            new = self.augop(type(s.op).__name__, cur, self.eval(s.value))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            i = self.eval_index(t.slice)
            cur = self.getitem(o, i)
            new = self.augop(type(s.op).__name__, cur, self.eval(s.value))
            self.setitem(o, i, new)

    def augop(self, op, cur, val):
        cur = self.resolve(cur)
        if isinstance(cur, Phi):
            return self.each(cur, lambda c: self.augop(op, c, val))
        if isinstance(cur, Ref):
            o = self.obj(cur)
            if isinstance(o, Nd):
                res = self.bm.nd_binop(self, op, cur, val)
                if isinstance(res, Ref) and isinstance(self.obj(res), Nd):
                    self.nd_write(cur, self.nd_t(res))
                    return cur
                return res
            if isinstance(o, Lst):
                if o.kind in ("list", "deque") and op == "Add":
                    self.bm.method(self, cur, "extend", [val], {})
                    return cur
                if o.kind == "set" and op in ("BitOr", "Sub", "BitAnd"):
                    self.bm.method(self, cur, {"BitOr": "update", "Sub": "difference_update", "BitAnd": "intersection_update"}[op], [val], {})
                    return cur
            if isinstance(o, Dct) and op == "BitOr":
                self.bm.method(self, cur, "update", [val], {})
                return cur
            if isinstance(o, Inst):
                nm = "__i%s__" % DUNDER[op]
                m = self.prog.find_method(o.cls, nm)
                if m is not None:
                    return self.call_fn(Fn(m, cls=m.cls, module=m.module), [cur, val], {})
        return self.binop(op, cur, val)

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        self.frames[-1].returns.append((self.st, v))
        raise Dead()

    def x_Raise(self, s):
        if s.exc is None:
            cur = self.st.L.get("$exc")
            self.raise_exc(getattr(cur, "name", "Exception") if cur is not None else "Exception")
        e = s.exc
        name, val = None, None
        v = None
        if isinstance(e, ast.Call):
            fv = self.eval(e.func)
            args = [self.eval(a) for a in e.args]
            if isinstance(fv, Ext):
                name = fv.name.split(".")[-1]
            elif isinstance(fv, Cls):
                name = fv.c.name
            v = args[0] if args else None
        else:
            fv = self.eval(e)
            if isinstance(fv, Ext):
                name = fv.name.split(".")[-1]
            elif isinstance(fv, Cls):
                name = fv.c.name
            elif isinstance(fv, ExcVal):
                name = fv.name
        if name and name not in EXC_PARENTS and isinstance(fv, Cls):
            for b in self.prog.mro(fv.c):
                for be in b.base_exprs:
                    if isinstance(be, ast.Name) and be.id in EXC_PARENTS:
                        EXC_PARENTS.setdefault(name, be.id)
        self.raise_exc(name or "Exception", val=v)

    def x_Assert(self, s):
        c = self.truth(self.eval(s.test))
        self.branch(c, lambda: None, lambda: self.raise_exc("AssertionError"))

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.L.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                i = self.eval_index(t.slice)
                self.each(o, lambda x: self.bm.delitem(self, x, i))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                if isinstance(o, Ref) and isinstance(self.obj(o), Inst):
                    nm = mangle(t.attr, self.frames[-1].cls)
                    i = self.obj(o)
                    self.put(o, Inst(i.cls, tuple(p for p in i.f if p[0] != nm)))

    def x_If(self, s):
        c = self.truth(self.eval(s.test))
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def x_FunctionDef(self, s):
        from .model import FuncInfo
        fr = self.frames[-1]
        fi = FuncInfo(s.name, s, fr.module, fr.cls, "plain")
        f = Fn(fi, LazyEnv(self, s), fr.cls, fr.module)
        self.st.L[s.name] = f

    def x_ClassDef(self, s):
        self.imp("local class")
        self.st.L[s.name] = U(mk("unk", "class", mk("c", s.name)))

    def x_With(self, s):
        for it in s.items:
            v = self.eval(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.exec_block(s.body)

    def x_Break(self, s):
        self.frames[-1].loops[-1]["breaks"].append(self.st)
        raise Dead()

    def x_Continue(self, s):
        self.frames[-1].loops[-1]["conts"].append(self.st)
        raise Dead()

    def x_Try(self, s):
        fr = self.frames[-1]
        outer = self.excs
        nret = len(fr.returns)
        nbr = len(fr.loops[-1]["breaks"]) if fr.loops else 0
        nco = len(fr.loops[-1]["conts"]) if fr.loops else 0
        self.excs = []
        normals = []
        try:
            self.exec_block(s.body)
            self.exec_block(s.orelse)
            normals.append(self.st)
        except Dead:
            pass
        caught = self.excs
        self.excs = []
        leftover = []
        for st, e in caught:
            handled = False
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = ["BaseException"]
                else:
                    elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    for x in elts:
                        names.append(ast.unparse(x).split(".")[-1])
                if any(exc_isa(e.name, n) for n in names):
                    handled = True
                    self.st = st.copy()
                    ev = ExcVal(e.name, e)
                    self.st.L["$exc"] = ev
                    if h.name:
                        self.st.L[h.name] = ev
                    try:
                        self.exec_block(h.body)
                        normals.append(self.st)
                    except Dead:
                        pass
                    break
                if any(exc_isa(n, e.name) for n in names):
                    pass
            if not handled:
                leftover.append((st, e))
        leftover += self.excs
        self.excs = outer
        if s.finalbody:
            def fin(st):
                self.st = st
                try:
                    self.exec_block(s.finalbody)
                    return self.st
                except Dead:
                    return None
            normals = [x for x in (fin(n) for n in normals) if x is not None]
            lo2 = []
            for st, e in leftover:
                r = fin(st.copy())
                if r is not None:
                    lo2.append((r, e))
            leftover = lo2
            rets = fr.returns[nret:]
            del fr.returns[nret:]
            for st, v in rets:
                r = fin(st)
                if r is not None:
                    fr.returns.append((r, v))
            if fr.loops:
                for key, n in (("breaks", nbr), ("conts", nco)):
                    xs = fr.loops[-1][key][n:]
                    del fr.loops[-1][key][n:]
                    for st in xs:
                        r = fin(st)
                        if r is not None:
                            fr.loops[-1][key].append(r)
        self.excs += leftover
        if not normals:
            raise Dead()
        st = normals[-1]
        for n in reversed(normals[:-1]):
            st, _ = self.join(n, st)
        self.st = st

    def x_Match(self, s):
        self.imp("match")
        subj = self.eval(s.subject)
        def go(cases):
            if not cases:
                return
            c = cases[0]
            if isinstance(c.pattern, ast.MatchValue):
                cond = self.truth(self.compare("Eq", subj, self.eval(c.pattern.value)))
            elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                cond = True
                if c.pattern.name:
                    self.st.L[c.pattern.name] = subj
            elif isinstance(c.pattern, ast.MatchOr) and all(isinstance(p, ast.MatchValue) for p in c.pattern.patterns):
                cs = [self.truth(self.compare("Eq", subj, self.eval(p.value))) for p in c.pattern.patterns]
                cond = bool_nary("or", [x if isinstance(x, T) else mk("c", x) for x in cs])
                r = self.tri(cond)
                cond = cond if r is None else r
            else:
                self.fresh_n += 1
                cond = sym("match%d" % self.fresh_n)
            if c.guard is not None and cond is not False:
                gcond = self.truth(self.eval(c.guard))
                cond = bool_nary("and", [x if isinstance(x, T) else mk("c", x) for x in (cond, gcond)])
                r = self.tri(cond)
                cond = cond if r is None else r
            self.branch(cond, lambda: self.exec_block(c.body), lambda: go(cases[1:]))
        go(s.cases)

    # -------------------------------------------------------------- loops
    def x_For(self, s):
        itv = self.eval(s.iter)
        self.for_over(s, itv)

    def for_over(self, s, itv):
        itv = self.resolve(itv)
        if isinstance(itv, Phi):
            base = self.st
            outs = []
            for g, x in itv.alts:
                self.st = base.copy()
                if not self.assume(g, True):
                    continue
                try:
                    self.for_over(s, x)
                    outs.append((self.st, NONE))
                except Dead:
                    pass
            self.join_results(outs)
            return
        items = self.iter_items(itv)
        self.run_loop(items, lambda v: self.assign(s.target, v), lambda: self.exec_block(s.body), s, getattr(s, "orelse", []))

    def run_loop(self, items, bind, body, node, orelse=()):
        fr = self.frames[-1]
        loop = {"breaks": [], "conts": []}
        fr.loops.append(loop)
        brk_all = []
        dead = False
        try:
            for it in items:
                if it.m == "1":
                    skip = None
                    if it.g is not None:
                        r = self.tri(it.g)
                        if r is False:
                            continue
                        if r is None:
                            skip = self.st.copy()
                            cur = self.st.copy()
                            self.st = skip
                            if not self.assume(it.g, False):
                                skip = None
                            self.st = cur
                            if not self.assume(it.g, True):
                                if skip is None:
                                    dead = True
                                    break
                                self.st = skip
                                continue
                    try:
                        bind(it.v)
                        body()
                        outs = [self.st]
                    except Dead:
                        outs = []
                    if skip is not None:
                        outs.append(skip)
                    outs += loop["conts"]
                    loop["conts"] = []
                    brk_all += loop["breaks"]
                    loop["breaks"] = []
                    if not outs:
                        dead = True
                        break
                    st = outs[-1]
                    for o in reversed(outs[:-1]):
                        st, _ = self.join(o, st)
                    self.st = st
                else:
                    try:
                        self.generic_iter(it, bind, body, node, loop, brk_all)
                    except Dead:
                        dead = True
                        break
        finally:
            fr.loops.pop()
        outs = []
        if not dead:
            try:
                self.exec_block(orelse)
                outs.append(self.st)
            except Dead:
                pass
        outs = brk_all + outs
        if not outs:
            raise Dead()
        st = outs[-1]
        for o in reversed(outs[:-1]):
            st, _ = self.join(o, st)
        self.st = st

    def marks(self, loop):
        fr = self.frames[-1]
        return (len(fr.returns), len(self.excs), len(loop["breaks"]), len(loop["conts"]),
                len(fr.yields) if fr.yields is not None else 0, len(self.rec_log),
                len(self.call_log) if self.call_log is not None else 0, len(self.effects), len(self.imprecise))

    def rollback(self, loop, m):
        fr = self.frames[-1]
        del fr.returns[m[0]:]
        del self.excs[m[1]:]
        del loop["breaks"][m[2]:]
        del loop["conts"][m[3]:]
        if fr.yields is not None:
            del fr.yields[m[4]:]
        del self.rec_log[m[5]:]
        if self.call_log is not None:
            del self.call_log[m[6]:]
        del self.effects[m[7]:]
        del self.imprecise[m[8]:]

    def generic_iter(self, it, bind, body, node, loop, brk_all):
        """one summarised element: fixpoint over the loop-carried locations"""
        fr = self.frames[-1]
        S0 = self.st
        seg = it.seg or "%s#%d" % (getattr(fr.fn, "name", "?"), getattr(node, "lineno", 0))
        while seg in self.active:
            old, seg = seg, tm.prime(seg)
            ren = {mk("idx", old): mk("idx", seg), mk("ord", old): mk("ord", seg)}
            it = It(self.map_val(it.v, ren), it.m, seg if it.seg else None, tm.rewrite(it.g, lambda x: ren.get(x)) if it.g is not None else None)
        self.active.append(seg)
        try:
            return self._generic_iter(it, bind, body, node, loop, brk_all, seg)
        finally:
            self.active.remove(seg)

    def _generic_iter(self, it, bind, body, node, loop, brk_all, seg):
        fr = self.frames[-1]
        S0 = self.st
        may_zero = (it.m == "*") or it.g is not None
        mk0 = self.marks(loop)
        M = {}
        P = None
        for rnd in range(8):
            self.rollback(loop, mk0)
            self.st = S0.copy()
            start = {}
            for loc in sorted(M, key=str):
                self.havoc(loc, S0, M[loc], seg)
            havoced = self.st.copy()
            ok = True
            if it.g is not None:
                ok = self.assume(it.g, True)
            outs = []
            if ok:
                try:
                    bind(it.v)
                    body()
                    outs.append(self.st)
                except Dead:
                    pass
            outs += loop["conts"][mk0[3]:]
            if not outs:
                P = None
                break
            st = outs[-1]
            for o in reversed(outs[:-1]):
                st, _ = self.join(o, st)
            P = st
            ch = self.diff(havoced, P)
            new = [c for c in ch if c not in M]
            if not new:
                break
            for c in new:
                M[c] = P
        else:
            self.imp("loop fixpoint")
        del loop["conts"][mk0[3]:]
        # exits out of the loop body
        exits = []
        f0 = S0.facts
        def cond_of(st):
            cs = [t if v else bnot(t) for t, v in st.facts.items() if f0.get(t) != v]
            return bool_nary("and", cs) if cs else None
        def wit(st, isret):
            c = cond_of(st)
            if c is None:
                return None
            keep = {t: v for t, v in st.facts.items()}
            q = tm.anys(seg, c)
            # the exit is taken at the first element satisfying the condition
            st.facts = dict(keep)
            r = tri(q, S0.facts)
            if r is None:
                if q.op == "not":
                    st.facts[q.args[0]] = False
                else:
                    st.facts[q] = True
            exits.append(q)
            return c
        for st in loop["breaks"][mk0[2]:]:
            c = wit(st, False)
            if c is not None:
                self.rename_first(st, S0, seg, c)
            brk_all.append(st)
        del loop["breaks"][mk0[2]:]
        for st, v in fr.returns[mk0[0]:]:
            wit(st, True)
        for st, e in self.excs[mk0[1]:]:
            c = cond_of(st)
            if c is not None:
                exits.append(tm.anys(seg, c))
        if P is None:
            if may_zero:
                self.st = S0
                if it.g is not None:
                    if not self.assume(tm.anys(seg, it.g), False):
                        raise Dead()
                return
            raise Dead()
        self.st = self.generalise(S0, P, M, seg, may_zero, it, loop)
        for q in exits:
            if not self.assume(q, False):
                raise Dead()

    def diff(self, a, b):
        out = []
        for k in set(a.L) | set(b.L):
            x, y = a.L.get(k, UNBOUND), b.L.get(k, UNBOUND)
            if x is not y and (x is UNBOUND or y is UNBOUND or x != y):
                out.append(("l", k))
        for ad, o in a.heap.items():
            p = b.heap.get(ad)
            if p is None or p is o or p == o:
                continue
            if isinstance(o, Inst) and isinstance(p, Inst):
                d1, d2 = dict(o.f), dict(p.f)
                for k in set(d1) | set(d2):
                    if d1.get(k, UNBOUND) is not d2.get(k, UNBOUND) and (k not in d1 or k not in d2 or d1[k] != d2[k]):
                        out.append(("f", ad, k))
            else:
                out.append(("h", ad))
        return out

    def loc_get(self, st, loc):
        if loc[0] == "l":
            return st.L.get(loc[1], UNBOUND)
        if loc[0] == "f":
            o = st.heap.get(loc[1])
            return dict(o.f).get(loc[2], UNBOUND) if isinstance(o, Inst) else UNBOUND
        return st.heap.get(loc[1])

    def loc_set(self, st, loc, v):
        if loc[0] == "l":
            st.L[loc[1]] = v
        elif loc[0] == "f":
            st.heap[loc[1]] = st.heap[loc[1]].put(loc[2], v)
        else:
            st.heap[loc[1]] = v

    def phisym(self, loc, seg):
        nm = loc[1] if loc[0] == "l" else (loc[2] if loc[0] == "f" else "o%d" % loc[1])
        return "\u03c6%d:%s:%s" % (len(self.frames), seg, nm)

    def havoc(self, loc, S0, P, seg):
        v0 = self.loc_get(S0, loc)
        v1 = self.loc_get(P, loc)
        nm = self.phisym(loc, seg)
        st = self.st
        if loc[0] == "h":
            self.loc_set(st, loc, self.havoc_obj(nm, v0, v1))
            return
        self.loc_set(st, loc, self.havoc_val(nm, v0, v1, S0, P))

    def havoc_obj(self, nm, o0, o1):
        if isinstance(o0, Nd):
            if o0.base is not None:
                return o0
            t = sym(nm, ndim=tm.ndim(o0.t) if o0.t is not None else None, phi=True)
            return Nd(t, o0.shape, o0.dt if isinstance(o1, Nd) and o1.dt == o0.dt else "object")
        if isinstance(o0, Lst):
            refs = set()
            kept = list(o0.items)
            extra = []
            if isinstance(o1, Lst):
                # objects that may have been added
                for it in o1.items:
                    if it not in o0.items:
                        refs |= self.refs_of(it.v)
                if len(o1.items) < len(o0.items) or any(x not in o1.items for x in o0.items):
                    kept = []
                    for it in o0.items:
                        kept.append(It(it.v, "*", it.seg, it.g))
                extra = [It(U(sym(nm + "*", phi=True), frozenset(refs)), "*", "\u03c6" + nm)]
            return Lst(o0.kind, tuple(kept + extra), True)
        if isinstance(o0, Dct):
            refs = set()
            if isinstance(o1, Dct):
                for it in o1.items:
                    if it not in o0.items:
                        refs |= self.refs_of(it.v)
            u = U(sym(nm + "*", phi=True), frozenset(refs))
            k = U(sym(nm + "*k", phi=True))
            removed = isinstance(o1, Dct) and any(not any(y.k == x.k for y in o1.items) for x in o0.items)
            kept = []
            for x in o0.items:
                vv = x.v
                if isinstance(o1, Dct):
                    for y in o1.items:
                        if y.k == x.k and y.v != x.v:
                            vv = self.havoc_val(nm + "." + str(self.scalar_t(x.k) or x.k), x.v, y.v, None, None)
                kept.append(DIt(x.k, vv, "*" if removed else x.m, x.seg, None if removed else x.g))
            return Dct(tuple(kept) + (DIt(k, u, "*", "\u03c6" + nm),), True, o0.default)
        return o0

    def havoc_val(self, nm, v0, v1, S0, P):
        p0, p1 = self.py_of(v0), self.py_of(v1)
        if self.scalar_t(v0) is not None and self.scalar_t(v1) is not None and p0 != "str":
            py = p0 if p0 == p1 else ("num" if {p0, p1} <= {"int", "float", "num"} else "any")
            return S(sym(nm, py=py, phi=True), py)
        if isinstance(v0, Ref) and isinstance(v1, Ref) and S0 is not None:
            o0, o1 = S0.heap.get(v0.a), P.heap.get(v1.a)
            if isinstance(o0, Nd) and isinstance(o1, Nd):
                sh0, sh1 = self.shape_in(S0, v0), self.shape_in(P, v1)
                sh = None
                if sh0 is not None and sh1 is not None and len(sh0) == len(sh1):
                    sh = tuple(a if a is b else sym(nm + ".d%d" % i, phi=True, nonneg=True) for i, (a, b) in enumerate(zip(sh0, sh1)))
                    for d in sh:
                        if tm.META.get(d, {}).get("nonneg"):
                            tm.IV[d] = (0.0, tm.INF)
                nd = len(sh) if sh is not None else None
                return self.new(Nd(sym(nm, ndim=nd, phi=True), sh, o1.dt))
            if isinstance(o0, Lst) and isinstance(o1, Lst) and o0.kind == o1.kind:
                refs = set()
                for it in o0.items + o1.items:
                    refs |= self.refs_of(it.v)
                vals = []
                return self.new(Lst(o0.kind, (It(U(sym(nm + "*", phi=True), frozenset(refs)), "*", "\u03c6" + nm),), True))
            if isinstance(o0, Dct) and isinstance(o1, Dct):
                refs = set()
                for it in o0.items + o1.items:
                    refs |= self.refs_of(it.v)
                return self.new(Dct((DIt(U(sym(nm + "*k", phi=True)), U(sym(nm + "*", phi=True), frozenset(refs)), "*", "\u03c6" + nm),), True))
            if isinstance(o0, Inst) and isinstance(o1, Inst) and o0.cls is o1.cls:
                d0, d1 = dict(o0.f), dict(o1.f)
                f = {}
                for k in d0:
                    a, b = d0[k], d1.get(k, UNBOUND)
                    f[k] = a if a == b else self.havoc_val(nm + "." + k, a, b, S0, P)
                return self.new(Inst(o0.cls, tuple(sorted(f.items(), key=lambda p: p[0]))))
        if v0 is UNBOUND:
            # assigned inside the body before use in most code
            return Phi(((mk("ran", nm), U(sym(nm, phi=True), frozenset(self.refs_of(v1)))), (bnot(mk("ran", nm)), UNBOUND)))
        if isinstance(v0, Tup) and isinstance(v1, Tup) and len(v0.vs) == len(v1.vs):
            return Tup(tuple(a if a == b else self.havoc_val("%s.%d" % (nm, i), a, b, S0, P) for i, (a, b) in enumerate(zip(v0.vs, v1.vs))))
        if p0 == "str" and p1 == "str":
            return S(sym(nm, py="str", phi=True), "str")
        if isinstance(v0, C) and v0.v is None or isinstance(v1, C) and v1.v is None or isinstance(v0, Phi) or isinstance(v1, Phi):
            # an option: keep both shapes apart with a gate
            vs = []
            for v in (v0, v1):
                if isinstance(v, Phi):
                    vs += [x for _, x in v.alts]
                else:
                    vs.append(v)
            nones = [v for v in vs if isinstance(v, C) and v.v is None]
            rest = [v for v in vs if not (isinstance(v, C) and v.v is None) and v is not UNBOUND]
            if nones and rest:
                g = mk("isnone", sym(nm, phi=True))
                if all(self.scalar_t(v) is not None for v in rest):
                    py = self.py_of(rest[-1])
                    other = S(sym(nm, py=py, phi=True), py)
                else:
                    refs = set()
                    for v in rest:
                        refs |= self.refs_of(v)
                    other = None
                    if P is not None and all(isinstance(v, Ref) for v in rest):
                        o = (P.heap.get(rest[-1].a) if rest else None)
                        if isinstance(o, Nd):
                            other = self.new(Nd(sym(nm, ndim=len(o.shape) if o.shape is not None else None, phi=True), o.shape, o.dt))
                        elif isinstance(o, Lst):
                            rr = set()
                            for it in o.items:
                                rr |= self.refs_of(it.v)
                            other = self.new(Lst(o.kind, (It(U(sym(nm + "*", phi=True), frozenset(rr)), "*", "\u03c6" + nm),), True))
                        elif isinstance(o, Inst):
                            other = Ref(rest[-1].a) if rest[-1].a in self.st.heap else None
                    if other is None:
                        other = U(sym(nm, phi=True), frozenset(refs))
                return Phi(((g, NONE), (bnot(g), other)))
        return U(sym(nm, phi=True), frozenset(self.refs_of(v0) | self.refs_of(v1)))

    def shape_in(self, st, r):
        sv = self.st
        self.st = st
        try:
            return self.nd_shape(r)
        finally:
            self.st = sv

    # after the fixpoint: closed form of each loop-carried location
    def generalise(self, S0, P, M, seg, may_zero, it, loop):
        out = P.copy()
        out.facts = dict(S0.facts)
        self._out = out
        old = self.loopinfo, self.prefix
        self.loopinfo, self.prefix = {}, {}
        try:
            for loc in M:
                v0 = self.loc_get(S0, loc)
                v1 = self.loc_get(P, loc)
                self.note_loc(self.phisym(loc, seg), v0, v1, S0, P)
            if it.g is None:
                # counters: value at the start of the current iteration
                for nm, (t0, t1) in self.loopinfo.items():
                    ph = mk("sym", nm)
                    if t1.op == "c" or t0.op == "c":
                        continue
                    d = sub(t1, ph)
                    if (tm.ndim(t1) or 0) == 0 and not any(x.op == "sym" and x.args[0] in self.loopinfo for x in tm.subterms(d)) and not tm.mentions_idx(d, seg):
                        self.prefix[ph] = add(t0, mul(d, mk("ord", seg)))
            for loc in M:
                v0 = self.loc_get(S0, loc)
                v1 = self.loc_get(P, loc)
                nm = self.phisym(loc, seg)
                res = self.close(loc, v0, v1, nm, S0, P, seg, may_zero, it)
                self.loc_set(out, loc, res)
        finally:
            self.loopinfo, self.prefix = old
        # phi symbols that survived anywhere are opaque "some iteration" values: acceptable
        return out

    def note_loc(self, nm, v0, v1, S0, P):
        def put(n, a, b):
            if a is not None and b is not None:
                self.loopinfo[n] = (a, b)
        if isinstance(v0, Nd) and isinstance(v1, Nd):
            if v0.base is None and v1.base is None:
                put(nm, v0.t, v1.t)
            return
        if isinstance(v0, (Lst, Dct, Inst)) or v0 is None or v1 is None:
            return
        t0, t1 = self.scalar_t(v0), self.scalar_t(v1)
        if t0 is not None and t1 is not None:
            put(nm, t0, t1)
        elif isinstance(v0, Ref) and isinstance(v1, Ref):
            o0, o1 = S0.heap.get(v0.a), P.heap.get(v1.a)
            if isinstance(o0, Nd) and isinstance(o1, Nd):
                sv = self.st
                self.st = S0
                c0, sh0 = self.nd_t(v0), self.nd_shape(v0)
                self.st = P
                c1, sh1 = self.nd_t(v1), self.nd_shape(v1)
                self.st = sv
                put(nm, c0, c1)
                if sh0 is not None and sh1 is not None and len(sh0) == len(sh1):
                    for k, (a, b) in enumerate(zip(sh0, sh1)):
                        if a is not b:
                            put("%s.d%d" % (nm, k), a, b)
        elif isinstance(v0, Tup) and isinstance(v1, Tup) and len(v0.vs) == len(v1.vs):
            for k, (a, b) in enumerate(zip(v0.vs, v1.vs)):
                self.note_loc("%s.%d" % (nm, k), a, b, S0, P)

    def unprefix(self, t):
        if not self.prefix or t is None:
            return t
        return tm.rewrite(t, lambda x: self.prefix.get(x))

    def others(self, t, ph):
        return {x.args[0] for x in tm.subterms(t) if x.op == "sym" and x is not ph and x.args[0] in self.loopinfo}

    def mfold(self, t0, t1, ph, seg, g):
        """value of one of several locations that are updated together"""
        names, todo = {ph.args[0]}, [t1]
        steps = {ph.args[0]: (t0, t1)}
        while todo:
            for n in self.others(todo.pop(), None):
                if n not in steps:
                    a, b = self.loopinfo[n]
                    b = self.unprefix(b)
                    steps[n] = (a, b)
                    todo.append(b)
        m = {}
        for n in steps:
            s_ = mk("sym", n)
            a = mk("acc", seg, n)
            nd = tm.ndim(s_)
            tm._NDIM[a] = nd if nd is not None else tm.ndim(steps[n][0])
            m[s_] = a
        locs = tuple((n, steps[n][0], tm.rewrite(steps[n][1], lambda x: m.get(x))) for n in sorted(steps))
        r = mk("mfold", seg, locs, ph.args[0], g if g is not None else mk("c", True))
        tm._NDIM[r] = tm.ndim(t0)
        return r

    def close_term(self, t0, t1, ph, seg, may_zero, it, arr=False):
        """value after the loop of a location that was t0 before, and goes from ph to t1 in one iteration"""
        if t1 is ph:
            return t0
        g = it.g
        if self.prefix:
            if ph in self.prefix and g is None:
                return add(t0, self.sums(seg, sub(t1, ph)))
            t1 = self.unprefix(t1)
        if self.loopinfo and self.others(t1, ph):
            return self.mfold(t0, t1, ph, seg, g)
        free = not tm.mentions(t1, ph)
        if not free:
            if t1.op == "ite" and t1.args[2] is ph and not tm.mentions(t1.args[1], ph) and not tm.mentions(t1.args[0], ph) \
                    and not tm.mentions_idx(t1.args[1], seg):
                c = t1.args[0] if g is None else bool_nary("and", [g, t1.args[0]])
                return ite(tm.anys(seg, c), t1.args[1], t0)
            if t1.op == "ite" and t1.args[1] is ph and not tm.mentions(t1.args[2], ph) and not tm.mentions(t1.args[0], ph) \
                    and not tm.mentions_idx(t1.args[2], seg):
                c = bnot(t1.args[0]) if g is None else bool_nary("and", [g, bnot(t1.args[0])])
                return ite(tm.anys(seg, c), t1.args[2], t0)
            if t1.op == "and" and ph in t1.args:
                rest = bool_nary("and", [a for a in t1.args if a is not ph])
                if not tm.mentions(rest, ph):
                    c = rest if g is None else bool_nary("or", [bnot(g), rest])
                    return bool_nary("and", [t0, tm.alls(seg, c)])
            if t1.op == "or" and ph in t1.args:
                rest = bool_nary("or", [a for a in t1.args if a is not ph])
                if not tm.mentions(rest, ph):
                    c = rest if g is None else bool_nary("and", [g, rest])
                    return bool_nary("or", [t0, tm.anys(seg, c)])
            d = sub(t1, ph) if t1.op != "c" else None
            if d is not None and not tm.mentions(d, ph):
                if g is not None:
                    d = ite(g, d, const(0))
                return add(t0, self.sums(seg, d))
            if t1.op in ("min2", "max2") and ph in t1.args:
                rest = [a for a in t1.args if a is not ph]
                if len(rest) == 1 and not tm.mentions(rest[0], ph) and g is None:
                    return mk(t1.op, *sorted([t0, mk("minof" if t1.op == "min2" else "maxof", seg, rest[0])], key=tm.key))
            if arr:
                # pointwise updates keyed by the loop index
                if pointwise(t1, ph, seg):
                    return subst_phi(t1, ph, t0)
            ac = mk("acc", seg)
            nd = tm.ndim(ph)
            tm._NDIM[ac] = nd if nd is not None else tm.ndim(t0)
            r = mk("fold", seg, t0, subst_phi(t1, ph, ac), g if g is not None else mk("c", True))
            tm._NDIM[r] = tm.ndim(t0)
            return r
        if not may_zero and not tm.mentions_idx(t1, seg):
            return t1
        last = t1
        if tm.mentions_idx(t1, seg):
            last = mk("last", seg, t1) if g is None else mk("last", seg, t1, g)
            if tm.bounds(t1) != (-tm.INF, tm.INF):
                tm.IV[last] = tm.bounds(t1)
        if may_zero:
            c = tm.anys(seg, g) if g is not None else mk("ran", seg)
            return ite(c, last, t0)
        return last

    def sums(self, seg, d):
        if not tm.mentions_idx(d, seg):
            n = mk("size", seg)
            return mul(n, d)
        return mk("sums", seg, d)

    def close(self, loc, v0, v1, nm, S0, P, seg, may_zero, it):
        ph = mk("sym", nm)
        if loc[0] == "h":
            return self.close_obj(nm, v0, v1, seg, may_zero, it)
        t0, t1 = self.scalar_t(v0), self.scalar_t(v1)
        if t0 is not None and t1 is not None and not (isinstance(v0, C) and isinstance(v0.v, str)):
            t = self.close_term(t0, t1, ph, seg, may_zero, it)
            if t.op == "c":
                return C(t.args[0])
            if tm.is_lin_const(t):
                k = t.args[0]
                p = self.py_of(v1)
                return C(int(k)) if p == "int" and k.denominator == 1 else C(float(k)) if p == "float" else S(t, p)
            p0, p1 = self.py_of(v0), self.py_of(v1)
            return S(t, p1 if p0 == p1 else ("num" if {p0, p1} <= {"int", "float", "num"} else p1))
        if isinstance(v1, Ref) and isinstance(v0, Ref):
            o0, o1 = S0.heap.get(v0.a), P.heap.get(v1.a)
            if isinstance(o0, Nd) and isinstance(o1, Nd):
                sv = self.st
                self.st = S0
                c0, sh0 = self.nd_t(v0), self.nd_shape(v0)
                self.st = P
                c1, sh1 = self.nd_t(v1), self.nd_shape(v1)
                self.st = sv
                t = self.close_term(c0, c1, ph, seg, may_zero, it, arr=True)
                sh = None
                if sh0 is not None and sh1 is not None and len(sh0) == len(sh1):
                    sh = tuple(self.close_term(a, b, mk("sym", nm + ".d%d" % k), seg, may_zero, it) for k, (a, b) in enumerate(zip(sh0, sh1)))
                # the object of the last iteration, with closed content
                return self._late(P, v1, Nd(t, sh, o1.dt))
        if v0 is UNBOUND and not may_zero:
            return self.lastval(v1, seg)
        if v0 is UNBOUND:
            return self.phi(mk("ran", seg) if it.g is None else tm.anys(seg, it.g), self.lastval(v1, seg, it.g), UNBOUND)
        if isinstance(v1, Tup) and isinstance(v0, Tup) and len(v0.vs) == len(v1.vs):
            return Tup(tuple(a if a == b else self.close(("l", "?"), a, b, "%s.%d" % (nm, k), S0, P, seg, may_zero, it)
                             for k, (a, b) in enumerate(zip(v0.vs, v1.vs))))
        fr = self.free_of(v1, ph)
        if fr and not may_zero:
            return self.lastval(v1, seg)
        if fr:
            c = mk("ran", seg) if it.g is None else tm.anys(seg, it.g)
            return self.phi(c, self.lastval(v1, seg, it.g), v0)
        if isinstance(v1, Phi):
            # value that stays unless a condition holds in some iteration
            keep = [(g, x) for g, x in v1.alts if self.is_phi_val(x, nm)]
            chg = [(g, x) for g, x in v1.alts if not self.is_phi_val(x, nm)]
            if chg and all(self.free_of(x, ph) for _, x in chg):
                out = v0
                for g, x in reversed(chg):
                    gg = strip_phi(g, ph)
                    if gg is None:
                        gg = g
                    if it.g is not None:
                        gg = bool_nary("and", [it.g, gg])
                    q = tm.anys(seg, gg)
                    out = self.phi(q, self.lastval(x, seg, gg), out)
                return out
        return v1

    def _late(self, P, ref, obj):
        a = self.next
        self.next += 1
        P.heap[a] = obj
        self._out.heap[a] = obj
        return Ref(a)

    def is_phi_val(self, x, nm):
        t = self.scalar_t(x)
        if t is not None:
            return t is mk("sym", nm)
        if isinstance(x, U):
            return x.t is mk("sym", nm)
        if isinstance(x, C) and x.v is None:
            return True
        return False

    def free_of(self, v, ph):
        if isinstance(v, S):
            return not tm.mentions(v.t, ph)
        if isinstance(v, U):
            return v.t is not ph
        if isinstance(v, Phi):
            return all(not tm.mentions(g, ph) and self.free_of(x, ph) for g, x in v.alts)
        if isinstance(v, Tup):
            return all(self.free_of(x, ph) for x in v.vs)
        return True

    def lastval(self, v, seg, g=None):
        if isinstance(v, S) and tm.mentions_idx(v.t, seg):
            t = mk("last", seg, v.t) if g is None or g.op == "c" else mk("last", seg, v.t, g)
            b = tm.bounds(v.t)
            if b != (-tm.INF, tm.INF):
                tm.IV[t] = b
            return S(t, v.py)
        if isinstance(v, Tup):
            return Tup(tuple(self.lastval(x, seg, g) for x in v.vs))
        return v

    def close_obj(self, nm, o0, o1, seg, may_zero, it):
        if isinstance(o0, Nd) and isinstance(o1, Nd) and o1.base is None and o0.t is not None:
            t = self.close_term(o0.t, o1.t, mk("sym", nm), seg, may_zero, it, arr=True)
            return Nd(t, o1.shape, o1.dt)
        if isinstance(o0, Lst) and isinstance(o1, Lst):
            marker = "\u03c6" + nm
            pos = next((k for k, x in enumerate(o1.items) if x.seg == marker and isinstance(x.v, U)), None)
            n0 = len(o0.items)
            if pos == n0 and o1.items[:n0] == o0.items:
                new = [x for x in o1.items[pos + 1:]]
                items = list(o0.items)
                for x in new:
                    items.append(self.multiply(x, seg, may_zero, it))
                return Lst(o1.kind, tuple(items), o0.op)
            if pos is not None and o1.kind in ("set", "frozenset"):
                rest = [x for x in o1.items if not (x.seg == marker and isinstance(x.v, U))]
                if all(x in rest for x in o0.items):
                    items = list(o0.items)
                    for x in rest:
                        if x not in o0.items:
                            items.append(self.multiply(x, seg, may_zero, it))
                    return Lst(o1.kind, tuple(items), o0.op)
            return o1
        if isinstance(o0, Dct) and isinstance(o1, Dct):
            marker = "\u03c6" + nm
            rest = [x for x in o1.items if x.seg != marker]
            if len(rest) != len(o1.items) and all(any(y.k == x.k and y.m == x.m for y in rest) for x in o0.items):
                items = []
                for y in rest:
                    x = next((x for x in o0.items if x.k == y.k), None)
                    if x is not None:
                        v = y.v
                        if y.v != x.v:
                            v = self.close(("l", "?"), x.v, y.v, nm + "." + str(self.scalar_t(x.k) or x.k), State(), State(), seg, may_zero, it)
                        items.append(DIt(x.k, v, x.m, x.seg, y.g if y.g == x.g else None))
                    else:
                        w = self.multiply(y, seg, may_zero, it)
                        items.append(w)
                return Dct(tuple(items), o0.op, o1.default)
            return o1
        return o1

    def multiply(self, x, seg, may_zero, it):
        if self.prefix:
            if isinstance(x, DIt):
                x = DIt(self.map_val(x.k, self.prefix), self.map_val(x.v, self.prefix), x.m, x.seg, self.unprefix(x.g))
            else:
                x = It(self.map_val(x.v, self.prefix), x.m, x.seg, self.unprefix(x.g))
        """item x was added once per iteration"""
        dep = True
        if isinstance(x, DIt):
            dep = any(tm.mentions_idx(self.desc(v), seg) for v in (x.k,))
            if not dep and x.m == "1":
                g = x.g
                if may_zero:
                    q = tm.anys(seg, it.g) if it.g is not None else mk("ran", seg)
                    g = q if g is None else bool_nary("and", [q, g])
                if g is not None:
                    g = tm.anys(seg, g) if tm.mentions_idx(g, seg) else g
                return DIt(x.k, self.lastval(x.v, seg, it.g), "1", None, g)
        g = x.g
        if it.g is not None:
            g = it.g if g is None else bool_nary("and", [it.g, g])
        if x.m == "1":
            m = "+" if it.m != "*" else "*"
            if it.seg is None:
                m = "*"
            s = seg
        else:
            m = "*"
            s = (x.seg or "?") + "\u00d7" + seg
            if x.m == "+" and it.m == "+" and g is None:
                m = "+"
        if isinstance(x, DIt):
            return DIt(x.k, x.v, m, s, g)
        return It(x.v, m, s, g)

    def rename_first(self, st, S0, seg, c):
        """in a state that left the loop early, the loop index is the first one satisfying c"""
        i_t, o_t = mk("idx", seg), mk("ord", seg)
        f = mk("first", seg, c)
        b = tm.bounds(i_t)
        m = {i_t: f}
        if b != (-tm.INF, tm.INF):
            tm.IV.setdefault(f, b)
        tm.FIRST_BASE[f] = i_t
        for k in list(st.L):
            v = st.L[k]
            if v is not S0.L.get(k):
                st.L[k] = self.map_val(v, m)

    def map_val(self, v, m):
        if isinstance(v, S):
            t = tm.rewrite(v.t, lambda x: m.get(x))
            return S(t, v.py)
        if isinstance(v, Tup):
            return Tup(tuple(self.map_val(x, m) for x in v.vs))
        if isinstance(v, Phi):
            return Phi(tuple((tm.rewrite(g, lambda x: m.get(x)), self.map_val(x, m)) for g, x in v.alts))
        return v

    def x_While(self, s):
        conv = self.counted(s)
        if conv is not None:
            return
        fr = self.frames[-1]
        # concrete unrolling while the test is decided
        seen = set()
        for n in range(self.rounds or 24):
            if n >= 40:
                k = tuple((x, self.desc(v)) for x, v in sorted(self.st.L.items(), key=lambda p: p[0]))
                if k in seen:
                    # every test so far was decided and everything in scope is as it was before
                    self.raise_exc("EndlessLoop", "the loop never ends", internal=True)
                seen.add(k)
            c = self.truth(self.eval(s.test))
            if c is False:
                self.exec_block(s.orelse)
                return
            if c is not True:
                break
            if isinstance(s.test, ast.Constant) and n >= 1 and self.rounds is None:
                break
            loop = {"breaks": [], "conts": []}
            fr.loops.append(loop)
            try:
                try:
                    self.exec_block(s.body)
                    outs = [self.st]
                except Dead:
                    outs = []
            finally:
                fr.loops.pop()
            outs += loop["conts"]
            if not outs:
                if not loop["breaks"]:
                    raise Dead()
                self.merge_states(loop["breaks"])
                return
            if loop["breaks"] and self.exact:
                raise Giveup("undecided exit of a loop at %s" % self.site())
            if loop["breaks"]:
                # undecided exit: continue in general form below
                self.merge_states(outs)
                after = self.st
                try:
                    self.while_general(s)
                    rest = [self.st]
                except Dead:
                    rest = []
                self.merge_states(loop["breaks"] + rest)
                return
            self.merge_states(outs)
        if self.exact:
            raise Giveup("undecided or very long loop at %s: %s" % (self.site(), repr(c)[:300]))
        if self.unroll is not None:
            return self.while_unrolled(s)
        self.while_general(s)

    def while_unrolled(self, s):
        """at most `unroll` undecided rounds, each exit kept apart by its condition; valuations needing more are out of scope"""
        fr = self.frames[-1]
        exits, breaks = [], []
        n = 0
        while True:
            c = self.truth(self.eval(s.test))
            if c is not True:
                st = self.st
                self.st = st.copy()
                if c is False or self.assume(c, False):
                    try:
                        self.exec_block(s.orelse)
                        exits.append(self.st)
                    except Dead:
                        pass
                if c is False:
                    break
                if n >= self.unroll:
                    self.cuts += 1
                    break
                self.st = st
                if not self.assume(c, True):
                    break
            elif n >= 60:
                self.imp("loop bound")
                break
            n += 1
            loop = {"breaks": [], "conts": []}
            fr.loops.append(loop)
            outs = []
            try:
                try:
                    self.exec_block(s.body)
                    outs = [self.st]
                except Dead:
                    pass
            finally:
                fr.loops.pop()
            breaks += loop["breaks"]
            outs += loop["conts"]
            if not outs:
                break
            self.merge_states(outs)
        self.merge_states(exits + breaks)

    def merge_states(self, outs):
        if not outs:
            raise Dead()
        st = outs[-1]
        for o in reversed(outs[:-1]):
            st, _ = self.join(o, st)
        self.st = st

    def while_general(self, s):
        fr = self.frames[-1]
        seg = "while#%d.%d" % (getattr(s, "lineno", 0), len(self.frames))
        S0 = self.st
        loop = {"breaks": [], "conts": []}
        fr.loops.append(loop)
        m0 = self.marks(loop)
        M = {}
        exit_state = None
        try:
            for rnd in range(8):
                self.rollback(loop, m0)
                self.st = S0.copy()
                for loc in sorted(M, key=str):
                    self.havoc(loc, S0, M[loc], seg)
                H = self.st.copy()
                exit_state = None
                outs = []
                try:
                    c = self.truth(self.eval(s.test))
                    base = self.st
                    if c is not True:
                        self.st = base.copy()
                        if c is False or self.assume(c, False):
                            exit_state = self.st
                    self.st = base.copy()
                    if c is not False and (c is True or self.assume(c, True)):
                        try:
                            self.exec_block(s.body)
                            outs.append(self.st)
                        except Dead:
                            pass
                except Dead:
                    pass
                outs += loop["conts"]
                if not outs:
                    break
                st = outs[-1]
                for o in reversed(outs[:-1]):
                    st, _ = self.join(o, st)
                P = st
                new = [c for c in self.diff(H, P) if c not in M]
                if not new:
                    break
                for c in new:
                    M[c] = P
            else:
                self.imp("while fixpoint")
        finally:
            fr.loops.pop()
        for st in [x for x, _ in fr.returns[m0[0]:]]:
            pass
        outs = list(loop["breaks"])
        if exit_state is not None:
            self.st = exit_state
            try:
                self.exec_block(s.orelse)
                outs.append(self.st)
            except Dead:
                pass
        if not outs:
            raise Dead()
        self.merge_states(outs)

    def counted(self, s):
        """while i < n: ...; i += 1   ==>   loop over range(i, n)"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name)):
            return None
        if s.orelse or not s.body:
            return None
        i = t.left.id
        lastst = s.body[-1]
        ok = False
        if isinstance(lastst, ast.AugAssign) and isinstance(lastst.op, ast.Add) and isinstance(lastst.target, ast.Name) and lastst.target.id == i \
                and isinstance(lastst.value, ast.Constant) and lastst.value.value == 1:
            ok = True
        if isinstance(lastst, ast.Assign) and len(lastst.targets) == 1 and isinstance(lastst.targets[0], ast.Name) and lastst.targets[0].id == i \
                and isinstance(lastst.value, ast.BinOp) and isinstance(lastst.value.op, ast.Add) and ast.unparse(lastst.value) in ("%s + 1" % i, "1 + %s" % i):
            ok = True
        if not ok:
            return None
        names = {n.id for n in ast.walk(t.comparators[0]) if isinstance(n, ast.Name)}
        for b in s.body[:-1]:
            for n in ast.walk(b):
                if isinstance(n, ast.Continue):
                    return None
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and (n.id == i or n.id in names):
                    return None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                        and n.func.value.id in names and n.func.attr in ("append", "pop", "remove", "extend", "insert", "popleft", "clear", "add", "discard"):
                    return None
        hi = self.eval(t.comparators[0])
        lo = self.lookup(i)
        if self.scalar_t(hi) is None or self.scalar_t(lo) is None:
            return None
        rng = self.bm.make_range(self, lo, hi)
        items = self.iter_items(rng)
        def bind(v):
            self.st.L[i] = v
        self.run_loop(items, bind, lambda: self.exec_block(s.body[:-1]), s)
        if True:
            # value of the counter after normal exhaustion
            if not any(isinstance(n, ast.Break) for b in s.body for n in ast.walk(b)):
                self.st.L[i] = hi
        return True

    # ------------------------------------------------------------ iteration
    def iter_items(self, v):
        return self.bm.iter_items(self, v)

    # ---------------------------------------------------------- assignment
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.st.L[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.resolve(v)
            if isinstance(v, Phi):
                # element-wise when every alternative unpacks
                parts = []
                for g, x in v.alts:
                    parts.append((g, self.unpack(x, len(t.elts), t)))
                for k, e in enumerate(t.elts):
                    val = parts[-1][1][k]
                    for g, p in reversed(parts[:-1]):
                        val = self.phi(g, p[k], val)
                    self.assign(e, val)
                return
            vs = self.unpack(v, len(t.elts), t)
            for e, x in zip(t.elts, vs):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            i = self.eval_index(t.slice)
            self.setitem(o, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def unpack(self, v, n, node):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return [self.unk("star", v) for _ in range(n)]
        if isinstance(v, Tup):
            if len(v.vs) != n:
                self.raise_exc("ValueError", "unpack", internal=True)
            return list(v.vs)
        if isinstance(v, U):
            return [U(mk("item", v.t, k), v.refs) for k in range(n)]
        if isinstance(v, S) and v.py == "any":
            return [S(mk("item", v.t, k), "any") for k in range(n)]
        if isinstance(v, C) and v.v is None:
            self.raise_exc("TypeError", "cannot unpack None", internal=True)
        if isinstance(v, Ref):
            o = self.obj(v)
            items = self.iter_items(v)
            if all(x.m == "1" and x.g is None for x in items) and not getattr(o, "op", False):
                if len(items) != n:
                    self.raise_exc("ValueError", "unpack", internal=True)
                return [x.v for x in items]
            return [self.unk("unpack%d" % k, v) for k in range(n)]
        return [self.unk("unpack%d" % k, v) for k in range(n)]

    # -------------------------------------------------------------- lookup
    def lookup(self, name):
        if name in self.st.L:
            v = self.st.L[name]
            if v is UNBOUND:
                self.raise_exc("UnboundLocalError", name, internal=True)
            if isinstance(v, Phi):
                v = self.resolve(v)
                if isinstance(v, Phi) and any(x is UNBOUND for _, x in v.alts):
                    ub = bool_nary("or", [g for g, x in v.alts if x is UNBOUND])
                    base = self.st
                    self.st = base.copy()
                    if self.assume(ub, True):
                        self.raise_exc("UnboundLocalError", name, internal=True, maybe=True)
                    self.st = base
                    if not self.assume(ub, False):
                        raise Dead()
                    rest = tuple((g, x) for g, x in v.alts if x is not UNBOUND)
                    v = rest[0][1] if len(rest) == 1 else self.resolve(Phi(rest))
                    self.st.L[name] = v
                elif v is UNBOUND:
                    self.raise_exc("UnboundLocalError", name, internal=True)
            return v
        fr = self.frames[-1]
        if fr.fn is not None and name in self.local_names(fr):
            self.raise_exc("UnboundLocalError", name, internal=True)
        env = getattr(fr, "env", None)
        while env is not None:
            if name in env.map:
                return env.map[name]
            env = env.parent
        return self.global_name(fr.module, name)

    def local_names(self, fr):
        n = getattr(fr, "_locals", None)
        if n is None:
            n = set()
            node = fr.fn.node if hasattr(fr.fn, "node") else None
            if node is not None:
                stack = list(node.body) if isinstance(node.body, list) else []
                while stack:
                    x = stack.pop()
                    if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        n.add(x.name)
                        continue
                    if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        # walrus targets are ignored; comprehension targets are local to it
                        continue
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        n.add(x.id)
                    if isinstance(x, (ast.Global, ast.Nonlocal)):
                        n -= set(x.names)
                    if isinstance(x, ast.Import):
                        for a in x.names:
                            n.add((a.asname or a.name).split(".")[0])
                    if isinstance(x, ast.ImportFrom):
                        for a in x.names:
                            n.add(a.asname or a.name)
                    stack += list(ast.iter_child_nodes(x))
            fr._locals = n
        return n

    def global_name(self, module, name):
        if module is not None:
            r = self.prog.resolve(module, name)
            if r is not None:
                return self.resolved(r)
        if name in self.bm.BUILTINS:
            return Ext("builtins." + name)
        if name in EXC_PARENTS:
            return Ext("builtins." + name)
        if name == "__name__":
            return C(module.name)
        self.raise_exc("NameError", name, internal=True)

    def resolved(self, r):
        kind, x = r
        if kind == "func":
            return Fn(x, None, None, x.module)
        if kind == "class":
            return Cls(x)
        if kind == "module":
            return Mod(x)
        if kind == "ext":
            return Ext(x)
        if kind == "assign":
            m, name, expr = x
            k = (m.name, name)
            if k not in self.globals_cache:
                self.globals_cache[k] = None
                fr = Frame(None, None, m)
                self.frames.append(fr)
                saved = self.st.L
                self.st.L = {}
                ln = self.lineno
                try:
                    v = self.eval(expr)
                except Dead:
                    v = U(mk("unk", "global", mk("c", name)))
                finally:
                    self.frames.pop()
                    self.st.L = saved
                    self.lineno = ln
                self.globals_cache[k] = v
                if isinstance(v, Ref):
                    # materialise in every later state
                    self.global_objs = getattr(self, "global_objs", {})
                    self.global_objs[v.a] = self.st.heap[v.a]
            v = self.globals_cache[k]
            if v is None:
                return U(mk("unk", "global", mk("c", name)))
            if isinstance(v, Ref) and v.a not in self.st.heap:
                self.st.heap[v.a] = self.global_objs[v.a]
            return v
        return U(mk("unk", "resolved"))

    # ----------------------------------------------------------- expressions
    def eval(self, e):
        self.tick(e)
        return getattr(self, "e_" + type(e).__name__, self.e_unknown)(e)

    def e_unknown(self, e):
        self.imp("expression " + type(e).__name__)
        return self.unk("expr:" + type(e).__name__)

    def e_Constant(self, e):
        return C(e.value)

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.st.L[e.target.id] = v
        return v

    def e_Tuple(self, e):
        vs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                its = self.iter_items(v)
                if all(i.m == "1" and i.g is None for i in its):
                    vs += [i.v for i in its]
                else:
                    return self.new(Lst("tuple", tuple([It(q) for q in vs] + list(its))))
            else:
                vs.append(self.eval(x))
        return Tup(tuple(vs))

    def seq(self, kind, elts):
        items = []
        for x in elts:
            if isinstance(x, ast.Starred):
                items += list(self.iter_items(self.eval(x.value)))
            else:
                items.append(It(self.eval(x)))
        return items

    def e_List(self, e):
        return self.new(Lst("list", tuple(self.seq("list", e.elts))))

    def e_Set(self, e):
        r = self.new(Lst("set", ()))
        for it in self.seq("set", e.elts):
            self.bm.set_add(self, r, it)
        return r

    def e_Dict(self, e):
        r = self.new(Dct(()))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.bm.method(self, r, "update", [self.eval(v)], {})
            else:
                kv = self.eval(k)
                self.setitem(r, kv, self.eval(v))
        return r

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            c = self.truth(v)
            if isinstance(c, bool):
                return C(not c)
            return S(bnot(c), "bool")
        return self.each(v, lambda x: self.bm.unary(self, type(e.op).__name__, x))

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Phi):
            return self.each(a, lambda x: self.binop(op, x, b))
        if isinstance(b, Phi):
            return self.each(b, lambda x: self.binop(op, a, x))
        return self.small_v(self.bm.binop(self, op, a, b))

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        def go(vals):
            v = self.eval(vals[0])
            if len(vals) == 1:
                return v
            c = self.truth(v)
            if c is True or c is False:
                if c == isand:
                    return go(vals[1:])
                return v
            # undecided: evaluate the rest under the condition, join
            if isand:
                return self.branch(c, lambda: go(vals[1:]), lambda: self.narrow(v, False))
            return self.branch(c, lambda: self.narrow(v, True), lambda: go(vals[1:]))
        return go(e.values)

    def narrow(self, v, truth):
        if isinstance(v, S) and (v.py == "bool" or is_boolish(v.t)):
            return C(truth)
        return v

    def e_Compare(self, e):
        left = self.eval(e.left)
        if len(e.ops) == 1:
            return self.compare(type(e.ops[0]).__name__, left, self.eval(e.comparators[0]))
        conds = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            c = self.truth(self.compare(type(op).__name__, left, right))
            if c is False:
                return FALSE
            if c is not True:
                conds.append(c)
            left = right
        if not conds:
            return TRUE
        return S(bool_nary("and", conds), "bool")

    def compare(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        for v, other, flip in ((a, b, False), (b, a, True)):
            if isinstance(v, Phi):
                # boolean combination, no state split (comparison of plain values is pure)
                if op in ("Is", "IsNot", "Eq", "NotEq", "In", "NotIn", "Lt", "LtE", "Gt", "GtE") and not self.has_dunder(v) and not self.has_dunder(other) \
                        and not any(self.is_nd(x) for _, x in v.alts) and not self.is_nd(other) \
                        and not any(isinstance(x, C) and x.v is None for _, x in v.alts if op in ("Lt", "LtE", "Gt", "GtE")):
                    outs = []
                    for g, x in v.alts:
                        r = self.compare(op, x, other) if not flip else self.compare(op, other, x)
                        c = self.truth(r)
                        ct = c if isinstance(c, T) else mk("c", c)
                        outs.append(bool_nary("and", [g, ct]))
                    t = bool_nary("or", outs)
                    r = self.tri(t)
                    return C(r) if r is not None else S(t, "bool")
                return self.each(v, (lambda x: self.compare(op, x, other)) if not flip else (lambda x: self.compare(op, other, x)))
        return self.bm.compare(self, op, a, b)

    def is_nd(self, v):
        return isinstance(v, Ref) and isinstance(self.obj(v), Nd)

    def has_dunder(self, v):
        if isinstance(v, Phi):
            return any(self.has_dunder(x) for _, x in v.alts)
        return isinstance(v, Ref) and isinstance(self.obj(v), Inst)

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        return self.branch(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                x = self.eval(v.value)
                parts.append((x, v.conversion, v.format_spec))
        if all(isinstance(p, ast.Constant) for p in parts):
            return C("".join(p.value for p in parts))
        ts = []
        for p in parts:
            if isinstance(p, ast.Constant):
                ts.append(mk("c", p.value))
            else:
                x, conv, spec = p
                x = self.resolve(x)
                if isinstance(x, Ref) and isinstance(self.obj(x), Inst):
                    x = self.bm.to_str(self, x)
                if isinstance(x, C) and isinstance(x.v, (str, int)) and spec is None and conv == -1:
                    ts.append(mk("c", str(x.v)))
                else:
                    fs = ""
                    if spec is not None:
                        q = self.e_JoinedStr(spec)
                        fs = q.v if isinstance(q, C) and isinstance(q.v, str) else ast.unparse(spec) + "?"
                    d = self.desc(x)
                    if isinstance(x, (S, Phi)) and self.py_of(x) == "str" and not fs:
                        ts.append(d)
                    else:
                        ts.append(mk("fmt", fs, d))
        return self.bm.cat(ts)

    def e_FormattedValue(self, e):
        return self.bm.to_str(self, self.eval(e.value))

    def e_Lambda(self, e):
        fr = self.frames[-1]
        return Fn(e, LazyEnv(self, e), fr.cls, fr.module)

    def e_Attribute(self, e):
        o = self.eval(e.value)
        return self.getattr(o, e.attr)

    def e_Starred(self, e):
        return self.eval(e.value)

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: NONE if x is None else self.eval(x)
            return Slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return Tup(tuple(self.eval_index(x) for x in s.elts))
        return self.eval(s)

    def e_Subscript(self, e):
        o = self.eval(e.value)
        i = self.eval_index(e.slice)
        return self.getitem(o, i)

    def e_Slice(self, e):
        return self.eval_index(e)

    def getitem(self, o, i):
        o, i = self.resolve(o), self.resolve(i)
        if isinstance(o, Phi):
            return self.each(o, lambda x: self.getitem(x, i))
        if isinstance(i, Phi):
            return self.each(i, lambda x: self.getitem(o, x))
        return self.bm.getitem(self, o, i)

    def setitem(self, o, i, v):
        o, i = self.resolve(o), self.resolve(i)
        if isinstance(o, Phi):
            return self.each(o, lambda x: self.setitem(x, i, v) or NONE)
        if isinstance(i, Phi):
            return self.each(i, lambda x: self.setitem(o, x, v) or NONE)
        if isinstance(v, Phi) and isinstance(o, Ref) and isinstance(self.obj(o), Nd):
            return self.each(v, lambda x: self.setitem(o, i, x) or NONE)
        return self.bm.setitem(self, o, i, v)

    # comprehensions --------------------------------------------------------
    def e_ListComp(self, e):
        return self.comp(e, "list")

    def e_SetComp(self, e):
        return self.comp(e, "set")

    def e_GeneratorExp(self, e):
        return self.comp(e, "gen")

    def e_DictComp(self, e):
        return self.comp(e, "dict")

    def comp(self, e, kind):
        out = self.new(Dct(()) if kind == "dict" else Lst(kind, ()))
        saved = dict(self.st.L)
        fr = self.frames[-1]
        fr_loops = fr.loops
        def gen(gs):
            if not gs:
                if kind == "dict":
                    k = self.eval(e.key)
                    v = self.eval(e.value)
                    self.setitem(out, k, v)
                elif kind == "set":
                    self.bm.set_add(self, out, It(self.eval(e.elt)))
                else:
                    v = self.eval(e.elt)
                    o = self.obj(out)
                    self.put(out, Lst(o.kind, o.items + (It(v),), o.op))
                return
            g = gs[0]
            itv = self.eval(g.iter)
            def body():
                conds = []
                def test(ifs):
                    if not ifs:
                        gen(gs[1:])
                        return
                    c = self.truth(self.eval(ifs[0]))
                    self.branch(c, lambda: test(ifs[1:]), lambda: None)
                test(g.ifs)
            class _N:
                lineno = getattr(e, "lineno", 0)
                target = g.target
                body_ = None
            def over(v):
                v = self.resolve(v)
                if isinstance(v, Phi):
                    base = self.st
                    outs = []
                    for gg, x in v.alts:
                        self.st = base.copy()
                        if not self.assume(gg, True):
                            continue
                        try:
                            over(x)
                            outs.append((self.st, NONE))
                        except Dead:
                            pass
                    self.join_results(outs)
                    return
                self.run_loop(self.iter_items(v), lambda x: self.assign(g.target, x), body, _N)
            over(itv)
        gen(e.generators)
        # comprehension variables do not leak
        targets = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        for t in targets:
            if t in saved:
                self.st.L[t] = saved[t]
            else:
                self.st.L.pop(t, None)
        return out

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        r = self.st.L.get("$yield")
        if isinstance(r, Ref):
            o = self.obj(r)
            self.put(r, Lst(o.kind, o.items + (It(v),), o.op))
        return NONE

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        r = self.st.L.get("$yield")
        if isinstance(r, Ref):
            its = self.iter_items(v)
            o = self.obj(r)
            self.put(r, Lst(o.kind, o.items + tuple(its), o.op))
        return NONE

    def e_Await(self, e):
        return self.eval(e.value)

    # calls ------------------------------------------------------------------
    def e_Call(self, e):
        f = e.func
        if isinstance(f, ast.Name) and f.id == "super" and not e.args:
            fr = self.frames[-1]
            args = fr.fn.node.args.args
            recv = self.st.L.get(args[0].arg) if args else NONE
            return Super(fr.cls, recv)
        fv = self.eval(f)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.resolve(self.eval(a.value))
                if isinstance(v, Tup):
                    args += list(v.vs)
                else:
                    its = self.iter_items(v)
                    if all(i.m == "1" and i.g is None for i in its) and not (isinstance(v, Ref) and getattr(self.obj(v), "op", False)):
                        args += [i.v for i in its]
                    else:
                        args.append(StarArgs(tuple(its)))
            else:
                args.append(self.eval(a))
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                o = self.obj(v) if isinstance(v, Ref) else None
                if isinstance(o, Dct) and all(isinstance(i.k, C) and i.m == "1" and i.g is None for i in o.items):
                    for i in o.items:
                        kwargs[i.k.v] = i.v
                else:
                    self.imp("**kwargs")
            else:
                kwargs[k.arg] = v
        self.lineno = e.lineno
        return self.call(fv, args, kwargs, e)

    def call(self, fv, args, kwargs, node=None):
        fv = self.resolve(fv)
        if isinstance(fv, Phi):
            return self.each(fv, lambda x: self.call(x, args, kwargs, node))
        if isinstance(fv, Fn):
            return self.call_fn(fv, args, kwargs)
        if isinstance(fv, Bound):
            return self.call_fn(fv.fn, [fv.recv] + args, kwargs)
        if isinstance(fv, BM):
            return self.each(fv.recv, lambda r: self.bm.method(self, r, fv.name, args, kwargs))
        if isinstance(fv, Cls):
            return self.instantiate(fv.c, args, kwargs)
        if isinstance(fv, Ext):
            return self.small_v(self.bm.call_ext(self, fv.name, args, kwargs))
        if isinstance(fv, Ref):
            o = self.obj(fv)
            if isinstance(o, Inst):
                m = self.prog.find_method(o.cls, "__call__")
                if m:
                    return self.call_fn(Fn(m, cls=m.cls, module=m.module), [fv] + args, kwargs)
        if isinstance(fv, C) and fv.v is None:
            self.raise_exc("TypeError", "None is not callable", internal=True)
        if isinstance(fv, U):
            return self.unk("call", fv, *args)
        if hasattr(fv, "apply"):
            return fv.apply(self, args)
        return self.unk("call", *args)

    def instantiate(self, c, args, kwargs):
        self.calls += 1
        r = self.new(Inst(c, ()))
        m = self.prog.find_method(c, "__init__")
        if m is not None:
            self.call_fn(Fn(m, cls=m.cls, module=m.module), [r] + args, kwargs)
        elif self.is_dataclass(c):
            names = [n.target.id for n in c.node.body if isinstance(n, ast.AnnAssign)]
            vals = dict(zip(names, args))
            vals.update(kwargs)
            for n in c.node.body:
                if isinstance(n, ast.AnnAssign) and n.target.id not in vals and n.value is not None:
                    vals[n.target.id] = self.eval(n.value)
            o = self.obj(r)
            for k, v in vals.items():
                o = o.put(k, v)
            self.put(r, o)
        elif self.is_namedtuple(c):
            names = [n.target.id for n in c.node.body if isinstance(n, ast.AnnAssign)]
            vals = dict(zip(names, args))
            vals.update(kwargs)
            o = self.obj(r)
            for k, v in vals.items():
                o = o.put(k, v)
            self.put(r, o)
        return r

    def is_dataclass(self, c):
        return any("dataclass" in ast.unparse(d) for d in c.node.decorator_list)

    def is_namedtuple(self, c):
        return any(isinstance(b, ast.Name) and b.id == "NamedTuple" for b in c.base_exprs)

    def call_fn(self, fn, args, kwargs):
        self.calls += 1
        f = fn.f
        if isinstance(f, ast.Lambda):
            return self.call_lambda(fn, args, kwargs)
        self.funcs.add(f.qual)
        if self.call_hook is not None:
            r = self.call_hook(self, f, args, kwargs)
            if r is not None:
                return r
        if self.call_log is not None:
            self.call_log.append((f, tuple(args), dict(kwargs), self.st.copy(), self.site()))
        depth = sum(1 for fr in self.frames if fr.fn is f)
        if depth >= self.rec_limit or len(self.frames) > 60:
            last = next((fr for fr in reversed(self.frames) if fr.fn is f), None)
            if last is not None and last.entry is not None and last.entry == self.entry_key(args, kwargs):
                # called from its own body on equal arguments: the same path is taken again and again
                self.raise_exc("RecursionError", "%s calls itself on equal arguments" % f.name, internal=True)
            self.rec_log.append((f, tuple(args), self.st.copy(), self.site()))
            for a in args:
                self.escape(a)
            return self.unk("rec:" + f.qual, *args)
        L = self.bind_args(f, args, kwargs)
        if L is None:
            self.raise_exc("TypeError", "arguments of %s" % f.name, internal=True)
        fr = Frame(f, fn.cls or f.cls, fn.module or f.module)
        if depth >= self.rec_limit - 1:
            fr.entry = self.entry_key(args, kwargs)
        if fn.env is not None:
            fr.env = fn.env
        is_gen = contains_yield(f.node)
        caller_L = self.st.L
        line = self.lineno
        outer_exc = self.excs
        self.excs = []
        self.frames.append(fr)
        self.st.L = L
        if is_gen:
            g = self.new(Lst("gen", ()))
            self.st.L["$yield"] = g
        normals = []
        try:
            try:
                self.exec_block(f.node.body)
                fr.returns.append((self.st, NONE))
            except Dead:
                pass
        finally:
            self.frames.pop()
            mine = self.excs
            self.excs = outer_exc
            self.lineno = line
        for st, e in mine:
            st.L = dict(caller_L)
            self.excs.append((st, e))
        if not fr.returns:
            raise Dead()
        outs = []
        for st, v in fr.returns:
            if is_gen:
                v = st.L.get("$yield")
            st.L = dict(caller_L)
            outs.append((st, v))
        return self.join_results(outs)

    def entry_key(self, args, kwargs):
        try:
            return tuple(self.desc(a) for a in args) + tuple((k, self.desc(a)) for k, a in sorted(kwargs.items()))
        except Exception:
            return None

    def escape(self, v):
        pass

    def call_lambda(self, fn, args, kwargs):
        lam = fn.f
        a = lam.args
        L = {}
        names = [x.arg for x in a.args]
        for n, v in zip(names, args):
            L[n] = v
        for n, v in kwargs.items():
            L[n] = v
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in L:
                L[n] = self.eval(d)
        if len(args) > len(names) and a.vararg is None:
            self.raise_exc("TypeError", "lambda arguments", internal=True)
        class _LF:
            node = lam
            qual = "?:<lambda>"
            name = "<lambda>"
        fr = Frame(None, fn.cls, fn.module)
        fr.env = fn.env
        caller = self.st.L
        line = self.lineno
        n0 = len(self.excs)
        self.frames.append(fr)
        self.st.L = L
        try:
            v = self.eval(lam.body)
        finally:
            self.frames.pop()
            self.lineno = line
            for st, e in self.excs[n0:]:
                st.L = dict(caller)
        self.st.L = dict(caller)
        return v

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        L = {}
        if any(isinstance(x, StarArgs) for x in args):
            k = next(i for i, x in enumerate(args) if isinstance(x, StarArgs))
            star = args[k]
            if a.vararg is not None and k >= len(names):
                items = [It(x) for x in args[len(names):k]] + list(star.items) + [It(x) for x in args[k + 1:]]
                for n, v in zip(names, args):
                    L[n] = v
                L[a.vararg.arg] = self.new(Lst("tuple", tuple(items)))
                args = []
                names = []
            else:
                args = [x if not isinstance(x, StarArgs) else self.unk("starargs") for x in args]
        if len(args) > len(names):
            if a.vararg is None:
                return None
            L[a.vararg.arg] = Tup(tuple(args[len(names):]))
            args = args[:len(names)]
        elif a.vararg is not None and a.vararg.arg not in L:
            L[a.vararg.arg] = Tup(())
        for n, v in zip(names, args):
            L[n] = v
        kwn = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwn:
                if k in L:
                    return None
                L[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                return None
        if a.kwarg is not None:
            L[a.kwarg.arg] = self.new(Dct(tuple(DIt(C(k), v) for k, v in extra.items())))
        nd = len(a.defaults)
        allpos = [x.arg for x in a.posonlyargs + a.args]
        for n, d in zip(allpos[len(allpos) - nd:] if nd else [], a.defaults):
            if n not in L:
                L[n] = self.default(f, n, d)
        for n, d in zip(kwn, a.kw_defaults):
            if n not in L and d is not None:
                L[n] = self.default(f, n, d)
        for n in allpos + kwn:
            if n not in L:
                return None
        return L

    def default(self, f, n, d):
        if isinstance(d, ast.Constant):
            return C(d.value)
        k = ("default", f.qual, n)
        if k not in self.globals_cache:
            fr = Frame(None, f.cls, f.module)
            self.frames.append(fr)
            saved = self.st.L
            self.st.L = {}
            try:
                v = self.eval(d)
            except Dead:
                v = U(mk("unk", "default"))
            finally:
                self.frames.pop()
                self.st.L = saved
            self.globals_cache[k] = v
            if isinstance(v, Ref):
                self.global_objs = getattr(self, "global_objs", {})
                self.global_objs[v.a] = self.st.heap[v.a]
        v = self.globals_cache[k]
        if isinstance(v, Ref) and v.a not in self.st.heap:
            self.st.heap[v.a] = self.global_objs[v.a]
        return v

    # attributes -------------------------------------------------------------
    def getattr(self, o, name, default=None, raising=True):
        o = self.resolve(o)
        if isinstance(o, Phi):
            return self.each(o, lambda x: self.getattr(x, name, default))
        cls = self.frames[-1].cls if self.frames else None
        mname = mangle(name, cls)
        if isinstance(o, Ref):
            ob = self.obj(o)
            if isinstance(ob, Inst):
                return self.inst_attr(o, ob, name, mname, default)
            return self.bm.attr(self, o, name)
        if isinstance(o, Cls):
            m = self.find_m(o.c, mname)
            if m is not None:
                fn = Fn(m, cls=m.cls, module=m.module)
                if m.kind == "class":
                    return Bound(o, fn)
                return fn
            at = self.prog.find_attr(o.c, name)
            if at is not None:
                return self.class_attr(at, name)
            if o.c.metaclass is not None:
                mc = self.metaclass(o.c)
                if mc is not None:
                    m = self.find_m(mc, mname)
                    if m is not None:
                        return Bound(o, Fn(m, cls=m.cls, module=m.module))
            if name in ("__name__", "__qualname__"):
                return C(o.c.name)
            self.raise_exc("AttributeError", "%s.%s" % (o.c.name, name), internal=True)
        if isinstance(o, Super):
            recv = o.recv
            ob = self.obj(recv) if isinstance(recv, Ref) else None
            start = ob.cls if isinstance(ob, Inst) else o.cls
            m = self.prog.find_method(start, mname, after=o.cls)
            if m is not None:
                if m.kind == "property":
                    return self.call_fn(Fn(m, cls=m.cls, module=m.module), [recv], {})
                return Bound(recv, Fn(m, cls=m.cls, module=m.module))
            if name in ("__init__", "__repr__", "__setattr__"):
                return Ext("builtins.object." + name)
            return self.unk("super." + name)
        if isinstance(o, Mod):
            r = self.prog.resolve(o.m, name)
            if r is None:
                sub_ = o.m.name + "." + name
                if sub_ in self.prog.modules:
                    return Mod(self.prog.modules[sub_])
                self.raise_exc("AttributeError", name, internal=True)
            return self.resolved(r)
        if isinstance(o, Ext):
            return self.bm.ext_attr(self, o, name)
        if isinstance(o, U):
            return U(mk("attr", o.t, name), o.refs)
        if isinstance(o, ExcVal):
            return U(mk("unk", "excattr"))
        return self.bm.attr(self, o, name)

    def find_m(self, c, mname):
        for k in self.prog.mro(c):
            for n, m in k.methods.items():
                if mangle(n, k) == mname:
                    return m
        return None

    def find_setter(self, c, name):
        for k in self.prog.mro(c):
            if name in k.setters:
                return k.setters[name]
        return None

    def metaclass(self, c):
        for k in self.prog.mro(c):
            if k.metaclass is not None and isinstance(k.metaclass, ast.Name):
                r = self.prog.resolve(k.module, k.metaclass.id)
                if r and r[0] == "class":
                    return r[1]
        return None

    def class_attr(self, at, name):
        k, expr = at
        return self.resolved(("assign", (ClsNS(k), name, expr)))

    def inst_attr(self, r, ob, name, mname, default=None):
        m = self.find_m(ob.cls, mname)
        if m is not None and m.kind == "property":
            return self.call_fn(Fn(m, cls=m.cls, module=m.module), [r], {})
        v = ob.get(mname)
        if v is not None and v is not UNBOUND:
            if isinstance(v, Phi):
                v = self.resolve(v)
                if isinstance(v, Phi) and any(x is UNBOUND for _, x in v.alts):
                    ub = bool_nary("or", [g for g, x in v.alts if x is UNBOUND])
                    base = self.st
                    self.st = base.copy()
                    if self.assume(ub, True):
                        self.raise_exc("AttributeError", "%s.%s" % (ob.cls.name, name), internal=True, maybe=True)
                    self.st = base
                    if not self.assume(ub, False):
                        raise Dead()
                    rest = tuple((g, x) for g, x in v.alts if x is not UNBOUND)
                    return rest[0][1] if len(rest) == 1 else self.resolve(Phi(rest))
            if v is not UNBOUND:
                return v
        if m is not None:
            fn = Fn(m, cls=m.cls, module=m.module)
            if m.kind == "static":
                return fn
            if m.kind == "class":
                return Bound(Cls(ob.cls), fn)
            return Bound(r, fn)
        at = self.prog.find_attr(ob.cls, name)
        if at is not None:
            return self.class_attr(at, name)
        if name == "__class__":
            return Cls(ob.cls)
        if name == "__dict__":
            return self.unk("__dict__", r)
        if default is not None:
            return default
        ga = self.prog.find_method(ob.cls, "__getattr__")
        if ga is not None and not name.startswith("__"):
            return self.call_fn(Fn(ga, cls=ga.cls, module=ga.module), [r, C(name)], {})
        self.raise_exc("AttributeError", "%s.%s" % (ob.cls.name, name), internal=True)

    def setattr(self, o, name, v):
        o = self.resolve(o)
        if isinstance(o, Phi):
            self.each(o, lambda x: self.setattr(x, name, v) or NONE)
            return
        cls = self.frames[-1].cls if self.frames else None
        mname = mangle(name, cls)
        if isinstance(o, Ref):
            ob = self.obj(o)
            if isinstance(ob, Inst):
                st = self.find_setter(ob.cls, mname)
                if st is not None:
                    self.call_fn(Fn(st, cls=st.cls, module=st.module), [o, v], {})
                    return
                m = self.find_m(ob.cls, mname)
                if m is not None and m.kind == "property":
                    self.raise_exc("AttributeError", "can't set %s" % name, internal=True)
                self.put(o, ob.put(mname, v))
                return
            if isinstance(ob, Nd) and name == "shape":
                self.imp("shape assignment")
                return
        if isinstance(o, U):
            if o.refs:
                self.imp("weak update")
            for a in o.refs:
                ob = self.st.heap.get(a)
                if isinstance(ob, Inst):
                    old = ob.get(mname)
                    self.fresh_n += 1
                    g = sym("may%d" % self.fresh_n)
                    self.st.heap[a] = ob.put(mname, self.phi(g, v, old if old is not None else UNBOUND))
            return
        self.imp("setattr")

    # arrays -----------------------------------------------------------------
    def nd_t(self, r):
        o = self.obj(r)
        if o.base is None:
            return o.t
        t = self.nd_t(Ref(o.base))
        return self.apply_path(t, o.path)

    def apply_path(self, t, path):
        for p in path:
            if p[0] == "tr":
                t = tm.tr(t)
            elif p[0] == "sel":
                t = sel(t, p[1], p[2], p[3])
            elif p[0] == "re":
                t = mk("reshape", t, p[1])
            elif p[0] == "rowb":
                t = tm.rowb(t)
            elif p[0] == "colb":
                t = tm.colb(t)
            elif p[0] == "vec":
                t = sel(t, p[1], const(0), True)
            elif p[0] == "flat":
                t = mk("fn", "flat", 1, t)
            elif p[0] == "id":
                pass
        return t

    def nd_shape(self, r):
        return self.obj(r).shape

    def nd_write(self, r, new):
        """replace the whole content of array r (writes through views)"""
        o = self.obj(r)
        if o.base is None:
            self.put(r, Nd(self.small(new, o.shape), o.shape, o.dt))
            return
        b = Ref(o.base)
        self.path_write(b, list(o.path), new)

    def path_write(self, b, path, new):
        cur = self.nd_t(b)
        def build(t, path):
            if not path:
                return new
            p = path[0]
            if p[0] == "tr":
                return tm.tr(build(tm.tr(t), path[1:]))
            if p[0] == "sel":
                s = sel(t, p[1], p[2], p[3])
                return upd(t, ("ax", p[1], p[2], p[3]), build(s, path[1:]))
            if p[0] == "rowb":
                return sel(build(tm.rowb(t), path[1:]), 0, const(0), True)
            if p[0] == "colb":
                return sel(build(tm.colb(t), path[1:]), 1, const(0), True)
            if p[0] == "vec":
                return (tm.rowb if p[1] == 0 else tm.colb)(build(sel(t, p[1], const(0), True), path[1:]))
            if p[0] == "id":
                return build(t, path[1:])
            return mk("wr", t, path[0], build(t, path[1:]))
        self.nd_write(b, build(cur, path))

    # entry points -------------------------------------------------------------
    def run(self, f):
        """run a scenario step; returns (state or None, value, exceptions)"""
        outer = self.excs
        self.excs = []
        fr = Frame(None, None, None)
        self.frames.append(fr)
        try:
            try:
                v = f()
                ok = True
            except Dead:
                v, ok = None, False
        finally:
            self.frames.pop()
            ex = self.excs
            self.excs = outer
        return (self.st if ok else None), v, ex


class ExcVal:
    def __init__(self, name, e=None):
        self.name, self.e = name, e


class ClsNS:
    """namespace wrapper so class attributes resolve like module globals"""
    def __init__(self, c):
        self.name = c.module.name + "." + c.name
        self._m = c.module
        self.path = c.module.path
        self.functions, self.classes, self.assigns, self.imports = c.module.functions, c.module.classes, dict(c.module.assigns), c.module.imports
        self.assigns.update(c.attrs)
        self.is_pkg = c.module.is_pkg


class StarArgs:
    def __init__(self, items):
        self.items = items


class UserFn:
    """an uninterpreted function supplied by the caller; pure unless told otherwise"""
    def __init__(self, name, ndim=0, py="float", shape=None, mutates=False, sign=1, lst=False):
        self.name, self.ndim, self.py, self.shape, self.mutates, self.sign, self.lst = name, ndim, py, shape, mutates, sign, lst

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def apply(self, I, args):
        t = mk("app", self.name, *[I.desc(a) for a in args])
        if self.sign == -1:
            t = neg(t)
        if self.ndim == 0:
            return S(t, self.py)
        if self.lst:
            from .np_models import nd_method
            r = I.new(Nd(t, self.shape))
            return nd_method(I, r, I.obj(r), "tolist", [], {})
        return I.new(Nd(t, self.shape))


class LazyEnv:
    def __init__(self, I, node):
        fr = I.frames[-1]
        self.parent = getattr(fr, "env", None)
        self.map = dict(I.st.L)

    def __eq__(self, o):
        return isinstance(o, LazyEnv) and self.map == o.map

    def __hash__(self):
        return 1


DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow",
          "MatMult": "matmul", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "LShift": "lshift", "RShift": "rshift"}

BOOL_OPS = {"rx", "lt0", "eq0", "not", "and", "or", "alls", "anys", "isclose", "in", "eqs", "truthy", "nonempty", "all", "any", "isnone", "ran", "le0",
            "slt"}


def is_boolish(t):
    if t.op in BOOL_OPS:
        return True
    if t.op == "c":
        return isinstance(t.args[0], bool)
    if t.op == "ite":
        return is_boolish(t.args[1]) and is_boolish(t.args[2])
    return False


_HI = {}


def has_ite(t):
    r = _HI.get(t)
    if r is None:
        r = _HI[t] = any(x.op == "ite" for x in tm.subterms(t))
    return r


_CY = {}


def contains_yield(node):
    r = _CY.get(id(node))
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            stack += list(ast.iter_child_nodes(x))
        _CY[id(node)] = r
    return r


def subst_phi(t, ph, t0):
    return tm.rewrite(t, lambda x: t0 if x is ph else None)


def strip_phi(g, ph):
    """drop conjuncts that mention the loop-carried symbol"""
    if not tm.mentions(g, ph):
        return g
    if g.op == "and":
        rest = [a for a in g.args if not tm.mentions(a, ph)]
        if rest:
            return bool_nary("and", rest)
    return None


def pointwise(t, ph, seg):
    """t is ph updated only at positions addressed by the loop index"""
    i = mk("idx", seg)
    o = mk("ord", seg)
    cur = t
    keys = []
    while cur is not ph:
        if cur.op == "upd":
            w = cur.args[1]
            ks = [x for x in (w[2:3] if w[0] == "ax" else w[1:3])]
            if not any(isinstance(k, T) and (tm.mentions(k, i) or tm.mentions(k, o) or k.op == "where") for k in ks):
                return False
            keys.append(w)
            cur = cur.args[0]
        elif cur.op == "scaleat":
            k = cur.args[2]
            if not (tm.mentions(k, i) or tm.mentions(k, o)):
                return False
            cur = cur.args[0]
        elif cur.op == "ite":
            a = pointwise(cur.args[1], ph, seg) if tm.mentions(cur.args[1], ph) else False
            b = pointwise(cur.args[2], ph, seg) if tm.mentions(cur.args[2], ph) else False
            return a and b and not tm.mentions(cur.args[0], ph)
        else:
            return False
    return all(reads_ok(t, ph, keys) for t in [t])


def reads_ok(t, ph, keys):
    """the new contents read the array only at the position being written"""
    own = set()
    for w in keys:
        own |= {w[2]} if w[0] == "ax" else {w[1], w[2]}
    def chk(x):
        if x is ph:
            return False
        if not isinstance(x, T):
            return all(chk(y) for y in x) if isinstance(x, tuple) else True
        if not tm.mentions(x, ph):
            return True
        if x.op in ("elem", "sel", "elem2") and x.args[0] is ph and any(k in own for k in x.args[1:] if isinstance(k, T)):
            return True
        return all(chk(y) for y in (x.args[1] if x.op == "lin" else x.args) if isinstance(y, (T, tuple)))
    cur = [t]
    while cur:
        x = cur.pop()
        if x is ph:
            continue
        if x.op == "upd":
            if not chk(x.args[2]):
                return False
            cur.append(x.args[0])
        elif x.op == "scaleat":
            cur.append(x.args[0])
        elif x.op == "ite":
            cur += [y for y in x.args[1:] if tm.mentions(y, ph)]
        else:
            return False
    return True
