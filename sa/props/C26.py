"""A vertex name is one name: every method of the graph classes whose parameter takes a name or a collection of names (found in the
current source) is evaluated with a name of several arbitrary characters, and with names whose characters are themselves vertices; it must
answer as for the collection holding that one name.  Operations must add, remove and weigh exactly that name."""
from .graphspec import *
from .lpmeth import public_methods, params
from .C25 import callable_v

TECHNIQUE = "abstract interpretation with symbolic multi-character names and names made of other names' characters; string versus singleton"
PARAMS = ("vertices", "nodes")
CASES = {
    "arbitrary names of several characters": None,
    "names made of the characters of other names": ["ab", "a", "b", "ba", "bab"],
    "names that repeat a character": ["aa", "a", "aaa", "b", "ab"],
    "one long name among single characters": ["x", "y", "xy", "yx", "xyx"],
    "names with digits and blanks": ["v 1", "v", "1", " ", "1v"],
    "names that differ in case or in blanks around them": ["v", " v", "V", "v ", " V"],
    "names that look like numbers or edges": ["1", "01", "1-2", "2", "2-1"],
}


class Named(Net):
    def __init__(self, ck, names, directed):
        super().__init__(ck, 4, directed=directed, weights=4, multi=True)
        if names:
            self.names = [C(x) for x in names]


def crossing(directed, q, es, v):
    """the edges a cut-like question about one name is about"""
    out = {e for e in es if e[0] == v and e[1] != v}
    into = {e for e in es if e[1] == v and e[0] != v}
    if not directed:
        return frozenset(tuple(sorted(e)) for e in out | into) if q in ("cut", "degree") else None
    return {"cut": frozenset(out), "outdegree": frozenset(out), "ncut": frozenset(into), "indegree": frozenset(into), "connections": frozenset(out | into)}.get(q)


def agree(ck, directed, label, names, es, q):
    cls = DG if directed else UG
    nm = "%s, %s, edges %s" % (cls.split(".")[-1] + "." + q, label, es)
    def go():
        net = Named(ck, names, directed)
        net.build(range(4), es)
        st = net.I.st
        I = net.I
        bad = None
        for v in range(5):
            res = []
            for kind in (None, "set", "list", "tuple", "frozenset"):
                I.st = st.copy()
                x = net.names[v]
                a = x if kind is None else Tup((x,)) if kind == "tuple" else net.w.lst(x, kind=kind)
                outs = []
                for s, r, e in net.run(I.st, q, a):
                    I.st = s
                    if e is not None:
                        outs.append(e)
                        continue
                    r = I.resolve(r)
                    o = I.obj(r) if isinstance(r, Ref) else None
                    outs.append(frozenset(net.edge_set(r)) if isinstance(o, Lst) else str(I.desc(r)))
                res.append((kind, outs))
            want = crossing(directed, q, es, v)
            got = [x for x in res[0][1]] if want is not None else []
            shown = {str(len(want)), str(I.desc(C(len(want))))} if want is not None else set()
            if want is not None and not all(x == want or isinstance(x, str) and (x in shown or not x.strip("()").isdigit()) for x in got):
                bad = bad or (cls + "." + q, "%s of the name %s is %s, the edges crossing are %s" % (q, names[v] if names else "n%d" % v, got, sorted(want)))
            for kind, outs in res[1:]:
                if outs != res[0][1]:
                    bad = bad or (cls + "." + q, "%s of the name %s is %s, of the %s holding it %s" % (q, names[v] if names else "n%d" % v, res[0][1], kind, outs))
        verdict(ck, net, nm, cls + "." + q, bad)
    ck.scen(nm, go, cls + "." + q)


def effects(ck, directed, label, names):
    """operations with such names do exactly what the set model says"""
    cls = DG if directed else UG
    nm = "operations of %s, %s" % (cls.split(".")[-1], label)
    def go():
        net = Named(ck, names, directed)
        es = [(0, 1), (1, 2), (0, 3)] if directed else [(0, 1), (1, 2), (0, 3)]
        bad = None
        start = net.I.st
        for vs, ee in ((range(4), es), ((0,), []), ((1, 2), []), ((1, 2, 3), [(1, 2)])):
            net.I.st = start.copy()
            m = net.build(vs, ee)
            st = net.I.st
            for op, a in net.ops((0, 4)):
                net.I.st = st.copy()
                want = apply(m, op, a)
                for s, v, e in net.run(net.I.st, op, *net.args(op, a)):
                    if (e is None) != (want is not None) and not (want is None and e != REJECT and e is not None):
                        bad = bad or (cls + "." + op, "%s%s %s" % (op, a, "is accepted" if e is None else "ends with " + e))
                    elif e is None:
                        try:
                            got = renamed(net, s)
                        except Odd as x:
                            bad = bad or (cls + "." + op, "after %s%s on %s: %s" % (op, a, m, x))
                            continue
                        if got.frozen() != want.frozen():
                            bad = bad or (cls + "." + op, "%s%s on %s gives %s" % (op, a, m, got))
        verdict(ck, net, nm, cls, bad)
    ck.scen(nm, go, cls)


def renamed(net, s):
    return net.observe(s, deep=False)


def given(ck, directed, label, names):
    cls = DG if directed else UG
    nm = "construction of %s, %s" % (cls.split(".")[-1], label)
    def go():
        net = Named(ck, names, directed)
        bad = None
        st0 = net.I.st
        for g in ({0: [1, 2], 3: []}, {0: [], 1: [0]}, {1: [2], 2: [1] if not directed else [3]}):
            for kind in ("set", "list"):
                net.I.st = st0.copy()
                kw, outs = net.ctor(g, {(0, 3): 1}, {2: 2}, kind)
                want = net.ctor_model(g, {(0, 3): 1}, {2: 2})
                for s, r, e in outs:
                    try:
                        got = None if e else net.observe(s, on=net.I.resolve(r), deep=False).frozen()
                    except Odd as x:
                        got = str(x)
                    if got != want.frozen():
                        bad = bad or (cls + ".__init__", "graph %s gives %s" % (g, e or got))
        verdict(ck, net, nm, cls + ".__init__", bad)
    ck.scen(nm, go, cls + ".__init__")


def run(ck):
    for directed in (False, True):
        cls = DG if directed else UG
        qs = [n for n, m in public_methods(cls).items() if not n.startswith(MUTATORS) and any(p in PARAMS for p in params(m)[0])]
        for label, names in CASES.items():
            for q in sorted(qs):
                for es in ([(0, 1), (1, 2), (0, 3)], [(1, 2)], [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]):
                    agree(ck, directed, label, names, es, q)
            effects(ck, directed, label, names)
            given(ck, directed, label, names)
