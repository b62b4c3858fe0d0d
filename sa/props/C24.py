"""What a graph hands out is not the graph: every collection reachable from the result of every query (found in the current source),
from a copy, and every collection given to the constructor is changed in every way its kind allows; the graph must show what it showed
before.  A copy is also operated on through its own interface, and the graph through its own, without one showing the other's change."""
from .graphspec import *
from .C25 import GRAPHS, callable_v
from .C20 import ctor_args

TECHNIQUE = "escape and alias analysis on the abstract heap: everything reachable from results and constructor arguments is overwritten"


def reachable(I, v, seen):
    v = I.resolve(v)
    if isinstance(v, Tup):
        for x in v.vs:
            reachable(I, x, seen)
    elif isinstance(v, Phi):
        for g, x in v.alts:
            reachable(I, x, seen)
    elif isinstance(v, Ref) and v.a not in seen:
        seen[v.a] = v
        o = I.obj(v)
        if isinstance(o, Lst):
            for i in o.items:
                reachable(I, i.v, seen)
        elif isinstance(o, Dct):
            for i in o.items:
                reachable(I, i.k, seen)
                reachable(I, i.v, seen)
    return seen


def scribble(net, v):
    """change every collection reachable from v, graphs among them through their operations; the number changed"""
    I = net.I
    k = 0
    for r in list(reachable(I, v, {}).values()):
        o = I.obj(r)
        x, y = net.names[net.stranger], net.names[0]
        if isinstance(o, Lst) and o.kind in ("list", "deque", "set"):
            I.put(r, Lst(o.kind, (It(Tup((x, y))), It(x)), False))
        elif isinstance(o, Dct):
            I.put(r, Dct((DIt(x, C(7)), DIt(Tup((x, y)), C(9)))))
        elif isinstance(o, Nd):
            I.put(r, Nd(I.unk("scribbled").t, o.shape, o.dt)) if o.base is None else None
        elif isinstance(o, Inst) and o.cls.name in ("UndirectedGraph", "DirectedGraph"):
            operate(net, r, o.cls.name == "DirectedGraph")
        else:
            continue
        k += 1
    return k


def operate(net, r, directed):
    """use the operations of a graph that was handed out"""
    I = net.I
    V, E = ("node", "arc") if directed else ("vertex", "edge")
    def call(m, *a):
        s = I.st.copy()
        s2, v, ex = I.run(lambda: I.call(I.getattr(r, m), list(a), {}))
        I.st = s2 if s2 is not None else s
    for a in range(net.n):
        for b in range(net.n):
            if a != b:
                call("remove_" + E, net.pair(a, b))
    for a in range(net.n):
        call("set_%s_weight" % V, net.names[a], C(77))
        call("add_" + E, net.pair(a, net.stranger), C(78))


def results(ck, directed, n, es, q, ps, req):
    cls = DG if directed else UG
    nm = "result of %s on %d names with edges %s" % (cls.split(".")[-1] + "." + q, n, es)
    def go():
        net = Net(ck, n, directed=directed, weights=n + len(es), concrete=True, set_order="fwd", plain=q == "__repr__")
        net.build(range(n), es)
        st = net.I.st
        I = net.I
        before = net.observe(st).frozen()
        vs = variants(net, q, req, ps)
        if vs is None:
            ck.add(nm, "unknown", cls + "." + q, "parameters %s not understood" % (ps,))
            return
        bad = None
        for v in vs:
            I.st = st.copy()
            args = [f() for f in v]
            def do():
                f = I.getattr(net.r, q)
                return I.call(f, args, {}) if callable_v(f) else f
            for s, r, e in net.runf(I.st.copy(), do):
                if e is not None:
                    continue
                I.st = s.copy()
                if isinstance(I.resolve(r), Ref) and I.resolve(r).a == net.r.a:
                    bad = bad or (cls + "." + q, "%s hands out the graph itself" % q)
                    continue
                for x in [r] + args:
                    if not (isinstance(I.resolve(x), Ref) and I.resolve(x).a == net.r.a):
                        scribble(net, x)
                try:
                    after = net.observe(I.st, deep=False).frozen()
                except Odd as x:
                    after = str(x)
                if after != before:
                    bad = bad or (cls + "." + q, "changing what %s(%s) returned or was given makes the graph %s, it was %s" % (q, ", ".join(str(I.desc(a)) for a in args), after, before))
        verdict(ck, net, nm, cls + "." + q, bad)
    ck.scen(nm, go, cls + "." + q)


def inputs(ck, directed, n):
    cls = DG if directed else UG
    nm = "collections given to %s, %d names" % (cls.split(".")[-1], n)
    def go():
        net = Net(ck, n, directed=directed, weights=2, concrete=True)
        I = net.I
        st0 = I.st
        bad = None
        for k, (g, e, v) in enumerate(ctor_args(n, directed)):
            if n > 2 and k % 5:
                continue
            I.st = st0.copy()
            kw, outs = net.ctor(g, e, v)
            shown = None
            for s, r, ex in outs:
                if ex is not None:
                    continue
                I.st = s.copy()
                r = I.resolve(r)
                try:
                    before = net.observe(I.st, on=r, deep=False).frozen()
                    for x in kw.values():
                        scribble(net, x)
                    after = net.observe(I.st, on=r, deep=False).frozen()
                except Odd as x:
                    after = str(x)
                if before != after:
                    bad = bad or (cls + ".__init__", "changing the collections graph %s, edges %s, vertices %s after construction makes the graph %s" % (g, e, v, after))
        verdict(ck, net, nm, cls + ".__init__", bad)
    ck.scen(nm, go, cls + ".__init__")


def kept_inputs(ck, directed, n):
    """operations on the graph do not write into the collections it was built from"""
    cls = DG if directed else UG
    nm = "collections %s was built from while it changes, %d names" % (cls.split(".")[-1], n)
    def go():
        net = Net(ck, n, directed=directed, weights=2, concrete=True)
        I = net.I
        st0 = I.st
        bad = None
        for k, (g, e, v) in enumerate(ctor_args(n, directed)):
            if n > 2 and k % 5:
                continue
            I.st = st0.copy()
            kw, outs = net.ctor(g, e, v)
            for s, r, ex in outs:
                I.st = s.copy()
                if ex is None:
                    operate(net, I.resolve(r), directed)
                now = {a: I.desc(x) for a, x in kw.items()}
                s2 = I.st
                I.st = st0.copy()
                kw2 = net.ctor(g, e, v)[0]
                then = {a: I.desc(x) for a, x in kw2.items()}
                I.st = s2
                for a in now:
                    if now[a] is not then[a]:
                        bad = bad or (cls + ".__init__", "the argument %s is %s after building and changing the graph, it was %s" % (a, now[a], then[a]))
        verdict(ck, net, nm, cls + ".__init__", bad)
    ck.scen(nm, go, cls + ".__init__")


def copies(ck, n, es):
    nm = "copy of the graph on %d names with edges %s" % (n, es)
    def go():
        net = Net(ck, n, weights=n + len(es))
        m = net.build(range(n), es)
        I = net.I
        st = I.st
        bad = None
        for s, r, e in net.run(st, "copy"):
            if e is not None:
                bad = (UG + ".copy", "ends with %s" % e)
                continue
            r = I.resolve(r)
            try:
                got = net.observe(s, on=r)
                if got.frozen() != m.frozen():
                    bad = bad or (UG + ".copy", "the copy is %s, the graph %s" % (got, m))
                if type(I.obj(r)) is not Inst or I.obj(r).cls is not I.obj(net.r).cls:
                    bad = bad or (UG + ".copy", "the copy is of another type")
                for who, other in ((net.r, r), (r, net.r)):
                    for op, a in net.ops((0, 1)):
                        I.st = s.copy()
                        for s2, v, e2 in net.run(I.st, op, *net.args(op, a), on=who):
                            after = net.observe(s2, on=other, deep=False)
                            if after.frozen() != m.frozen():
                                bad = bad or (UG + ".copy", "%s%s on the %s changes the %s to %s" % (op, a, *(("graph", "copy") if who is net.r else ("copy", "graph")), after))
            except Odd as x:
                bad = bad or (UG + ".copy", str(x))
        verdict(ck, net, nm, UG + ".copy", bad)
    ck.scen(nm, go, UG + ".copy")


def run(ck):
    for directed in (False, True):
        for q, (ps, req) in sorted(queries_of(DG if directed else UG).items()):
            for n, es in GRAPHS[directed]:
                results(ck, directed, n, es, q, ps, req)
        for n in (2, 3):
            inputs(ck, directed, n)
            kept_inputs(ck, directed, n)
    for n in (0, 1, 2, 3):
        for es in shapes(n):
            copies(ck, n, es)
