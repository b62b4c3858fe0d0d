"""Undirected graphs: after every history of operations, and after construction, the observable graph is the one the accepted
operations describe; all views of it agree with each other."""
from .graphspec import *

TECHNIQUE = "heap abstraction over symbolic ordered names; fixpoint over all reachable graph heaps against a set model of vertices and edges"


def step(net):
    def edge(st, m, op, a, want, outs, h):
        for s, v, e in outs:
            if e is not None and want is not None:
                return net.cls + "." + op, "after %s: %s" % (h, e)
            if e is None and want is not None:
                try:
                    got = net.observe(s)
                except Odd as x:
                    return net.cls + "." + op, "after %s: %s" % (h, x)
                if got.frozen() != want.frozen():
                    return net.cls + "." + op, "after %s: the graph is %s, not %s" % (h, got, want)
        return None
    return edge


def closure(ck, nm, n, weights, directed=False, limit=None, **kw):
    def go():
        net = Net(ck, n, directed=directed, weights=max(weights))
        bad = net.explore(weights, limit=limit, edge=step(net), **kw)
        verdict(ck, net, nm, net.cls, bad)
    ck.scen(nm, go, DG if directed else UG)


def ctor_args(n, directed=False):
    """constructor arguments over n names: adjacency (in either or both directions), weighted edges, weighted vertices"""
    from itertools import product
    def adjs():
        for ks in product(*[[None] + [c for r in range(n) for c in combinations([x for x in range(n) if x != v], r)] for v in range(n)]):
            yield {v: list(k) for v, k in enumerate(ks) if k is not None}
    gs = list(adjs())
    full = [(a, b) for a in range(n) for b in range(n) if a != b]
    es = [None, {}] + [{e: 1} for e in full] + [{full[0]: 1, full[-1]: 2}]
    if directed:
        es.append({(0, 1): 1, (1, 0): 2})
    vs = [None, {}, {0: 2}, {n - 1: 1, 0: 2}]
    if n == 2:
        for g in [None] + gs:
            for e in es:
                for v in vs:
                    yield g, e, v
    else:
        for k, g in enumerate(gs):
            yield g, es[k % len(es)], vs[k % len(vs)]
    yield {0: [0]}, None, None
    yield {0: [1], 1: [1]}, None, None
    yield None, {(1, 1): 1}, None
    yield {1: [0]}, {(0, 1): 1, (0, 0): 1}, None


def constructors(ck, nm, n, directed=False):
    def go():
        net = Net(ck, n, directed=directed, weights=2)
        bad = None
        st0 = net.I.st
        for g, e, v in ctor_args(n, directed):
            for kind in ("set", "list"):
                net.I.st = st0.copy()
                want = net.ctor_model(g, e, v)
                kw, outs = net.ctor(g, e, v, kind)
                h = "construction from graph %s, edges %s, vertices %s" % (g, e, v)
                for s, r, ex in outs:
                    if want is None:
                        if ex != REJECT:
                            bad = bad or (net.cls + ".__init__", "%s %s" % (h, "is accepted" if ex is None else "ends with " + ex))
                    elif ex is not None:
                        bad = bad or (net.cls + ".__init__", "%s ends with %s" % (h, ex))
                    else:
                        try:
                            got = net.observe(s, on=net.I.resolve(r), deep=(kind == "set"))
                            if got.frozen() != want.frozen():
                                bad = bad or (net.cls + ".__init__", "%s: the graph is %s, not %s" % (h, got, want))
                        except Odd as x:
                            bad = bad or (net.cls + ".__init__", "%s: %s" % (h, x))
        verdict(ck, net, nm, net.cls + ".__init__", bad)
    ck.scen(nm, go, (DG if directed else UG) + ".__init__")


def large(ck, n, limit, directed=False):
    """each operation from a selection of larger graphs"""
    for k, es in enumerate(list(shapes(n, directed))[::limit]):
        nm = "each operation on the graph of %d names with edges %s" % (n, es)
        def go():
            net = Net(ck, n, directed=directed, weights=n + len(es) + 1)
            drop = [v for v in range(n) if not any(v in e for e in es)][: k % 2]      # now and then a name that is not in the graph
            m = net.build([v for v in range(n) if v not in drop], es)
            st = net.I.st
            new = len(net.ws) - 1
            bad = None
            check = step(net)
            for op, a in net.ops((0, new)):
                net.I.st = st.copy()
                want = apply(m, op, a)
                outs = net.run(net.I.st, op, *net.args(op, a))
                h = "%s(%s) on %s" % (op, ", ".join(net.txt(x, i) for i, x in enumerate(a)), m)
                bad = bad or check(st, m, op, a, want, [(s, v, e) for s, v, e in outs], h)
            verdict(ck, net, nm, net.cls, bad)
        ck.scen(nm, go, DG if directed else UG)


def run(ck):
    closure(ck, "all histories over 1 name", 1, (0, 1))
    closure(ck, "all histories over 2 names", 2, (0, 1))
    closure(ck, "all histories over 3 names", 3, (0,))
    constructors(ck, "constructor arguments over 2 names", 2)
    constructors(ck, "constructor arguments over 3 names", 3)
    large(ck, 4, 1 if ck.thorough else 4)
    closure(ck, "histories over 2 names with three weights", 2, (0, 1, 2))
    closure(ck, "weighted histories over 3 names", 3, (0, 1))
    closure(ck, "histories over 4 names", 4, (0,))
