"""Duplicates, loops, unknown parts and negative weights are rejected with ValueError, everything else is accepted: the outcome of every
operation from every reachable graph is compared with the set model, for arbitrary symbolic weights the sign decides."""
from .graphspec import *
from .C20 import ctor_args

TECHNIQUE = "heap abstraction over symbolic names; outcome of every operation from every reachable graph against the acceptance rule of the set model"


def allowed(net):
    def edge(st, m, op, a, want, outs, h):
        for s, v, e in outs:
            if want is None and e != REJECT:
                return net.cls + "." + op, "after %s: %s" % (h, "accepted" if e is None else e)
            if want is not None and e is not None:
                return net.cls + "." + op, "after %s: %s" % (h, e)
        return None
    return edge


def lookups(net):
    """asking for the weight of something unknown"""
    def each(st, m, hist):
        if net.directed:
            return None
        for a in range(net.n + 1):
            for q, arg, there in [("get_vertex_weight", net.names[a], a in m.v)] + [("get_edge_weight", net.pair(a, b), a != b and m.key(a, b) in m.e) for b in range(net.n + 1)]:
                for s, v, e in net.run(st, q, arg):
                    if (e != REJECT) if not there else (e is not None):
                        return net.cls + "." + q, "after %s: %s of %s is %s" % (hist, q, net.I.desc(arg), "answered" if e is None else e)
        return None
    return each


def closure(ck, nm, n, weights, directed=False, **kw):
    def go():
        net = Net(ck, n, directed=directed, weights=max(weights))
        bad = net.explore(weights, limit=None, edge=allowed(net), each=lookups(net), **kw)
        verdict(ck, net, nm, net.cls, bad)
    ck.scen(nm, go, DG if directed else UG)


def strangers(ck, directed):
    """names the graph has never seen"""
    for n in (0, 1, 2, 3):
        for es in list(shapes(n, directed))[:: 3 if directed else 1]:
            nm = "unknown names on the %s on %d names with edges %s" % ("digraph" if directed else "graph", n, es)
            def go():
                net = Net(ck, n, directed=directed, weights=n + len(es) + 1)
                m = net.build(range(n), es)
                st = net.I.st
                w = len(net.ws) - 1
                V, E = ("node", "arc") if directed else ("vertex", "edge")
                z = net.stranger
                bad = None
                check = allowed(net)
                ops = [("set_%s_weight" % V, (z, w)), ("add_" + V, (z, w))]
                for a in range(n):
                    for p in ((a, z), (z, a)):
                        ops += [("set_%s_weight" % E, (p, w)), ("remove_" + E, (p,)), ("add_" + E, (p, w))]
                ops += [("add_" + E, ((z, z), w)), ("remove_" + E, ((z, z),)), ("set_%s_weight" % E, ((z, z), w))]
                for op, a in ops:
                    net.I.st = st.copy()
                    outs = net.run(net.I.st, op, *net.args(op, a))
                    bad = bad or check(st, m, op, a, apply(m, op, a), outs, "%s%s" % (op, a))
                bad = bad or lookups(net)(st, m, "construction")
                verdict(ck, net, nm, net.cls, bad)
            ck.scen(nm, go, DG if directed else UG)


def signs(ck):
    """any weight at all: rejected exactly when negative (undirected), accepted always (directed)"""
    for directed in (False, True):
        V, E = ("node", "arc") if directed else ("vertex", "edge")
        cls = DG if directed else UG
        for op, mkarg in (("add_" + V, lambda net: net.names[2]), ("add_" + E, lambda net: net.pair(0, 2)), ("add_" + E, lambda net: net.pair(2, 3)), ("set_%s_weight" % V, lambda net: net.names[0]),
                          ("set_%s_weight" % E, lambda net: net.pair(0, 1)), ("set_%s_weight" % E, lambda net: net.pair(1, 0))):
            if directed and op == "set_arc_weight" and mkarg(FAKE) == (1, 0):
                continue
            nm = "%s with any weight on %s" % (op, mkarg(FAKE))
            def go():
                net = Net(ck, 3, directed=directed)
                net.build([0, 1], [(0, 1)], weights=False)
                x = net.w.sc("x")
                st = net.I.st
                net.I.st = st.copy()
                res = net.I.run(lambda: net.I.call(net.I.getattr(net.r, op), [mkarg(net), x], {}))
                t = net.I.desc(x)
                ck.outcome(nm, net.w, (res[0], None, res[2]), lambda ev: ("raise", {"ValueError"}) if not directed and ev.ev(t) < 0 else ("ok",), cls + "." + op, n=12, rule="negative weights")
            ck.scen(nm, go, cls + "." + op)


class _Fake:
    names = ["n0", "n1", "n2", "n3"]
    def pair(self, a, b):
        return (a, b)


FAKE = _Fake()


def given_weights(ck):
    """weights given to the constructor"""
    for what in ("edges", "vertices"):
        nm = "constructor with any weight in %s" % what
        def go():
            net = Net(ck, 2)
            x = net.w.sc("x")
            kw = {what: net.w.dct((net.pair(1, 0) if what == "edges" else net.names[0], x))}
            res = net.I.run(lambda: net.I.call(net.w.cls(UG), [], kw))
            t = net.I.desc(x)
            ck.outcome(nm, net.w, (res[0], None, res[2]), lambda ev: ("raise", {"ValueError"}) if ev.ev(t) < 0 else ("ok",), UG + ".__init__", n=12, rule="negative weights")
        ck.scen(nm, go, UG + ".__init__")
    for what in ("first", "second"):
        nm = "add_edge with an empty %s end" % what
        def go():
            net = Net(ck, 1)
            net.build([0], [])
            a = Tup((C(""), net.names[0]) if what == "first" else (net.names[0], C("")))
            bad = None
            for s, v, e in net.run(net.I.st, "add_edge", a):
                if e != REJECT:
                    bad = (UG + ".add_edge", "an edge to the empty name %s" % ("is accepted" if e is None else "ends with " + e))
            verdict(ck, net, nm, UG + ".add_edge", bad)
        ck.scen(nm, go, UG + ".add_edge")


def searches(ck):
    """the named vertices of searches and flows must exist, source and sink must differ"""
    for directed, qs in ((False, ("bfs", "dfs", "traverse", "shortest_path", "formulate_shortest_path")), (True, ("preflow_push", "ford_fulkerson"))):
        for q in qs:
            nm = "%s with unknown names" % q
            cls = DG if directed else UG
            def go():
                net = Net(ck, 2, directed=directed, weights=3, concrete=True)
                net.build([0, 1], [(0, 1)])
                st = net.I.st
                bad = None
                z = net.stranger
                cases = [(z,)] if q in ("bfs", "dfs", "traverse") else [(z, 0), (0, z), (z, z)] + ([(0, 0)] if directed else [])
                for c in cases:
                    def do():
                        v = net.I.call(net.I.getattr(net.r, q), [net.names[x] for x in c], {})
                        from ..builtin_models import iter_items
                        iter_items(net.I, v)
                        return v
                    for s, v, e in net.runf(st, do):
                        if e != REJECT:
                            bad = bad or (cls + "." + q, "%s%s %s" % (q, c, "is answered" if e is None else "ends with " + e))
                verdict(ck, net, nm, cls + "." + q, bad)
            ck.scen(nm, go, cls + "." + q)


def constructors(ck, n, directed):
    from .C20 import constructors as cc
    cc(ck, "constructor arguments over %d %s" % (n, "nodes" if directed else "vertices"), n, directed)


def run(ck):
    closure(ck, "all histories over 2 names", 2, (0, 1))
    closure(ck, "all histories over 3 names", 3, (0,))
    closure(ck, "all histories over 2 nodes", 2, (0, 1), directed=True)
    closure(ck, "histories over 3 nodes with at most 2 arcs", 3, (0,), directed=True, max_edges=2)
    strangers(ck, False)
    strangers(ck, True)
    signs(ck)
    given_weights(ck)
    searches(ck)
    for d in (False, True):
        constructors(ck, 2, d)
