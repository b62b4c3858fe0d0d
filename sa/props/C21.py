"""Edges of an undirected graph have no direction: in every reachable graph, each operation is carried out with the ends in both
orders and must answer and act alike; constructors are compared with edges, adjacency and cut sets given in either orientation."""
from .graphspec import *

TECHNIQUE = "relational heap abstraction: both orientations of every edge argument from every reachable abstract graph"


def outcome(net, s, v, e):
    if e is not None:
        return ("raises", e)
    try:
        m = net.observe(s, deep=False).frozen()
    except Odd as x:
        m = ("odd", str(x))
    net.I.st = s
    return ("returns", str(net.I.desc(net.I.resolve(v))) if v is not None else None, m)


def mirrored(net, weights):
    E = [("add_edge", 1), ("set_edge_weight", 1), ("remove_edge", 0), ("has_edge", 0), ("get_edge_weight", 0)]
    def each(st, m, hist):
        for a in range(net.n):
            for b in range(a + 1, net.n):
                for op, wants_w in E:
                    for w in (weights if wants_w else (0,)):
                        outs = []
                        for p in ((a, b), (b, a)):
                            net.I.st = st.copy()
                            args = [net.pair(*p)] + ([net.ws[w]] if wants_w else [])
                            outs.append(sorted((outcome(net, *o) for o in net.run(net.I.st, op, *args)), key=str))
                        if outs[0] != outs[1]:
                            return net.cls + "." + op, "after %s: %s on (n%d, n%d) %s; on (n%d, n%d) %s" % (hist, op, a, b, outs[0], b, a, outs[1])
        return None
    return each


def closure(ck, nm, n, weights):
    def go():
        net = Net(ck, n, weights=max(weights))
        bad = net.explore(weights, limit=None, each=mirrored(net, weights))
        verdict(ck, net, nm, UG, bad)
    ck.scen(nm, go, UG)


def equal(ck):
    """graphs that differ only in the orientation they were given in are equal, and unequal to graphs that differ in more"""
    for n in (2, 3):
        nm = "equality of graphs on %d names built in either orientation" % n
        def go():
            net = Net(ck, n, weights=2)
            base = net.I.st
            bad = None
            made = []
            for es in shapes(n):
                for flip in (False, True):
                    for how in ("edges", "graph", "steps"):
                        net.I.st = base.copy()
                        ps = [(b, a) if flip else (a, b) for a, b in es]
                        if how == "edges":
                            kw, outs = net.ctor(None, {p: 0 for p in ps}, {v: 0 for v in range(n)})
                        elif how == "graph":
                            g = {v: [] for v in range(n)}
                            for a, b in ps:
                                g[a].append(b)
                            kw, outs = net.ctor(g)
                        else:
                            def steps():
                                r = net.I.call(net.w.cls(UG), [], {})
                                for v in range(n):
                                    net.I.call(net.I.getattr(r, "add_vertex"), [net.names[v]], {})
                                for p in reversed(ps):
                                    net.I.call(net.I.getattr(r, "add_edge"), [net.pair(*p)], {})
                                return r
                            outs = net.runf(net.I.st, steps)
                        s, r, e = outs[0]
                        if e is not None or len(outs) != 1:
                            bad = bad or (UG, "building %s by %s ends with %s" % (ps, how, [o[2] for o in outs]))
                            continue
                        made.append((es, flip, how, s, net.I.resolve(r)))
            # compare pairs by rebuilding both in one heap: the states are independent, so join them
            def both(x, y):
                net.I.st = base.copy()
                rs = []
                for es, flip, how, s, r in (x, y):
                    ps = [(b, a) if flip else (a, b) for a, b in es]
                    kw, outs = net.ctor(None, {p: 0 for p in ps}, {v: 0 for v in range(n)}) if how != "graph" else net.ctor({v: [b if a == v else a for a, b in ps if a == v] for v in range(n)})
                    net.I.st = outs[0][0]
                    rs.append(net.I.resolve(outs[0][1]))
                return net.truth(net.w.do(lambda: net.I.compare("Eq", rs[0], rs[1])))
            for i, x in enumerate(made):
                for y in (made[i + 1:] if n == 2 else made[i + 1:: 5]):
                    if x[2] == "steps" or y[2] == "steps":
                        continue
                    if both(x, y) != (x[0] == y[0]):
                        bad = bad or (UG + ".__eq__", "edges %s given by %s%s and edges %s given by %s%s compare %s" % (x[0], x[2], " reversed" if x[1] else "", y[0], y[2], " reversed" if y[1] else "", x[0] != y[0]))
            verdict(ck, net, nm, UG + ".__eq__", bad)
        ck.scen(nm, go, UG + ".__eq__")


def run(ck):
    closure(ck, "all histories over 2 names", 2, (0, 1))
    closure(ck, "all histories over 3 names", 3, (0,))
    if ck.thorough:
        closure(ck, "weighted histories over 3 names", 3, (0, 1))
    equal(ck)
    from .C20 import constructors
    constructors(ck, "constructor arguments over 2 names in both orientations", 2)
    constructors(ck, "constructor arguments over 3 names in both orientations", 3)
