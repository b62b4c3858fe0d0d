"""Equality and printing of undirected graphs: two graphs are equal exactly when they have the same vertices, edges and weights, whatever
the order and orientation in which they were built and whatever was added and removed on the way; the printed form lists every vertex
with its neighbours.  Decided on the abstract verdict and text for every small graph."""
from .graphspec import *
from ..terms import mk

TECHNIQUE = "abstract interpretation of equality and printing over every small graph shape built in different ways"
EQ, RE = UG + ".__eq__", UG + ".__repr__"


def make(net, verts, edges, flip=False, detour=()):
    """a graph from vertices and weighted edges"""
    I = net.I
    r = net.w.new(UG)
    call = lambda m, *a: I.call(I.getattr(r, m), list(a), {})
    for v, x in verts:
        call("add_vertex", net.names[v], C(x))
    for (a, b), x in edges:
        call("add_edge", net.pair(b, a) if flip else net.pair(a, b), C(x))
    for a, b in detour:
        call("add_edge", net.pair(a, b), C(7))
        call("remove_edge", net.pair(b, a))
    return r


def equality(ck, n, es):
    verts = [(v, v % 2 * 3) for v in range(n)]
    edges = [(e, i % 3) for i, e in enumerate(es)]
    free = [(a, b) for a in range(n) for b in range(a + 1, n) if (a, b) not in es]
    others = [("built in the opposite order", True, lambda net: make(net, verts[::-1], edges[::-1], flip=True))]
    if free:
        others.append(("after an edge came and went", True, lambda net: make(net, verts, edges, detour=free[:1])))
        others.append(("with one more edge", False, lambda net: make(net, verts, edges + [(free[-1], 0)])))
    if es:
        others.append(("with one edge less", False, lambda net: make(net, verts, edges[:-1])))
        others.append(("with another edge weight", False, lambda net: make(net, verts, edges[:-1] + [(es[-1], 5)])))
        others.append(("with another weight on the first edge", False, lambda net: make(net, verts, [(es[0], 5)] + edges[1:])))
    if es and free:
        others.append(("with another edge", False, lambda net: make(net, verts, edges[:-1] + [(free[0], edges[-1][1])])))
    if n:
        others.append(("with another vertex weight", False, lambda net: make(net, verts[:-1] + [(n - 1, 9)], edges)))
        others.append(("with one more vertex", False, lambda net: make(net, verts + [(n, 0)], edges)))
    for what, exp, other in others:
        nm = "equality/%d vertices/%s/%s" % (n, es, what)
        def go():
            net = Net(ck, n, concrete=True)
            a = net.r = make(net, verts, edges)
            b = other(net)
            st, bad = net.I.st, None
            for x, y in ((a, b), (b, a)):
                for s, v, e in net.runf(st, lambda: net.I.compare("Eq", x, y)):
                    net.I.st = s
                    if e is not None:
                        bad = bad or (EQ, "comparing graphs ends with %s" % e)
                    elif net.truth(v) != exp:
                        bad = bad or (EQ, "a graph and the same %s compare as %s" % (what, not exp))
            verdict(ck, net, nm, EQ, bad)
        ck.scen(nm, go, EQ)


def printing(ck, n, es, order):
    nm = "printed/%d vertices/%s/%s" % (n, es, order)
    def go():
        net = Net(ck, n, concrete=True, plain=True, set_order=order)
        net.r = make(net, [(v, 0) for v in range(n)][::-1], [(e, 1) for e in es], flip=order == "rev")
        bad = None
        want = "\n".join("name%d: %s" % (v, "-".join("name%d" % u for u in range(n) if (min(u, v), max(u, v)) in es)) for v in range(n))
        for s, v, e in net.runf(net.I.st, lambda: net.I.call(Ext("builtins.repr"), [net.r], {})):
            net.I.st = s
            if e is not None:
                bad = bad or (RE, "printing ends with %s" % e)
                continue
            v = net.I.resolve(v)
            if not isinstance(v, C):
                raise Giveup("text of the graph")
            if v.v != want:
                bad = bad or (RE, "the printed form is %r, not %r" % (v.v, want))
        verdict(ck, net, nm, RE, bad)
    ck.scen(nm, go, RE)


def run(ck):
    for n in (0, 1, 2, 3, 4):
        for es in shapes(n):
            equality(ck, n, es)
    for n in (0, 1, 2, 3, 4):
        for k, es in enumerate(shapes(n)):
            if n < 4 or ck.thorough or k % 5 == 0:
                for order in ("fwd", "rev"):
                    printing(ck, n, es, order)
