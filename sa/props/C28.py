"""Cuts: every set of vertices of every small graph, given as one name, set, list, tuple, frozenset or dictionary keys."""
from .graphspec import *

TECHNIQUE = "abstract interpretation of the cut and degree queries over every small graph shape and vertex set with symbolic names"


def subsets(n):
    for k in range(2 ** n):
        yield [v for v in range(n) if k >> v & 1]


def crossing(m, S, way):
    if not m.directed:
        return {e for e in m.e if (e[0] in S) != (e[1] in S)}
    return {(a, b) for a, b in m.e if ((a in S and b not in S) if way == "out" else (b in S and a not in S))}


def queries(directed):
    if directed:
        return [("cut", "out", True), ("ncut", "in", True), ("outdegree", "out", False), ("indegree", "in", False), ("connections", "both", False)]
    return [("cut", "", True), ("degree", "", False)]


def arg(net, S, kind):
    ns = [net.names[v] for v in S]
    if kind == "one":
        return ns[0]
    if kind == "tuple":
        return Tup(tuple(ns))
    if kind == "dict":
        return net.w.dct(*[(x, C(0)) for x in ns])
    return net.w.lst(*ns, kind=kind)


def shape(ck, n, es, directed, kinds=("set", "list"), extra=False):
    cls = DG if directed else UG
    nm = "cuts of the graph on %d names with edges %s%s" % (n, es, "" if not extra else " by sets naming a further name")
    def go():
        net = Net(ck, n, directed=directed)
        m = net.build(range(n), es)
        st = net.I.st
        bad = None
        for S in subsets(n):
            for kind in kinds + (("one",) if len(S) == 1 else ()):
                for q, way, isset in queries(directed):
                    net.I.st = st.copy()
                    a = arg(net, S + ([net.n] if extra else []), kind)
                    want = crossing(m, S, way) if way != "both" else crossing(m, S, "in") | crossing(m, S, "out")
                    for s, v, e in net.run(net.I.st, q, a):
                        if e is not None:
                            if not extra or e != REJECT:
                                bad = bad or (cls + "." + q, "%s of %s as %s ends with %s" % (q, S, kind, e))
                            continue
                        net.I.st = s
                        try:
                            got = net.edge_set(v) if isset else net.num_of(v)
                        except Odd as x:
                            bad = bad or (cls + "." + q, "%s of %s as %s: %s" % (q, S, kind, x))
                            continue
                        if got != (want if isset else len(want)):
                            bad = bad or (cls + "." + q, "%s of %s as %s is %s, not %s" % (q, S, kind, got, want if isset else len(want)))
        verdict(ck, net, nm, cls + ".cut", bad)
    ck.scen(nm, go, cls + ".cut")


def run(ck):
    for n in (1, 2, 3, 4):
        for es in shapes(n):
            shape(ck, n, es, False)
    for n in (1, 2, 3):
        for es in shapes(n, True):
            shape(ck, n, es, True)
    for k, es in enumerate(shapes(4, True)):
        if k % (16 if ck.thorough else 256) == 7:
            shape(ck, 4, es, True, ("set",))
    for d in (False, True):
        for es in ([(0, 1)], [(0, 1), (1, 2), (2, 0)] if d else [(0, 1), (1, 2), (0, 2)]):
            shape(ck, 3, es, d, ("set", "list", "tuple", "frozenset", "dict"))
            shape(ck, 3, es, d, extra=True)
