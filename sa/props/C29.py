"""Traversals and other queries of undirected graphs, on every labelled graph of up to four vertices with symbolic ordered names."""
from .graphspec import *

TECHNIQUE = "abstract interpretation of the traversals over every small graph shape with symbolic ordered names, against reference traversals"


def bfs(m, s, order=lambda x: x):
    out, todo = [], [s]
    while todo:
        x = todo.pop(0)
        if x not in out:
            out.append(x)
            todo += sorted(m.succ(x), key=order)
    return out


def dfs(m, s, order=lambda x: x):
    out = []
    def go(x):
        if x not in out:
            out.append(x)
            for y in sorted(m.succ(x), key=order):
                go(y)
    go(s)
    return out


def shape(ck, n, es, set_order):
    nm = "graph on %d vertices with edges %s%s" % (n, es, "" if set_order == "fwd" else ", sets in the opposite order")
    def go():
        net = Net(ck, n, set_order=set_order)
        m = net.build(range(n), es)
        st = net.I.st
        bad = None
        for s in range(n):
            for what, ref, call in (("bfs", bfs, ("bfs",)), ("dfs", dfs, ("dfs",)), ("traverse", bfs, ("traverse",)), ("traverse(bfs)", bfs, ("traverse", C("bfs"))), ("traverse(dfs)", dfs, ("traverse", C("dfs")))):
                outs = net.run(st, call[0], net.names[s], *call[1:])
                for q, v, e in outs:
                    if e is not None:
                        bad = bad or (UG + "." + call[0], "%s from n%d ends with %s" % (what, s, e))
                        continue
                    net.I.st = q
                    try:
                        got = [net.name_of(x) for x in net.seq(v, once=call[0] == "traverse")]
                    except Odd as x:
                        bad = bad or (UG + "." + call[0], "%s from n%d: %s" % (what, s, x))
                        continue
                    if got != ref(m, s):
                        bad = bad or (UG + "." + call[0], "%s from n%d gives %s, not %s" % (what, s, got, ref(m, s)))
        for what in ("bfs", "dfs"):
            for q, v, e in net.run(st, what, net.names[net.stranger]):
                if e != "ValueError":
                    bad = bad or (UG + "." + what, "%s from an unknown vertex %s" % (what, "is answered" if e is None else "ends with " + e))
        verdict(ck, net, nm, UG + ".traverse", bad)
    ck.scen(nm, go, UG + ".traverse")


def ordered(ck, n, es, perm):
    """an order callback: each neighbourhood is entered in ascending order of the callback"""
    nm = "graph on %d vertices with edges %s, order %s" % (n, es, perm)
    def go():
        net = Net(ck, n)
        I = net.I
        m = net.build(range(n), es)
        rank = net.w.dct(*[(net.names[v], C(perm[v])) for v in range(n)])
        order = net.w.do(lambda: I.getattr(rank, "get"))
        st = net.I.st
        bad = None
        for s in range(n):
            for meth, ref in (("bfs", bfs), ("dfs", dfs)):
                for q, v, e in net.run(st, "traverse", net.names[s], C(meth), order):
                    if e is not None:
                        bad = bad or (UG + ".traverse", "%s from n%d in an order given by a callback ends with %s" % (meth, s, e))
                        continue
                    net.I.st = q
                    got = [net.name_of(x) for x in net.seq(v, once=True)]
                    want = ref(m, s, lambda x: perm[x])
                    if got != want:
                        bad = bad or (UG + ".traverse", "%s from n%d with the order %s gives %s, not %s" % (meth, s, perm, got, want))
        verdict(ck, net, nm, UG + ".traverse", bad)
    ck.scen(nm, go, UG + ".traverse")


def run(ck):
    for es in ([(0, 1), (0, 2), (0, 3), (1, 2)], [(0, 1), (0, 2), (1, 3), (2, 3)], [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]):
        for perm in ((3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1)):
            ordered(ck, 4, es, perm)
    for n in (1, 2, 3, 4):
        for es in shapes(n):
            shape(ck, n, es, "fwd")
    for n in (3, 4):
        for es in shapes(n):
            if len(es) >= 3:
                shape(ck, n, es, "rev")
