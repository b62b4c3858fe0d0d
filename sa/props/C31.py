"""Tree, cycle and connectivity verdicts and the partition into components, on every labelled graph of up to four vertices and
selected larger ones, with members of sets coming in either order."""
from .graphspec import *

TECHNIQUE = "abstract interpretation of the verdict methods over every small graph shape with symbolic names, against the definitions"


def larger():
    yield 5, [(0, 1), (1, 2), (2, 3), (3, 4), (0, 4)]
    yield 5, [(0, 1), (0, 2), (0, 3), (0, 4)]
    yield 5, [(0, 1), (2, 3), (3, 4), (2, 4)]
    yield 5, [(0, 4), (1, 4), (2, 3)]
    yield 6, [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5)]
    yield 6, [(0, 5), (5, 1), (1, 4), (4, 2), (2, 3)]
    yield 6, [(0, 1), (2, 3), (4, 5), (3, 4), (2, 5)]
    yield 6, [(0, 3), (0, 4), (1, 3), (1, 4), (2, 5)]


def shape(ck, n, es, order):
    nm = "graph on %d vertices with edges %s%s" % (n, es, "" if order == "fwd" else ", sets in the opposite order")
    def go():
        net = Net(ck, n, weights=n + len(es), set_order=order)
        m = net.build(range(n), es)
        st = net.I.st
        comp = m.components()
        want = {"is_connected": n > 0 and len(comp) == 1, "has_spanning_tree": n > 0 and len(comp) == 1, "is_cyclic": m.cyclic(), "is_tree": n > 0 and len(comp) == 1 and not m.cyclic(), "is_empty": n == 0}
        bad = None
        for q, exp in want.items():
            for s, v, e in net.run(st, q):
                net.I.st = s
                if e is not None:
                    bad = bad or (UG + "." + q, "%s ends with %s" % (q, e))
                elif net.truth(v) != exp:
                    bad = bad or (UG + "." + q, "%s is %s" % (q, not exp))
        for s, v, e in net.run(st, "partition"):
            if e is not None:
                bad = bad or (UG + ".partition", "partition ends with %s" % e)
                continue
            net.I.st = s
            try:
                parts = [net.observe(s, on=net.I.resolve(g), deep=False) for g in net.seq(v)]
            except Odd as x:
                bad = bad or (UG + ".partition", "partition: %s" % x)
                continue
            exp = [Model(False, {v: m.v[v] for v in c}, {e: w for e, w in m.e.items() if e[0] in c}).frozen() for c in comp]
            if sorted(p.frozen() for p in parts) != sorted(exp):
                bad = bad or (UG + ".partition", "partition is %s" % (parts,))
        verdict(ck, net, nm, UG, bad)
    ck.scen(nm, go, UG)


def run(ck):
    for n in (0, 1, 2, 3, 4):
        for es in shapes(n):
            for order in ("fwd", "rev"):
                shape(ck, n, es, order)
    for n, es in larger():
        for order in ("fwd", "rev"):
            shape(ck, n, es, order)
    if ck.thorough:
        for k, es in enumerate(shapes(5)):
            if k % 4 == 1:
                shape(ck, 5, es, "fwd")
