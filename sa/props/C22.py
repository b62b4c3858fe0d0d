"""Directed graphs: the same exploration as for undirected graphs, with demands, capacities and removal of isolated nodes."""
from .graphspec import *
from .C20 import closure, constructors, large, step

TECHNIQUE = "heap abstraction over symbolic names; fixpoint over reachable digraph heaps against a set model of nodes and arcs"


def demands(ck):
    """the demands given with an arc go to exactly the nodes it creates"""
    cases = [([], (1, 2), (1, 2)), ([], None, (0, 0)), ([0], 1, (None, 1)), ([0], (1,), (None, 1)), ([1], 1, (1, None)), ([1], (1, 2), (1, None)), ([0], None, (None, 0)), ([0, 1], 1, (None, None)), ([0, 1], (1, 2), (None, None)),
             ([], (1, 0), (1, 0)), ([], (0, 1), (0, 1)), ([], (0, 0), (0, 0)), ([], (2, 2), (2, 2)), ([0], 0, (None, 0)), ([1], 0, (0, None)), ([0], (0,), (None, 0)), ([1], (0,), (0, None))]
    for have, dem, want in cases:
        nm = "add_arc with nodes %s present and demands %s" % (have, dem)
        def go():
            net = Net(ck, 2, directed=True, weights=4)
            m = net.build(have, [], weights=False)
            d = NONE if dem is None else Tup(tuple(net.ws[k] for k in dem)) if isinstance(dem, tuple) else net.ws[dem]
            st = net.I.st
            bad = None
            for s, v, e in net.run(st, "add_arc", net.pair(0, 1), net.ws[3], d):
                if e is not None:
                    bad = bad or (DG + ".add_arc", "ends with %s" % e)
                    continue
                try:
                    got = net.observe(s)
                except Odd as x:
                    bad = bad or (DG + ".add_arc", str(x))
                    continue
                exp = Model(True, {0: 0 if 0 in have else want[0], 1: 0 if 1 in have else want[1]}, {(0, 1): 3})
                if got.frozen() != exp.frozen():
                    bad = bad or (DG + ".add_arc", "the graph is %s, not %s" % (got, exp))
            verdict(ck, net, nm, DG + ".add_arc", bad)
        ck.scen(nm, go, DG + ".add_arc")


def run(ck):
    closure(ck, "all histories over 1 node", 1, (0, 1), directed=True)
    closure(ck, "all histories over 2 nodes", 2, (0, 1), directed=True)
    closure(ck, "all histories over 3 nodes", 3, (0,), directed=True)
    closure(ck, "histories over 2 nodes with three weights", 2, (0, 1, 2), directed=True)
    closure(ck, "weighted histories over 3 nodes with at most %d arcs" % (2 if ck.thorough else 1), 3, (0, 1), directed=True, max_edges=2 if ck.thorough else 1)
    constructors(ck, "constructor arguments over 2 nodes", 2, directed=True)
    constructors(ck, "constructor arguments over 3 nodes", 3, directed=True)
    large(ck, 3, 1 if ck.thorough else 4, directed=True)
    demands(ck)
