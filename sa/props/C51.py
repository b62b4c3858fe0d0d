"""The residual graph of a flow: for every digraph shape and every pattern of unused, partly used and saturated arcs, with symbolic capacities
and flows, the arcs and capacities of `create_residual` are compared with what the flow leaves over in each direction."""
import itertools
import random
from .graphspec import *
from .C30 import sign, total
from .. import terms as tm

TECHNIQUE = "abstract interpretation over symbolic capacities and flows for every usage pattern of every small digraph, compared term by term"
A = DG + ".create_residual"


def one(ck, n, es, pats):
    nm = "residual graph on %d nodes with arcs %s" % (n, es)
    def go():
        k = 0
        for low, pat in [(low, p) for low in (False, True) for p in pats]:       # amounts far above one, and far below
            # capacity of arc i: symbol of rank 2(i+1); partial flow on it: rank 2i+1
            net = Net(ck, n, directed=True, scale=[2 * (i + 1) for i in range(len(es))] + [2 * i + 1 for i in range(len(es))], low=low, set_order="fwd", exact=True, rounds=200)
            caps = {e: net.ws[i + 1] for i, e in enumerate(es)}
            for i, e in enumerate(es):
                if pat[i] == "no capacity":
                    caps[e] = C(0)
            part = {e: net.ws[len(es) + i + 1] for i, e in enumerate(es)}
            net.r = net.w.new(DG, arcs=net.w.dct(*[(net.pair(*e), caps[e]) for e in es]), nodes=net.w.dct(*[(net.names[v], C(0)) for v in range(n)]))
            fl, given = {}, []
            for e, p in zip(es, pat):
                fl[e] = {"absent": C(0), "unused": C(0), "no capacity": C(0), "part": part[e], "full": caps[e], "over": part[e]}[p]
                if p == "over":
                    fl[e] = net.w.do(lambda: net.I.binop("Add", caps[e], part[e]))
                if p != "absent":
                    given.append((net.pair(*e), fl[e]))
            flow = net.w.dct(*given)
            shown = net.I.desc(flow)
            t = lambda v: net.I.desc(v)
            want = {}
            for (a, b) in es:
                left = tm.sub(t(caps[(a, b)]), t(fl[(a, b)]))
                for x, d in (((a, b), left), ((b, a), t(fl[(a, b)]))):
                    want[x] = tm.add(want.get(x, const(0)), d)
            want = {x: d for x, d in want.items() if sign(d) != 0}
            how = "arcs %s with flow %s" % ({e: str(t(c)) for e, c in caps.items()}, {e: p for e, p in zip(es, pat)})
            outs = net.run(net.I.st, "create_residual", flow)
            k += 1
            for s, v, e in outs:
                net.I.st = s
                bad = None
                if "over" in pat:
                    if e is None or not exc_isa(e, "ArithmeticError"):
                        bad = "a flow above capacity %s" % ("is answered" if e is None else "ends with " + e)
                elif e is not None:
                    bad = "ends with " + e
                else:
                    v = net.I.resolve(v)
                    if v == net.r:
                        bad = "the graph itself is returned"
                    net.I.st = s.copy()
                    got = {net.edge_of(x): None for x in net.seq(net.prop(net.I.st, "arcs", v))}
                    cap = capacities(net, v)
                    if set(got) != set(want):
                        bad = bad or "the residual arcs are %s, not %s" % (sorted(got), sorted(want))
                    elif cap is not None:
                        for x, d in want.items():
                            if sign(tm.sub(cap[x], d)) != 0:
                                bad = bad or "the residual capacity of %s is %s, not %s" % (x, cap[x], d)
                if net.I.imprecise:
                    ck.add(nm, "unknown", A, "imprecise: %s" % (net.I.imprecise[:2],))
                    return
                if bad:
                    ck.add(nm, "violated", A, "%s: %s" % (how, bad))
                    return
            ck.absorb()
        ck.ok(nm, A, "%d usage patterns" % k)
    ck.scen(nm, go, A)


def refused(ck, n, es, missing):
    """negative amounts and arcs that are not there"""
    nm = "refused flows on %d nodes with arcs %s" % (n, es)
    def go():
        for i in range(len(es) + len(missing)):
            net = Net(ck, n, directed=True, scale=[2 * (k + 1) for k in range(len(es))], set_order="fwd", exact=True, rounds=200)
            net.r = net.w.new(DG, arcs=net.w.dct(*[(net.pair(*e), net.ws[k + 1]) for k, e in enumerate(es)]), nodes=net.w.dct(*[(net.names[v], C(0)) for v in range(n)]))
            given = [(net.pair(*e), C(0) if k != i else net.w.do(lambda: net.I.binop("Sub", C(0), net.ws[k + 1]))) for k, e in enumerate(es)]
            if i >= len(es):
                given.insert(i % 2, (net.pair(*missing[i - len(es)]), C(0)))
            for s, v, e in net.run(net.I.st, "create_residual", net.w.dct(*given)):
                net.I.st = s
                if net.I.imprecise:
                    ck.add(nm, "unknown", A, "imprecise: %s" % (net.I.imprecise[:2],))
                    return
                if e is None or not exc_isa(e, "ValueError"):
                    ck.add(nm, "violated", A, "a flow %s %s" % ("negative on %s" % (es[i],) if i < len(es) else "naming the missing arc %s" % (missing[i - len(es)],), "is answered" if e is None else "ends with " + e))
                    return
            ck.absorb()
        ck.ok(nm, A, "%d flows" % (len(es) + len(missing)))
    ck.scen(nm, go, A)


def capacities(net, r):
    """capacities of a digraph have no public accessor: read through the usual private dictionary, when there is one"""
    v = net.I.obj(r).get("_arcs")
    if not isinstance(v, Ref) or not isinstance(net.I.obj(v), Dct):
        return None
    return {net.edge_of(k): net.I.desc(x) for k, x in net.pairs(v)}


def run(ck):
    rnd = random.Random(ck.seed)
    opts = ["absent", "unused", "part", "full", "no capacity", "over"]
    for n in (2, 3):
        for es in shapes(n, True):
            ps = list(itertools.product(opts[:5], repeat=len(es))) + [tuple("over" if i == k else "part" for i in range(len(es))) for k in range(len(es))]
            keep = 400 if ck.thorough else 36
            if len(ps) > keep:
                uniform = [p for p in ps if len(set(p)) == 1 or "over" in p]
                ps = uniform + rnd.sample(ps, keep)
            one(ck, n, es, ps)
            refused(ck, n, es, [(a, b) for a in range(n + 1) for b in range(n + 1) if a != b and (a, b) not in es][:4])
