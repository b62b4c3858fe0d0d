"""Maximum flows are maximum: both flow methods are interpreted on digraph shapes with symbolic capacities whose order of magnitude is fixed
(each at least a million times the next smaller one, some equal, some zero), so that every comparison the algorithms make is decided for
all such capacities at once; the flow returned must be a term-by-term feasible flow whose value is the capacity of a smallest cut."""
import itertools
import random
from .graphspec import *
from .. import terms as tm

TECHNIQUE = "abstract interpretation over symbolic capacities with a fixed order of magnitude (every comparison decided for the whole family), against all cuts"
NOTE = "Bounded: digraphs of up to 4 nodes (some of 5), capacities in families of fixed order of magnitude (with ties and zeros). Trusted: the interpreter's models of Python; the cut enumeration in the check."
METHODS = ("ford_fulkerson", "preflow_push")


def sign(t):
    """sign of a sum of capacities, or None"""
    if tm.is_lin_const(t):
        k = t.args[0]
        return (k > 0) - (k < 0)
    lo, hi = tm.bounds(t)
    return 1 if lo > 0 else -1 if hi < 0 else None


def least(ts):
    best = ts[0]
    for t in ts[1:]:
        s = sign(tm.sub(t, best))
        if s is None:
            raise Giveup("order of %s and %s" % (t, best))
        if s < 0:
            best = t
    return best


def total(ts):
    out = const(0)
    for t in ts:
        out = tm.add(out, t)
    return out


def judge(net, n, es, cap, src, snk, v):
    """complaint about a returned (value, flow), or None"""
    pr = net.seq(v)
    if len(pr) != 2:
        raise Odd("%d results instead of a value and a flow" % len(pr))
    value = net.I.desc(pr[0])
    flow = {}
    for k, f in net.pairs(pr[1]):
        e = net.edge_of(k)
        if e in flow:
            raise Odd("an arc occurs twice in the flow")
        flow[e] = net.I.desc(f)
    if set(flow) != set(es):
        raise Odd("the flow is over %s, the arcs are %s" % (sorted(flow), sorted(es)))
    for e, f in flow.items():
        lo, hi = sign(f), sign(tm.sub(f, cap[e]))
        if lo is None or hi is None:
            raise Giveup("size of the flow %s" % f)
        if lo < 0 or hi > 0:
            raise Odd("the flow on %s is %s, its capacity %s" % (e, f, cap[e]))
    net_out = lambda x: tm.sub(total([flow[e] for e in es if e[0] == x]), total([flow[e] for e in es if e[1] == x]))
    for x in range(n):
        if x not in (src, snk) and sign(net_out(x)) != 0:
            raise Odd("node %d keeps %s" % (x, tm.neg(net_out(x))))
    if sign(tm.sub(value, net_out(src))) != 0:
        raise Odd("the value is %s, the flow leaving the source %s" % (value, net_out(src)))
    mids = [x for x in range(n) if x not in (src, snk)]
    cuts = []
    for k in range(2 ** len(mids)):
        S = {src} | {x for i, x in enumerate(mids) if k >> i & 1}
        cuts.append(total([cap[e] for e in es if e[0] in S and e[1] not in S]))
    m = least(cuts)
    if sign(tm.sub(value, m)) != 0:
        raise Odd("the value is %s, a smallest cut %s" % (value, m))


def solve(ck, n, es, scale, meth, src, snk, low=False):
    """None, complaint, or Giveup"""
    net = Net(ck, n, directed=True, scale=scale, low=low, set_order="fwd", exact=True, rounds=600)
    A = DG + "." + meth
    arcs = net.w.dct(*[(net.pair(a, b), net.ws[i + 1]) for i, (a, b) in enumerate(es)])
    nodes = net.w.dct(*[(net.names[v], C(0)) for v in range(n)])
    net.r = net.w.new(DG, arcs=arcs, nodes=nodes)
    cap = {e: net.I.desc(net.ws[i + 1]) for i, e in enumerate(es)}
    how = "%s from n%d to n%d, capacities %s%s" % (meth, src, snk, {e: str(c) for e, c in cap.items()}, " far below one" if low else "")
    for s, v, e in net.run(net.I.st, meth, net.names[src], net.names[snk]):
        net.I.st = s
        if net.I.imprecise:
            raise Giveup("imprecise: %s" % (net.I.imprecise[:2],))
        if e is not None:
            return (A, "%s ends with %s" % (how, e))
        try:
            judge(net, n, es, cap, src, snk, v)
        except Odd as x:
            return (A, "%s: %s" % (how, x))
    return None


def scales(k, rnd, more=2):
    """ranks of k capacities"""
    if k == 0:
        return [[]]
    if k <= 3:
        return [list(s) for s in sorted(set(itertools.product(range(0, k + 1), repeat=k))) if set(range(1, max(s) + 1)) <= set(s)]
    out = [list(range(1, k + 1)), list(range(k, 0, -1)), [1] * k]
    for _ in range(more):
        p = list(range(1, k + 1))
        rnd.shuffle(p)
        out.append(p)
        out.append([rnd.randint(0, max(2, k - 2)) for _ in range(k)])
    return out


def shape(ck, n, es, meth, rnd, more=2, ends=None):
    A = DG + "." + meth
    nm = "%s on %d nodes with arcs %s" % (meth, n, es)
    def go():
        und = None
        k = 0
        for src, snk in ends or [(0, n - 1)]:
            for i, sc in enumerate(scales(len(es), rnd, more)):
                try:
                    bad = solve(ck, n, es, sc, meth, src, snk, i % 2 == 1)
                except Giveup as e:
                    und = und or str(e)
                    continue
                ck.absorb()
                k += 1
                if bad:
                    ck.add(nm, "violated", bad[0], bad[1])
                    return
        if und:
            ck.add(nm, "unknown", A, und)
        else:
            ck.ok(nm, A, "%d families of capacities" % k)
    ck.scen(nm, go, A)


def classic():
    """networks where arcs must be used backwards"""
    yield 4, [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3)]
    yield 4, [(0, 1), (1, 2), (2, 3), (0, 2), (1, 3)]
    yield 5, [(0, 1), (0, 2), (1, 3), (2, 3), (1, 2), (3, 4), (2, 4)]
    yield 5, [(0, 1), (1, 2), (2, 1), (2, 3), (3, 2), (3, 4), (0, 3), (1, 4)]
    yield 6, [(0, 1), (0, 2), (1, 3), (2, 3), (1, 4), (2, 4), (3, 4), (3, 5), (4, 5)]
    yield 6, [(0, 1), (1, 2), (2, 5), (0, 3), (3, 4), (4, 5), (1, 4), (3, 2)]


def run(ck):
    rnd = random.Random(ck.seed)
    for meth in METHODS:
        for n, es in classic():
            shape(ck, n, es, meth, rnd, 8 if ck.thorough else 4)
        for n in (2, 3):
            for es in shapes(n, True):
                shape(ck, n, es, meth, rnd, 6 if ck.thorough else 2, [(0, n - 1), (n - 1, 0)])
    todo = [(meth, es) for meth in METHODS for es in shapes(4, True) if len(es) >= 3]
    rnd.shuffle(todo)
    for meth, es in todo if ck.thorough else todo[:450]:
        if ck.thorough and ck.out_of_time():
            break
        shape(ck, 4, es, meth, rnd, 2 if ck.thorough else 1)
