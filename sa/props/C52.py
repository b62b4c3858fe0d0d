"""Shortest paths: the search is interpreted on every small graph with symbolic weights of fixed order of magnitude (so that every comparison
is decided for a whole family of weights), and its answer compared with every simple path; the linear program of a shortest path is compared
row by row with the cuts between the two vertices."""
import itertools
import random
from .graphspec import *
from .C30 import sign, total, least, scales
from ..check import show
from ..scen import view_lp, LP_VIEW
from ..ev import Arr, num
from .. import terms as tm

TECHNIQUE = "abstract interpretation over symbolic weights of fixed order of magnitude against all simple paths; formulation compared with all separating cuts"
NOTE = "Bounded: graphs of up to 5 vertices, weights in families of fixed order of magnitude (with ties and zeros). Trusted: the interpreter's models of Python and numpy; the enumeration of paths and cuts in the check."
SP, FSP = UG + ".shortest_path", UG + ".formulate_shortest_path"


def paths(n, es, s, t):
    adj = {v: sorted({b for a, b in es if a == v} | {a for a, b in es if b == v}) for v in range(n)}
    out = []
    def go(p):
        if p[-1] == t:
            out.append(list(zip(p, p[1:])))
            return
        for x in adj[p[-1]]:
            if x not in p:
                go(p + [x])
    go([s])
    return out


def search(ck, n, es, rnd, ends, more=2):
    nm = "shortest paths on %d vertices with edges %s" % (n, es)
    def go():
        k = 0
        for i, sc in enumerate(scales(len(es), rnd, more)):
            net = Net(ck, n, scale=sc, low=i % 2 == 1, set_order="fwd", exact=True, rounds=300)
            net.r = net.w.new(UG, edges=net.w.dct(*[(net.pair(*e), net.ws[i + 1]) for i, e in enumerate(es)]), vertices=net.w.dct(*[(net.names[v], C(0)) for v in range(n)]))
            wt = {e: net.I.desc(net.ws[i + 1]) for i, e in enumerate(es)}
            st = net.I.st
            for s, t in ends:
                k += 1
                how = "from n%d to n%d with weights %s%s" % (s, t, {e: str(w) for e, w in wt.items()}, " far below one" if i % 2 else "")
                ps = paths(n, es, s, t) if s < n and t < n else []
                for q, v, e in net.run(st, "shortest_path", net.names[s], net.names[t]):
                    net.I.st = q
                    bad = None
                    if not ps:
                        if e != REJECT:
                            bad = "there is no path, but the search %s" % ("answers" if e is None else "ends with " + e)
                    elif e is not None:
                        bad = "ends with " + e
                    else:
                        try:
                            got = [tuple(net.name_of(x) for x in net.seq(y)) for y in net.seq(v)]
                            bad = walk(got, es, s, t)
                            if bad is None:
                                length = lambda p: total([wt[(min(a, b), max(a, b))] for a, b in p])
                                best = least([length(p) for p in ps])
                                if sign(tm.sub(length(got), best)) != 0:
                                    bad = "the path %s has length %s, a shortest one %s" % (got, length(got), best)
                        except Odd as x:
                            bad = str(x)
                    if net.I.imprecise:
                        ck.add(nm, "unknown", SP, "imprecise: %s" % (net.I.imprecise[:2],))
                        return
                    if bad:
                        ck.add(nm, "violated", SP, "%s: %s" % (how, bad))
                        return
            ck.absorb()
        ck.ok(nm, SP, "%d searches" % k)
    ck.scen(nm, go, SP)


def walk(p, es, s, t):
    if any(len(x) != 2 for x in p):
        return "the path %s is not made of edges" % (p,)
    if s == t and not p:
        return None
    if not p or p[0][0] != s or p[-1][1] != t or any(a[1] != b[0] for a, b in zip(p, p[1:])):
        return "the path %s does not lead there" % (p,)
    if any((min(a, b), max(a, b)) not in es for a, b in p):
        return "the path %s uses an edge that does not exist" % (p,)


def formulation(ck, n, es, s, t, zero=None):
    nm = "shortest-path program from n%d to n%d on %d vertices with edges %s%s" % (s, t, n, es, "" if zero is None else ", no weight on %s" % (es[zero],))
    def go():
        net = Net(ck, n, weights=len(es), set_order="fwd", exact=True, rounds=300)
        if zero is not None:
            net.ws[zero + 1] = C(0)
        net.r = net.w.new(UG, edges=net.w.dct(*[(net.pair(*e), net.ws[i + 1]) for i, e in enumerate(es)]), vertices=net.w.dct(*[(net.names[v], C(0)) for v in range(n)]))
        st = net.I.st
        cols = [net.edge_of(k) for k, _ in net.pairs(net.prop(st.copy(), "edges"))]
        mids = [x for x in range(n) if x not in (s, t)]
        cuts = []
        for k in range(2 ** len(mids)):
            S = {s} | {x for i, x in enumerate(mids) if k >> i & 1}
            cuts.append([F(int((a in S) != (b in S))) for a, b in cols])
        outs = net.run(st, "formulate_shortest_path", net.names[s], net.names[t])
        for q, v, e in outs:
            net.I.st = q
            if e is not None:
                ck.decide(nm, net.w, False, FSP, "ends with %s" % e)
                return
            program(ck, nm, net, v, [(c, ">=", F(1)) for c in cuts], [net.I.desc(net.ws[net_label(es, c)]) for c in cols], "min", FSP, ())
    ck.scen(nm, go, FSP)


def net_label(es, e):
    return es.index(e) + 1


def program(ck, nm, net, v, rows, costs, sense, anchor, integers, anyorder=True):
    """the abstract program has exactly these rows (in any order), costs, sense, no constant, non-negative variables"""
    w = net.w
    vw = view_lp(w, net.I.resolve(v))
    ti = w.desc(w.get(net.I.resolve(v), "integer_variables")) if integers else None
    def spec(ev):
        return "as required"
    term = mk("tup", *[vw[x] for x in LP_VIEW] + ([ti] if ti is not None else []))
    need = sorted(rows, key=str)
    def cmp(got, _):
        d = dict(zip(LP_VIEW + ("integers",), got))
        A, b, c = d["A"], d["b"], d["c"]
        ops = list(d["inequalities"])
        k = len(costs)
        if not isinstance(A, Arr) or A.sh != (len(rows), k) or len(list(aslist(b))) != len(rows) or len(ops) != len(rows):
            cmp.why = "the matrix has shape %s instead of %s" % (getattr(A, "sh", None), (len(rows), k))
            return False
        have = sorted([([num(x) for x in A.d[i * k:(i + 1) * k]], ops[i], num(aslist(b)[i])) for i in range(len(rows))], key=str)
        ev = cmp.ev
        if have != need:
            return False
        return [num(x) for x in aslist(c)] == [num(ev.ev(t)) for t in costs] and d["objective"] == sense and num(d["z"]) == 0 and not list(d["free_variables"]) and not list(d["negative_variables"]) \
            and (ti is None or sorted(num(x) for x in d["integers"]) == [F(i + 1) for i in range(k)])
    def keep(ev):
        cmp.ev = ev
        return (need, [show(ev.ev(t)) for t in costs], sense)
    ck.equal(nm, w, term, keep, anchor, n=6, rule="the program", cmp=cmp)


def aslist(x):
    return list(x.d) if isinstance(x, Arr) else list(x)


def run(ck):
    rnd = random.Random(ck.seed)
    for n in (1, 2, 3):
        ends = [(a, b) for a in range(n + 1) for b in range(n + 1)]
        for es in shapes(n):
            search(ck, n, es, rnd, ends)
    for es in shapes(4):
        search(ck, 4, es, rnd, [(0, 3), (3, 0), (1, 2), (2, 2)], 3 if ck.thorough else 1)
    five = [es for es in shapes(5) if 4 <= len(es)]
    rnd.shuffle(five)
    for es in five if ck.thorough else five[:60]:
        search(ck, 5, es, rnd, [(0, 4), (3, 1)], 1)
    for n in (2, 3, 4):
        for es in shapes(n):
            if es:
                for s, t in [(0, n - 1), (n - 1, 0), (1, 0)]:
                    formulation(ck, n, es, s, t)
                formulation(ck, n, es, 0, n - 1, len(es) // 2)
    for es in five[:40 if ck.thorough else 8]:
        formulation(ck, 5, es, 3, 1)
