"""Stable sets: for every small graph with symbolic vertex weights the formulated integer program is compared, through the returned mapping, with
the program of its stable sets: one row per edge, one bound per vertex, the vertex weights as costs, every variable integral."""
import itertools
import random
from .graphspec import *
from .C52 import view_lp, LP_VIEW, aslist
from .. import terms as tm
from ..ev import Arr, Undef, num
from ..check import show

TECHNIQUE = "abstract interpretation over symbolic vertex weights on every small graph; the program compared row by row with the edges through the returned mapping"
NOTE = "Bounded: graphs of up to 5 vertices; weights arbitrary. Trusted: the interpreter's models of Python and numpy."
SS = UG + ".formulate_max_stable_set"


def one(ck, n, es, order):
    nm = "stable sets of %d vertices with edges %s%s" % (n, es, "" if order is None else ", vertices stated in the order %s" % (order,))
    def go():
        net = Net(ck, n, weights=n, set_order="fwd", exact=True, rounds=300)
        vs = list(range(n)) if order is None else order
        net.r = net.w.new(UG, edges=net.w.dct(*[(net.pair(*e), C(1)) for e in es]), vertices=net.w.dct(*[(net.names[v], net.ws[v + 1]) for v in vs]))
        w = net.w
        for q, v, e in net.run(net.I.st, "formulate_max_stable_set"):
            net.I.st = q
            if e is not None:
                ck.decide(nm, w, False, SS, "ends with %s" % e)
                return
            try:
                pair = net.seq(v)
                if len(pair) != 2:
                    raise Odd("the answer has %d parts" % len(pair))
                lp, m = pair
                cols = {}
                for k, x in net.pairs(m):
                    t = net.I.desc(x)
                    if not tm.is_lin_const(t):
                        raise Odd("column %s" % t)
                    cols[net.name_of(k)] = int(t.args[0])
            except Odd as x:
                ck.decide(nm, w, False, SS, "%s" % x)
                return
            if sorted(cols) != list(range(n)) or sorted(cols.values()) != list(range(n)):
                ck.decide(nm, w, False, SS, "the mapping %s does not give each vertex a column of its own" % (cols,))
                return
            lp = net.I.resolve(lp)
            vw = view_lp(w, lp)
            ints = w.desc(w.get(lp, "_integral_variables"))
            def row(*on):
                return [F(int(j in [cols[v] for v in on])) for j in range(n)]
            need = [(row(*e), "<=", F(1)) for e in es]
            caps = [(row(v), "<=", F(1)) for v in range(n)]
            at = {c: v for v, c in cols.items()}
            costs = [net.I.desc(net.ws[at[j] + 1]) for j in range(n)]
            def cmp(got, _):
                d = dict(zip(LP_VIEW + ("ints",), got))
                A, b = d["A"], list(aslist(d["b"]))
                ops = list(d["inequalities"])
                if not isinstance(A, Arr) or len(A.sh) != 2 or A.sh[1] != n or A.sh[0] != len(b) or len(ops) != len(b):
                    return False
                have = [([num(x) for x in A.d[i * n:(i + 1) * n]], ops[i], num(b[i])) for i in range(len(b))]
                # a bound that the edge rows and integrality imply may be missing or repeated; nothing else may be there
                if any(r not in have for r in need) or any(r not in need + caps for r in have):
                    return False
                if any(caps[v] not in have and not any(v in e for e in es) for v in range(n)):
                    return False
                ev = cmp.ev
                full = d["ints"] is None or (not isinstance(d["ints"], (str, F, int)) and sorted(num(x) for x in aslist(d["ints"])) == [F(i + 1) for i in range(n)])
                return full and [num(x) for x in aslist(d["c"])] == [num(ev.ev(t)) for t in costs] and d["objective"] == "max" and num(d["z"]) == 0 and not list(d["free_variables"]) and not list(d["negative_variables"])
            def spec(ev):
                cmp.ev = ev
                return (need + caps, [show(ev.ev(t)) for t in costs], "max, integer, non-negative")
            ck.equal(nm, w, mk("tup", *[vw[x] for x in LP_VIEW] + [ints]), spec, SS, n=5, rule="the stable set program", cmp=cmp)
    ck.scen(nm, go, SS)


def run(ck):
    rnd = random.Random(ck.seed)
    for n in (1, 2, 3):
        for es in shapes(n):
            for order in [None] + [list(x) for x in itertools.permutations(range(n))][1:]:
                one(ck, n, es, order)
    for es in shapes(4):
        one(ck, 4, es, None)
        one(ck, 4, es, [2, 0, 3, 1])
    five = list(shapes(5))
    rnd.shuffle(five)
    for es in five if ck.thorough else five[:20]:
        one(ck, 5, es, None)
