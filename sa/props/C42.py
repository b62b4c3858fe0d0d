"""Disjoint sets: an invariant proved over the closure of abstract heaps.  Elements are arbitrary distinct names (only compared for
equality); starting from the constructed collection every heap reachable by any history of union and find over the elements is
visited until no new heap appears, and in each of them `find` must name one representative per class of the equivalence generated by
the joins made, joining must connect exactly the two classes, finding must change no class, unknown names must be rejected with
ValueError and change nothing."""
from .lpspec import *

TECHNIQUE = "heap abstraction over symbolic names; fixpoint over all reachable union-find heaps with the generated equivalence as invariant"
DS = "pytimize.utilities.DisjointSet"


class Net:
    def __init__(self, ck, n):
        self.w = w = ck.world(rec_limit=20)
        self.I = w.I
        self.es = [w.sc("e%d" % i, py="str") for i in range(n)]
        self.out = w.sc("stranger", py="str")
        def dist():
            for i, a in enumerate(self.es + [self.out]):
                for b in self.es[:i]:
                    self.I.assume(self.I.truth(self.I.compare("Eq", a, b)), False)
        w.do(dist)
        self.r = w.new(DS, w.lst(*self.es))
        self.n = n

    def step(self, st, meth, *args):
        """[(state or None, value, exception name)]"""
        self.I.st = st.copy()
        s, v, ex = self.I.run(lambda: self.I.call(self.I.getattr(self.r, meth), list(args), {}))
        return ([(s, v, None)] if s is not None else []) + [(q, None, e.name) for q, e in ex]

    def classes(self, st):
        """partition read off through find, or a complaint"""
        reps = []
        for i, e in enumerate(self.es):
            outs = self.step(st, "find", e)
            if len(outs) != 1 or outs[0][2] is not None:
                return "find of an element ends with %s" % [o[2] for o in outs]
            v = self.I.resolve(outs[0][1])
            hit = [j for j, x in enumerate(self.es) if self.I.desc(v) is self.I.desc(x)]
            if not hit:
                return "find returns %s, which is not an element" % (self.I.desc(v),)
            reps.append(hit[0])
        return reps

    def key(self, st):
        self.I.st = st
        return self.I.desc(self.r)


def partition(reps):
    first = {}
    return tuple(first.setdefault(r, i) for i, r in enumerate(reps))


def merge(p, i, j):
    a, b = p[i], p[j]
    return partition([min(a, b) if x in (a, b) else x for x in p])


def fail(ck, net, nm, anchor, why):
    if net.I.imprecise:
        ck.add(nm, "unknown", anchor, "imprecise: %s" % (net.I.imprecise[:2],))
    else:
        ck.add(nm, "violated", anchor, why)


def explore(ck, nm, n, limit):
    net = Net(ck, n)
    w = net.w
    st0 = net.I.st
    todo = [(st0, tuple(range(n)), "construction")]
    seen = set()
    steps = 0
    while todo:
        st, part, hist = todo.pop()
        k = (net.key(st), part)
        if k in seen:
            continue
        seen.add(k)
        if len(seen) > limit:
            ck.add(nm, "unknown", DS + ".union", "more than %d heaps" % limit)
            return
        steps += 1
        if net.I.imprecise:
            ck.add(nm, "unknown", DS + ".union", "imprecise: %s" % (net.I.imprecise[:2],))
            return
        reps = net.classes(st)
        bad = reps if isinstance(reps, str) else None
        if bad is None and partition(reps) != part:
            bad = "classes are %s, joins made give %s" % (partition(reps), part)
        if bad is None and any(reps[r] != r for r in reps):
            bad = "a representative does not represent itself"
        if bad:
            fail(ck, net, nm, DS + ".find", "after %s: %s" % (hist, bad))
            return
        ops = [("find", (i,)) for i in range(n)] + [("union", (i, j)) for i in range(n) for j in range(n)]
        for op, a in ops:
            want = merge(part, *a) if op == "union" else part
            outs = net.step(st, op, *[net.es[i] for i in a])
            h = "%s, %s(%s)" % (hist, op, ", ".join("e%d" % i for i in a))
            for s, v, e in outs:
                if e is not None:
                    fail(ck, net, nm, DS + "." + op, "after %s: %s" % (h, e))
                    return
                todo.append((s, want, h))
        for op, a in (("find", (net.out,)), ("union", (net.out, net.es[0])), ("union", (net.es[n - 1], net.out))):
            for s, v, e in net.step(st, op, *a):
                if e != "ValueError" or net.key(s) is not k[0]:
                    fail(ck, net, nm, DS + "." + op, "after %s: %s with an unknown name %s" % (hist, op, "ends with %s" % e if e != "ValueError" else "changes the collection"))
                    return
    ck.ok(nm, DS + ".union", "%d reachable heaps, every operation from each" % len(seen))


def deep(ck, nm, n, rounds, last=False):
    """trees as deep as union by rank allows, every find from them"""
    net = Net(ck, n)
    st, part = net.I.st, tuple(range(n))
    hist = "construction"
    for i, j in rounds:
        (st, v, e), = net.step(st, "union", net.es[i], net.es[j])[:1]
        if e is not None:
            fail(ck, net, nm, DS + ".union", "after %s: %s" % (hist, e))
            return
        part = merge(part, i, j)
        hist += ", union(e%d, e%d)" % (i, j)
        if last and hist.count("union") < len(rounds):
            continue
        for probe in [None] + list(range(n)):
            s = st
            if probe is not None:
                (s, v, e), = net.step(st, "find", net.es[probe])[:1]
                if e is not None:
                    fail(ck, net, nm, DS + ".find", "after %s: %s" % (hist, e))
                    return
            if net.I.imprecise:
                ck.add(nm, "unknown", DS, "imprecise: %s" % (net.I.imprecise[:2],))
                return
            reps = net.classes(s)
            if isinstance(reps, str) or partition(reps) != part:
                fail(ck, net, nm, DS + ".find", "after %s%s: %s" % (hist, ", find(e%d)" % probe if probe is not None else "", reps if isinstance(reps, str) else "classes are %s, joins made give %s" % (partition(reps), part)))
                return
    ck.ok(nm, DS + ".union", "%d joins, every find after each" % len(rounds))


def run(ck):
    ck.scen("all histories over 1 name", lambda: explore(ck, "all histories over 1 name", 1, 50), DS)
    ck.scen("all histories over 2 names", lambda: explore(ck, "all histories over 2 names", 2, 200), DS)
    ck.scen("all histories over 3 names", lambda: explore(ck, "all histories over 3 names", 3, 2000), DS)
    ck.scen("all histories over 4 names", lambda: explore(ck, "all histories over 4 names", 4, 20000), DS)
    if ck.thorough:
        ck.scen("all histories over 5 names", lambda: explore(ck, "all histories over 5 names", 5, 60000), DS)
    bino = [(0, 1), (2, 3), (4, 5), (6, 7), (0, 2), (4, 6), (0, 4)]
    ck.scen("binomial trees", lambda: deep(ck, "binomial trees", 8, bino), DS)
    ck.scen("binomial trees joined at leaves", lambda: deep(ck, "binomial trees joined at leaves", 8, [(1, 0), (3, 2), (5, 4), (7, 6), (1, 3), (5, 7), (3, 7)]), DS)
    ck.scen("one after the other", lambda: deep(ck, "one after the other", 6, [(0, 1), (2, 1), (3, 2), (4, 0), (5, 4)]), DS)
    tree = {0: (1, []), 1: (2, [(0, 1)]), "1b": (3, [(0, 1), (2, 0)]), 2: (4, [(0, 1), (2, 3), (0, 2)])}
    for a, (na, ha) in tree.items():
        for b, (nb, hb) in tree.items():
            nm = "trees of rank %s and %s joined at any members" % (a, b)
            def go():
                for i in range(na):
                    for j in range(nb):
                        deep(ck, nm + " (%d, %d)" % (i, j), na + nb + 1, ha + [(x + na, y + na) for x, y in hb] + [(i, na + j)], last=True)
            ck.scen(nm, go, DS)
    for names, want in ((0, "ok"), (1, "raise")):
        nm = "constructor %s" % ("without names" if not names else "with a repeated name")
        def go():
            w = ck.world()
            e, f = w.sc("e", py="str"), w.sc("f", py="str")
            w.do(lambda: w.I.assume(w.I.truth(w.I.compare("Eq", e, f)), False))
            items = w.lst(*([e, f, e] if names else []))
            res = w.I.run(lambda: w.I.instantiate(w.cls(DS).c, [items], {}))
            ck.outcome(nm, w, (res[0], None, res[2]), lambda ev: ("raise", {"ValueError"}) if names else ("ok",), DS, n=5, rule="constructor")
        ck.scen(nm, go, DS)
