"""Graphs: the reference model, and the exploration of all small graphs over symbolic names.

Names are arbitrary pairwise different non-empty strings n0 < n1 < ... of which only equality and order are known, so one abstract graph
stands for every graph that looks like it; weights are arbitrary non-negative numbers.  Heaps reached by histories of public operations
are visited until nothing new appears (`Net.explore`), and graphs of a given shape are built through the constructor (`Net.build`)."""
import os
from collections import deque
from itertools import combinations, permutations
from .lpspec import *
from .. import terms as tm
from ..interp import Giveup
from ..values import *

UG, DG = "pytimize.graphs.UndirectedGraph", "pytimize.graphs.DirectedGraph"


class Model:
    """what the user has asked for so far: weights are labels (0, or the position of a symbolic weight)"""
    def __init__(self, directed, v=(), e=()):
        self.directed, self.v, self.e = directed, dict(v), dict(e)

    def copy(self):
        return Model(self.directed, self.v, self.e)

    def key(self, a, b):
        return (a, b) if self.directed else (min(a, b), max(a, b))

    def frozen(self):
        return (tuple(sorted(self.v.items())), tuple(sorted(self.e.items())))

    def succ(self, a):
        return sorted({y for x, y in self.e if x == a} | (set() if self.directed else {x for x, y in self.e if y == a}))

    def reach(self, s):
        seen, todo = {s}, [s]
        while todo:
            for y in self.succ(todo.pop()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen

    def components(self):
        out, left = [], set(self.v)
        while left:
            r = self.reach(min(left))
            out.append(frozenset(r))
            left -= r
        return out

    def cyclic(self):
        return len(self.e) > len(self.v) - len(self.components())

    def __repr__(self):
        return "vertices %s edges %s" % (dict(self.v), dict(self.e))


REJECT = "ValueError"


def apply(m, op, args):
    """(model after, None) or (None, rejected)"""
    m = m.copy()
    if op in ("add_vertex", "add_node"):
        v, w = args
        if v in m.v:
            return None
        m.v[v] = w
    elif op in ("add_edge", "add_arc"):
        (a, b), w = args[:2]
        dem = args[2] if len(args) > 2 else (0, 0)
        if a == b or m.key(a, b) in m.e:
            return None
        for x, d in ((a, dem[0]), (b, dem[1])):
            m.v.setdefault(x, d)
        m.e[m.key(a, b)] = w
    elif op in ("remove_edge", "remove_arc"):
        (a, b) = args[0]
        if a == b or m.key(a, b) not in m.e:
            return None
        del m.e[m.key(a, b)]
        if len(args) > 1 and args[1]:
            for x in (a, b):
                if not any(x in k for k in m.e):
                    del m.v[x]
    elif op in ("set_edge_weight", "set_arc_weight"):
        (a, b), w = args
        if a == b or m.key(a, b) not in m.e:
            return None
        m.e[m.key(a, b)] = w
    elif op in ("set_vertex_weight", "set_node_weight"):
        v, w = args
        if v not in m.v:
            return None
        m.v[v] = w
    else:
        raise Giveup(op)
    return m


class Net:
    def __init__(self, ck, n, directed=False, weights=0, multi=False, concrete=False, plain=False, scale=None, low=False, **kw):
        self.ck, self.n, self.directed = ck, n, directed
        self.w = w = ck.world(rec_limit=25, rounds=kw.pop("rounds", 120), **kw)
        self.I = w.I
        self.names = []
        for i in range(n + 1):
            if plain:
                self.names.append(C("name%d" % i))
                continue
            t = tm.sym("n%d" % i, py="str", inp=True, rank=i, multi=multi)
            tm.META[t].update(name=True, empty=False)
            self.names.append(S(t, "str"))
        self.stranger = n               # a name that is never added
        self.ws = [C(0)] + [C(i + 1) if concrete else w.sc("w%d" % (i + 1), lo=0) for i in range(weights)]
        if scale is not None:
            # weights of very different size: label i+1 has rank scale[i]; equal ranks are one and the same number, rank 0 is zero
            by = {}
            for r in sorted(set(scale)):
                if r:
                    by[r] = w.sc("w%d" % r, lo=tm.TINY)
                    tm.SCALE[w.desc(by[r])] = r - (max(scale) + 1 if low else 0)        # low: all of them far below one
            self.ws = [C(0)] + [by[r] if r else C(0) for r in scale]
            self.scale = list(scale)
        elif not concrete: w.do(lambda: [self.I.assume(self.I.truth(self.I.compare("Eq", x, C(0))), False) for x in self.ws[1:]] and NONE)
        self.cls = DG if directed else UG
        self.r = None
        self.ends = []

    def empty(self):
        self.r = self.w.new(self.cls)
        return Model(self.directed)

    # ---- running
    def pair(self, a, b, kind="tuple"):
        x, y = self.names[a], self.names[b]
        return Tup((x, y)) if kind == "tuple" else self.w.lst(x, y)

    def args(self, op, a):
        out = []
        for i, x in enumerate(a):
            if isinstance(x, bool):
                out.append(C(x))
            elif isinstance(x, tuple) and i == 0:
                out.append(self.pair(*x))
            elif isinstance(x, tuple):
                out.append(Tup(tuple(self.ws[k] for k in x)))
            elif i == 0:
                out.append(self.names[x])
            else:
                out.append(self.ws[x])
        return out

    def run(self, st, meth, *args, on=None, **kw):
        """[(state, value, exception name or None)]"""
        self.I.st = st.copy()
        self.I.steps = 0
        r = on if on is not None else self.r
        s, v, ex = self.I.run(lambda: self.I.call(self.I.getattr(r, meth), list(args), kw))
        return ([(s, v, None)] if s is not None else []) + [(q, None, e.name) for q, e in ex]

    def runf(self, st, f):
        self.I.st = st.copy()
        self.I.steps = 0
        s, v, ex = self.I.run(f)
        return ([(s, v, None)] if s is not None else []) + [(q, None, e.name) for q, e in ex]

    # ---- reading abstract values
    def name_of(self, v):
        v = self.I.resolve(v)
        t = self.I.desc(v)
        for i, x in enumerate(self.names):
            if t is self.I.desc(x):
                return i
        raise Odd("%s where a name is expected" % (show_t(t),))

    def num_of(self, v):
        v = self.I.resolve(v)
        t = self.I.desc(v)
        if t.op == "lin" and not t.args[1]:
            return int(t.args[0]) if t.args[0] == int(t.args[0]) else t.args[0]
        for i, x in enumerate(self.ws):
            if i and t is self.I.desc(x):
                return i
        raise Odd("%s where a weight is expected" % (show_t(t),))

    def seq(self, v, once=False):
        v = self.I.resolve(v)
        if isinstance(v, Tup):
            return list(v.vs)
        o = self.I.obj(v) if isinstance(v, Ref) else None
        if isinstance(o, Dct) and not o.op and all(i.m == "1" and i.g is None for i in o.items):
            return [i.k for i in o.items]
        if not isinstance(o, Lst):
            raise Odd("%s where a collection is expected" % (show_t(self.I.desc(v)),))
        if o.kind in ("gen", "iter") and not once:
            raise Odd("an iterator that can be walked once where a collection is expected")
        if o.op or any(i.m != "1" or i.g is not None for i in o.items):
            raise Giveup("summarised collection")
        return [i.v for i in o.items]

    def pairs(self, v):
        v = self.I.resolve(v)
        o = self.I.obj(v) if isinstance(v, Ref) else None
        if not isinstance(o, Dct):
            raise Odd("%s where a dictionary is expected" % (show_t(self.I.desc(v)),))
        if o.op or any(i.m != "1" or i.g is not None for i in o.items):
            raise Giveup("summarised dictionary")
        return [(i.k, i.v) for i in o.items]

    def edge_of(self, v):
        ab = [self.name_of(x) for x in self.seq(v)]
        if len(ab) != 2:
            raise Odd("an edge with %d ends" % len(ab))
        return tuple(ab) if self.directed else (min(ab), max(ab))

    def edge_set(self, v):
        o = self.I.obj(self.I.resolve(v)) if isinstance(self.I.resolve(v), Ref) else None
        if isinstance(o, Lst) and o.kind not in ("set", "frozenset"):
            raise Odd("a %s where a set of edges is expected" % o.kind)
        out = [self.edge_of(x) for x in self.seq(v)]
        if len(out) != len(set(out)):
            raise Odd("an edge occurs twice")
        return set(out)

    # ---- observing a graph through its public interface
    def one(self, st, meth, *args, on=None):
        out = self.run(st, meth, *args, on=on)
        if len(out) != 1 or out[0][2] is not None:
            raise Odd("%s ends with %s" % (meth, [o[2] for o in out]))
        self.I.st = out[0][0]
        return out[0][1]

    def prop(self, st, name, on=None):
        r = on if on is not None else self.r
        out = self.runf(st, lambda: self.I.getattr(r, name))
        if len(out) != 1 or out[0][2] is not None:
            raise Odd("%s ends with %s" % (name, [o[2] for o in out]))
        self.I.st = out[0][0]
        return out[0][1]

    def truth(self, v):
        t = self.I.truth(self.I.resolve(v))
        r = self.I.tri(t) if isinstance(t, T) else t
        if r not in (True, False):
            raise Giveup("undecided verdict %s" % (t,))
        return r

    def observe(self, st, on=None, deep=True):
        """Model as seen from outside; raises Odd when the views contradict each other"""
        keep = self.I.st
        try:
            return (self.obs_d if self.directed else self.obs_u)(st, on, deep)
        finally:
            self.I.st = keep

    def unique(self, ps, what):
        d = {}
        for k, v in ps:
            if k in d:
                raise Odd("%s occurs twice" % what)
            d[k] = v
        return d

    def obs_u(self, st, on, deep):
        vs = self.unique([(self.name_of(k), self.num_of(v)) for k, v in self.pairs(self.prop(st, "vertices", on))], "a vertex")
        es = self.unique([(self.edge_of(k), self.num_of(v)) for k, v in self.pairs(self.prop(st, "edges", on))], "an edge")
        adj = {}
        for k, s in self.pairs(self.prop(st, "graph", on)):
            adj[self.name_of(k)] = {self.name_of(x) for x in self.seq(s)}
        m = Model(False, vs, es)
        if set(adj) != set(vs):
            raise Odd("adjacency has entries for %s, vertices are %s" % (sorted(adj), sorted(vs)))
        for a, b in es:
            if a == b or a not in vs or b not in vs:
                raise Odd("edge (%d, %d) does not join two vertices" % (a, b))
        for a in vs:
            if adj[a] != set(m.succ(a)):
                raise Odd("vertex n%d is adjacent to %s, the edges say %s" % (a, sorted(adj[a]), m.succ(a)))
        if deep:
            for a in range(self.n + 1):
                if self.truth(self.one(st, "has_vertex", self.names[a], on=on)) != (a in vs):
                    raise Odd("has_vertex(n%d) is wrong" % a)
                if a in vs:
                    if self.num_of(self.one(st, "get_vertex_weight", self.names[a], on=on)) != vs[a]:
                        raise Odd("get_vertex_weight(n%d) is wrong" % a)
                    if self.num_of(self.one(st, "degree", self.names[a], on=on)) != len(m.succ(a)):
                        raise Odd("degree(n%d) is not the number of its edges" % a)
                for b in range(self.n + 1):
                    if self.truth(self.one(st, "has_edge", self.pair(a, b), on=on)) != (m.key(a, b) in es):
                        raise Odd("has_edge((n%d, n%d)) is wrong" % (a, b))
                    if m.key(a, b) in es and self.num_of(self.one(st, "get_edge_weight", self.pair(a, b), on=on)) != es[m.key(a, b)]:
                        raise Odd("get_edge_weight((n%d, n%d)) is wrong" % (a, b))
            if self.truth(self.one(st, "is_empty", on=on)) != (not vs):
                raise Odd("is_empty is wrong")
        return m

    def obs_d(self, st, on, deep):
        vs = [self.name_of(k) for k in self.seq(self.prop(st, "nodes", on))]
        es = [self.edge_of(k) for k in self.seq(self.prop(st, "arcs", on))]
        if len(set(vs)) != len(vs) or len(set(es)) != len(es):
            raise Odd("a node or arc occurs twice")
        for a, b in es:
            if a == b or a not in vs or b not in vs:
                raise Odd("arc (%d, %d) does not join two nodes" % (a, b))
        wv, we, adj = self.hidden(st, on)
        if wv is not None and set(wv) != set(vs):
            raise Odd("demands for %s, nodes are %s" % (sorted(wv), sorted(vs)))
        if we is not None and set(we) != set(es):
            raise Odd("capacities for %s, arcs are %s" % (sorted(we), sorted(es)))
        m = Model(True, wv if wv is not None else {v: 0 for v in vs}, we if we is not None else {e: 0 for e in es})
        if adj is not None and ({k: v for k, v in adj.items()} != {v: set(m.succ(v)) for v in vs}):
            raise Odd("adjacency is %s, the arcs are %s" % (adj, sorted(es)))
        if deep:
            for a in range(self.n + 1):
                if self.truth(self.one(st, "has_node", self.names[a], on=on)) != (a in vs):
                    raise Odd("has_node(n%d) is wrong" % a)
                if a in vs:
                    for q, k in (("outdegree", sum(x == a for x, y in es)), ("indegree", sum(y == a for x, y in es)), ("connections", sum(a in e for e in es))):
                        if self.num_of(self.one(st, q, self.names[a], on=on)) != k:
                            raise Odd("%s(n%d) is wrong" % (q, a))
                for b in range(self.n + 1):
                    if self.truth(self.one(st, "has_arc", self.pair(a, b), on=on)) != ((a, b) in es):
                        raise Odd("has_arc((n%d, n%d)) is wrong" % (a, b))
        return m

    def hidden(self, st, on):
        """demands, capacities and adjacency of a directed graph have no public accessor; where the usual private dictionaries exist they are read"""
        self.I.st = st
        o = self.I.obj(on if on is not None else self.r)
        def d(n, f):
            v = o.get(n)
            if not isinstance(v, Ref) or not isinstance(self.I.obj(v), Dct):
                return None
            return dict(f(k, x) for k, x in self.pairs(v))
        return (d("_nodes", lambda k, x: (self.name_of(k), self.num_of(x))), d("_arcs", lambda k, x: (self.edge_of(k), self.num_of(x))),
                d("_graph", lambda k, x: (self.name_of(k), {self.name_of(y) for y in self.seq(x)})))

    # ---- operations and exploration
    def ops(self, weights=(0,), strangers=False):
        V, E = ("node", "arc") if self.directed else ("vertex", "edge")
        ns = range(self.n)
        prs = [(a, b) for a in ns for b in ns]
        out = []
        for w in weights:
            out += [("add_" + V, (v, w)) for v in ns] + [("add_" + E, (p, w)) for p in prs]
        for w in weights:
            out += [("set_%s_weight" % V, (v, w)) for v in ns] + [("set_%s_weight" % E, (p, w)) for p in prs]
        out += [("remove_" + E, (p,)) for p in prs]
        if self.directed:
            out += [("remove_arc", (p, True)) for p in prs]
        return out

    def key(self, st, on=None):
        self.I.st = st
        return self.I.desc(on if on is not None else self.r)

    def explore(self, weights=(0,), limit=None, each=None, edge=None, start=None, max_edges=99):
        """visit every heap reachable by the operations; each(st, model, hist) in every heap, edge(...) for every step.
        None, or the complaint (anchor, text)"""
        limit = limit or (20000 if self.ck.thorough else 600)
        m0 = self.empty() if start is None else start
        todo = deque([(self.I.st, m0, "construction")])
        seen = set()
        while todo:
            st, m, hist = todo.popleft()      # short histories first: what is found before the limit is complete up to a length
            k = (self.key(st), m.frozen())
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > limit:
                raise Giveup("more than %d heaps" % limit)
            if self.I.imprecise:
                raise Giveup("imprecise: %s" % (self.I.imprecise[:2],))
            if each:
                bad = each(st, m, hist)
                if bad:
                    return bad
            for op, a in self.ops(weights):
                want = apply(m, op, a)
                self.I.st = st.copy()
                args = self.args(op, a)
                outs = self.run(self.I.st, op, *args)
                h = "%s, %s(%s)" % (hist, op, ", ".join(self.txt(x, i) for i, x in enumerate(a)))
                if edge:
                    bad = edge(st, m, op, a, want, outs, h)
                    if bad:
                        return bad
                for s, v, e in outs:
                    if e is None and want is not None and len(want.e) <= max_edges:
                        todo.append((s, want, h))
        self.visited = len(seen)
        if os.environ.get('SA_DEBUG'):
            print('   explored', len(seen))
        return None

    def txt(self, x, i):
        if isinstance(x, tuple) and i == 0:
            return "(%s)" % ", ".join("n%d" % y for y in x)
        return "n%d" % x if i == 0 and not isinstance(x, bool) else ("w%d" % x if x and not isinstance(x, (bool, tuple)) else str(x))

    def ctor(self, graph=None, edges=None, verts=None, kind="set"):
        """the constructor on abstract dictionaries: graph {name: [names]}, edges {(a, b): weight label}, verts {name: weight label}.
        (the dictionaries given, {state, graph, exception})"""
        V, E = ("nodes", "arcs") if self.directed else ("vertices", "edges")
        kw = {}
        if graph is not None:
            kw["graph"] = self.w.dct(*[(self.names[v], self.w.lst(*[self.names[x] for x in xs], kind=kind)) for v, xs in graph.items()])
        if edges is not None:
            kw[E] = self.w.dct(*[(self.pair(*e), self.ws[k]) for e, k in edges.items()])
        if verts is not None:
            kw[V] = self.w.dct(*[(self.names[v], self.ws[k]) for v, k in verts.items()])
        outs = self.runf(self.I.st, lambda: self.I.call(self.w.cls(self.cls), [], kw))
        return kw, outs

    def ctor_model(self, graph=None, edges=None, verts=None):
        """Model, or None when the arguments must be rejected"""
        m = Model(self.directed)
        for v, xs in (graph or {}).items():
            m.v.setdefault(v, 0)
            for x in xs:
                if x == v:
                    return None
                m.v.setdefault(x, 0)
                m.e.setdefault(m.key(v, x), 0)
        for (a, b), k in (edges or {}).items():
            if a == b:
                return None
            m.v.setdefault(a, 0)
            m.v.setdefault(b, 0)
            m.e[m.key(a, b)] = k
        for v, k in (verts or {}).items():
            m.v[v] = k
        return m

    def build(self, verts, edges, weights=True):
        """a graph made through the constructor, in a fresh world state; edges by position"""
        m = Model(self.directed, {}, {})
        V, E = ("nodes", "arcs") if self.directed else ("vertices", "edges")
        ws = iter(range(1, len(self.ws)))
        def wt():
            return next(ws, 0) if weights else 0
        vd = self.w.dct(*[(self.names[v], self.ws[m.v.setdefault(v, wt())]) for v in verts])
        ed = self.w.dct(*[(self.pair(a, b), self.ws[m.e.setdefault(m.key(a, b), wt())]) for a, b in edges])
        self.r = self.w.new(self.cls, **{E: ed, V: vd})
        self.ends = list(edges)
        return m


# ---- all methods of a graph class, with arguments by the names of their parameters

MUTATORS = ("add_", "remove_", "set_")


def queries_of(dotted):
    """public methods and properties that are not operations, from the current source"""
    from .lpmeth import public_methods, params
    return {n: params(m) for n, m in public_methods(dotted).items() if not n.startswith(MUTATORS) and n not in ("__hash__",)}


def variants(net, n, req, ps):
    """argument lists (as functions building them) for a query with the given parameters; None when a parameter is not understood"""
    I = net.I
    names = list(range(net.n)) + [net.stranger]
    def vals(p):
        if p in ("start", "source", "vertex", "node"):
            return [lambda v=v: net.names[v] for v in names]
        if p in ("end", "sink", "target"):
            return [lambda v=v: net.names[v] for v in names]
        if p in ("vertices", "nodes"):
            return [lambda v=v: net.names[v] for v in names] + [lambda k=k: net.w.lst(*[net.names[v] for v in range(net.n) if v != 1], kind=k) for k in ("set", "list")] + [lambda: net.w.lst(net.names[net.stranger], net.names[0], kind="set")]
        if p in ("edge", "arc"):
            return [lambda a=a, b=b: net.pair(a, b) for a in names for b in names]
        if p == "flow":
            fl = [lambda: net.w.dct()]
            if net.ends:
                e = net.ends[0]
                fl += [lambda: net.w.dct((net.pair(*e), C(0))), lambda: net.w.dct((net.pair(*e), C(1)), ), lambda: net.w.dct((net.pair(*e), C(1000))), lambda: net.w.dct((net.pair(net.n, 0), C(0))), lambda: net.w.dct((net.pair(*e), C(-1)))]
            return fl
        if p == "method":
            return [lambda: C("bfs"), lambda: C("dfs")]
        if p == "other":
            return [lambda: net.r, lambda: net.w.new(net.cls)]
        return None
    out = [[]]
    for p in ps:
        if p not in req and vals(p) is None:
            break
        vs = vals(p)
        if vs is None:
            return None
        out = [o + [v] for o in out for v in vs]
    return out


class Odd(Exception):
    """an observation that contradicts the model"""


def show_t(t):
    return show(t)[:80] if not isinstance(t, T) else str(t)[:80]


def shapes(n, directed=False, isolated=True):
    """all graphs on the names 0..n-1 (every name a vertex)"""
    prs = [(a, b) for a in range(n) for b in range(n) if (a != b if directed else a < b)]
    for k in range(2 ** len(prs)):
        yield [p for i, p in enumerate(prs) if k >> i & 1]


def verdict(ck, net, nm, anchor, bad, what=""):
    """bad: None or (anchor, text)"""
    if net.I.imprecise:
        ck.add(nm, "unknown", anchor, "imprecise: %s" % (net.I.imprecise[:2],))
    elif bad:
        ck.add(nm, "violated", bad[0] or anchor, bad[1])
    else:
        ck.ok(nm, anchor, what)
