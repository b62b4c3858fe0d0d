"""Asking a question about a graph never changes it: every public method and property of the graph classes other than the operations
(add_, remove_, set_), found in the current source, is evaluated on small graphs with known and unknown names; afterwards, whether it
answered or raised, the graph shows what it showed before and the collections passed in are what they were."""
from .graphspec import *

TECHNIQUE = "effect analysis by abstract interpretation: heap of the graph and of the arguments before and after every query found in the source"
GRAPHS = {False: [(0, []), (1, []), (2, [(0, 1)]), (3, [(0, 1), (1, 2)]), (3, [(0, 1), (1, 2), (0, 2)]), (4, [(0, 1), (2, 3)]), (4, [(0, 1), (1, 2), (2, 3), (0, 3)])],
          True: [(1, []), (2, [(0, 1)]), (2, []), (3, [(0, 1), (1, 2)]), (3, [(0, 1), (0, 2), (1, 2)]), (4, [(0, 1), (0, 2), (1, 3), (2, 3)])]}


def one(ck, directed, n, es, q, ps, req):
    cls = DG if directed else UG
    nm = "%s on %d names with edges %s" % (cls.split(".")[-1] + "." + q, n, es)
    def go():
        net = Net(ck, n, directed=directed, weights=n + len(es), concrete=True, set_order="fwd", plain=q == "__repr__")
        m = net.build(range(n), es)
        st = net.I.st
        before = net.observe(st).frozen()
        I = net.I
        vs = variants(net, q, req, ps)
        if vs is None:
            ck.add(nm, "unknown", cls + "." + q, "parameters %s not understood" % (ps,))
            return
        bad = None
        for k, v in enumerate(vs):
            I.st = st.copy()
            args = [f() for f in v]
            shown = [I.desc(a) for a in args]
            start = I.st.copy()
            def do():
                f = I.getattr(net.r, q)
                r = I.call(f, args, {}) if callable_v(f) else f
                if isinstance(I.resolve(r), Ref) and isinstance(I.obj(I.resolve(r)), Lst):
                    net_iter(I, r)
                return r
            for s, r, e in net.runf(start, do):
                try:
                    after = net.observe(s, deep=False).frozen()
                except Odd as x:
                    after = str(x)
                how = "%s(%s)" % (q, ", ".join(str(x) for x in shown))
                if after != before:
                    bad = bad or (cls + "." + q, "%s %s and leaves the graph %s, it was %s" % (how, "answers" if e is None else "raises " + e, after, before))
                I.st = s
                if any(I.desc(a) is not d for a, d in zip(args, shown)):
                    bad = bad or (cls + "." + q, "%s %s and changes its argument to %s" % (how, "answers" if e is None else "raises " + e, [str(I.desc(a)) for a in args]))
        verdict(ck, net, nm, cls + "." + q, bad)
    ck.scen(nm, go, cls + "." + q)


def callable_v(f):
    return isinstance(f, (Bound, Fn, BM))


def net_iter(I, r):
    """exhaust an iterator"""
    from ..builtin_models import iter_items
    iter_items(I, r)


def run(ck):
    for directed in (False, True):
        for q, (ps, req) in sorted(queries_of(DG if directed else UG).items()):
            for n, es in GRAPHS[directed]:
                one(ck, directed, n, es, q, ps, req)
