"""A rejected operation changes nothing: every public operation of programs, graphs and formulations is given wrong arguments of every
kind (sizes, positions, duplicates, unknown names, signs, types); on every path that ends in a rejection the object must show exactly
what it showed before.  Decided by comparing the abstract observations at the exceptional exits with those before the call."""
from .lpmeth import *
from .graphspec import UG, DG, Net, Odd, shapes, verdict, MUTATORS
from . import graphspec as gs
from .formspec import *
from .C33 import symbols

TECHNIQUE = "abstract interpretation of exceptional exits: observations at every rejection compared with those before the call"
REJ = ("ValueError", "TypeError", "IndexError", "KeyError", "LookupError", "AssertionError", "NotImplementedError", "AttributeError", "OverflowError")

# ------------------------------------------------------------------ programs


def bad_args(meth, w, lp):
    """[(label, args, kw)]"""
    args, kw = meth.mk(w, lp)
    m, n = nrows(lp), ncols(lp)
    out = [("as given", args, kw)]
    def repl(i, v, lab):
        out.append((lab, args[:i] + [v] + args[i + 1:], kw))
    for i, a in enumerate(args):
        o = w.I.obj(a) if isinstance(a, Ref) else None
        if isinstance(o, Nd) and o.shape is not None and len(o.shape) == 1:
            k = o.shape[0]
            size = k.args[0] if k.op == "lin" and not k.args[1] else None
            if size is None:
                continue
            size = int(size)
            for d in (size - 1, size + 1, size + 2):
                if d > 0:
                    repl(i, w.arr("bad%d" % d, const(d)), "argument %d of size %d" % (i, d))
                    repl(i, w.lst(*[w.sc("bl%d_%d" % (d, j)) for j in range(d)]), "argument %d a list of size %d" % (i, d))
            repl(i, w.arr("bad2", const(2), const(size)), "argument %d a matrix" % i)
            repl(i, w.arr("bad3", const(size), const(1)), "argument %d a column" % i)
        elif isinstance(o, Lst):
            base = [n - j for j in range(m)]
            for lab, vs in (("repeats", [n] * m), ("too few", base[:-1]), ("too many", base + [1]), ("zero", [0] + base[1:]), ("beyond", [n + 1] + base[1:]), ("negative", [-1] + base[1:]), ("empty", [])):
                repl(i, w.lst(*[C(v) for v in vs]), "basis: %s" % lab)
        elif isinstance(a, C) and isinstance(a.v, str):
            for v in ("<", "==", "", None, 3):
                repl(i, C(v), "argument %d %r" % (i, v))
    if meth.name == "add_variable":
        out.append(("free and negative", args, {"free": TRUE, "negative": TRUE}))
        out.append(("wrong column and free", [args[0], w.arr("badc", const(m + 1))], {"free": TRUE}))
        out.append(("wrong column and negative", [args[0], w.arr("badc", const(m + 1))], {"negative": TRUE}))
        out.append(("column matrix", [args[0], w.arr("badm", const(m + 1), const(2))], {"negative": TRUE}))
    return out


def programs(ck):
    for kind in ("LP", "IP"):
        dotted = {"LP": LPC, "IP": IPC}[kind]
        ms, _, _ = table(kind)
        for m in ms:
            if m.prop or m.name.startswith("__") or m.name in ("branch_and_bound", "to_rref", "solve", "two_phase_simplex", "optimal_value"):
                continue
            if kind == "IP" and not ck.thorough and m.name not in ("is_feasible", "add_constraint", "add_variable", "value_of"):
                continue
            for lab, rows, cols, obj in shapes_for(m, kind):
                if m.heavy and lab != "sef":
                    continue
                tag = "%s.%s/%s" % (kind, m.label, lab)
                anchor = dotted + "." + m.name
                def probe():
                    w = World(cap=CAP)
                    return [x[0] for x in bad_args(m, w, build(w, kind, rows, cols, obj))]
                for k, what in enumerate(probe()):
                    nm = "%s/%s" % (tag, what)
                    def f():
                        w = ck.world(cap=SMALL if m.heavy else CAP)
                        lp = build(w, kind, rows, cols, obj)
                        _, args, kw = bad_args(m, w, lp)[k]
                        before = view(w, lp.r)
                        kw = dict(kw)
                        if has_param(kind, m.name, "in_place"):
                            kw["in_place"] = TRUE
                        (st, v, ex), _ = invoke(w, lp, m, kw=kw, made=(args, {}))
                        n = 0
                        for s, e in ex:
                            if e.name in REJ:
                                n += 1
                                unchanged(ck, nm + "/" + e.name, w, before, view_in(w, s, lp.r, LP_VIEW), s.facts, anchor, "a rejected call changes nothing")
                        if not n:
                            ck.ok(nm, anchor, "not rejected")
                    ck.scen(nm, f, anchor)


# ------------------------------------------------------------------ graphs

def graph_args(net, directed):
    """wrong and right arguments of every operation: {operation: [(label, [values])]}"""
    ns = list(range(net.n)) + [net.stranger]
    prs = [(a, b) for a in ns for b in ns]
    wts = [("w", C(3)), ("-1", C(-1)), ("None", NONE), ("text", C("heavy"))]
    V, E = ("node", "arc") if directed else ("vertex", "edge")
    out = {}
    out["add_" + V] = [("(%s, %s)" % (v, l), [net.names[v], x]) for v in ns for l, x in wts]
    out["set_%s_weight" % V] = out["add_" + V]
    out["add_" + E] = [("(%s, %s)" % (p, l), [net.pair(*p), x]) for p in prs for l, x in wts]
    out["add_" + E] += [("(empty, %d)" % v, [Tup((C(""), net.names[v]))]) for v in ns] + [("(%d, empty)" % v, [Tup((net.names[v], C("")))]) for v in ns]
    out["add_" + E] += [("(one end %d)" % v, [Tup((net.names[v],))]) for v in ns] + [("None", [NONE])]
    out["set_%s_weight" % E] = [("(%s, %s)" % (p, l), [net.pair(*p), x]) for p in prs for l, x in wts]
    out["remove_" + E] = [(str(p), [net.pair(*p)]) for p in prs] + [("one end", [Tup((net.names[0],))]), ("None", [NONE])]
    if directed:
        dem = [("1", C(1)), ("text", C("d")), ("()", Tup(())), ("(1,)", Tup((C(1),))), ("(1, 2)", Tup((C(1), C(2)))), ("(1, text)", Tup((C(1), C("t")))), ("list", None), ("True", TRUE)]
        out["add_arc"] += [("(%s, w, demands %s)" % (p, l), [net.pair(*p), C(2), x if x is not None else net.w.lst(C(1), C(2))]) for p in prs for l, x in dem]
        out["remove_arc"] += [("(%s, True)" % (p,), [net.pair(*p), TRUE]) for p in prs]
    return out


def graphs(ck):
    for directed in (False, True):
        cls = DG if directed else UG
        have = [n for n in public_methods(cls) if n.startswith(MUTATORS)]
        G = [(0, [], 2), (2, [], 0), (2, [(0, 1)], 0), (3, [(0, 1), (1, 2)], 0), (3, [(0, 2), (1, 2), (0, 1)], 0)]
        if directed:
            G += [(2, [(1, 0), (0, 1)], 0)]
        for n, es, more in G:
            for op in sorted(have):
                nm = "%s.%s on %d names with edges %s" % (cls.split(".")[-1], op, n, es)
                def go():
                    net = Net(ck, n + more, directed=directed, weights=n + len(es), concrete=True)
                    net.build(range(n), es)
                    st0 = net.I.st
                    before = net.observe(st0).frozen()
                    cases = graph_args(net, directed).get(op)
                    if cases is None:
                        from .lpmeth import params as prm
                        ps = prm(public_methods(cls)[op])[0]
                        if ps:
                            ck.add(nm, "unknown", cls + "." + op, "operation not understood")
                            return
                        cases = [("()", [])]
                    bad = None
                    for lab, args in cases:
                        net.I.st = st0.copy()
                        if any(isinstance(a, Ref) for a in args):
                            args = dict(graph_args(net, directed)[op])[lab]
                        for s, v, e in net.run(net.I.st, op, *args):
                            if e is None:
                                continue
                            try:
                                after = net.observe(s).frozen()
                            except Odd as x:
                                after = str(x)
                            if after != before:
                                bad = bad or (cls + "." + op, "%s%s raises %s and leaves the graph %s, it was %s" % (op, lab, e, after, before))
                    verdict(ck, net, nm, cls + "." + op, bad)
                ck.scen(nm, go, cls + "." + op)


# ------------------------------------------------------------------ formulations

P0 = "_p = maximize(a*x[1] + b*x[2] - c*x[4] + p).subject_to(d*x[3] - x[1] <= q, x[2] >= n)\n"
STATES = ["", ".where(v1 >= 0)", ".where(v2 <= 0, v1 >= 0)", ".where(x >= 0)", ".whereAllNegative()", ".where(v3 <= 0)"]
CALLS = ["where(v1 >= 0)", "where(v1 <= 0)", "where(v2 >= 0, v2 >= 0)", "where(v3 <= 0, v3 >= 0)", "where(v2 >= 0, v1 <= 0)", "where(v3 >= 0, v1 >= 0)", "where(v3 >= 0, x <= 0)", "where(x <= 0)", "where(x >= 0)",
         "whereAllPositive()", "whereAllNegative()", "where(v3 <= 0, None)", "where(v3 >= 0, 3)", "where(v3 <= 0, x[1] <= 2)", "where(x[1] >= 0)", "where(None)", "where(v3 >= 0, v3 >= 1)", "where(v1 >= 0, v2 <= 0, v3 >= 0, v1 >= 0)"]


def formulations(ck):
    A = "pytimize.formulations.linear.AbstractLinearProgram"
    for s in STATES:
        for c in CALLS:
            for compiled in (False, True):
                nm = "formulation%s then %s%s" % (s, c, ", compiled before" if compiled else "")
                anchor = "pytimize.formulations.linear.maximize"
                def go():
                    w = ck.world()
                    f = Form(w)
                    symbols(f)
                    I = w.I
                    def setup():
                        f.enter()
                        I.exec_block(ast.parse(P0 + "_p%s\n" % s).body)
                        return I.st.L["_p"]
                    s0, p, e0 = I.run(setup)
                    if s0 is None or e0 and any(e.name == "NameError" for _, e in e0):
                        ck.add(nm, "unknown", anchor, "scenario not understood %s" % (e0[:1],))
                        return
                    def see(st):
                        I.st = st.copy()
                        q, t, ex = I.run(lambda: obs_program(w, I.getattr(p, "program")))
                        return t if q is not None else mk("c", "no program: %s" % sorted({e.name for _, e in ex}))
                    before = see(s0)
                    I.st = s0.copy()
                    if compiled:
                        q, _, _ = I.run(lambda: I.getattr(p, "program"))
                        I.st = q
                    def op():
                        f.enter()
                        I.st.L["_p"] = p
                        I.exec_block(ast.parse("_p.%s\n" % c).body)
                        return NONE
                    st, v, ex = I.run(op)
                    k = 0
                    for q, e in ex:
                        k += 1
                        after = see(q)
                        unchanged(ck, "%s/%s" % (nm, e.name), w, {"program": before}, {"program": after}, q.facts, anchor, "a rejected statement changes nothing")
                    if not k:
                        ck.ok(nm, anchor, "not rejected")
                ck.scen(nm, go, anchor)


def run(ck):
    graphs(ck)
    formulations(ck)
    programs(ck)
