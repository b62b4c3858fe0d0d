"""Equal inputs give equal results: nothing outside the arguments is consulted.  Three analyses: (1) an inventory of every reference to
random numbers, clocks, the environment, object identity or hashes, with the public operations that reach it; (2) every operation is
interpreted twice, with the members of every set coming in opposite orders (the real order depends on hashes), and the answers are
compared; (3) every operation is interpreted a second time in the state the first left behind, on an equal object, so that anything
remembered in modules, classes or default arguments shows."""
import ast
from .graphspec import *
from .lpmeth import *
from .formspec import Form, obs_program
from .C25 import GRAPHS, callable_v, net_iter
from .C33 import symbols
from .C35 import OBJ, CONS, HIST
from .C43 import hit
from ..check import show
from ..effects import Inventory

TECHNIQUE = "inventory of hidden inputs with call-graph reachability; relational abstract interpretation under opposite set orders and from a used state"
SOURCES = ["random", "random.*", "numpy.random*", "secrets.*", "uuid.*", "time.*", "datetime.*", "os.environ*", "os.getenv", "os.urandom", "os.getpid", "platform.*", "getpass.*",
           "builtins.id", "builtins.hash", "builtins.object.__hash__", "sys.hash_info*", "sys.getrefcount", "sys.argv*", "sys.platform", "gc.*", "weakref.*", "tempfile.*", "os.listdir", "socket.*"]
RANDOM = {"programs._linear.LinearProgram.random"}         # documented as random
TRAVERSE = "graphs._undirected.UndirectedGraph.traverse"   # documented as random for `rng` only: the other methods are judged by (2)


def inventory(ck):
    inv = Inventory()
    ck.funcs |= {f.qual for f in inv.fns}
    judged = {f.qual for f in inv.fns if f.cls in ("UndirectedGraph", "DirectedGraph")}
    n = 0
    for f in inv.fns:
        us = [u for u in f.uses if hit(u.path, SOURCES)]
        if not us or isinstance(f.node, ast.Module) and all(u.path in ("random",) for u in us):
            continue
        if f.name == "__hash__" and all(u.path in ("builtins.hash",) for u in us):
            continue                # a hash made of hashes decides only the order of sets, which (2) varies
        n += 1
        ent = sorted(g.qual for g in inv.reaching(f) if g.public and g.qual not in RANDOM)
        left = [q for q in ent if q not in judged or not all(u.path.startswith("random") for u in us)]
        ck.add("hidden inputs of %s" % f.qual, "violated" if left else "ok", f.at(us[0].line),
               "`%s` is reached from %s" % (us[0].path, ", ".join(left[:5]) or "operations documented as random, or judged by interpretation (%s)" % ", ".join(ent[:4])))
    ck.ok("hidden inputs", inv.fns[0].at(), "%d functions, %d of them refer to a hidden input" % (len(inv.fns), n))


NOTE = "Operations that iterate an unknown number of times (the solvers) are covered by the inventory of hidden inputs only; the others also by the two relational analyses."


def canon(net, v):
    """a value as far as == and iteration order of ordered collections show it"""
    I = net.I
    v = I.resolve(v)
    if isinstance(v, Tup):
        return ("tuple",) + tuple(canon(net, x) for x in v.vs)
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, Lst):
            if o.op or any(i.m != "1" or i.g is not None for i in o.items):
                raise Giveup("summarised collection")
            xs = [canon(net, i.v) for i in o.items]
            return ("set",) + tuple(sorted(xs, key=str)) if o.kind in ("set", "frozenset") else ("list",) + tuple(xs)
        if isinstance(o, Dct):
            return ("dict",) + tuple(sorted(((canon(net, k), canon(net, x)) for k, x in net.pairs(v)), key=str))
        if isinstance(o, Inst) and o.cls.name in ("UndirectedGraph", "DirectedGraph"):
            return ("graph", str(net.observe(I.st, on=v, deep=False).frozen()))
        if isinstance(o, Inst) and o.cls.name in ("LinearProgram", "IntegerProgram"):
            out = []
            for k, t in sorted(view_lp(net.w, v).items()):
                e = Ev("x")
                out.append((k, show(e.ev(t))))
            return ("program",) + tuple(out)
    return ("value", str(I.desc(v)))


def answers(net, st, q, v):
    """canonical outcomes of one query, and the state after it"""
    I = net.I
    I.st = st.copy()
    args = [f() for f in v]
    def do():
        f = I.getattr(net.r, q)
        r = I.call(f, args, {}) if callable_v(f) else f
        if isinstance(I.resolve(r), Ref) and isinstance(I.obj(I.resolve(r)), Lst):
            net_iter(I, r)
        return r
    out = []
    after = None
    for s, r, e in net.runf(I.st.copy(), do):
        I.st = s.copy()
        after = s
        out.append(("raise", e) if e is not None else canon(net, r))
    return sorted(set(out), key=str), after


def graph_query(ck, directed, n, es, q, ps, req):
    cls = DG if directed else UG
    A = cls + "." + q
    nm = "%s on %d names with edges %s" % (cls.split(".")[-1] + "." + q, n, es)
    def go():
        for how in ("edges", "neighbour sets"):
            seen = {}
            for order in ("fwd", "rev"):
                net = Net(ck, n, directed=directed, weights=n + len(es), concrete=True, set_order=order, plain=q == "__repr__")
                def make():
                    if how == "edges":
                        net.build(range(n), es)
                    else:
                        nb = {v: [b for a, b in es if a == v] + ([] if directed else [a for a, b in es if b == v]) for v in range(n)}
                        kw, outs = net.ctor(nb)
                        net.I.st = outs[0][0]
                        net.r = net.I.resolve(outs[0][1])
                        if len(outs) != 1 or outs[0][2] is not None:
                            raise Giveup("construction")
                make()
                st = net.I.st
                I = net.I
                vs = variants(net, q, req, ps)
                if vs is None:
                    ck.add(nm, "unknown", A, "parameters %s not understood" % (ps,))
                    return
                ne = len(I.effects)
                seen[order] = []
                for i, v in enumerate(vs):
                    out, after = answers(net, st, q, v)
                    seen[order].append(out)
                    eff = [e for e in I.effects[ne:] if e[0] in ("random", "time", "env")]
                    if eff:
                        verdict(ck, net, nm, A, (A, "%s(...) draws on %s at %s" % (q, eff[0][1], eff[0][2])))
                        return
                    if order == "fwd" and after is not None:
                        again, _ = answers(net, after, q, v)
                        if again != out:
                            verdict(ck, net, nm, A, (A, "asked twice, %s answers %s, then %s" % (q, out, again)))
                            return
                        I.st = after.copy()
                        old = net.r
                        make()
                        fresh, _ = answers(net, I.st, q, v)
                        net.r = old
                        if fresh != out:
                            verdict(ck, net, nm, A, (A, "on an equal graph built later, %s answers %s instead of %s" % (q, fresh, out)))
                            return
            for a, b in zip(seen["fwd"], seen["rev"]):
                if a != b:
                    verdict(ck, net, nm, A, (A, "%s of the graph built from %s depends on the order of a set: %s or %s" % (q, how, a, b)))
                    return
        verdict(ck, net, nm, A, None)
    ck.scen(nm, go, A)


def program_op(ck, kind, m, lab, rows, cols, obj):
    dotted = {"LP": LPC, "IP": IPC}[kind]
    A = dotted + "." + m.name
    nm = "%s.%s/%s" % (kind, m.label, lab)
    def go():
        got = {}
        for order in ("fwd", "rev"):
            w = ck.world(cap=SMALL if m.heavy else CAP, set_order=order)
            lp = build(w, kind, rows, cols, obj)
            made = m.mk(w, lp)
            facts = w.I.st.copy().facts
            (st, v, ex), _ = invoke(w, lp, m, made=made)
            got[order] = observe_run(w, st, v, ex, lp)
            eff = [e for e in w.I.effects if e[0] in ("random", "time", "env")]
            if eff:
                ck.add(nm, "violated", A, "draws on %s at %s" % (eff[0][1], eff[0][2]))
                return
            if order == "fwd" and st is not None:
                w.I.st = st.copy()
                w.I.st.facts = facts        # what the first run left behind, not what its path has shown about the inputs
                lp2 = build(w, kind, rows, cols, obj)
                (st2, v2, ex2), _ = invoke(w, lp2, m, made=m.mk(w, lp2))
                again = observe_run(w, st2, v2, ex2, lp2)
                if not settle(ck, nm + "/second run", w, got[order], again, st, A, "the same operation on an equal program gives an equal answer"):
                    return
        settle(ck, nm + "/set order", w, got["fwd"], got["rev"], st, A, "the answer does not depend on the order of sets")
    ck.scen(nm, go, A)


def observe_run(w, st, v, ex, lp):
    d = {"exits": (st is None,) + tuple(sorted({e.name for _, e in ex}))}
    if st is not None:
        w.I.st = st.copy()
        from .C02 import result_program
        ps = result_program(w, v)
        if ps:
            for i, p in enumerate(ps):
                for k, t in view_in(w, st, p).items():
                    d["result %d.%s" % (i, k)] = t
        else:
            w.I.st = st.copy()
            d["result"] = w.desc(v) if v is not None else None
        for k, t in view_in(w, st, lp.r).items():
            d["program." + k] = t
    return d


def settle(ck, nm, w, a, b, st, A, rule):
    ea, eb = a.pop("exits"), b.pop("exits")
    keep = dict(a)
    if ea != eb:
        ck.decide(nm, w, False, A, "%s: ends with %s, then with %s" % (rule, ea, eb))
        a["exits"] = ea
        return False
    ok = unchanged(ck, nm, w, a, b, st.facts if st is not None else {}, A, rule)
    a["exits"] = ea
    return ok is not False


def formulation(ck, nm, code):
    A = "pytimize.formulations.linear.maximize"
    def go():
        got = []
        for order in ("fwd", "rev"):
            w = ck.world(set_order=order)
            f = Form(w)
            symbols(f)
            I = w.I
            def body():
                f.enter()
                I.exec_block(ast.parse(code).body)
                first = I.st.L["_r"]
                t1 = mk("list", *[obs_program(w, I.getitem(first, C(i))) for i in range(len(I.obj(first).items))])
                f.enter()
                I.exec_block(ast.parse(code).body)
                ps = I.st.L["_r"]
                t2 = mk("list", *[obs_program(w, I.getitem(ps, C(i))) for i in range(len(I.obj(ps).items))])
                return mk("tup", t1, t2)
            st, t, ex = I.run(body)
            got.append((st is None, tuple(sorted({e.name for _, e in ex})), t))
            if st is not None:
                if t.args[0] is t.args[1]:
                    ck.ok(nm + "/second run/" + order, A, "identical terms")
                else:
                    ck.equal(nm + "/second run/" + order, w, t.args[1], lambda ev: ev.ev(t.args[0]), A, n=8, rule="the same statements a second time")
        (n1, e1, t1), (n2, e2, t2) = got
        if (n1, e1) != (n2, e2):
            ck.decide(nm + "/set order", w, False, A, "ends with %s or %s depending on the order of a set" % (e1, e2))
        elif not n1:
            if t1 is t2:
                ck.ok(nm + "/set order", A, "identical terms")
            else:
                ck.equal(nm + "/set order", w, t2, lambda ev: ev.ev(t1), A, n=8, rule="compiled program under two set orders")
    ck.scen(nm, go, A)


def run(ck):
    inventory(ck)
    for directed in (False, True):
        for q, (ps, req) in sorted(queries_of(DG if directed else UG).items()):
            for n, es in GRAPHS[directed]:
                graph_query(ck, directed, n, es, q, ps, req)
    for kind in ("LP", "IP"):
        ms, _, _ = table(kind)
        for m in ms:
            if kind == "IP" and not ck.thorough and m.name not in ("branch_and_bound", "relax", "copy", "__eq__"):
                continue
            if m.heavy:
                continue            # loops of unknown length: hidden inputs by the inventory only
            for lab, rows, cols, obj in shapes_for(m, kind):
                program_op(ck, kind, m, lab, rows, cols, obj)
    for o in OBJ if ck.thorough else OBJ[:4]:
        for cs in CONS:
            formulation(ck, "maximize %s subject to %s" % (o, ", ".join(cs)), "_r = [maximize(%s).subject_to(%s).program]" % (o, ", ".join(cs)))
    for nm, code in HIST:
        formulation(ck, nm, code)
