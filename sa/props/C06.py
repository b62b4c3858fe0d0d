"""Constructor acceptance: a program is built exactly when matrix, vectors, objective, inequality list and variable
lists fit together (sizes and variable numbers symbolic), ValueError otherwise, and the built program shows the data.
Decided on the exits of the abstract interpretation of the constructor and on the observations of the built program."""
from .lpmeth import *
from ..scen import words

TECHNIQUE = "abstract interpretation with symbolic sizes and variable numbers: acceptance condition of each exit compared with the specification"


def strs(w, xs):
    return w.lst(*[C(x) for x in xs])


def ints(w, xs):
    return w.lst(*[C(x) if isinstance(x, int) else x for x in xs])


def run(ck):
    for kind in ("LP", "IP"):
        dotted = {"LP": LPC, "IP": IPC}[kind]
        anchor = dotted + ".__init__"

        def good(w, m=2, n=3):
            return {"A": w.arr("A", const(m), const(n)), "b": w.arr("b", const(m)), "c": w.arr("c", const(n)), "z": w.sc("z"), "objective": C("max")}

        def case(name, mk, spec, n=None):
            nm = "ctor/%s/%s" % (kind, name)
            def f():
                w = ck.world(cap=None)
                kw = good(w)
                kw.update(mk(w) or {})
                res = w.I.run(lambda: w.I.call(w.cls(dotted), [], {k: v for k, v in kw.items() if v is not None}))
                st, v, ex = res
                ck.outcome(nm, w, (st, None, ex), spec if callable(spec) else (lambda ev: spec), anchor, n=n or (30 if not ck.thorough else 200), rule="construction accepted exactly when the arguments fit")
            ck.scen(nm, f, anchor)

        bad, ok = ("raise", {"ValueError"}), ("ok",)
        for o, s in (("max", ok), ("min", ok), ("maximize", bad), ("MAX", bad), ("", bad), ("mi", bad)):
            case("objective %r" % o, lambda w: {"objective": C(o)}, s)
        for o in words("maximise", "minimise", "minmax") if kind == "LP" else ():
            case("objective word %r" % o, lambda w: {"objective": C(o)}, ok if o in ("max", "min") else bad, n=1)
        for o in words("<", ">", "==", "!=", "=<", "=>") if kind == "LP" else ():
            case("inequality word %r" % o, lambda w: {"inequalities": strs(w, ["=", o])}, ok if o in ("=", "<=", ">=") else bad, n=1)
        case("objective number", lambda w: {"objective": C(1)}, bad)
        # sizes
        def sizes(w):
            ds = {}
            for d in "mnpq":
                s = w.sc("d" + d, "int", lo=1, hi=4)
                ds[d] = s.t
            return {"A": w.arr("A", ds["m"], ds["n"]), "b": w.arr("b", ds["p"]), "c": w.arr("c", ds["q"])}
        def sz(ev):
            v = {d: ev.ev(mk("sym", "d" + d)) for d in "mnpq"}
            return ok if v["m"] == v["p"] and v["n"] == v["q"] else bad
        case("symbolic sizes", sizes, sz, n=120)
        for nm, s in (("b", {"b": (3,)}), ("b short", {"b": (1,)}), ("c", {"c": (2,)}), ("c long", {"c": (4,)}), ("A vector", {"A": (3,)}), ("A cube", {"A": (2, 3, 1)}),
                      ("b matrix", {"b": (2, 1)}), ("c matrix", {"c": (1, 3)}), ("b row", {"b": (1, 2)}), ("A transposed", {"A": (3, 2)})):
            case("shape " + nm, lambda w: {k: w.arr(k, *[const(x) for x in sh]) for k, sh in s.items()}, bad)
        # nested lists
        def L(w, rows, py="float"):
            return w.lst(*[w.lst(*[w.sc("l%d_%d" % (i, j), py) for j in range(k)]) for i, k in enumerate(rows)])
        case("lists", lambda w: {"A": L(w, [3, 3]), "b": w.lst(w.sc("b0"), w.sc("b1")), "c": w.lst(*[w.sc("c%d" % i) for i in range(3)])}, ok)
        case("int lists", lambda w: {"A": L(w, [3, 3], "int"), "b": w.lst(w.sc("b0", "int"), w.sc("b1", "int")), "c": w.lst(*[w.sc("c%d" % i, "int") for i in range(3)])}, ok)
        case("ragged rows", lambda w: {"A": L(w, [3, 2])}, bad)
        case("ragged rows 2", lambda w: {"A": L(w, [2, 3])}, bad)
        case("flat list matrix", lambda w: {"A": w.lst(w.sc("l0"), w.sc("l1"), w.sc("l2"))}, bad)
        case("text entry", lambda w: {"A": w.lst(w.lst(C(1), C("2"), C(3)), w.lst(C(1), C(2), C(3)))}, bad)
        case("none entry", lambda w: {"b": w.lst(C(1), NONE)}, bad)
        case("text matrix", lambda w: {"A": C("123")}, bad)
        case("none vector", lambda w: {"b": C(0)}, bad)
        case("bool entry", lambda w: {"c": w.lst(C(1), C("a"), C(3))}, bad)
        # inequalities
        for xs, s in ((["=", "="], ok), (["<=", ">="], ok), ([">=", "="], ok), (["="], bad), (["=", "=", "="], bad), ([], bad), (["=", "<"], bad), (["==", "="], bad),
                      (["<=", "=>"], bad), (["", "="], bad), ([">", "<="], bad), (["<=", "<=", "<="], bad)):
            case("inequalities %s" % xs, lambda w: {"inequalities": strs(w, xs)}, s)
        case("inequality not text", lambda w: {"inequalities": w.lst(C("="), NONE)}, bad)
        # variable lists
        for a in ("free_variables", "negative_variables"):
            for xs, s in (([], ok), ([1], ok), ([3], ok), ([2, 1], ok), ([3, 1, 2], ok), ([0], bad), ([4], bad), ([-1], bad), ([1, 1], bad), ([2, 3, 2], bad), ([1, 4], bad), ([3, 0], bad), ([5, 1], bad)):
                case("%s %s" % (a, xs), lambda w: {a: ints(w, xs)}, s)
            def one(w):
                return {a: w.lst(w.sc("k", "int", lo=-3, hi=6))}
            case(a + " symbolic", one, lambda ev: ok if 1 <= ev.ev(mk("sym", "k")) <= 3 else bad, n=60)
            def two(w):
                return {a: w.lst(w.sc("k", "int", lo=-1, hi=5), w.sc("j", "int", lo=-1, hi=5))}
            case(a + " two symbolic", two, lambda ev: ok if all(1 <= ev.ev(mk("sym", x)) <= 3 for x in "kj") and ev.ev(mk("sym", "k")) != ev.ev(mk("sym", "j")) else bad, n=120)
        for f, g, s in (([1], [2], ok), ([1, 3], [2], ok), ([1], [1], bad), ([1, 2], [3, 2], bad), ([3], [1, 3], bad), ([1], [0], bad), ([4], [1], bad)):
            case("free %s negative %s" % (f, g), lambda w: {"free_variables": ints(w, f), "negative_variables": ints(w, g)}, s)
        def fg(w):
            return {"free_variables": w.lst(w.sc("k", "int", lo=0, hi=4)), "negative_variables": w.lst(w.sc("j", "int", lo=0, hi=4))}
        case("free and negative symbolic", fg, lambda ev: ok if all(1 <= ev.ev(mk("sym", x)) <= 3 for x in "kj") and ev.ev(mk("sym", "k")) != ev.ev(mk("sym", "j")) else bad, n=120)
        # the built program shows what it was given
        for r, c, ex, lab in shapes([(("le", "ge", "eq"), ("nn", "neg", "free")), (("ge", "le", "eq", "le2"), ("free", "nn", "neg", "nn2", "free2"))] if kind == "LP" else [], ONE):
            for obj in ("max", "min"):
                nm = "shows/%s/%s/%s" % (kind, obj, lab)
                def f():
                    w = ck.world()
                    lp = LP(w, rows=r, cols=c, objective=obj, exact=ex, cls=dotted)
                    v = view_lp(w, lp.r)
                    for k in LP_VIEW:
                        ck.equal(nm + "/" + k, w, v[k], lambda ev: V(ev, lp).view()[k], anchor, n=10 if not ck.thorough else 60, rule="observation `%s` of the built program" % k)
                ck.scen(nm, f, anchor)
        nm = "shows/%s/unsorted" % kind
        def g():
            w = ck.world()
            A, b, c = w.arr("A", const(2), const(4)), w.arr("b", const(2)), w.arr("c", const(4))
            r = w.new(dotted, A, b, c, w.sc("z"), C("min"), strs(w, [">=", "<="]), ints(w, [4, 1]), ints(w, [3, 2]))
            v = view_lp(w, r)
            ck.equal(nm + "/free_variables", w, v["free_variables"], lambda ev: [1, 4], anchor, n=3, cmp=as_sets, rule="free variables")
            ck.equal(nm + "/negative_variables", w, v["negative_variables"], lambda ev: [2, 3], anchor, n=3, cmp=as_sets, rule="negative variables")
            ck.equal(nm + "/positive_variables", w, v["positive_variables"], lambda ev: [], anchor, n=3, rule="positive variables")
            r2 = w.new(dotted, A, b, c)
            v = view_lp(w, r2)
            for k, x in (("objective", "max"), ("inequalities", ["=", "="]), ("free_variables", []), ("negative_variables", []), ("positive_variables", [1, 2, 3, 4]), ("is_sef", True), ("z", F(0))):
                ck.equal("shows/%s/defaults/%s" % (kind, k), w, v[k], lambda ev: x, anchor, n=3, rule="defaults")
        ck.scen(nm, g, anchor)


def as_sets(a, b):
    try:
        return sorted(a) == sorted(b)
    except TypeError:
        return False
