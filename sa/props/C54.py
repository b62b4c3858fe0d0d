"""Extending a program: after every history of up to four added constraints and variables, each with its sense or sign
restriction, in place or not, with values as arrays or lists, the program shows the original rows and columns followed
by the new ones, answers feasibility and value questions about the extended problem, and has its dual.  Arguments that
do not fit are refused and leave the program as it was.  Decided by comparing the abstract value of every observation
with the extended problem."""
import random
from .lpmeth import *
from .C07 import dual_view
from ..scen import words

TECHNIQUE = "abstract interpretation of operation histories from a symbolic program; every observation compared with the extended problem"
SHAPES = [(["le", "ge", "eq"], ["nn", "neg", "free"], "max"), (["eq", "eq"], ["nn", "nn", "nn"], "max"), (["ge"], ["free", "nn"], "min"), (["eq", "le"], ["neg", "nn"], "min")]
OPS = ("<=", "=", ">=")
KINDS = ("nn", "free", "neg")


class Ext1:
    """the reference: a program with rows and columns added"""

    def __init__(self, base, hist):
        self.obj, self.z = base.obj, base.z
        self.rows = [list(r) for r in base.rows]
        self.b, self.c, self.ops, self.kind = list(base.b), list(base.c), list(base.ops), list(base.kind)
        for h in hist:
            if h[0] == "row":
                self.rows.append(list(h[2]))
                self.b.append(h[3])
                self.ops.append(h[1])
            else:
                for r, x in zip(self.rows, h[2]):
                    r.append(x)
                self.c.append(h[3])
                self.kind.append(h[1])
        self.m, self.n = len(self.rows), len(self.c)

    def col(self, j):
        return [r[j] for r in self.rows]

    def view(self):
        at = lambda k: [i + 1 for i, x in enumerate(self.kind) if x == k]
        return {"A": arr2(self.rows, self.n), "b": arr1(self.b), "c": arr1(self.c), "z": self.z, "objective": self.obj, "inequalities": self.ops,
                "free_variables": at("free"), "negative_variables": at("neg"), "positive_variables": at("nn"),
                "is_sef": self.obj == "max" and all(o == "=" for o in self.ops) and all(k == "nn" for k in self.kind)}


def given(w, name, n, form):
    """a vector argument: (value, [term of each entry])"""
    if form == "array":
        a = w.arr(name, const(n))
        return a, lambda ev: list(ev.ev(mk("sym", name)).d)
    if form == "int array":
        a = w.arr(name, const(n), dt="int")
        return a, lambda ev: list(ev.ev(mk("sym", name)).d)
    xs = [w.sc("%s%d" % (name, i), "int" if form == "int list" else "float") for i in range(n)]
    return w.lst(*xs), lambda ev: [ev.ev(mk("sym", "%s%d" % (name, i))) for i in range(n)]


def step(w, r, h, m, n, k, inp, form):
    """apply one operation; ('row'|'col', sense, entries, number) as functions of the valuation"""
    if h[0] == "row":
        q, qe = given(w, "q%d_" % k, n, form)
        v = w.sc("v%d" % k)
        r2 = w.call(r, "add_constraint", q, C(h[1]), v, in_place=inp) if inp is not None else w.call(r, "add_constraint", q, C(h[1]), v)
        return r2, lambda ev: ("row", h[1], qe(ev), ev.ev(mk("sym", "v%d" % k)))
    kw = {} if inp is None else {"in_place": inp}
    if h[1] == "free":
        kw["free"] = TRUE
    if h[1] == "neg":
        kw["negative"] = TRUE
    how = h[2]
    ce, qe = (lambda ev: F(0)), (lambda ev: [F(0)] * m)
    if how in ("both", "cost"):
        kw["coefficient"] = w.sc("v%d" % k)
        ce = lambda ev: ev.ev(mk("sym", "v%d" % k))
    if how in ("both", "column"):
        kw["column"], qe = given(w, "q%d_" % k, m, form)
    r2 = w.call(r, "add_variable", **kw)
    return r2, lambda ev: ("col", h[1], qe(ev), ce(ev))


def histories(ck):
    single = [("row", o) for o in OPS] + [("col", k, how) for k in KINDS for how in ("both", "cost", "column", "none")]
    out = [[h] for h in single]
    rnd = random.Random("%s/C54" % ck.seed)
    for _ in range(24 if not ck.thorough else 150):
        out.append([rnd.choice(single) for _ in range(rnd.choice([2, 2, 3, 4]))])
    return out


def run(ck):
    for kind in ("LP", "IP"):
        dotted = {"LP": LPC, "IP": IPC}[kind]
        for si, (rows, cols, obj) in enumerate(SHAPES):
            if kind == "IP" and si not in (0, 2):
                continue
            for hi, hist in enumerate(histories(ck)):
                if kind == "IP" and len(hist) > 1 and hi % 3:
                    continue
                inp = (FALSE, TRUE, None)[(hi + si) % 3]
                form = ("array", "list", "int array", "int list")[(hi // 3 + si) % 4]
                nm = "extend/%s/%s/%d %s" % (kind, ",".join(rows + cols + [obj]), hi, " ".join("-".join(h) for h in hist))
                anchor = dotted + (".add_constraint" if hist[-1][0] == "row" else ".add_variable")
                def f():
                    w = ck.world(cap=CAP)
                    lp = build(w, kind, rows, cols, obj)
                    r, hs, m, n = lp.r, [], len(rows), len(cols)
                    for k, h in enumerate(hist):
                        r, e = step(w, r, h, m, n, k, inp, form)
                        hs.append(e)
                        m, n = m + (h[0] == "row"), n + (h[0] == "col")
                    ref = lambda ev: Ext1(V(ev, lp), [e(ev) for e in hs])
                    v = view_lp(w, r)
                    for o in LP_VIEW:
                        ck.equal(nm + "/" + o, w, v[o], lambda ev: ref(ev).view()[o], anchor, n=4 if not ck.thorough else 30, rule="the extended program's `%s`" % o)
                    if len(hist) > 1 and kind == "LP":
                        d = view_lp(w, w.call(r, "dual"))
                        for o in LP_VIEW:
                            ck.equal(nm + "/dual/" + o, w, d[o], lambda ev: dual_view(ref(ev))[o], anchor, n=3, rule="the dual of the extended program, `%s`" % o)
                    x = w.arr("x", const(n))
                    res = w.I.run(lambda: w.I.call(w.I.getattr(r, "evaluate"), [x], {}))
                    def val(ev):
                        p = ref(ev)
                        return ("ok", p.z + dot(p.c, ev.ev(mk("sym", "x")).d))
                    if len(hist) == 1 or hi % 2:
                        ck.outcome(nm + "/value", w, res, val, anchor, n=3, rule="the value of a vector of the extended program")
                ck.scen(nm, f, anchor)
        refusals(ck, kind, dotted)


def refusals(ck, kind, dotted):
    bad, ok = ("raise", {"ValueError"}), ("ok",)
    for k in (0, 1):
        refusals_on(ck, kind, dotted, bad, ok, *SHAPES[k])


def refusals_on(ck, kind, dotted, bad, ok, rows, cols, obj):
    def case(name, meth, mk_, want, deep=True):
        for inp in (TRUE, FALSE):
            nm = "refuse/%s/%s/%s/%s%s" % (kind, obj + str(len(rows)), meth, name, "/in place" if inp is TRUE else "")
            anchor = dotted + "." + meth
            def f():
                w = ck.world(cap=CAP)
                lp = build(w, kind, rows, cols, obj)
                before = view(w, lp.r)
                args, kw = mk_(w)
                st, v, ex = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, meth), args, {**kw, "in_place": inp}))
                ck.outcome(nm, w, (st, None, ex), lambda ev: want, anchor, n=2, rule="accepted exactly when the arguments fit")
                if want is bad:
                    for i, (s, e) in enumerate(ex):
                        unchanged(ck, nm + "/unchanged/%d" % i, w, before, view_in(w, s, lp.r), s.facts, anchor, "a refused extension changes nothing", tries=2)
                        if not deep:
                            continue
                        # nor does it leave anything behind that a later extension brings to light
                        w.I.st = s.copy()
                        try:
                            r2 = w.call(lp.r, "add_constraint", w.arr("later", const(n)), C("="), w.sc("lv"), in_place=TRUE)
                        except Dead:
                            ck.add(nm + "/later/%d" % i, "violated", anchor, "after a refused extension a fitting one is refused too")
                            continue
                        v2 = view_lp(w, r2, ("A", "b", "c", "inequalities", "is_sef", "free_variables", "negative_variables"))
                        for o in v2:
                            ck.equal(nm + "/later/%d/%s" % (i, o), w, v2[o], lambda ev: Ext1(V(ev, lp), [("row", "=", list(ev.ev(mk("sym", "later")).d), ev.ev(mk("sym", "lv")))]).view()[o], anchor, n=2,
                                     rule="the next extension after a refused one, `%s`" % o)
            ck.scen(nm, f, anchor)
    n = len(cols)
    for k in (0, 1, n - 1, n + 1, n + 3):
        case("%d coefficients" % k, "add_constraint", lambda w: ([w.arr("q", const(k)), C("<="), w.sc("v")], {}), bad)
        if k:
            case("list of %d" % k, "add_constraint", lambda w: ([w.lst(*[w.sc("q%d" % i) for i in range(k)]), C("="), w.sc("v")], {}), bad)
    case("a row matrix", "add_constraint", lambda w: ([w.arr("q", const(1), const(n)), C("<="), w.sc("v")], {}), bad)
    case("a square matrix", "add_constraint", lambda w: ([w.arr("q", const(n), const(n)), C("<="), w.sc("v")], {}), bad)
    case("nested lists", "add_constraint", lambda w: ([w.lst(w.lst(*[w.sc("q%d" % i) for i in range(n)])), C("<="), w.sc("v")], {}), bad)
    case("texts", "add_constraint", lambda w: ([w.lst(*[C("1")] * n), C("<="), w.sc("v")], {}), bad)
    case("a text", "add_constraint", lambda w: ([C("1" * n), C("<="), w.sc("v")], {}), bad)
    case("no vector", "add_constraint", lambda w: ([NONE, C("<="), w.sc("v")], {}), bad)
    for o in sorted(set(words("<", ">", "==", "!=", "=<", "=>", "") if kind == "LP" and obj == "max" and len(rows) == 3 else ["<", ">", "==", "", "<=", ">=", "="])):
        case("sense %r" % o, "add_constraint", lambda w: ([w.arr("q", const(n)), C(o), w.sc("v")], {}), ok if o in OPS else bad, deep=o in ("<", "=="))
    for fr, ng in ((FALSE, FALSE), (TRUE, FALSE), (FALSE, TRUE), (TRUE, TRUE)):
        for col in (True, False):
            case("free %s negative %s%s" % (fr.v, ng.v, "" if col else " no column"), "add_variable",
                 lambda w: ([w.sc("v")] + ([w.arr("q", const(len(rows)))] if col else []), {"free": fr, "negative": ng}), bad if fr.v and ng.v else ok)
