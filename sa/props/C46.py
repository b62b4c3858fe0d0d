"""The printed form of a program: the notation of a single number is left to the one formatting method and replaced by a distinct mark
per number; the text that is assembled around the marks is read back and compared, part by part, with the program: sense, every cost,
the constant with its sign, every row with its own coefficients, sense and right-hand side, and the sign restrictions."""
import re
from .lpmeth import *
from .. import terms as tm

TECHNIQUE = "abstract interpretation with marks for formatted numbers; the assembled text read back and compared with the program's terms"
A = LPC + ".__repr__"
IA = "pytimize.programs.IntegerProgram.__repr__"
SUB = {ord("₀") + i: str(i) for i in range(10)}
FAM = [(["le", "ge"], ["free", "neg", "nn"], "max"), (["le", "eq"], ["neg", "neg"], "min"), (["ge", "eq", "le"], ["nn", "nn"], "max"), (["eq"], ["free", "free"], "min"), (["eq", "le"], ["nn"], "max"),
       (["le"], ["nn", "neg", "free", "neg", "nn"], "min"), (["ge", "ge", "ge", "eq", "le"], ["neg", "nn", "nn"], "max"), (["eq"], ["neg"], "min"), (["le", "le"], ["free"], "max"),
       (["le", "ge"], ["neg", "nn", "neg"], "max"), (["le", "eq"], ["nn", "nn", "neg"], "min"), (["eq", "ge", "le"], ["nn", "free", "nn", "nn"], "max"), (["ge"], ["free", "neg"], "max")]


class Marks:
    """one mark per number that is formatted"""

    def __init__(self, w, style):
        self.w, self.style, self.of = w, style, {}
        w.I.call_hook = self

    def __call__(self, I, f, args, kwargs):
        if f.name != "_format_number":
            return None
        v = args[-1] if args else next(iter(kwargs.values()))
        t = I.desc(v)
        if t not in self.of:
            k = len(self.of)
            whole, part = str(10 ** (1 + (k * self.style) % 4) * 10 + k), ("", "25", "5", "375", "1e-07")[(k * (self.style + 1)) % 5]
            if t.op != "abs" and (k + self.style) % 4 == 0:
                whole = "-" + whole
            self.of[t] = (whole + "." + part, len(whole), len(part))
        s, a, b = self.of[t]
        return Tup((C(s), C(a), C(b)))


def read(text):
    """what the text shows: sense, costs, sign and constant, rows, sign restrictions"""
    m = re.match(r"\s*(Max|Min)\s*\[([^\]]*)\]\s*x\s*(?:([+-])\s*(\S+))?\s*\n\s*Subject To:\s*\n", text)
    if not m:
        return None
    rows, pos, neg, rest, at = [], [], [], [], set()
    for line in text[m.end():].split("\n"):
        if not line.strip():
            continue
        r = re.match(r"\s*\[([^\]]*)\]\s*x?\s*(≥|≤|=)\s*\[([^\]]*)\]\s*$", line)
        if r:
            b = r.group(3).split()
            if len(b) != 1 or pos or neg or rest:
                return None
            at.add(tuple((i, ch) for i, ch in enumerate(line) if ch in "[.]"))
            rows.append((r.group(1).split(), {"≥": ">=", "≤": "<=", "=": "="}[r.group(2)], b[0]))
            continue
        r = re.match(r"\s*(x|x[₀-₉]+(?:\s*,\s*x[₀-₉]+)*)\s*(≥|≤)\s*0\s*$", line)
        if r:
            to = pos if r.group(2) == "≥" else neg
            to += ["all"] if r.group(1) == "x" else [int(q.strip()[1:].translate(SUB)) for q in r.group(1).split(",")]
            continue
        rest.append(line.strip())
    return {"objective": m.group(1).lower(), "c": m.group(2).split(), "z": (m.group(3), m.group(4)), "rows": rows, "pos": pos, "neg": neg, "rest": rest, "aligned": len(at) <= 1}


def agrees(ev, marks, text, v, rest):
    d = read(text)
    if d is None:
        return False
    back = {}
    for t, (s, _, _) in marks.of.items():
        back[s] = num(ev.ev(t))
    val = lambda ts: [back.get(t) for t in ts]
    if d["objective"] != v.obj or val(d["c"]) != v.c or d["rest"] != rest or not d["aligned"]:
        return False
    if d["z"][0] is None:
        if v.z != 0:
            return False
    else:
        z = back.get(d["z"][1])
        if z is None or (z if d["z"][0] == "+" else -z) != v.z:
            return False
    if [(val(a), op, back.get(b)) for a, op, b in d["rows"]] != [(r, op, b) for r, op, b in zip(v.rows, v.ops, v.b)]:
        return False
    for got, want in ((d["pos"], v.pos), (d["neg"], v.neg)):
        if (list(range(1, v.n + 1)) if got == ["all"] else sorted(got)) != sorted(want):
            return False
    return True


def run(ck):
    for i, (rows, cols, obj) in enumerate(FAM):
        for kind in ("LP", "IP"):
            for style in (1, 2, 3) if ck.thorough else (1 + i % 3,):
                nm = "%s/%s/%s/%s/%d" % (kind, obj, "+".join(rows), "+".join(cols), style)
                anchor = A if kind == "LP" else IA

                def f():
                    w = ck.world()
                    lp = LP(w, rows=rows, cols=cols, objective=obj, exact=True)
                    target = lp.r if kind == "LP" else w.new("pytimize.programs.IntegerProgram", *[w.get(lp.r, k) for k in ("A", "b", "c", "z", "objective", "inequalities", "free_variables", "negative_variables")])
                    mk_ = Marks(w, style)
                    res = w.I.run(lambda: w.I.call(Ext("builtins.repr"), [target], {}))
                    w.I.call_hook = None
                    if not mk_.of:
                        ck.add(nm, "unknown", anchor, "numbers are not formatted by _format_number")
                        return

                    def spec(ev):
                        v = V(ev, lp)
                        if v.z != 0 and abs(v.z) < F(1, 10 ** 6):
                            raise Skip()
                        return ("ok", (ev, v))
                    ck.outcome(nm, w, res, spec, anchor, n=20 if not ck.thorough else 80, gen={"z": lambda ev: ev.rng.choice((F(0), F(-3), F(5, 2), F(1), F(-1, 4)))}, rule="everything shown in its place",
                               cmp=lambda got, want: isinstance(got, str) and agrees(want[0], mk_, got, want[1], [] if kind == "LP" else ["x ∈ Z"]))
                ck.scen(nm, f, anchor)
    notation(ck)


def notation(ck):
    """the text of one number: its sign, and its value to three significant decimals"""
    anchor = LPC + "._format_number"
    for scale in ("tiny", "small", "medium", "whole", "large", "huge"):
        nm = "notation of a %s number" % scale

        def f():
            w = ck.world()
            lp = LP(w, rows=["le"], cols=["nn"], exact=True)

            def draw(ev):
                r = ev.rng
                m = {"tiny": lambda: r.uniform(1, 10) * 10.0 ** -r.randint(5, 8), "small": lambda: r.uniform(0.0002, 0.99), "medium": lambda: r.randint(1, 5000) + r.uniform(0.01, 0.99),
                     "whole": lambda: float(r.choice((0, 1, 2, 9, 10, 99, 100, 1234, 100000, 999999))), "large": lambda: r.randint(10 ** 5, 10 ** 9) + r.uniform(0.01, 0.99), "huge": lambda: r.uniform(1.1, 9.9) * 10.0 ** r.randint(10, 15)}[scale]()
                return F(m) * r.choice((1, -1))
            st, v, ex = w.I.run(lambda: w.I.call(w.I.getattr(lp.r, "_format_number"), [w.sc("q")], {}))
            if st is None:
                ck.add(nm, "unknown", anchor, "no normal return")
                return
            w.I.st = st
            text = w.I.getitem(v, C(0))
            if not any(x.op == "unk" for x in tm.subterms(w.desc(text))):       # the lengths that go with the text are not judged here
                w.I.imprecise[:] = [q for q in w.I.imprecise if not q[0].startswith("unpack")]
            ck.outcome(nm, w, (st, text, ex), lambda ev: ("ok", ev.ev(mk("sym", "q"))), anchor, n=60 if not ck.thorough else 400, gen={"q": draw}, rule="notation", cmp=shows)
        ck.scen(nm, f, anchor)


def shows(text, x):
    if not isinstance(text, str) or not re.fullmatch(r"-?[0-9]+\.[0-9]*(e[+-][0-9]+)?", text):
        return False
    if x == 0:
        return F(text) == 0 if "e" not in text else False
    return text.startswith("-") == (x < 0) and abs(F(float(text)) - x) <= (F(51, 100000) if 1 <= abs(x) <= 10 ** 10 else F(11, 10000) * abs(x))
