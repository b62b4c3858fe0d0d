"""What the two parsers accept and return, written down independently of the code, and the machinery that compares."""
import random
from .lpspec import *
from ..ev import Ev, Arr, same
from ..check import possible
from .. import rx
from .. import terms as tm

GP = "pytimize.parsers.GraphParser"
LPA = "pytimize.parsers.LinearParser"
W = lambda c: c.isalnum() or c == "_"
D = lambda c: c.isdecimal()
B = lambda c: c.isspace()


def table_delta(tab):
    """tab: state -> [(predicate, state, label, starts)]"""
    def delta(q, c):
        for p, n, l, s in tab.get(q, ()):
            if p(c) if callable(p) else c in p:
                return n, l, s
        return None
    return delta


def graph_spec(kind):
    hyphen, weight = kind in (1, 3), kind in (2, 3)
    t = {0: [(W, "a", 1, True)]}
    if hyphen:
        t["a"] = [(W, "a", 1, False), ("-", "h", 0, False)]
        t["h"] = [(W, "b", 2, False)]
        t["b"] = [(W, "b", 2, False)]
    else:
        t["a"] = [(W, "b", 2, False)]
        t["b"] = []
    ends = {"b"}
    if weight:
        t["b"].append((":", "c", 0, False))
        t["c"] = [(D, "n", 3, False)]
        t["n"] = [(D, "n", 3, False), (".", "p", 3, False)]
        t["p"] = [(D, "f", 3, False)]
        t["f"] = [(D, "f", 3, False)]
        ends = {"n", "f"}
    for e in ends:
        t[e].append((B, "gap", None, False))
    t["gap"] = [(W, "a", 1, True)]
    return rx.Spec(0, table_delta(t), lambda q: q in ends)


def linear_spec():
    n = lambda q: (D, q, 2, False)
    one = "123456789"
    t = {0: [("-", "s", 1, True), (D, "n", 2, True)],
         "s": [n("n")],
         "n": [n("n"), (".", "p", 2, False), ("x", "x", 0, False)],
         "p": [n("f")], "f": [n("f"), ("x", "x", 0, False)],
         "x": [("_", "u", 0, False)],
         "u": [("0", "u", 3, False), (one, "i", 3, False)],
         "i": [(D, "i", 3, False), ("+-", "s", 1, True)]}
    return rx.Spec(0, table_delta(t), lambda q: q == "i")


def spec_lang(spec):
    return rx.Pred(spec.init, lambda q, c: None if q is None or spec.delta(q, c) is None else spec.delta(q, c)[0], lambda q: q is not None and spec.final(q))


def cut(spec, s):
    """the pieces of an accepted string: [{label: text}]; None when it is not accepted"""
    q, out = spec.init, []
    for c in s:
        d = spec.delta(q, c)
        if d is None:
            return None
        q = d[0]
        if d[2]:
            out.append({})
        if d[1]:
            out[-1][d[1]] = out[-1].get(d[1], "") + c
    return out if spec.final(q) else None


GRAPH = {k: graph_spec(k) for k in range(4)}
LINEAR = linear_spec()


def graph_type(s):
    for k, sp in GRAPH.items():
        if cut(sp, s) is not None:
            return k
    return -1


def graph_parse(s):
    k = graph_type(s)
    if k == -1:
        return ("raise", {"ValueError"})
    return ("ok", [(p[1], p[2], F(float(p[3])) if k > 1 else F(0)) for p in cut(GRAPH[k], s)])


def linear_valid(s):
    return cut(LINEAR, s) is not None


def linear_parse(s, size=None):
    ps = cut(LINEAR, s)
    if ps is None:
        return ("raise", {"ValueError"})
    d = {}
    for p in ps:
        i = int(p[3]) - 1
        if i in d:
            return ("raise", {"ValueError"})
        d[i] = F(float(p[2])) * (-1 if p.get(1) == "-" else 1)
    n = max(d) + 1 if size is None else size
    if n <= max(d):
        raise Skip()
    return ("ok", Arr((1, n), [d.get(j, F(0)) for j in range(n)]))


GRAPH_SAMPLES = ["ab", "ab cd", "ab cd ef", "1a _b", "a-b", "abc-d ef-ghi", "1-22 a_-_b c-d", "ab:1", "ab:12 cd:2.5 e_:00.250", "12:3 45:6.75",
                 "a-b:1", "abc-de:12.5 f-g:3", "1-2:3 45-67:89.0 a-b:0", "aa aa", "a-a a-a", "ab\tcd", "\u00e9a \u4e2db", "\u00e9-\u00e8:\u0663", "ba ab", "zz-a:10 b-yy:9",
                 "ab:1234567890123.0625", "abcdefghijkl-mnopqrstuvwxyz:98765432109.5 a-b:000000000000000001", "ab:0 cd:0.0 ef:00", "ab:0.0000000001", "aa:100 ab:010 ba:001", "q-q:1 q-r:2 r-q:3",
                 "a-b b-c c-d d-e e-f f-g g-h h-i i-j j-k k-l l-m", "ab bc cd de ef fg gh hi ij jk kl lm", "ab:1 bc:2 cd:3 de:4 ef:5 fg:6 gh:7 hi:8 ij:9 jk:10 kl:11 lm:12", "11 22 12", "1-1 2-2", "11:11 22:22", "_-_ __-__", "__"]
LINEAR_SAMPLES = ["1x_1", "-1x_1", "2.5x_3", "1x_1+2x_2", "1x_2-2x_1", "-3x_10+4.25x_2-0x_7", "07x_003+1x_1", "1x_1-1x_2+1x_3-1x_4", "1x_1+1x_1", "1x_01-2x_1", "2x_2+1x_1-3x_2", "10x_5", "-0.5x_2+1.5x_4",
                  "3x_1+4x_3+5x_2", "1x_2+1x_1", "9x_9-8x_8", "1x_3-2x_2-3x_1", "\u0663x_1", "1x_1\u0663", "0x_1+2x_1", "0x_2-1x_1+0x_2", "-0x_1-0x_1", "1x_1-1x_1", "0x_1", "-0x_3", "1x_2+0x_1-1x_2",
                  "12345678901.0625x_1-98765432109x_2", "0.0000000001x_1", "1x_000000012", "-000000000000005x_1"]


def linear_texts(n, seed):
    """texts of the linear grammar: every shape of one to four terms, drawn with a fixed seed"""
    r = random.Random(seed)
    out = []
    for _ in range(n):
        k = r.randint(1, 4)
        ix = [r.choice([1, 2, 3, 4, 11]) for _ in range(k)] if r.random() < 0.4 else r.sample([1, 2, 3, 4, 5, 12], k)
        t = ""
        for j, i in enumerate(ix):
            t += r.choice("+-") if j else r.choice(["", "-"])
            t += r.choice(["0", "1", "2", "10", "0.5", "3.25", "007", "12.0"]) + "x_" + r.choice(["", "", "0"]) + str(i)
        out.append(t)
    return out


def rx_atoms(terms):
    """match conditions on the text in these terms, and what else about the text they use"""
    rs, other = {}, set()
    seen = set()
    def go(t, ctx):
        if not isinstance(t, tm.T):
            if isinstance(t, tuple):
                for x in t:
                    go(x, ctx)
            return
        if t in seen:
            return
        seen.add(t)
        if t.op == "rx":
            rs[t] = True
            return
        if t.op in ("rxg", "rxn"):
            return
        if t.op == "sym" and t.args[0] == "text":
            other.add(t)
            return
        for a in t.args:
            go(a, t)
    for t in terms:
        go(t, None)
    return list(rs), other


class Run:
    """one interpretation with an unknown text, and the valuation of everything for a given text"""

    def __init__(self, ck, cls, meth, extra=()):
        self.w = w = ck.world()
        self.ck = ck
        self.text = w.sc("text", py="str")
        I = w.I
        st, v, ex = I.run(lambda: I.call(I.getattr(w.cls(cls), meth), [self.text] + list(extra), {}))
        self.st, self.ex = st, ex
        cur = I.st
        self.term = None
        if st is not None:
            I.st = st
            self.term = w.desc(v)
        I.st = cur
        self.log = list(I.rx_log)
        ts = ([self.term] if self.term is not None else []) + [t for s in ([st] if st is not None else []) + [s for s, _ in ex] for t in s.facts] + [t for f, *_ in self.log for t in f]
        self.rxs, self.other = rx_atoms(ts)

    def langs(self):
        return [rx.Lang(t.args[0], t.args[1], t.args[2]) for t in self.rxs]

    def ev(self, s):
        e = Ev("text", gen={"text": lambda ev: s})
        return e

    def judge(self, s, want, maybe=()):
        """None when what the analysis finds for this text is what is wanted, else a complaint; Unknown when undecided.
        Exits whose condition is not settled for this text count as possible only for exceptions named in `maybe`."""
        e = self.ev(s)
        poss = []
        for st, x in ([(self.st, None)] if self.st is not None else []) + [(q, x) for q, x in self.ex]:
            if possible(e, st.facts):
                poss.append((x, self.settled(e, st.facts)))
        sure = [x for x, ok in poss if ok]
        names = sorted({"a result" if x is None else x.name for x, _ in poss})
        if want[0] == "raise":
            from ..check import exc_isa
            good = [x for x, _ in poss if x is not None and any(exc_isa(x.name, n) for n in want[1])]
            if not good:
                return "must be rejected with %s, the analysis finds %s" % ("/".join(sorted(want[1])), names)
            wrong = [x for x in sure if x not in good]
            if wrong:
                return "must be rejected with %s, the analysis finds %s" % ("/".join(sorted(want[1])), names)
            if len(good) < len(poss):
                raise Unknown("whether this text ends with %s" % names)
            return None
        if not any(x is None for x, _ in poss):
            return "must be accepted, the analysis finds %s" % names
        bad = [x for x in sure if x is not None]
        if bad:
            return "must be accepted, the analysis finds %s" % names
        if len(want) > 1:
            try:
                got = e.ev(self.term)
            except Undef as x:
                return "must give %s, the analysis finds a failure (%s)" % (want[1], x)
            if not same(norm(got), norm(want[1])):
                return "must give %s, the analysis finds %s" % (want[1], got)
        if any(x is not None and x.name not in maybe for x, _ in poss):
            raise Unknown("whether this text ends with %s" % names)
        return None

    def settled(self, e, facts):
        try:
            return all(not e.unbound(t) and bool(e.ev(t)) == v for t, v in facts.items())
        except (Unknown, Undef):
            return False


def norm(v):
    if isinstance(v, (list, tuple)):
        return type(v)(norm(x) for x in v)
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, float)):
        return F(v)
    return v


def language(ck, nm, run, spec_langs, want, anchor, maybe=()):
    """every combination of verdicts of the patterns and of the specification is visited with a string producing it"""
    if run.w.I.imprecise:
        ck.add(nm, "unknown", anchor, "imprecise: %s" % (run.w.I.imprecise[:2],))
        return
    try:
        vecs, states, letters = rx.explore(spec_langs + run.langs())
    except rx.Unsup as e:
        ck.add(nm, "unknown", anchor, "pattern outside the model: %s" % e)
        return
    und = None
    for v, s in sorted(vecs.items(), key=lambda p: (len(p[1]), p[1])):
        try:
            bad = run.judge(s, want(s), maybe)
        except Unknown as e:
            und = "%r: %s" % (s, e)
            continue
        except Undef as e:
            bad = "undefined: %s" % e
        if bad:
            ck.add(nm, "violated", anchor, "the text %r %s" % (s, bad))
            return
    if und or run.other:
        ck.add(nm, "unknown", anchor, und or "the text is used outside regular expressions: %s" % (sorted(map(repr, run.other))[:2],))
        return
    ck.ok(nm, anchor, "%d combinations of verdicts of %d patterns and the specification, %d automaton states over %d character classes: all strings" % (len(vecs), len(run.rxs), states, letters))


def pieces(ck, nm, run, specs, samples, anchor):
    """every findall / finditer over accepted texts cuts each of them into exactly its pieces"""
    done = 0
    for facts, pat, flags, op, t in run.log:
        for k, sp in specs.items():
            langs = run.langs()
            def rel(vs):
                """can this call be reached by a text with these verdicts?"""
                e = Ev("rel")
                for a, v in zip(run.rxs, vs):
                    e.memo[a] = v
                return possible(e, facts)
            try:
                c = rx.Cut(pat, flags, sp, langs, rel)
                S = {}
                used = False
                for s in samples:
                    if not cut(sp, s) or not reached(run, facts, s):
                        continue
                    used = True
                    first = s[:piece_end(sp, s)]
                    one = c.groups_of(first, labels(sp, first))
                    if one is None or any(S.get(l, g) != g for l, g in one.items()):
                        ck.add(nm, "violated", anchor, "%s(%r) does not cut the piece %r of %r along its parts" % (op, pat, first, s))
                        return
                    S.update(one)
                if not used:
                    continue
                w = c.run(S)
            except rx.Unsup as e:
                ck.add(nm, "unknown", anchor, "pattern outside the model: %s" % e)
                return
            done += 1
            if w is not None:
                ck.add("%s/%s/%r" % (nm, k, pat), "violated", anchor, "%s(%r) does not cut the accepted text %r into its pieces %s" % (op, pat, w, cut(sp, w)))
            else:
                ck.ok("%s/%s/%r" % (nm, k, pat), anchor, "all strings of the language: %d states, %d character classes" % (c.visited, len(c.sigma)))
    if not done:
        ck.add(nm, "unknown", anchor, "texts are not cut with findall or finditer")


def reached(run, facts, s):
    return possible(run.ev(s), facts)


def labels(sp, s):
    q, out = sp.init, []
    for c in s:
        d = sp.delta(q, c)
        q = d[0]
        out.append(d[1])
    return out


def piece_end(sp, s):
    q = sp.init
    for i, c in enumerate(s):
        d = sp.delta(q, c)
        if i and (d[1] is None or d[2]):
            return i
        q = d[0]
    return len(s)
