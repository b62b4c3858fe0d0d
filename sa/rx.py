"""Regular-language analysis of the patterns found in the code: automata with assertions for match / fullmatch / search, and an ordered
thread simulation that decides, over all strings of a specified language, which pieces findall cuts out and what each group captures."""
import re
try:
    import re._parser as sp
    import re._constants as sc
except ImportError:                 # before 3.11
    import sre_parse as sp
    import sre_constants as sc
from collections import deque

MAXREP = 40


class Unsup(Exception):
    """a construct of regular expressions the analysis does not model"""


# ---------------------------------------------------------------- characters

def _cat(c, ascii_only):
    w = c.isalnum() or c == "_"
    d = c.isdecimal()
    s = c.isspace()
    if ascii_only and ord(c) > 127:
        w = d = s = False
    return w, d, s


class Atom:
    """the set of characters one position of a pattern accepts"""

    def __init__(self, items, neg, flags):
        self.items, self.neg, self.flags = items, neg, flags

    def has1(self, c):
        w, d, s = _cat(c, bool(self.flags & re.ASCII))
        r = False
        for op, av in self.items:
            if op is sc.LITERAL:
                r = r or ord(c) == av
            elif op is sc.RANGE:
                r = r or av[0] <= ord(c) <= av[1]
            elif op is sc.CATEGORY:
                v = {sc.CATEGORY_DIGIT: d, sc.CATEGORY_NOT_DIGIT: not d, sc.CATEGORY_WORD: w, sc.CATEGORY_NOT_WORD: not w,
                     sc.CATEGORY_SPACE: s, sc.CATEGORY_NOT_SPACE: not s}.get(av)
                if v is None:
                    raise Unsup("category %s" % (av,))
                r = r or v
            elif op == "any":
                r = r or c != "\n" or bool(self.flags & re.DOTALL)
            else:
                raise Unsup(str(op))
        return r

    def has(self, c):
        r = self.has1(c)
        if self.flags & re.IGNORECASE and not r:
            r = any(self.has1(x) for x in {c.lower(), c.upper(), c.swapcase()} if len(x) == 1)
        return r != self.neg

    def literals(self):
        for op, av in self.items:
            if op is sc.LITERAL:
                yield av
            elif op is sc.RANGE:
                yield from (av[0], av[1], av[0] - 1, av[1] + 1)


_REPS = None


def reps():
    """characters outside ASCII, a few for every combination of the categories"""
    global _REPS
    if _REPS is None:
        have = {}
        for k in list(range(128, 0x2100)) + [0x2167, 0x3000, 0x4E00, 0xFF11, 0x1D7CE, 0x1F600]:
            c = chr(k)
            have.setdefault(_cat(c, False), []).append(c)
        _REPS = [c for v in have.values() for c in v[:3]]
    return _REPS


def alphabet(atoms):
    """one character per class no atom (and no plain predicate) tells apart"""
    cand = [chr(k) for k in range(128)] + reps()
    for a in atoms:
        for k in a.literals():
            if k > 127:
                cand += [chr(j) for j in (k - 1, k, k + 1) if 0 <= j < 0x110000]
    out = {}
    pref = "ab1 2-+._:x0 \n\t"
    for c in sorted(set(cand), key=lambda c: (c not in pref, ord(c))):
        sig = (tuple(a.has(c) for a in atoms), _cat(c, False), c == "\n")
        out.setdefault(sig, c)
    return list(out.values())


# ---------------------------------------------------------------- patterns

class Pat:
    """compiled program: node -> ('char', atom, next) | ('split', [next...]) | ('save', group, open, next) | ('assert', kind, next) | ('match',)"""

    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        try:
            tree = sp.parse(pattern, flags)
        except re.error as e:
            raise Unsup("pattern does not parse: %s" % e)
        self.flags = tree.state.flags
        if self.flags & (re.MULTILINE | re.LOCALE):
            raise Unsup("flags")
        self.groups = tree.state.groups - 1
        self.nodes = []
        self.atoms = []
        self.start = self.seq(list(tree), self.node(("match",)))

    def node(self, x):
        self.nodes.append(x)
        return len(self.nodes) - 1

    def atom(self, items, neg=False):
        a = Atom(items, neg, self.flags)
        self.atoms.append(a)
        return a

    def seq(self, items, nxt, rep=False):
        for op, av in reversed(items):
            nxt = self.item(op, av, nxt, rep)
        return nxt

    def nullable(self, items):
        for op, av in items:
            if op in (sc.LITERAL, sc.NOT_LITERAL, sc.IN, sc.ANY):
                return False
            if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                if av[0] > 0 and not self.nullable(list(av[2])):
                    return False
            elif op is sc.SUBPATTERN:
                if not self.nullable(list(av[3])):
                    return False
            elif op is sc.BRANCH:
                if all(not self.nullable(list(x)) for x in av[1]):
                    return False
        return True

    def item(self, op, av, nxt, rep):
        if op is sc.LITERAL:
            return self.node(("char", self.atom([(sc.LITERAL, av)]), nxt))
        if op is sc.NOT_LITERAL:
            return self.node(("char", self.atom([(sc.LITERAL, av)], True), nxt))
        if op is sc.ANY:
            return self.node(("char", self.atom([("any", None)]), nxt))
        if op is sc.IN:
            neg = bool(av) and av[0][0] is sc.NEGATE
            return self.node(("char", self.atom([x for x in av if x[0] is not sc.NEGATE], neg), nxt))
        if op is sc.CATEGORY:
            return self.node(("char", self.atom([(op, av)]), nxt))
        if op is sc.BRANCH:
            return self.node(("split", [self.seq(list(x), nxt, rep) for x in av[1]]))
        if op is sc.SUBPATTERN:
            g, add, rem, p = av
            if add or rem:
                raise Unsup("inline flags")
            if g is None:
                return self.seq(list(p), nxt, rep)
            if rep:
                raise Unsup("group inside a repetition")
            return self.node(("save", g, True, self.seq(list(p), self.node(("save", g, False, nxt)), rep)))
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            lazy = op is sc.MIN_REPEAT
            many = hi is sc.MAXREPEAT
            if lo > MAXREP or (not many and hi > MAXREP):
                raise Unsup("long repetition")
            inner = rep or not (hi == 1 and not many)
            if many:
                if self.nullable(p):
                    raise Unsup("repetition of something possibly empty")
                loop = self.node(None)
                body = self.seq(p, loop, inner)
                self.nodes[loop] = ("split", [nxt, body] if lazy else [body, nxt])
                nxt = loop
            else:
                end = nxt
                for _ in range(hi - lo):
                    body = self.seq(p, nxt, inner)
                    nxt = self.node(("split", [end, body] if lazy else [body, end]))
            for _ in range(lo):
                nxt = self.seq(p, nxt, inner)
            return nxt
        if op is sc.AT:
            kind = {sc.AT_BEGINNING: "start", sc.AT_BEGINNING_STRING: "start", sc.AT_END: "end", sc.AT_END_STRING: "END", sc.AT_BOUNDARY: "b", sc.AT_NON_BOUNDARY: "B"}.get(av)
            if kind is None:
                raise Unsup("assertion %s" % av)
            return self.node(("assert", kind, nxt))
        raise Unsup("construct %s" % (op,))

    # -- ordered closure: [(node, obligations on the rest, open groups)]
    def closure(self, node, obl, opened, at0, prevw, out, seen, steps=0):
        key = (node, obl, opened)
        if key in seen:
            return
        seen.add(key)
        x = self.nodes[node]
        if x[0] in ("char", "match"):
            out.append(key)
        elif x[0] == "split":
            for n in x[1]:
                self.closure(n, obl, opened, at0, prevw, out, seen)
        elif x[0] == "save":
            self.closure(x[3], obl, (opened | {x[1]}) if x[2] else (opened - {x[1]}), at0, prevw, out, seen)
        else:
            kind = x[1]
            if kind == "start":
                if at0:
                    self.closure(x[2], obl, opened, at0, prevw, out, seen)
            elif kind in ("end", "END"):
                self.closure(x[2], obl | {kind}, opened, at0, prevw, out, seen)
            else:
                want = (not prevw) if kind == "b" else prevw      # next character must be of the word kind / must not be
                self.closure(x[2], obl | {"w" if want else "n"}, opened, at0, prevw, out, seen)


def meets(obl, c, asc):
    """obligations left after reading c (None: they fail); c None stands for the end"""
    if not obl:
        return frozenset()
    out = set()
    for o in obl:
        if o == "END":
            if c is not None:
                return None
        elif o == "end":
            if c is not None and c != "\n":
                return None
            if c == "\n":
                out.add("END")
        else:
            w = c is not None and _cat(c, asc)[0]
            if (o == "w") != w:
                return None
    return frozenset(out)


class Lang:
    """strings for which match / fullmatch / search of a pattern succeeds: deterministic states are frozensets of items"""

    def __init__(self, mode, pattern, flags=0):
        self.p = Pat(pattern, flags)
        self.mode = mode
        self.asc = bool(self.p.flags & re.ASCII)
        self.memo = {}

    @property
    def atoms(self):
        return self.p.atoms

    def close(self, items, at0, prevw):
        out, seen = [], set()
        for n, o in items:
            if n == "top":
                out.append(("top", o, frozenset()))
            else:
                self.p.closure(n, o, frozenset(), at0, prevw, out, seen)
        res = set()
        for n, o, _ in out:
            if n != "top" and self.p.nodes[n][0] == "match" and self.mode != "fullmatch":
                n = "top"
            res.add((n, o))
        return frozenset(res)

    def init(self):
        return (self.close([(self.p.start, frozenset())], True, False), True)

    def step(self, st, c):
        k = (st, c)
        r = self.memo.get(k)
        if r is None:
            items, _ = st
            nxt = []
            for n, o in items:
                left = meets(o, c, self.asc)
                if left is None:
                    continue
                if n == "top":
                    nxt.append(("top", left))
                elif self.p.nodes[n][0] == "char" and self.p.nodes[n][1].has(c):
                    nxt.append((self.p.nodes[n][2], left))
            if self.mode == "search":
                nxt.append((self.p.start, frozenset()))
            if ("top", frozenset()) in nxt:
                nxt = [("top", frozenset())]
            r = self.memo[k] = (self.close(nxt, False, _cat(c, self.asc)[0]), False)
        return r

    def accepts(self, st):
        for n, o in st[0]:
            if meets(o, None, self.asc) is None:
                continue
            if n == "top" or self.p.nodes[n][0] == "match":
                return True
        return False


class Pred:
    """a plain predicate of strings with finitely many states, same interface as Lang"""
    atoms = []

    def __init__(self, init, step, ok):
        self._i, self._s, self._ok = init, step, ok

    def init(self):
        return self._i

    def step(self, st, c):
        return self._s(st, c)

    def accepts(self, st):
        return self._ok(st)


def nonempty():
    return Pred(False, lambda s, c: True, lambda s: s)


def explore(langs, limit=60000):
    """every combination of verdicts some string produces: {(verdicts...): shortest such string}"""
    atoms = [a for l in langs for a in l.atoms]
    sigma = alphabet(atoms)
    start = tuple(l.init() for l in langs)
    seen = {start}
    todo = deque([(start, "")])
    out = {}
    while todo:
        st, s = todo.popleft()
        v = tuple(l.accepts(x) for l, x in zip(langs, st))
        out.setdefault(v, s)
        for c in sigma:
            n = tuple(l.step(x, c) for l, x in zip(langs, st))
            if n not in seen:
                seen.add(n)
                if len(seen) > limit:
                    raise Unsup("more than %d states" % limit)
                todo.append((n, s + c))
    return out, len(seen), len(sigma)


# ---------------------------------------------------------------- pieces

class Spec:
    """deterministic description of a language and of how its strings are cut: delta(state, c) -> (state, label, starts) or None;
    label: number of the part the character belongs to (0: belongs to a piece but to no part, None: between pieces);
    starts: the character is the first of a piece"""

    def __init__(self, init, delta, final):
        self.init, self.delta, self.final = init, delta, final


class Cut:
    """decides whether findall(pattern) cuts every string of `spec` into exactly its pieces, with group captures made of whole parts"""

    def __init__(self, pattern, flags, spec, langs=(), relevant=None, limit=200000):
        self.p = Pat(pattern, flags)
        self.asc = bool(self.p.flags & re.ASCII)
        self.spec, self.langs, self.relevant, self.limit = spec, list(langs), relevant, limit
        self.sigma = alphabet(self.p.atoms + [a for l in self.langs for a in l.atoms])
        self.memo = {}

    def threads(self, items, at0, prevw):
        out, seen = [], set()
        for n, o, g, ok in items:
            o2 = []
            sub = set()
            self.p.closure(n, o, g, at0, prevw, o2, sub)
            for k in o2:
                if (k, ok) not in seen:
                    seen.add((k, ok))
                    out.append(k + (ok,))
        return tuple(out)

    def groups_of(self, sample, labels):
        """open groups per label, taken from the library's own match of one sample piece"""
        m = re.compile(self.p.pattern, self.p.flags & ~re.UNICODE if self.p.flags & re.ASCII else self.p.flags).match(sample)
        if m is None:
            return None
        S = {}
        for i, l in enumerate(labels):
            S.setdefault(l, set()).add(frozenset(g for g in range(1, self.p.groups + 1) if m.start(g) <= i < m.end(g)))
        if any(len(v) > 1 for v in S.values()):
            return None
        return {l: next(iter(v)) for l, v in S.items()}

    def reach(self):
        """spec states (with the verdict automata) at which a piece may start and those at which a gap character comes, with examples"""
        st0 = (self.spec.init, tuple(l.init() for l in self.langs), False)
        seen = {st0}
        todo = deque([(st0, "")])
        while todo:
            (q, ls, pw), s = todo.popleft()
            yield q, ls, pw, s
            for c in self.sigma:
                d = self.spec.delta(q, c)
                if d is None:
                    continue
                n = (d[0], tuple(l.step(x, c) for l, x in zip(self.langs, ls)), _cat(c, self.asc)[0])
                if n not in seen:
                    seen.add(n)
                    if len(seen) > self.limit:
                        raise Unsup("too many states")
                    todo.append((n, s + c))

    def run(self, S):
        """None, or a string that is cut wrongly; S: label -> groups that must be open there"""
        self.visited = 0
        seen = set()
        todo = deque()
        for q, ls, pw, s in self.reach():
            for c in self.sigma:
                d = self.spec.delta(q, c)
                if d is None or not (d[2] or d[1] is None):
                    continue
                th = self.threads([(self.p.start, frozenset(), frozenset(), True)], s == "", pw)
                todo.append(((q, ls, th, "in" if d[2] else "gap"), c, s))
        while todo:
            (q, ls, th, phase), first, s = todo.popleft()
            if first is None and self.spec.final(q):
                r = self.record(th, None)
                if phase == "bad" or (r is not True if phase == "in" else r is not None):
                    if self.relevant is None or self.relevant(tuple(l.accepts(x) for l, x in zip(self.langs, ls))):
                        return s
            for c in self.sigma if first is None else [first]:
                d = self.spec.delta(q, c)
                if d is None:
                    continue
                over = first is None and (d[1] is None or d[2])        # a piece, if one was being read, ends before c
                r = self.record(th, c)
                ph = phase
                if phase == "in" and over:
                    ph = "after" if r is True else "bad"
                elif phase in ("after", "gap") and r is not None:
                    ph = "bad"
                nt = []
                if ph != "bad":
                    for n, o, g, ok in self.cut(th, c):
                        left = meets(o, c, self.asc)
                        if left is not None and self.p.nodes[n][0] == "char" and self.p.nodes[n][1].has(c):
                            nt.append((self.p.nodes[n][2], left, g, ok and (ph != "in" or g == S.get(d[1], frozenset()))))
                nt = self.threads(nt, False, _cat(c, self.asc)[0])
                if not nt and ph in ("after", "gap"):
                    continue
                st = (d[0], tuple(l.step(x, c) for l, x in zip(self.langs, ls)), nt, ph)
                if st in seen:
                    continue
                seen.add(st)
                self.visited += 1
                if len(seen) > self.limit:
                    raise Unsup("too many states")
                todo.append((st, None, s + c))
        return None

    def cut(self, th, c):
        """threads still alive when c is read: those before the first one that matches here"""
        out = []
        for t in th:
            if self.p.nodes[t[0]][0] == "match" and meets(t[1], c, self.asc) is not None:
                break
            out.append(t)
        return out

    def record(self, th, c):
        """the match recorded at this position when c comes next: None, or whether its captures are right"""
        for n, o, g, ok in th:
            if self.p.nodes[n][0] == "match" and meets(o, c, self.asc) is not None:
                return ok
        return None
