"""The linear parser's language: the validation found on every path is compared as an automaton with the documented grammar over all
strings; the cutting pattern is shown to split every accepted string into exactly its terms with sign, coefficient and index; the
returned row is compared with the reference on sample texts of several terms, in any order, with repeated variables and given sizes."""
from .parsespec import *

TECHNIQUE = "abstract interpretation to path conditions over regular expressions, decided by automata for all strings"


def run(ck):
    langs = [spec_lang(LINEAR)]
    A = LPA + ".validate_expression"
    ck.scen("validate_expression", lambda: language(ck, "validate_expression/language", Run(ck, LPA, "validate_expression"), langs, lambda s: ("ok", linear_valid(s)), A), A)
    A = LPA + ".parse"
    def f():
        r = Run(ck, LPA, "parse")
        def want(s):
            x = linear_parse(s)
            return x[:1] if x[0] == "ok" else x
        language(ck, "parse/language", r, langs, want, A, maybe=("ValueError",))
        pieces(ck, "parse/pieces", r, {"term": LINEAR}, LINEAR_SAMPLES, A)
    ck.scen("parse", f, A)
    for s in LINEAR_SAMPLES + linear_texts(80 if ck.thorough else 25, ck.seed) + BAD:
        for size in (None, 3, 12):
            nm = "parse(%r%s)" % (s, "" if size is None else ", %d" % size)
            def g():
                w = ck.world()
                res = w.I.run(lambda: w.I.call(w.I.getattr(w.cls(LPA), "parse"), [C(s)] + ([C(size)] if size is not None else []), {}))
                try:
                    linear_parse(s, size)
                except Skip:
                    ck.ok(nm, A, "the size given is too small: not specified")
                    return
                ck.outcome(nm, w, res, lambda ev: linear_parse(s, size), A, n=1, rule="text %r" % s)
            ck.scen(nm, g, A)


BAD = ["", " ", "x_1", "1x_0", "1x_00", "1x1", "+1x_1", "1x_1+", "1x_1 + 2x_2", "1x_1++2x_2", "1.x_1", ".5x_1", "1x_1+x_2", "--1x_1", "1x_-1", "1x_1\n", "1y_1", "1x_1.5", "1x_1-", "1x_1*2x_2", "a1x_1", "1x_1+2"]
