"""The graph parser's language: the patterns found on every path of `get_expression_type` and `parse` are compared as automata with the
four documented forms over all strings; the cutting pattern is shown to split every accepted string into exactly its edges; the returned
triples are compared as terms."""
from .parsespec import *

TECHNIQUE = "abstract interpretation to path conditions over regular expressions, decided by automata for all strings"


def run(ck):
    langs = [spec_lang(GRAPH[k]) for k in range(4)]
    for meth, want in (("get_expression_type", lambda s: ("ok", F(graph_type(s)))), ("parse", graph_parse)):
        A = GP + "." + meth
        def f():
            r = Run(ck, GP, meth)
            language(ck, meth + "/language", r, langs, want, A, maybe=("AttributeError", "IndexError"))
            if meth == "parse":
                pieces(ck, meth + "/pieces", r, GRAPH, GRAPH_SAMPLES, A)
        ck.scen(meth, f, A)
        for s in GRAPH_SAMPLES + BAD:
            def g():
                w = ck.world()
                res = w.I.run(lambda: w.I.call(w.I.getattr(w.cls(GP), meth), [C(s)], {}))
                ck.outcome("%s(%r)" % (meth, s), w, res, lambda ev: want(s), A, n=1, rule="text %r" % s, cmp=lambda a, b: same(norm(a), norm(b)))
            ck.scen("%s(%r)" % (meth, s), g, A)


BAD = ["", " ", "a", "abc", "ab ", " ab", "ab  cd", "a-", "-b", "a-b-c", "ab:", "ab:1.", "ab:.5", "ab cd:1", "a-b cd", "ab:-1", "ab:1 c-d:2", "a-b:1 c-d", "ab\n", "a-b:1\n", "a b", "ab,cd", "ab:1e3", "a--b", "a:b"]
