"""Purity of questions: every public operation of a program that is not asked to work in place leaves all public
observations of the program, and all its arguments, exactly as they were, on the normal exit and on every exceptional
exit.  Every public method of the class is enumerated from the current source; each is interpreted abstractly on
programs of fixed shape with symbolic entries; all paths are followed, and the observation terms are compared."""
from .lpmeth import *

TECHNIQUE = "abstract interpretation (all paths, symbolic heap) with a mutation/alias check on every exit"


def run(ck):
    for kind in ("LP", "IP"):
        ms, missing, other = table(kind)
        dotted = {"LP": LPC, "IP": IPC}[kind]
        own = None
        if kind == "IP":
            from ..scen import program
            own = set(getattr(program().public_class(IPC), "methods", {}))
        for o in other:
            ck.add("pure/%s.%s" % (kind, o), "unknown", dotted + "." + o, "no arguments known for this operation")
        for m in ms:
            if kind == "IP" and m.name not in own and not ck.thorough and m.name not in ("to_sef", "solve", "to_canonical_form", "add_constraint"):
                continue
            for lab, rows, cols, obj in shapes_for(m, kind):
                if m.heavy and lab == "mixed-min" and not ck.thorough:
                    continue
                nm = "pure/%s.%s/%s" % (kind, m.label, lab)
                def f():
                    w = ck.world(cap=SMALL if m.heavy else CAP)
                    lp = build(w, kind, rows, cols, obj)
                    before = view(w, lp.r)
                    made = m.mk(w, lp)
                    bargs = {i: w.desc(a) for i, a in enumerate(made[0]) if isinstance(a, Ref)}
                    (st, v, ex), args = invoke(w, lp, m, made=made)
                    anchor = dotted + "." + m.name
                    exits = ([("return", st)] if st is not None else []) + [("%s at %s" % (e.name, e.site), x) for x, e in ex]
                    for tag, x in exits:
                        w.I.st = x
                        unchanged(ck, "%s/%s" % (nm, tag), w, before, view_in(w, x, lp.r), x.facts, anchor, "program unchanged by %s" % m.name)
                        for i, a in enumerate(args):
                            if i in bargs:
                                w.I.st = x.copy()
                                unchanged(ck, "%s/%s/argument %d" % (nm, tag, i + 1), w, {"argument": bargs[i]}, {"argument": w.desc(a)}, x.facts, anchor, "argument unchanged by %s" % m.name)
                ck.scen(nm, f, dotted + "." + m.name)
