"""One documented step after another: for uninterpreted f, gradient and Hessian the iterate after one and two rounds is compared, as a
term over their values, with the documented method (step against the gradient whose length is the first of alpha, alpha p, alpha p^2...
with sufficient decrease; Newton step; stop at the first iterate whose gradient is within the tolerance, or after max_iteration)."""
import ast
from .uncspec import *
from ..scen import program

TECHNIQUE = "abstract interpretation with uninterpreted user functions; symbolic iterates compared with the documented recurrence"


DEFAULTS = {"steepest_descent": {"alpha": 1, "c": 0.7, "p": 0.5, "tolerance": 10e-5, "max_iteration": 10e4},
            "newton_method": {"tolerance": 10e-5, "max_iteration": 10e4}}


def run(ck):
    for meth in METHODS:
        for name, value in DEFAULTS[meth].items():
            node = program().find_method(program().public_class(UC), meth).node
            args = node.args.args
            d = dict(zip([a.arg for a in args][len(args) - len(node.args.defaults):], node.args.defaults))
            d.update({a.arg: x for a, x in zip(node.args.kwonlyargs, node.args.kw_defaults) if x is not None})
            try:
                got = ast.literal_eval(d[name])
            except (KeyError, ValueError):
                ck.add("%s/default %s" % (meth, name), "unknown", UC + "." + meth, "no literal default")
                continue
            ck.decide("%s/default %s" % (meth, name), ck.world(), got == value, UC + "." + meth, "documented default %s, found %s" % (value, got), exact=True)
        for obj in ("min", "max"):
            for kind in ("array", "list"):
                for lst in (False, True):
                    for cap in (0, 1, 2, 2.0, 3) if ck.thorough or meth == "newton_method" else (0, 1, 2, 3):
                        if cap >= 2 and (kind == "list" or lst) and not ck.thorough:
                            continue
                        for given in (True, False):
                            if not given and (cap != 1 or lst or kind == "list"):
                                continue
                            anchor = UC + "." + meth
                            nm = "%s/%s/x as %s%s/%s rounds%s" % (meth, obj, kind, ", derivatives as lists" if lst else "", cap, "" if given else ", default settings")
                            def f():
                                w = ck.world(unroll=ROUNDS, rec_limit=30)
                                fs = fns(lst=lst)
                                r = w.new(UC, fs[0], C(obj))
                                x = point(w, kind)
                                res = call(w, r, meth, x, fs, cap, given)
                                if w.I.cuts and meth == "newton_method":
                                    ck.add(nm, "unknown", anchor, "loops of the method are not followed to their end")
                                    return
                                s = 1 if obj == "min" else -1
                                def spec(ev):
                                    x0 = start(ev, kind)
                                    if meth == "newton_method":
                                        return ("ok", newton(ev, x0, int(cap), not given))
                                    return ("ok", steepest(ev, x0, int(cap), s, ROUNDS, not given))
                                ck.outcome(nm, w, res, spec, anchor, n=120 if not ck.thorough else 500, rule="iterate", cmp=lambda a, b: same(aslist(a), aslist(b)))
                                if cap > 1 and given or meth == "newton_method" and cap and given:
                                    # gradients whose length is met exactly by the tolerance
                                    ck.outcome(nm + "/on the tolerance", w, res, spec, anchor, n=120 if not ck.thorough else 500, gen={"df": exact, "tol": lambda ev: F(ev.rng.choice((0, 1, 5)))}, rule="iterate", cmp=lambda a, b: same(aslist(a), aslist(b)))
                            ck.scen(nm, f, anchor)


def exact(ev, x):
    return Arr((2,), [F(v) for v in ev.rng.choice(((0, 0), (0, 1), (-1, 0), (3, 4), (-4, 3), (6, 8)))])


def aslist(v):
    return Arr((len(v),), list(v)) if isinstance(v, (list, tuple)) else v
