"""The caller's starting point and the program are the same after a run as before: the abstract heap objects reachable from them are
compared at every exit, normal or not, for both methods, every objective, points given as arrays (of floats or whole numbers) and as
lists, any number of rounds up to a few and the general case of unboundedly many."""
from .uncspec import *

TECHNIQUE = "escape and mutation analysis of the starting point and the program on the abstract heap at every exit"


def run(ck):
    for meth in METHODS:
        for obj in ("min", "max"):
            for kind in ("array", "list", "ints", "list of ints"):
                for lst in (False, True):
                    for cap in (0, 1, 2, None) + ((3,) if ck.thorough else ()):
                        anchor = UC + "." + meth
                        nm = "%s/%s/x as %s%s/%s rounds" % (meth, obj, kind, ", derivatives as lists" if lst else "", "any number of" if cap is None else cap)
                        def f():
                            w = ck.world(unroll=2 if cap is not None else None, rec_limit=30)
                            I = w.I
                            fs = fns(lst=lst)
                            r = w.new(UC, fs[0], C(obj))
                            if kind == "array":
                                x = w.arr("x", D)
                            elif kind == "ints":
                                x = w.arr("x", D, dt="int")
                            elif kind == "list":
                                x = w.lst(w.sc("x0"), w.sc("x1"))
                            else:
                                x = w.lst(w.sc("x0", py="int"), w.sc("x1", py="int"))
                            bx, br = I.obj(x), w.desc(r)
                            dx = w.desc(x)
                            st, v, ex = call(w, r, meth, x, fs, cap if cap is not None else 1000)
                            for s, lab in ([(st, "normal")] if st is not None else []) + [(q, e.name) for q, e in ex]:
                                I.st = s
                                for what, was, now in (("starting point", dx, w.desc(x)), ("program", br, w.desc(r))):
                                    same_ = was is now
                                    ck.decide("%s/%s/%s" % (nm, lab, what), w, same_, anchor, "" if same_ else "the %s was %s and is %s after the call" % (what, was, repr(now)[:200]))
                        ck.scen(nm, f, anchor)
