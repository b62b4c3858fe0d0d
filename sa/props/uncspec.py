"""Unconstrained programs over functions of the caller that stay uninterpreted; what the two documented methods compute."""
from .lpspec import *
from ..ev import Arr, num, bc, gauss, root
from ..interp import UserFn
from .. import terms as tm

UC = "pytimize.programs.UnconstrainedProgram"
D = const(2)
ROUNDS = 3          # backtracking rounds followed per iteration; valuations that need more are out of scope


def fns(sign=1, lst=False):
    """f, its gradient and its Hessian: functions known only by their values"""
    for nm, nd, sh in (("f", 0, ()), ("df", 1, (D,)), ("d2f", 2, (D, D))):
        tm.sym(nm, ndim=nd, shape=sh, inp=True, py="float")
    return (UserFn("f", sign=sign), UserFn("df", ndim=1, shape=(D,), sign=sign, lst=lst), UserFn("d2f", ndim=2, shape=(D, D), sign=sign, lst=lst))


def point(w, kind):
    if kind == "array":
        return w.arr("x", D)
    return w.lst(w.sc("x0"), w.sc("x1"))


def start(ev, kind):
    if kind == "array":
        return ev.ev(mk("sym", "x"))
    return Arr((2,), [ev.ev(mk("sym", "x0")), ev.ev(mk("sym", "x1"))])


def settings(w):
    return {"alpha": w.sc("alpha", lo=F(1, 4)), "c": w.sc("c", lo=F(1, 8)), "p": w.sc("p", lo=F(1, 8), hi=F(7, 8)), "tolerance": w.sc("tol", lo=F(1, 8))}


METHODS = ("steepest_descent", "newton_method")


def call(w, r, meth, x, fs, cap, given=True):
    """(state, result, exceptional exits) of one run"""
    I = w.I
    f, df, d2f = fs
    kw = {"max_iteration": C(cap)}
    st = settings(w)
    if given:
        kw["tolerance"] = st["tolerance"]
        if meth == "steepest_descent":
            kw.update({k: st[k] for k in ("alpha", "c", "p")})
    args = [x, df] + ([d2f] if meth == "newton_method" else [])
    return I.run(lambda: I.call(I.getattr(r, meth), args, kw))


def dot(a, b):
    return sum(num(x) * num(y) for x, y in zip(a.d, b.d))


def axpy(x, a, d):
    return Arr(x.sh, [num(p) + num(a) * num(q) for p, q in zip(x.d, d.d)])


def close(ev, x, tol):
    g = ev.app("df", x)
    return root(sum(num(v) ** 2 for v in g.d)) <= tol


def steepest(ev, x, cap, sign, rounds=ROUNDS, defaults=False):
    s = lambda n, dflt: F(dflt) if defaults else num(ev.ev(mk("sym", n)))
    alpha, c, p, tol = s("alpha", 1), s("c", 0.7), s("p", 0.5), s("tol", 10e-5)
    for _ in range(cap):
        g = ev.app("df", x)
        g = Arr(g.sh, [sign * num(v) for v in g.d])
        d = Arr(g.sh, [-v for v in g.d])
        fx = sign * num(ev.app("f", x))
        a = alpha
        k = 0
        while sign * num(ev.app("f", axpy(x, a, d))) > fx + c * a * dot(g, d):
            a *= p
            k += 1
            if k > rounds:
                raise Skip()
        x = axpy(x, a, d)
        if close(ev, x, tol):
            break
    return x


def newton(ev, x, cap, defaults=False):
    tol = F(10e-5) if defaults else num(ev.ev(mk("sym", "tol")))
    for _ in range(cap):
        H = ev.app("d2f", x)
        g = ev.app("df", x)
        det, inv = gauss(H)
        if inv is None:
            raise Skip()
        x = Arr(x.sh, [num(x.d[i]) - sum(num(inv.d[2 * i + j]) * num(g.d[j]) for j in range(2)) for i in range(2)])
        if close(ev, x, tol):
            break
    return x
