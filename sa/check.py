"""Deciding properties: obligations over abstract values, evidence and reporting."""
import json
import os
import random
import sys
import time
import traceback
from fractions import Fraction as F
from . import terms as tm
from .terms import T, mk
from .values import *
from .interp import Dead, Giveup
from .model import AnalysisBroken
from .scen import World, LP, program, view_lp
from .ev import SPARSE, TIES, Ev, Unknown, Undef, Arr, same

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Skip(Exception):
    """the valuation lies outside the scope of the clause"""


class Ck:
    def __init__(self, pid, tier="quick", seed=1, only=None):
        self.pid, self.tier, self.seed, self.only = pid, tier, seed, only
        self.t0 = time.time()
        self.obl = []
        self.worlds = []
        self.vals = 0
        self.known = []
        self.scenarios = 0
        self.budget = 240 if tier == "quick" else 780
        self.funcs, self.sites, self.calls = set(), set(), 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def out_of_time(self):
        return time.time() - self.t0 > self.budget

    # ---- scenarios
    def scen(self, name, fn, anchor=None):
        """run one scenario; an analysis that gives up leaves its obligations undecided"""
        if self.only and self.only not in name:
            return
        if self.out_of_time():
            self.add(name, "unknown", anchor, "time budget of this run used up")
            return
        self.scenarios += 1
        n0 = len(self.obl)
        self.cur, self.cur_anchor = name, anchor
        try:
            fn()
        except (Giveup, RecursionError, Unknown, Undef) as e:
            self.add(name, "unknown", anchor, "%s: %s" % (type(e).__name__, str(e)[:200]))
        except Dead:
            self.add(name, "unknown", anchor, "no normal path through the scenario")
        except AnalysisBroken:
            raise
        except Exception as e:      # a construct the analysis does not model must never look like a verdict
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            self.add(name, "unknown", anchor, "analysis error %s: %s" % (type(e).__name__, str(e)[:200]))
        if len(self.obl) == n0:
            self.add(name, "unknown", anchor, "no obligation reached")

    def world(self, **kw):
        w = World(**kw)
        self.worlds.append(w)
        return w

    def absorb(self):
        for w in self.worlds:
            self.funcs |= {getattr(f, "qual", str(f)) for f in w.I.funcs}
            self.sites |= w.I.sites
            self.calls += w.I.calls
        self.worlds = []

    # ---- obligations
    def add(self, name, status, anchor=None, detail=""):
        if anchor is None:
            anchor = getattr(self, "cur_anchor", None)
        self.obl.append({"name": name, "status": status, "at": self.where(anchor), "detail": detail})

    def ok(self, name, anchor=None, detail=""):
        self.add(name, "ok", anchor, detail)

    def where(self, anchor):
        """'Class.method' of a dotted public class -> file:line:qualname in the current tree"""
        if not anchor or ":" in anchor:
            return anchor or ""
        return locate(anchor)

    def imprecise(self, w):
        return bool(w.I.imprecise)

    def decide(self, name, w, cond, anchor=None, detail="", exact=False):
        """a fact the abstract state settles: True / False / None (undecided)"""
        if cond is None or (not cond and not exact and self.imprecise(w)):
            self.add(name, "unknown", anchor, detail + (" imprecise: %s" % (w.I.imprecise[:3],) if w.I.imprecise else ""))
        else:
            self.add(name, "ok" if cond else "violated", anchor, detail)

    def trials(self, n=None):
        return n if n is not None else (40 if not self.thorough else 250)

    def valuations(self, name, n, sizes, gen, maxsize):
        """random inputs, then special ones: one number zero, two numbers equal, mostly zeros, many ties"""
        def new(k, **more):
            return Ev("%s/%s/%s" % (self.seed, name, k), sizes=sizes(k) if callable(sizes) else sizes, gen=gen, maxsize=maxsize or (2 if k % 3 else 3), **more)
        N = self.trials(n)
        last = None
        for k in range(N):
            last = new(k)
            yield last
        if last is None:
            return
        xs = [t for t, v in last.vals.items() if isinstance(v, F) and t in last.drawn]
        arrs = any(isinstance(v, Arr) for v in last.vals.values())
        k, cap = N, 60 if self.thorough else 8
        rnd = random.Random("%s/%s" % (self.seed, name))
        one = xs if len(xs) <= cap else rnd.sample(xs, cap)
        two = [(a, b) for i, a in enumerate(xs) for b in xs[:i]]
        two = two if len(two) <= cap // 2 else rnd.sample(two, cap // 2)
        for force in [{t: 0 for t in xs}] * (len(xs) > 1) + [{t: 0} for t in one] + [{a: b} for a, b in two]:
            yield new(k, force=force)
            k += 1
        if arrs or len(xs) > 2:
            for pool in (SPARSE, TIES):
                yield new(k, pool=pool)
                k += 1

    def equal(self, name, w, term, spec, anchor=None, n=None, gen=None, sizes=None, maxsize=None, rule="", cmp=same, extra=None):
        """the observation described by `term` equals spec(ev) for every valuation of the inputs"""
        if isinstance(term, (C, S, Tup, Ref, Phi, U)):
            term = w.desc(term)
        if w.I.imprecise:
            self.add(name, "unknown", anchor, "imprecise: %s" % (w.I.imprecise[:3],))
            return None
        good = 0
        undec = None
        for ev in self.valuations(name, n, sizes, gen, maxsize):
            try:
                want = spec(ev)
            except (Skip, Undef):
                continue
            self.vals += 1
            try:
                got = ev.ev(term)
            except Unknown as e:
                undec = str(e)
                break
            except Undef as e:
                got = "<undefined: %s>" % (str(e)[:80],)
            if isinstance(got, str) and got.startswith("<undefined") or not agrees(cmp, got, want):
                self.add(name, "violated", anchor, "%s: computed %s, required %s, for inputs %s%s" % (
                    rule or "value", show(got), show(want), show_vals(ev), "; term " + repr(term)[:400]))
                return False
            good += 1
        if undec is not None:
            self.add(name, "unknown", anchor, "part of the value is outside the domain: " + undec[:160])
            return None
        if good == 0:
            self.add(name, "unknown", anchor, "no valuation in scope")
            return None
        self.ok(name, anchor, "%s; %d valuations" % (rule, good))
        return True

    def outcome(self, name, w, res, spec, anchor=None, n=None, gen=None, sizes=None, rule="", cmp=same, maxsize=None):
        """res = (state or None, value, excs); spec(ev) -> ('ok', value) or ('ok',) or ('raise', {exception names})"""
        st, val, excs = res
        if w.I.imprecise:
            self.add(name, "unknown", anchor, "imprecise: %s" % (w.I.imprecise[:3],))
            return None
        cur = w.I.st
        if st is not None:
            w.I.st = st
        term = w.desc(val) if st is not None and val is not None else None
        paths = ([("ok", None, st.facts)] if st is not None else []) + [("raise", e, s.facts) for s, e in excs]
        w.I.st = cur
        good = 0
        for ev in self.valuations(name, n, sizes, gen, maxsize):
            try:
                want = spec(ev)
            except (Skip, Undef):
                continue
            self.vals += 1
            poss = [(kind, e) for kind, e, facts in paths if possible(ev, facts)]
            if want[0] == "raise":
                names = want[1]
                if not any(kind == "raise" and any(exc_isa(e.name, x) for x in names) for kind, e in poss):
                    self.add(name, "violated", anchor, "%s: must raise %s, analysis finds only %s, for inputs %s" % (
                        rule or "rejection", "/".join(sorted(names)), desc_paths(poss), show_vals(ev)))
                    return False
            else:
                oks = [1 for kind, e in poss if kind == "ok"]
                if not oks:
                    self.add(name, "violated", anchor, "%s: must return normally, analysis finds only %s, for inputs %s" % (
                        rule or "acceptance", desc_paths(poss), show_vals(ev)))
                    return False
                if len(want) > 1 and term is not None:
                    try:
                        got = ev.ev(term)
                    except Unknown as e:
                        self.add(name, "unknown", anchor, "part of the value is outside the domain: " + str(e)[:160])
                        return None
                    except Undef as e:
                        got = "<undefined: %s>" % (str(e)[:80],)
                    if isinstance(got, str) and got.startswith("<undefined") or not agrees(cmp, got, want[1]):
                        self.add(name, "violated", anchor, "%s: computed %s, required %s, for inputs %s; term %s" % (
                            rule or "value", show(got), show(want[1]), show_vals(ev), repr(term)[:400]))
                        return False
            good += 1
        if good == 0:
            self.add(name, "unknown", anchor, "no valuation in scope")
            return None
        self.ok(name, anchor, "%s; %d valuations" % (rule, good))
        return True


def agrees(cmp, got, want):
    """comparison of a computed with a required value; a computed value of another kind than the required one differs from it"""
    try:
        return cmp(got, want)
    except Undef:
        return False


def desc_paths(poss):
    if not poss:
        return "no path"
    return ", ".join("a normal return" if k == "ok" else "%s (%s)" % (e.name, e.site) for k, e in poss[:4])


def possible(ev, facts):
    """can all recorded branch conditions hold for this valuation? (undecided counts as yes)"""
    for t, v in facts.items():
        free = ev.unbound(t)
        try:
            if free:
                if len(free) > 1:
                    continue
                seg = free[0]
                n = ev.size(seg)
                hit = False
                for k in range(n):
                    try:
                        if bool(ev.with_bind(seg, k, lambda: ev.ev(t))) == v:
                            hit = True
                            break
                    except (Unknown, Undef):
                        hit = True
                        break
                if not hit:
                    return False
            elif bool(ev.ev(t)) != v:
                return False
        except (Unknown, Undef):
            continue
    return True


def show(v):
    if isinstance(v, F):
        return str(v)
    if isinstance(v, Arr):
        return "array" + show(v.tolist())
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(show(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join("%s: %s" % (show(a), show(b)) for a, b in sorted(v.items(), key=lambda p: str(p))) + "}"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(show(x) for x in v)) + "}"
    return str(v)


def show_vals(ev):
    parts = ["%s=%s" % (t.args[0], show(v)) for t, v in ev.vals.items()]
    parts += ["|%s|=%s" % (s, n) for s, n in sorted(ev.sizes.items())]
    parts += ["%s(%s)=%s" % (k[0], ",".join(show(x) for x in k[1]), show(v)) for k, v in ev.apps.items()]
    return "; ".join(parts)[:600]


def locate(anchor):
    """'pytimize.programs.LinearProgram.dual' -> path:line:qualname"""
    P = program()
    mod, _, rest = anchor.rpartition(".")
    try:
        cls = P.public_class(mod)
        m = P.find_method(cls, rest)
        if m is not None:
            node = getattr(m, "node", None)
            return "%s:%s:%s" % (getattr(m.module, "path", "?"), getattr(node, "lineno", "?"), m.qual.split(":")[-1])
    except Exception:
        pass
    return anchor


# ---------------------------------------------------------------- running

def load_known(pid):
    p = os.path.join(ROOT, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                name, _, what = rest.partition(" :: ")
                out.append((name.strip(), what.strip()))
    return out


def obligation_list(obl):
    """One entry per obligation; when there are very many, the discharged ones are grouped by the last part of
    their name (the observation) and by place, with their number."""
    if len(obl) <= 1200:
        return [{"name": o["name"], "status": o["status"], "at": o["at"]} for o in obl]
    out, groups = [], {}
    for o in obl:
        if o["status"] != "ok":
            out.append({"name": o["name"], "status": o["status"], "at": o["at"]})
            continue
        what = o["name"].rsplit("/", 1)[-1]
        groups.setdefault((what, o["at"]), []).append(o["name"])
    for (what, at), names in groups.items():
        out.append({"name": what, "status": "ok", "at": at, "count": len(names), "first": names[0], "last": names[-1]})
    return out[:1500]


def run(pid, tier, seed, only=None, quiet=False):
    from importlib import import_module
    mod = import_module("sa.props." + pid)
    ck = Ck(pid, tier, seed, only)
    sys.setrecursionlimit(20000)
    try:
        program()
        mod.run(ck)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    ck.absorb()
    known = load_known(pid)
    viol = [o for o in ck.obl if o["status"] == "violated"]
    unk = [o for o in ck.obl if o["status"] == "unknown"]
    good = [o for o in ck.obl if o["status"] == "ok"]
    hits = []
    rest = []
    for o in viol:
        k = next((k for k in known if k[0] == o["name"]), None)
        if k is None:
            rest.append(o)
        else:
            hits.append((k, o))
    evid = os.environ.get("VERIF_EVID") or os.path.join(ROOT, "evidence")
    os.makedirs(evid, exist_ok=True)
    level = getattr(mod, "LEVEL", "other")
    cov = {
        "explanation": getattr(mod, "__doc__", "").strip(),
        "rule": "abstract interpretation of the current source under %s; an obligation is discharged when the abstract value of the observation agrees with the required one on every valuation tried, refuted when it differs, undecided when the abstraction cannot describe it" % PROGRAM_ROOT(),
        "scenarios": ck.scenarios,
        "obligations": len(ck.obl),
        "discharged": len(good),
        "undecided": len(unk),
        "refuted": len(viol),
        "valuations_of_abstract_terms": ck.vals,
        "functions_analysed": sorted(ck.funcs),
        "call_sites_followed": ck.calls,
        "program_points_analysed": len(ck.sites),
        "obligation_list": obligation_list(ck.obl),
        "undecided_list": [{"name": o["name"], "why": o["detail"]} for o in unk],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - ck.t0, 2)}
    with open(os.path.join(evid, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for (nm, what), o in hits:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, what or nm, o["at"]))
    if not quiet:
        print("%s: %d obligations, %d discharged, %d undecided, %d refuted, %.1fs" % (pid, len(ck.obl), len(good), len(unk), len(viol), time.time() - ck.t0))
    if rest:
        rp = os.path.join(evid, pid + ".violation.txt")
        with open(rp, "w") as f:
            for o in rest:
                f.write("property %s\nobligation: %s\nat: %s\n%s\n\n" % (pid, o["name"], o["at"], o["detail"]))
        for o in rest[:5]:
            print("  refuted: %s at %s\n    %s" % (o["name"], o["at"], o["detail"][:700]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


def PROGRAM_ROOT():
    from .model import REPO as R
    return R


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only")
    a = ap.parse_args(argv)
    return run(a.property, a.tier, a.seed, a.only)


if __name__ == "__main__":
    import threading
    from sa.check import main   # one instance of this module, whether run as a script or imported
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
