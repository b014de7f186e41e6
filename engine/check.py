"""Framework of the checks: obligations, comparison with the specification,
known findings, evidence."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))

import program            # noqa: E402
from program import AnalysisError, Program, is_ref, is_const_ref  # noqa: E402
import interp             # noqa: E402
import sample             # noqa: E402
import split              # noqa: E402
import terms as t         # noqa: E402
from terms import T       # noqa: E402


class Skip(Exception):
    """this obligation cannot be decided"""


class Run:
    """one function, interpreted abstractly"""

    def __init__(self, I, f, ret, this, events):
        self.I, self.f, self.this = I, f, this
        if isinstance(ret, interp.Ref):
            ret = I.read(ret.p)
        self.ret = ret
        self.events = events

    def arg(self, i):
        """final value of a by-reference argument (by position or name)"""
        if isinstance(i, int):
            i = self.f["params"][i]["name"]
        return self.I.arg_value(i)

    def obj(self):
        return self.I.read(self.this)

    def ev(self, kind=None, name=None):
        return [e for e in self.events
                if (kind is None or e.kind == kind) and
                (name is None or e.name == name or
                 e.name.split("::")[-1] == name)]


class Session:
    """functions interpreted one after the other on one object"""

    def __init__(self, c, cls, fields, opaque, obligations, dispatch, watch,
                 flags, setup, snap=()):
        self.c = c
        self.I = I = interp.Interp(c.P, opaque=opaque, dispatch=dispatch,
                                   obligations=obligations, watch=watch)
        if flags is not None:
            I.flags = flags
        I.snap = snap
        self.this = None
        if cls:
            if fields is not None and cls in c.P.records:
                have = {x["name"] for x in c.P.all_fields(cls)}
                miss = set(fields) - have
                if miss:
                    raise Skip("%s has no member %s" % (cls, sorted(miss)))
            self.this = I.this_sym(cls, fields)
        if setup:
            setup(I)

    def set_this(self, v):
        self.I.write(self.this, v)

    def obj(self):
        return self.I.read(self.this)

    def call(self, f, args=None, names=None, nparams=None, this=None):
        c, I = self.c, self.I
        if isinstance(f, str):
            f = c.fn(f, nparams)
        ps = f["params"]
        if isinstance(args, (list, tuple)):
            args = {p["name"]: a for p, a in zip(ps, args) if a is not None}
        args = dict(args or {})
        for p, n in zip(ps, names or ()):
            if n is not None and p["name"] not in args:
                args[p["name"]] = I.param_sym(dict(p, name=n))
        n = len(I.events)
        th = this or self.this if f.get("cls") and not f.get("static") else None
        r = I.call_entry(f, th, args)
        c.note(I)
        return Run(I, f, r, th, I.events[n:])


class Check:
    def __init__(self, pid, prog=None, seed=1, tier="quick"):
        self.pid = pid
        self.P = prog or Program()
        self.seed = seed
        self.tier = tier
        self.t0 = time.time()
        self.budget = 600
        self.obl = []
        self.funcs = set()
        self.calls = 0
        self.unmodelled = {}
        self.samples = 0

    # ---------------------------------------------------------- results
    def put(self, status, rule, where, note="", loc=None):
        self.obl.append(dict(status=status, rule=rule, where=where,
                             note=note[:1500], loc=loc or ""))

    def held(self, rule, where, note="", loc=None):
        self.put("held", rule, where, note, loc)

    def violated(self, rule, where, note, loc=None):
        self.put("violated", rule, where, note, loc)

    def undecided(self, rule, where, note, loc=None):
        self.put("undecided", rule, where, note, loc)

    def ok(self, cond, rule, where, note="", loc=None):
        self.put("held" if cond else "violated", rule, where,
                 "" if cond else note, loc)
        return cond

    def rule(self, rule, where="", secs=100):
        """decorator: runs f, what goes wrong leaves the rule undecided"""
        def deco(f):
            n = len(self.obl)
            try:
                t.limit(min(secs, self.t0 + self.budget - time.time()) or 1)
                f()
            except t.TooLong:
                self.undecided(rule, where, "not decided in the time allowed")
            except (Skip, AnalysisError) as e:
                self.undecided(rule, where, "%s" % e)
            except RecursionError:
                self.undecided(rule, where, "too deep")
            except Exception as e:       # noqa: B902
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
                self.undecided(rule, where, "analysis failed: %s: %s %s" % (
                    type(e).__name__, e,
                    traceback.format_exc().strip().split("\n")[-3][:200]))
            finally:
                t.limit(0)
            if len(self.obl) == n:
                self.held(rule, where)
            return f
        return deco

    # ---------------------------------------------------------- running
    def fn(self, q, n=None, pred=None):
        f = self.P.fn(q, n, pred)
        if f is None:
            raise Skip("no function %s" % q)
        return f

    def find(self, q, pred=None):
        return [f for f in self.P.byq.get(q, ()) if pred is None or pred(f)]

    def session(self, cls=None, fields=None, opaque=None, obligations=False,
                dispatch=None, watch=None, flags=None, setup=None, snap=()):
        return Session(self, cls, fields, opaque, obligations, dispatch,
                       watch, flags, setup, snap)

    def run(self, f, this=None, args=None, opaque=None, obligations=False,
            dispatch=None, watch=None, flags=None, setup=None, nparams=None,
            names=None):
        """interprets one function on a symbolic object. args: values by
        position (list, None: symbolic) or by name; names: the names of the
        parameter symbols by position"""
        if isinstance(f, str):
            f = self.fn(f, nparams)
        cls = f["cls"] if f.get("cls") and not f.get("static") else None
        s = self.session(cls, this, opaque, obligations, dispatch, watch,
                         flags, setup)
        return s.call(f, args, names)

    def note(self, I):
        self.calls += sum(I.inlined.values()) if I.inlined else 0
        self.funcs.update(I.inlined)
        for k, v in I.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + v

    # ---------------------------------------------------------- comparison
    def eq(self, rule, where, got, want, facts=(), loc=None, hints=None,
           what="value"):
        """obligation: got equals want wherever the facts hold"""
        if got is None:
            self.undecided(rule, where, "no result", loc)
            return None
        facts = tuple(facts)
        if got is want or t.same(got, want, 6):
            self.held(rule, where, loc=loc)
            return True
        if facts:
            f = t.and_(*facts)
            g2, w2 = t.assume1(got, f, True), t.assume1(want, f, True)
            if g2 is w2 or t.same(g2, w2, 6):
                self.held(rule, where, loc=loc)
                return True
        for n, g, w in self.leaves(got, want):
            if g is w:
                continue
            if g.unk or w.unk:
                # an unknown part may still be irrelevant; try to separate
                # the rest
                self.undecided(rule, where + n, "%s not expressible: %s" % (
                    what, t.show(g, 6)), loc)
                continue
            if split.prove(facts, g, w):
                self.held(rule, where + n, loc=loc)
                continue
            d, n_ok = sample.differ(g, w, facts, seed=self.seed, hints=hints)
            self.samples += n_ok
            if d is None:
                self.put("held" if n_ok >= 20 else "undecided", rule,
                         where + n, "forms differ but do not separate on %d "
                         "random interpretations: %s / %s" % (
                             n_ok, t.show(g, 6), t.show(w, 6)), loc)
            else:
                self.violated(rule, where + n, "%s is %s, should be %s" % (
                    what, t.show(g, 9), t.show(w, 9)), loc)
        return None

    def leaves(self, g, w, path=""):
        """pairs of parts of two records, else the pair itself"""
        if g.op == "rec" and w.op == "rec" and len(path) < 80:
            dg, dw = dict(g.a[1]), dict(w.a[1])
            if set(dg) == set(dw) and dg:
                out = []
                for n in sorted(dg):
                    if dg[n] is not dw[n]:
                        out += self.leaves(dg[n], dw[n], path + "." + n)
                return out
        return [(path, g, w)]

    def implies(self, rule, where, facts, c, loc=None, note=""):
        """obligation: c holds wherever the facts hold"""
        import linear
        c2 = t.assume1(c, t.and_(*facts), True) if facts else c
        if c2 is t.TRUE or linear.implied(tuple(facts), c2):
            self.held(rule, where, loc=loc)
            return True
        if split.prove(facts, c, t.TRUE):
            self.held(rule, where, loc=loc)
            return True
        if c.unk or any(f.unk for f in facts):
            self.undecided(rule, where, "%s: %s" % (note, t.show(c, 7)), loc)
            return None
        if not any(x.op in ("sym", "call", "field", "bv", "get", "out", "unk",
                            "method", "deref") for x in t.subterms(c2)):
            # no free names: the value is computed
            d, n = sample.differ(c2, t.TRUE, (), samples=1)
            if n and d is None:
                self.held(rule, where, loc=loc)
                return True
        d, n = sample.differ(c, t.TRUE, facts, seed=self.seed)
        self.samples += n
        if d is None:
            self.undecided(rule, where, "%s: not proved, no counterexample "
                           "interpretation in %d: %s" % (note, n,
                                                         t.show(c, 7)), loc)
            return None
        self.violated(rule, where, "%s: %s does not follow from %s" % (
            note, t.show(c, 9), [t.show(f, 7) for f in facts]), loc)
        return False

    # ---------------------------------------------------------- the end
    def finish(self, technique, explanation):
        kf = known(self.pid)
        bad, found = [], []
        seen = set()
        for o in self.obl:
            if o["status"] != "violated":
                continue
            k = (o["rule"], o["where"], o["note"])
            if k in seen:
                continue
            seen.add(k)
            m = [e for e in kf if matches(e, o)]
            (found if m else bad).append((o, m[0] if m else None))
        cnt = {s: len([o for o in self.obl if o["status"] == s])
               for s in ("held", "violated", "undecided")}
        rules = {}
        for o in self.obl:
            r = rules.setdefault(o["rule"], dict(held=0, violated=0,
                                                 undecided=0))
            r[o["status"]] += 1
        ev = dict(
            property=self.pid, tier=self.tier, seed=self.seed, level="other",
            coverage=dict(
                explanation=explanation,
                functions_of_program=len(self.P.fns),
                functions_analysed=len(self.funcs),
                calls_inlined=self.calls,
                obligations=len(self.obl), held=cnt["held"],
                violated=len(bad), known_findings=len(found),
                undecided=cnt["undecided"],
                random_interpretations=self.samples,
                rules=rules,
                undecided_list=[
                    {k: o[k] for k in ("rule", "where", "note", "loc")}
                    for o in self.obl if o["status"] == "undecided"][:60],
                unmodelled=sorted("%s at %s" % k for k in self.unmodelled)[:40],
            ),
            technique=technique,
            wall_s=round(time.time() - self.t0, 2),
        )
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations: %d held, %d undecided, %d violated%s (%.1fs)"
              % (self.pid, len(self.obl), cnt["held"], cnt["undecided"],
                 len(bad), ", %d known" % len(found) if found else "",
                 ev["wall_s"]))
        for o, e in found:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, e["what"]))
        if os.environ.get("VERIF_VERBOSE"):
            for o in self.obl:
                print(o["status"], o["rule"], "|", o["where"], "|", o["loc"],
                      "|", o["note"])
        if bad:
            rp = os.path.join(d, self.pid + ".violation.json")
            with open(rp, "w") as f:
                json.dump([o for o, _ in bad], f, indent=1)
            for o, _ in bad[:20]:
                print("  %s: %s [%s] %s" % (o["rule"], o["where"], o["loc"],
                                            o["note"][:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0


def known(pid):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return [e for e in json.load(f)["findings"]
                    if e["property"] == pid]
    except FileNotFoundError:
        return []


def matches(e, o):
    return e["rule"] == o["rule"] and e["where"] == o["where"] and \
        all(x in o["note"] for x in e.get("note", []))


def main(pid):
    sys.modules["check"] = sys.modules[__name__]
    import importlib
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module(pid.lower())
    try:
        c = Check(pid, seed=seed, tier=tier)
    except Exception as e:     # the program cannot be read
        print("ERROR: %s" % e)
        return 2
    try:
        t.limit(c.budget)
        mod.check(c)
    except t.TooLong:
        c.undecided("analysis", pid, "not decided in the time allowed")
    except (Skip, AnalysisError) as e:
        c.undecided("analysis", pid, str(e))
    return c.finish(mod.TECHNIQUE, mod.EXPLANATION)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
