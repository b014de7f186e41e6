from common import *
from program import walk

TECHNIQUE = "typestate of status values by abstract interpretation: every " \
    "function that runs a fallible step, the step's outcome symbolic"
EXPLANATION = "Every function with a call whose result is a Status, StatusOr " \
    "or TfLiteStatus, or a loader's pointer, is interpreted with these steps " \
    "uninterpreted. Rules: whenever the function succeeds every step it ran " \
    "succeeded; its error is the step's error; a StatusOr's value is taken " \
    "only under conditions that imply its success; in functions that cannot " \
    "fail themselves the outcome of a step is looked at."

LOADERS = ("svm_load_model", "BuildFromFile")


def statusish(ty):
    ty = ty.replace("const ", "")
    if ty.rstrip().endswith(("&", "*")):
        return None
    if "absl::StatusOr<" in ty:
        return "so"
    if "TfLiteStatus" in ty:
        return "tf"
    if "absl::Status" in ty and "StatusCode" not in ty or \
            ty.strip().endswith("status_internal::Status"):
        return "st"
    return None


def step(fn):
    """the callee is a fallible step"""
    q = fn["q"]
    if q.split("::")[-1] in LOADERS:
        return "ptr"
    if q.startswith("absl::") or "operator=" in q:
        return None
    return statusish(fn.get("rt", ""))


def takes_status(f):
    ts = [p["t"] for p in f["params"]] if "params" in f else f.get("pt", ())
    return any(("absl::Status" in x or "TfLiteStatus" in x) and
               "StatusCode" not in x for x in ts)


def opaque(P):
    """steps, and helpers that neither take nor contain any, are left
    uninterpreted"""
    memo = {}

    def fallible(g):
        u = g["u"]
        if u not in memo:
            memo[u] = False
            if g.get("body"):
                for x in walk(g["body"]):
                    fn = x.get("fn") if x.get("k") == "Call" else None
                    if fn and (step(fn) or any(
                            fallible(h) for h in P.byq.get(fn["q"], ()))):
                        memo[u] = True
                        break
        return memo[u]

    def h(q, f):
        gs = P.byq.get(q)
        if not gs:
            return bool(rtype(f)) and not takes_status(f)
        if any(takes_status(g) for g in gs):
            return False
        return any(rtype(g) for g in gs) or not any(
            fallible(g) for g in gs) and q.startswith("Visqol::") and \
            "FilePath" not in q
    return h


def rtype(f):
    return statusish(f.get("rt") or f.get("ret") or "")


def check(c):
    n = 0
    for f in sorted(c.P.fns.values(), key=lambda x: x["q"]):
        if not f.get("body") or f.get("lambda") or takes_status(f):
            continue
        cs = [x for x in walk(f["body"]) if x.get("k") == "Call" and
              x.get("fn") and step(x["fn"])]
        if not cs:
            continue
        n += 1
        w = f["q"].replace("Visqol::", "", 1)
        if len(c.P.byq[f["q"]]) > 1:
            w += "(%s)" % ", ".join(p["name"] for p in f["params"])

        @c.rule("failures", w)
        def _():
            one(c, f, w, cs)
    if not n:
        c.undecided("failures", "program", "no fallible step found")


def value(r, e):
    """the value of the call"""
    a = e.args
    if e.kw.get("obj") is not None:
        a = (e.kw["obj"],) + tuple(a)
    return mk("call", e.name, *a)


def succeeded(kind, v):
    if kind == "so":
        return okp(v)
    if kind == "st":
        return st_ok(v)
    if kind == "tf":
        # kTfLiteDelegateError: the graph is as it was, and usable
        return or_(eq(zero(), v), eq(C(2), v))
    return not_(eq(v, NULL))


STATUS = "a failed step makes its caller fail"
PASSED = "the step's error is the caller's error"
VALUE = "values are taken only from successful steps"
LOOKED = "the outcome of a step is looked at"


def one(c, f, w, cs):
    kinds = {x["fn"]["q"]: step(x["fn"]) for x in cs}
    r = c.run(f, opaque=opaque(c.P),
              setup=lambda I: setattr(I, "pure", ("Build", "Run")))
    own = rtype(f)
    evs = [e for e in r.ev("call") if kinds.get(e.name)]
    short = {q.split("::")[-1] for q in kinds}
    js = [e for e in r.ev("wrote") if any(
        x.op == "json" for x in t.subterms(e.args[2]))]
    for e in js:
        for x in t.subterms(e.args[2]):
            if x.op == "json":
                c.implies("only a converted message is written", w, [e.cond],
                          mk("jsonok", x.a[0], ty="b"), loc=e.loc,
                          note="file written")
    if not evs and not js:
        raise Skip("no fallible step is reached of %s" % sorted(short))
    for e in evs:
        k = kinds[e.name]
        v = value(r, e)
        good = succeeded(k, v)
        n = "%s: %s" % (w, e.name.split("::", 1)[-1])
        if own:
            ret = this_iteration(r.ret, e, v)
            rok = result_ok(ret)
            if own in ("so", "st") and k in ("so", "st") and \
                    c.eq(PASSED, n, code(own, ret), sorst_code(k, v),
                         [e.cond, not_(good)], loc=e.loc,
                         what="the status code") or c.obl[-1]["status"] == \
                    "held" and c.obl[-1]["rule"] == PASSED and \
                    c.obl[-1]["where"] == n:
                # an error code of the step's is not success
                c.held(STATUS, n, loc=e.loc)
            else:
                c.implies(STATUS, n, [e.cond, not_(good)], not_(rok),
                          loc=e.loc, note="success though the step failed")
        else:
            looked(c, f, r, e, v, good, n)
    if f["q"] == "main":
        program(c, r)
    for e in r.ev("sorvalue"):
        v = e.args[0]
        c.implies(VALUE, w, [e.cond], okp(v), loc=e.loc,
                  note="value taken of %s" % t.show(v, 3))


def this_iteration(ret, e, v):
    """the result, given that the loops' earlier iterations went on"""
    for k, _n in e.loops[:1]:
        m = {}
        for x in t.subterms(ret):
            if x.op in ("any", "first") and not t.freebv(x):
                p = t.subst(x.a[2], {t.bv(x.a[1]): k})
                if t.mentions(p, v):
                    m[x] = or_(p, t.fresh("later", "b")) if x.op == "any" \
                        else ite(p, k, t.fresh("later", "i"))
        if m:
            ret = t.subst(ret, m)
    return ret


def code(kind, v):
    if v.op == "ite":
        return ite(v.a[0], code(kind, v.a[1]), code(kind, v.a[2]))
    if kind == "so" and v.op not in ("soe", "sor", "status"):
        return st_code(sorst(v))
    return error_code(v)


def sorst_code(k, v):
    return st_code(sorst(v)) if k == "so" else st_code(v)


def looked(c, f, r, e, v, good, n):
    """the function cannot fail itself: what it does must depend on it"""
    if any(t.mentions(x.cond, v) for x in r.events) or \
            (r.ret is not None and t.mentions(r.ret, v)):
        c.held(LOOKED, n, loc=e.loc)
    else:
        c.violated(LOOKED, n, "nothing depends on the outcome of %s" % e.name,
                   e.loc)


def program(c, r):
    """main: each stage only after the one before it succeeded"""
    RULE = "the program goes on only after success"
    ev = [e for e in r.ev("call")]
    of = lambda q: [e for e in ev if e.name.endswith(q)]
    parse, init = of("Parser::Parse"), of("VisqolManager::Init")
    run = of("VisqolManager::Run")
    for kind, first, then in (
            ("so", parse, init + run), ("st", init, run)):
        for a in first:
            good = succeeded(kind, value(r, a))
            for b in then:
                c.implies(RULE, "main: %s" % b.name, [b.cond], good,
                          loc=b.loc, note="run after a failed %s" % a.name)
            c.implies(RULE, "main: exit code", [a.cond, not_(good)],
                      not_(eq(zero(), r.ret)), loc=a.loc,
                      note="exit code 0 though %s failed" % a.name)
    out = [e for e in r.events if e.kind in ("wrote", "open") or e in
           of("WriteToConsole") + of("WriteResultsToCSV")]
    for a in run:
        good = okp(value(r, a))
        for b in out:
            c.implies(RULE, "main: %s %s" % (b.kind, b.name), [b.cond], good,
                      loc=b.loc, note="written for a failed comparison")
