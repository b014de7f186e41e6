from common import *
import linear

TECHNIQUE = "abstract interpretation of every quality mapper and of " \
    "CalculateSimilarity under IEEE comparison semantics (NaN aware), path " \
    "by path interval proof of the returned value"
EXPLANATION = "PredictQuality of every class derived from " \
    "SimilarityToQualityMapper is interpreted with symbolic features and " \
    "symbolic raw model output, comparisons kept NaN aware. On every path of " \
    "the returned value the path's comparisons must force it into [1, 5] " \
    "and exclude NaN. The score of a comparison must be that prediction or " \
    "itself be in range, and the message's score that of the comparison."

MAPPER = "Visqol::SimilarityToQualityMapper"


def check(c):
    t.Mode.nan_blind = False
    try:
        rules(c)
    finally:
        t.Mode.nan_blind = True


def rules(c):
    ms = [g for d in c.P.derived(MAPPER)
          for g in c.P.byq.get(d + "::PredictQuality", ()) if g.get("body")]
    if not ms:
        c.undecided("predicted score in [1, 5]", MAPPER, "no mapper found")
    for g in ms:
        w = g["q"].replace("Visqol::", "")

        @c.rule("predicted score in [1, 5]", w)
        def _():
            r = c.run(g)
            in_range(c, "predicted score in [1, 5]", w, r.ret,
                     loc=g.get("loc") or w)

    for noreal in (False, True):
        n = "CalculateSimilarity (%s)" % ("coarse patches" if noreal else
                                          "realigned patches")

        @c.rule("score of a comparison in [1, 5]", n)
        def _():
            S = Similarity(c, noreal)
            p = S.score
            v = getfield(S.res, "moslqo", "f")
            x = sym("p:score", "f")
            v = t.subst(v, {p: x, mk(p.op, *p.a, ty="f"): x})
            in_range(c, "score of a comparison in [1, 5]", n, v,
                     [(lt(x, one()), False), (le(x, C(5)), True),
                      (le(one(), x), True)], S.loc)

    for bp, mode in itertools.product((False, True), MODES):
        n = "VisqolManager::Run(%s), %s" % ("paths" if bp else "signals", mode)

        @c.rule("reported score in [1, 5]", n)
        def _():
            s, i = init_manager(c, *MODES[mode])
            r = s.call(run_overload(c, bp), names=["ref", "deg"])
            e = one_ev(r, "call", STAGES[0])
            ok = and_(result_ok(r.ret), e.cond)
            m = t.assume1(sorv(t.assume1(r.ret, ok, True)), ok, True)
            if m.op != "rec" or "moslqo" not in dict(m.a[1]):
                raise Skip("message is %s" % t.show(m, 4))
            obj = e.kw.get("obj")
            res = sorv(mk("call", e.name, *(
                ((obj,) if obj is not None else ()) + e.args)))
            x = sym("p:score", "f")
            p = getfield(t.assume1(res, ok, True), "moslqo", "f")
            v = t.subst(getfield(m, "moslqo", "f"), {p: x})
            in_range(c, "reported score in [1, 5]", n, v,
                     [(le(x, C(5)), True), (le(one(), x), True)], e.loc)


ATOMS = ("lt", "le", "eq", "eqv", "flt", "fle", "truth", "sym", "field",
         "any", "get", "okp", "call", "isnan", "streamok", "unk")


def atom(v):
    """a condition of a gate in v without gates inside it"""
    for x in t.subterms(v):
        if x.op == "ite":
            for y in t.subterms(x.a[0]):
                if y.ty == "b" and y.op in ATOMS and not t.freebv(y) and \
                        not any(z.op == "ite" for z in t.subterms(y)):
                    return y
    return None


def paths(v, lits, depth=0):
    """the values v takes with the comparisons that lead there"""
    if v.op == "ite":
        # outside in keeps the number of paths down
        a = atom(ite(v.a[0], one(), zero()))
    else:
        a = atom(v)
    if a is None or depth > 40:
        yield v, lits
        return
    for b in (True, False):
        w = t.subst(v, {a: boolean(b)})
        ls, dead = [], False
        for x, p in lits:
            y = t.subst(x, {a: boolean(b)})
            if y in (TRUE, FALSE):
                dead = dead or (y is TRUE) != p
            else:
                ls.append((y, p))
        if not dead:
            yield from paths(w, ls + [(a, b)], depth + 1)


def affine(v, d):
    """d = k*v + const, k not 0"""
    c, m = t.parts(d)
    _c, mv = t.parts(v)
    if not mv or set(m) != set(mv):
        return False
    x = next(iter(mv))
    k = m[x] / mv[x]
    return k != 0 and all(abs(m[y] - k * mv[y]) <= abs(m[y]) / 10 ** 9
                          for y in m)


def close(a, b, rel=10 ** 9):
    return abs(a - b) <= max(abs(a), abs(b)) / rel


def bounds(v, lits):
    """(low, high, may be NaN) of the numeric v on a path"""
    if v.op == "c":
        return v.a[0], v.a[0], False
    lo = hi = None
    nan = True
    vc, vm = t.parts(v)
    for x, p in lits:
        if x.op not in ("lt", "le", "eq") or not affine(v, x.a[0]):
            if x.op == "isnan" and x.a[0] is v and not p:
                nan = False
            continue
        dc, dm = t.parts(x.a[0])
        y = next(iter(vm))
        k = dm[y] / vm[y]
        lim = vc - dc / k           # d < 0  <=>  k*v < k*lim
        if p:
            nan = False
        if x.op == "eq":
            if p:
                lo = hi = lim
            continue
        up = (k > 0) == p           # v at most lim
        if up:
            hi = lim if hi is None else min(hi, lim)
        else:
            lo = lim if lo is None else max(lo, lim)
    return lo, hi, nan


def in_range(c, rule, where, v, given=(), loc=None):
    n = 0
    for x, lits in paths(v, list(given)):
        n += 1
        lo, hi, nan = bounds(x, lits)
        eps = C(0.000001).a[0]
        if x.op in ("inf", "ninf", "nan"):
            pass
        elif not nan and lo is not None and hi is not None and \
                lo >= 1 - eps and hi <= 5 + eps:
            continue
        elif x.op == "mnx" or x.unk or any(y.op == "ite" for y in
                                           t.subterms(x)):
            c.undecided(rule, where, "value on a path: %s" % t.show(x, 6),
                        loc)
            return
        if infeasible(lits):
            continue
        why = "may be NaN" if nan and x.op != "c" else \
            "lies between %s and %s" % (
                "-inf" if lo is None else float(lo),
                "inf" if hi is None else float(hi))
        c.violated(rule, where, "on the path %s the score is %s, which %s" % (
            [("" if p else "not ") + t.show(a, 6) for a, p in lits],
            t.show(x, 6), why), loc)
        return
    c.held(rule, where, "%d paths" % n, loc)


def infeasible(lits):
    # contradiction between the comparisons known to be true (no NaN there)
    pos = tuple(x for x, p in lits if p)
    return bool(pos) and linear.implied(pos, FALSE)
