"""C24: patch matching stays within the search window and in time order.

FindMostOptimalDegPatches is interpreted with all it calls except the
comparator. Its tables are loop values: each has an initial value and a step.
The invariants of the tables (an entry outside of the window of its row keeps
the initial value, one inside is a bounded sum of similarities) are proved for
the initial value and for the step; the entry that a patch is traced back to is
then shown to lie in the window of the previous patch, strictly before, or to
be marked as lost."""
from common import *
import os

import cases
import sample

TECHNIQUE = "abstract interpretation of the whole matching to value graphs " \
    "with loop recurrences; table invariants proved by induction over the " \
    "patches with case distinction over loops and linear arithmetic"
EXPLANATION = "FindMostOptimalDegPatches is interpreted with everything it " \
    "calls but the comparator, for any number, width and position of patches, " \
    "any size of the degraded spectrogram and any radius. By induction over " \
    "the patches: entries of the score table outside of the window of their " \
    "row keep their initial value, those inside are sums of similarities. From " \
    "that, for every comparison: the degraded patch starts inside the degraded " \
    "spectrogram and within the radius; by induction over the trace back: the " \
    "position of the patch before lies in its window and strictly before, or " \
    "the patch is marked as lost; and every element access is within bounds. " \
    "Assumed: similarities are finite (magnitude up to 1e6), indices increase, " \
    "the radius is not negative. A violation is reported when the extracted " \
    "values break a rule for one of the small instances listed in the check."

BIG = 1000000


# ------------------------------------------------- the matching, as values
n = num("n", "i", True)
nb = num("nb", "i", True)
nc = num("cols", "i", True)
P = num("width", "i", True)
R = num("radius", "i", True)
IDX = sym("idx")
W = mul(R, P)


def run(c):
    kk, k1 = fresh("kk", "i"), fresh("k1", "i")
    refs = smap(n, kk, matrix(nb, P, lambda i, j: mk(
        "cell", get(sym("ref"), kk), i, j, ty="f")))
    spec = matrix(nb, nc, lambda i, j: mk("cell", sym("deg"), i, j, ty="f"))
    f = c.fn(SEL)
    s = c.session("Visqol::ComparisonPatchesSelector", obligations=True,
                  opaque=opq("MeasurePatchSimilarity"))
    r = s.call(f, args=[refs, smap(n, k1, get(IDX, k1, "i")), spec,
                        num("frame", "f", True), R])
    return s, r


SEL = "Visqol::ComparisonPatchesSelector::FindMostOptimalDegPatches"


# -------------------------------------------- the same for small instances
class Scene(sample.Env):
    """interpretation of the terms for one small instance"""
    REF = 10 ** 6

    def __init__(self, I, shape, idx, sims):
        super().__init__((1, repr(idx)))
        self.recur, self.idx, self.sims = I.recur, idx, sims
        self.limit = 10 ** 7
        rows, width, cols, radius = shape
        self.fix = {n: len(idx), nb: rows, P: width, nc: cols, R: radius,
                    sym("p:frame", "f"): 1.0}

    def o_get(self, x, b):
        if x.a[0] is IDX:
            i = self.evi(x.a[1], b)
            if not 0 <= i < len(self.idx):
                raise sample.Invalid
            return self.idx[i]
        return super().o_get(x, b)

    def o_cell(self, x, b):
        i, j = self.evi(x.a[1], b), self.evi(x.a[2], b)
        v = float(i * 1000 + j + 1)
        if x.a[0].op == "get":
            v += self.REF * (1 + self.evi(x.a[0].a[1], b))
        return v

    def o_call(self, x, b):
        if not x.a[0].endswith("::MeasurePatchSimilarity"):
            return self.other(x, b)
        ms = [self.ev(y, b) for y in x.a[1:]]
        ms = [self.patch(m) for m in ms]
        ms = [m for m in ms if m is not None]
        return sample.Obj(("sim",) + tuple(ms), self)

    def patch(self, v):
        """(patch, column) that a matrix was cut from"""
        if isinstance(v, sample.Rec):
            v = v.f.get("matrix_")
        if not isinstance(v, sample.Mat):
            return None
        x = v.at(0, 0) if v.r * v.c else 0
        return int(x // self.REF) - 1, int(x % self.REF) - 1

    def field(self, o, nm, ty, x=None):
        if isinstance(o, sample.Obj) and o.key[0] == "sim" and \
                len(o.key) == 3 and nm == "similarity":
            return self.sims(o.key[1][0], o.key[2][1])
        return super().field(o, nm, ty, x)

    def each(self, e):
        """the events of one kind, once per time they happen"""
        def loop(ls, names):
            if not ls:
                if self.at(e.cond, names):
                    yield [self.at(y, names) if isinstance(y, t.T) else y
                           for y in e.args]
                return
            k, N = ls[0]
            try:
                m = self.at(N, names)
            except sample.Invalid:      # not reached
                return
            for i in range(m):
                yield from loop(ls[1:], {**names, k: i})
        yield from loop(list(e.loops), {})


def hashed(lo, hi, seed):
    return lambda p, s: lo + (hi - lo) * (
        sample.h("sim", seed, p, s) % 10007) / 10007.0


def lost(q):
    f = hashed(0.2, 1, q)
    return lambda p, s: -3.0 if p == q else f(p, s)


SCENES = [
    # (rows, width, columns, radius), indices, similarities
    ((1, 2, 9, 1), [0, 4], lambda p, s: -0.5),
    ((1, 2, 9, 1), [0, 4], hashed(-1, 1, 3)),
    ((1, 2, 8, 1), [0, 2, 4], hashed(0, 1, 1)),
    ((2, 2, 8, 2), [1, 3, 5], hashed(-1, 0, 2)),
    ((1, 2, 8, 1), [1, 3, 5], lost(1)),
    ((1, 2, 8, 1), [1, 3, 5], lost(2)),
    ((1, 1, 4, 3), [0, 1, 2], lambda p, s: 1.0 - s),
    ((1, 1, 3, 2), [0, 1, 2], lambda p, s: float(s)),
    ((1, 3, 6, 1), [0, 3, 6], hashed(0, 1, 5)),
    ((1, 2, 5, 0), [0, 2], hashed(0, 1, 6)),
    ((1, 2, 4, 1), [0, 2, 9], hashed(0, 1, 7)),
    ((1, 1, 6, 1), [1, 4], lambda p, s: float(p == 0 and s)),
]


def scenes(c, s, r):
    """instances in which the extracted values break the property"""
    done, bad = 0, {}

    def report(rule, e, note):
        bad.setdefault(rule, (note, e.loc if e is not None else None))
    for shape, idx, sims in SCENES:
        env = Scene(s.I, shape, idx, sims)
        rows, width, cols, radius = shape
        w = radius * width
        at = "%d columns, patches of %d at %s, radius %d: " % (
            cols, width, idx, radius)
        try:
            for e in r.ev("index"):
                try:
                    for a in env.each(e):
                        if not 0 <= a[1] < a[2]:
                            report(SAFE["index"], e, at + "element %d of %d" %
                                   (a[1], a[2]))
                except sample.Invalid:
                    continue
            for e in r.ev("call"):
                if not e.name.endswith("::MeasurePatchSimilarity"):
                    continue
                for a in env.each(e):
                    (p, _z), (q, x) = env.patch(a[0]), env.patch(a[1])
                    if q != -1:
                        report(DEGRADED, e, at + "another reference patch")
                    elif not 0 <= x < cols:
                        report(INSIDE, e, at + "patch %d with column %d" % (
                            p, x))
                    elif abs(x - idx[p]) > w:
                        report(WINDOW, e, at + "patch %d with column %d" % (
                            p, x))
            v = env.solid(env.ev(r.ret, {}))
            if not (isinstance(v, sample.Tag) and v.op in ("sor", "soe")):
                continue
            done += 1
            if v.op == "soe":
                continue
            before = -1
            for p, x in enumerate(v.a[0]):
                x = dict(x.f)
                a, z = x["deg_patch_start_time"], x["deg_patch_end_time"]
                if a == z == 0:
                    continue
                if not before < a:
                    report(ORDER, None, at + "patch %d starts at %s, the one "
                           "before at %s" % (p, a, before))
                elif not 0 <= a < cols:
                    report(INSIDE, None, at + "patch %d matched at %s" % (
                        p, a))
                elif abs(a - idx[p]) > w:
                    report(WINDOW, None, at + "patch %d matched at %s" % (
                        p, a))
                before = a
        except (sample.Invalid, KeyError, IndexError, AttributeError,
                RecursionError, ZeroDivisionError, TypeError) as ex:
            if os.environ.get("VERIF_DEBUG") == "2":
                raise
            if os.environ.get("VERIF_DEBUG"):
                print("scene", at, repr(ex))
            continue
    return done, bad


DEGRADED = "reference patches are compared with patches of the degraded signal"
INSIDE = "compared patches start inside the degraded spectrogram"
WINDOW = "compared patches start within the search radius"
ORDER = "matched patches are in time order"


# ------------------------------------------------------------- the proofs
LOWEST = None
TOP = C(1 << 31)
SIM = C(10 ** 6)


def inside(q, x):
    """column x is within the search radius of patch q"""
    return [le(sub(x, W), get(IDX, q, "i")), le(get(IDX, q, "i"), add(x, W))]


class Tables:
    """what holds of the entries of the table after a number of patches"""

    def __init__(self, unset, uD):
        self.unset, self.uD, self.rows = unset, uD, {}

    def holds(self, v, q, x, K):
        """entry (q, x), value v, when K patches were processed"""
        w = and_(lt(q, K), *inside(q, x))
        b = mul(SIM, add(q, one()))
        return [or_(and_(w, le(sub(zero(), b), v), le(v, b)),
                    and_(not_(w), eq(v, self.unset)))]

    def instances(self, K):
        def f(x):
            if x.op == "cell" and x.a[0] is sym("D"):
                return self.holds(x, x.a[1], x.a[2], K)
            if x.op == "get" and x.a[0].op == "get" and \
                    x.a[0].a[0].op == "unk" and x.a[0].a[0].a[0] == self.uD:
                return self.holds(x, x.a[0].a[1], x.a[1],
                                  x.a[0].a[0].a[1][0])
            if x.op == "get" and x.a[0] is IDX:
                return [le(zero(), x), le(x, TOP)]
            if x.op == "len" and x.a[0].op == "get" and \
                    x.a[0].a[0].op == "unk" and x.a[0].a[0].a[0] == self.uD:
                return [eq(x, nc)]
            if x.op == "field" and x.a[1] == "similarity":
                return [le(sub(zero(), SIM), x), le(x, SIM)]
            return ()
        return f


TABLE = "entries outside of the search window are never reached"
TRACED = "the traced back position lies in the window of the previous patch"
FLAG = "a patch is matched where it was compared, or marked as lost"


def starts(m):
    """columns of the degraded signal that the patch could start at"""
    v = t.at(getfield(m, "matrix_"), zero(), zero())
    xs = [x for x in t.subterms(v) if x.op == "cell" and
          x.a[0] is sym("deg") and not t.freebv(x)]
    return v, [x.a[2] for x in xs if x.a[1] is zero()]


def patch_of(m):
    v = t.at(getfield(m, "matrix_"), zero(), zero())
    if v.op == "cell" and v.a[0].op == "get" and v.a[0].a[0] is sym("ref") \
            and v.a[1] is zero() and v.a[2] is zero():
        return v.a[0].a[1]
    return None


def proofs(c, w, s, r, fallback):
    def prove(rule, facts, goal, note, tab=None, loc=None):
        cs = cases.Cases(tab or (lambda x: ()), secs=60, budget=6000)
        if cs.proves(facts, goal):
            c.held(rule, w, loc=loc)
            return True
        if os.environ.get("VERIF_DEBUG") == "3":
            for y in getattr(cs, "model", []):
                print("    ", t.show(y, 12))
        if rule not in fallback:
            c.undecided(rule, w, "not proved: " + note, loc)
        return False
    D = L = None
    for u, (k, phi, x0, x1) in s.I.recur.items():
        if phi.ty == "i":
            L = (u, k, phi, x0, x1) if L is None else False
        elif x0.op == "map":
            D = (u, k, phi, x0, x1) if D is None else False
    evs = [e for e in r.ev("call") if e.name.endswith("::MeasurePatchSimilarity")]
    if not D or not L:
        c.undecided("analysis", w, "the tables are not of a known form")
        return
    base = [lt(zero(), n), lt(n, TOP), lt(zero(), nb), lt(zero(), nc),
            lt(zero(), P)]
    # ---- the table of scores
    q, x = num("q", "i", True), num("x", "i", True)
    u, k, phi, x0, x1 = D
    unset = get(get(x0, q), x)
    if unset.op != "c":
        c.undecided(TABLE, w, "initial entries: " + t.show(unset, 4))
        return
    tab = Tables(unset, u)
    one_k = tab.instances(k)
    prev = or_(le(k, zero()), lt(get(IDX, sub(k, one()), "i"),
                                 get(IDX, k, "i")))
    here = base + [lt(q, n), lt(x, nc), lt(k, n), prev]
    i, j = fresh("i", "i"), fresh("j", "i")
    x1 = t.subst(x1, {phi: smap(n, i, smap(nc, j, mk(
        "cell", sym("D"), i, j, ty="f")))})
    v = get(get(x1, q), x)
    prove(TABLE, here, and_(eq(length(x0), n), eq(length(get(x0, q)), nc),
                            eq(length(x1), n), eq(length(get(x1, q)), nc)),
          "size of the table")
    for goal in tab.holds(v, q, x, add(k, one())):
        prove(TABLE, here + [not_(eq(q, k))], goal,
              "rows of other patches are left alone", one_k)
    v = t.subst(v, {q: k})
    top = mul(SIM, add(k, one()))
    prove(TABLE, here + [not_(and_(*inside(k, x)))], eq(v, unset),
          "no entry is made outside of the window", one_k)
    for goal in (le(sub(zero(), top), v), le(v, top)):
        prove(TABLE, here + inside(k, x), goal,
              "every entry of the window is a sum of similarities", one_k)
    # ---- the comparisons made for the table
    for e in evs:
        ks = [a for a, _n in e.loops]
        if k not in ks:
            continue
        p = patch_of(e.args[0])
        if p is None:
            c.undecided(DEGRADED, w, "patch compared", e.loc)
            continue
        v, ss = starts(e.args[1])
        fs = base + [e.cond] + [lt(a, b) for a, b in e.loops]
        ok = [z for z in ss if cases.Cases(one_k).proves(
            fs, eq(v, mk("cell", sym("deg"), zero(), z, ty="f")))]
        if not ok:
            c.undecided(DEGRADED, w, "patch compared: " + t.show(v, 6), e.loc)
            continue
        c.held(DEGRADED, w, loc=e.loc)
        prove(WINDOW, fs, and_(*inside(p, ok[0])), "column compared", one_k,
              e.loc)
        prove(INSIDE, fs, and_(le(zero(), ok[0]), lt(ok[0], nc)),
              "column compared", one_k, e.loc)
    # ---- tracing back
    u2, k2, phi2, y0, y1 = L
    back = [e for e in evs if k2 in [a for a, _n in e.loops]]
    if len(back) != 1 or len(back[0].loops) != 1:
        c.undecided(TRACED, w, "%d comparisons" % len(back))
        return
    e = back[0]
    N2 = e.loops[0][1]
    p = patch_of(e.args[0])
    if p is None:
        c.undecided(DEGRADED, w, "patch compared", e.loc)
        return
    def at(v, z):
        return t.subst(v, {k2: z})
    l = num("l", "i", True)

    def known(v):
        """value of iteration k2: the position is l"""
        m = {y: l for y in t.subterms(v) if y.op == "unk" and y.a[0] == u2 and
             y.a[1][0] is k2}
        return t.subst(v, {**m, phi2: l})
    fin = tab.instances(None)
    bk = base + [eq(p, p)]
    first = [at(e.cond, zero()), lt(zero(), N2)] + base
    p0 = at(p, zero())
    prove(TRACED, first, and_(le(zero(), y0), lt(y0, nc), *inside(p0, y0)),
          "position of the last patch", fin)
    # that a position was found for the last patch is not needed further
    going = and_(*[x for x in conjuncts(e.cond)
                   if not any(y.op == "lastw" for y in t.subterms(x))])
    step = base + [known(going), lt(add(k2, one()), N2), lt(l, nc)] + \
        inside(p, l)
    pn = at(p, add(k2, one()))
    prove(TRACED, step, eq(add(pn, one()), p), "patches are traced back in "
          "order", fin)
    step.append(lt(get(IDX, pn, "i"), get(IDX, p, "i")))
    M = known(y1)
    prove(TRACED, step, and_(le(zero(), M), le(M, l), *inside(pn, M)),
          "position of the patch before", fin)
    # ---- the comparison and the result
    v, _ss = starts(e.args[1])
    now = base + [known(going), lt(k2, N2), lt(l, nc)] + inside(p, l)
    if prove(DEGRADED, now, eq(known(v), mk("cell", sym("deg"), zero(), l,
                                            ty="f")), "patch compared", fin,
             e.loc):
        c.held(WINDOW, w, loc=e.loc)
        c.held(INSIDE, w, loc=e.loc)
    good = result_ok(r.ret)
    z = num("pi", "i", True)
    out = get(t.assume1(sorv(r.ret), good, True), z)
    F = num("frame", "f", True)
    m = {}
    for f in ("deg_patch_start_time", "deg_patch_end_time"):
        v = getfield(out, f, "f")
        # iteration of patch pi
        for y in t.subterms(v):
            if y.op == "unk" and y.a[0] == u2:
                m[y] = l
        m[f] = v
    a, b = (t.subst(t.subst(m[f], {y: l for y in m if not isinstance(y, str)}),
                    {z: p}) for f in ("deg_patch_start_time",
                                      "deg_patch_end_time"))
    gone = and_(eq(a, zero()), eq(b, zero()))
    prove(FLAG, now + [lt(zero(), F)], or_(gone, eq(a, mul(F, l))),
          "start time of the match", fin)
    prove(ORDER, step + [lt(zero(), F)], or_(gone, lt(M, l)),
          "the patch before starts earlier", fin)
    # ---- accesses
    for e in r.ev("index"):
        ks = [a for a, _n in e.loops]
        fs = base + [lt(a, b) for a, b in e.loops]
        args, cond = e.args, e.cond
        if k2 in ks:
            args = [known(y) if isinstance(y, t.T) else y for y in args]
            cond = known(cond)
            fs += [lt(l, nc)] + inside(p, l)
        prove(SAFE["index"], fs + [cond],
              and_(le(zero(), args[1]), lt(args[1], args[2])),
              "%s of %s" % (t.show(args[1], 6), t.show(args[2], 4)),
              one_k if k in ks else fin, e.loc)


def check(c):
    w = SEL.replace("Visqol::", "")

    @c.rule("matching", w, 600)
    def _():
        s, r = run(c)
        done, bad = scenes(c, s, r)
        for rule, (note, loc) in bad.items():
            c.violated(rule, w, note, loc)
        c.samples += done
        proofs(c, w, s, r, bad)
