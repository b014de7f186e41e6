from common import *
from ieee import Range, Ieee, Top, INF, NAN, numbers
from sample import Mat, Invalid

TECHNIQUE = "abstract interpretation to value graphs under IEEE comparison " \
    "semantics; interval domain with infinities and NaN over the resulting " \
    "terms, path by path"
EXPLANATION = "The preparation of two spectrograms, the similarity of two " \
    "patches and the pooled deviation are interpreted with symbolic cells, " \
    "comparisons kept NaN aware. An interval domain with infinities and NaN " \
    "bounds every cell of the results from the cells of the inputs: no " \
    "division by zero, root or logarithm of an invalid value or comparison " \
    "with NaN may let a non-finite value through. Where the domain proves " \
    "nothing, the same terms are evaluated on silent, constant and NaN " \
    "cells, and a non-finite value is reported with them."

PREP = "Visqol::MiscAudio::PrepareSpectrogramsForComparison"
NSIM = "Visqol::NeurogramSimiliarityIndexMeasure"
CONV = "Valid2DConvWithBoundary"
SPEC = "Visqol::Spectrogram"


def check(c):
    t.Mode.nan_blind = False
    try:
        rules(c)
    finally:
        t.Mode.nan_blind = True


def spectro(name, n, m):
    x = sym(name)
    M = matrix(n, m, lambda i, j: get(get(x, j, "o"), i, "f"))
    return M, rec(SPEC, {"data_": M, "center_freq_bands_": sym("cf:" + name)})


def root(v):
    while v.op in ("get", "field", "at", "mlin"):
        v = v.a[0]
    return v


def cells(ranges):
    """the rule of a Range: elements of the named inputs lie in a range"""
    def f(self, v, lits):
        if v.op in ("get", "at", "mlin", "field") and v.ty == "f" or \
                v.op == "sym":
            r = root(v)
            if r.op == "sym" and r.a[0] in ranges:
                return ranges[r.a[0]]
        return None
    return f


def finite(r):
    return not r[2] and r[0] > -INF and r[1] < INF


def const(n, m, *vs):
    """columns of the values in turn"""
    k = iter(range(10 ** 6))
    return [[vs[next(k) % len(vs)] for _ in range(n)] for _ in range(m)]


def table(ref, deg):
    def o(cs):
        return "[" + "; ".join(" ".join("%.3g" % x for x in col)
                               for col in cs) + "]"
    return "reference %s, degraded %s (columns)" % (o(ref), o(deg))


def decide(c, rule, w, v, dom, scenes, loc=None):
    """every number in v is finite: by the domain, or not, by a scene"""
    why = ""
    try:
        r = dom.of(v)
        if finite(r):
            c.held(rule, w, "between %.3g and %.3g" % r[:2], loc)
            return True
        why = "range %s%s" % (r[:2], " or NaN" if r[2] else "")
    except Top as e:
        why = "nothing known of %s" % e
    n = 0
    for what, env in scenes():
        try:
            bad = [x for x in numbers(env.ev(v, {}))
                   if x != x or x in (INF, -INF)]
        except (Invalid, OverflowError, ZeroDivisionError, RecursionError):
            continue
        n += 1
        if bad:
            c.violated(rule, w, "%s where %s" % (
                "NaN" if bad[0] != bad[0] else "infinite", what), loc)
            return False
    c.undecided(rule, w, "%s; finite in %d cases tried" % (why, n), loc)
    return None


SILENT = [0.0]
ODD = [0.0, NAN, 1e-100, 2.5, 1e-7, 1e100, -3.0, 2.2e-16]


def rules(c):
    n, m, m2 = (num(x, "i", True) for x in ("bands", "frames", "dframes"))
    some = {x: (1.0, 2.0 ** 31, False) for x in (n, m, m2)}
    w = "MiscAudio::PrepareSpectrogramsForComparison"

    def pictures():
        for a, b in ((SILENT, SILENT), ([NAN], [NAN]), (SILENT, [1.0]),
                     (ODD, ODD[::-1]), ([1.0], [NAN]), ([0.5, 0.0], [NAN]),
                     (ODD[1:], SILENT), ([2.0, NAN, 0.0], [3.0, 1.0]),
                     ([NAN, 2.0], [5.0]), ([5.0], [NAN, 2.0])):
            for k, p, q in ((2, 3, 3), (1, 2, 4), (3, 4, 2), (2, 1, 1)):
                r, d = const(k, p, *a), const(k, q, *b)
                yield table(r, d), Ieee({"ref": r, "deg": d, "p:bands": k,
                                         "p:frames": p, "p:dframes": q})

    @c.rule("prepared spectrograms are finite", w)
    def _():
        f = c.fn(PREP)
        R, sr = spectro("ref", n, m)
        D, sd = spectro("deg", n, m2)
        r = c.run(f, args=[sr, sd])
        any_cell = (-1e150, 1e150, True)
        for i, what in ((0, "reference"), (1, "degraded")):
            v = getfield(r.arg(i), "data_")
            if v.op == "rec":
                v = getfield(v, "matrix_")
            dom = Range(some, cells({"ref": any_cell, "deg": any_cell}))
            decide(c, "prepared spectrograms are finite", w + ": " + what, v,
                   dom, pictures)
        # what silence and NaN become
        bad = None
        tried = 0
        for a, b in ((SILENT, [1.0]), ([1.0, 0.0], [2.0, 3.0]),
                     ([3.0, 1.0, 0.0], [1.0, 0.5])):
            for k, p in ((2, 3), (3, 3)):
                r0, d0 = const(k, p, *a), const(k, p, *b)
                r1 = [[NAN if x == 0 else x for x in col] for col in r0]
                out = []
                for q in (r0, r1):
                    env = Ieee({"ref": q, "deg": d0, "p:bands": k,
                                "p:frames": p, "p:dframes": p})
                    try:
                        v = getfield(getfield(r.arg(0), "data_"), "matrix_")
                        out.append(list(numbers(env.ev(v, {}))))
                    except (Invalid, OverflowError):
                        break
                if len(out) == 2:
                    tried += 1
                    if any(not abs(x - y) < 1e-9 for x, y in zip(*out)):
                        bad = table(r1, d0)
        rule = "NaN cells become what silent cells become"
        if bad:
            c.violated(rule, w, "not where " + bad)
        elif tried:
            c.held(rule, w, "%d cases of the interpreted terms" % tried)

    w1 = "Spectrogram::ConvertToDb"

    @c.rule("finite cells have finite levels", w1)
    def _():
        s = c.session(SPEC)
        M, sp = spectro("ref", n, m)
        s.set_this(sp)
        s.call(c.fn(SPEC + "::ConvertToDb"), args=[])
        v = getfield(s.obj(), "data_")

        def scenes():
            for a in (SILENT, [1.0, 0.0], [-0.0, 4.0], [1e-100, 1e100],
                      [-2.0, 1e-80]):
                r = const(2, 2, *a)
                yield table(r, []), Ieee({"ref": r, "p:bands": 2,
                                          "p:frames": 2})
        decide(c, "finite cells have finite levels", w1, v, Range(
            some, cells({"ref": (-1e300, 1e300, False)})), scenes)

    # ------------------------------------------------------------ similarity
    w2 = "NeurogramSimiliarityIndexMeasure::MeasurePatchSimilarity"

    class Patches(Ieee):
        def o_call(self, x, b):
            if str(x.a[0]).split("::")[-1] != CONV:
                raise Invalid
            ms = [self.ev(y, b) for y in x.a[1:]]
            ms = [y.f.get("matrix_", y) if hasattr(y, "f") and
                  isinstance(y.f, dict) else y for y in ms]
            ms = [y for y in ms if isinstance(y, Mat)]
            if len(ms) < 2:
                raise Invalid
            k, a = ms[-2], ms[-1]

            def cell(i, j):
                s = 0.0
                idx = k.r * k.c
                for q in range(k.c):
                    for p in range(k.r):
                        idx -= 1
                        s += a.at(min(max(i + p - 1, 0), a.r - 1),
                                  min(max(j + q - 1, 0), a.c - 1)) * \
                            k.at(idx % k.r, idx // k.r)
                return s
            out = [[cell(i, j) for i in range(a.r)] for j in range(a.c)]
            from sample import Rec
            mat = Mat(a.r, a.c, lambda i, j: out[j][i])
            return Rec("AMatrix", {"matrix_": mat})

    def silence():
        vs = [0.0, 45.0, 0.1, 37.3, 12.7, 60.01, 3.3, 45.3]
        pairs = [([x], [x]) for x in vs] + \
            [([x], [y]) for x in vs for y in vs if x != y] + \
            [([0.0, 1.0, 20.0], [20.0, 0.0]), ([45.0, 46.0], [45.0])]
        for a, b in pairs:
            r, d = const(2, 2, *a), const(2, 2, *b)
            yield table(r, d), Patches({"ref": r, "deg": d, "p:bands": 2,
                                        "p:frames": 2})

    @c.rule("the similarity of finite patches is finite", w2)
    def _():
        f = c.fn(NSIM + "::MeasurePatchSimilarity")
        s = c.session(NSIM, opaque=opq(CONV))
        s.set_this(s.I.make(NSIM, []))
        R, _ = spectro("ref", n, m)
        D, _ = spectro("deg", n, m)
        r = s.call(f, args=[R, D])
        cell = cells({"ref": (-1e6, 1e6, False), "deg": (-1e6, 1e6, False)})

        def rule(self, v, lits):
            if v.op in ("rows", "cols"):
                return 2.0, 2.0 ** 31, False
            if v.op == "call" and str(v.a[0]).split("::")[-1] == CONV:
                return -1e13, 1e13, False
            return cell(self, v, lits)
        dom = Range({n: (1.0, 2.0 ** 31, False), m: (2.0, 2.0 ** 31, False)},
                    rule)
        if r.ret.op != "rec":
            raise Skip("result is %s" % t.show(r.ret, 4))
        for x in ("similarity", "freq_band_means", "freq_band_stddevs",
                  "freq_band_deg_energy"):
            v = getfield(r.ret, x)
            decide(c, "the similarity of finite patches is finite",
                   w2 + ": " + x, v, dom, silence)

    w3 = "Convolution2D::" + CONV

    @c.rule("smoothing keeps finite patches finite", w3, 60)
    def _():
        fs = [f for f in c.find("Visqol::Convolution2D::" + CONV)] or \
            [f for f in P_find(c, CONV)]
        if not fs:
            raise Skip("no smoothing")
        a = matrix(C(3), C(3), lambda i, j: get(get(sym("k"), j, "o"), i,
                                                "f"))
        M, _ = spectro("ref", n, m)
        r = c.run(fs[0], args=[a, M])
        dom = Range(some, cells({"k": (-10.0, 10.0, False),
                                 "ref": (-1e12, 1e12, False)}))

        def scenes():
            for vs in ([0.0], [1.0], [0.0, 3.0, 7.0]):
                x = const(2, 3, *vs)
                yield table(x, []), Ieee({
                    "ref": x, "p:bands": 2, "p:frames": 3,
                    "k": const(3, 3, .1, .2)})
        decide(c, "smoothing keeps finite patches finite", w3, r.ret, dom,
               scenes)

    w4 = "Visqol::CalcPerPatchMeanFreqBandStdDevs"

    @c.rule("pooled deviations are numbers", w4)
    def _():
        f = c.fn("Visqol::Visqol::CalcPerPatchMeanFreqBandStdDevs")
        k = num("patches", "i", True)
        P = smap_patches(k, n)
        r = c.run(f, args=[P, num("duration", "f")])
        v = r.ret
        inputs = cells({"means": (-1e3, 1e3, False),
                        "devs": (0.0, 1e3, False),
                        "from": (0.0, 1e6, False), "to": (0.0, 1e6, False)})

        def rule(self, x, lits):
            # the number of frames pooled is another matter
            if x.op in ("trunc", "ceil", "tceil", "fdiv") or \
                    x.op == "sum" and x.ty == "i":
                return 2.0, 2.0 ** 31, False
            if x.op == "sym" and x.ty == "f":
                return 1e-3, 1.0, False
            return inputs(self, x, lits)

        def scenes():
            for a, d in ((.1, 0.0), (.7, 0.0), (.3, 0.0), (1.0, 0.0),
                         (0.0, 0.0), (.9, 1e-9), (.77, 0.0), (.123, 0.0)):
                for z in (2, 3, 5, 7):
                    yield "%d patches of mean %s, deviation %s" % (z, a, d), \
                        Ieee({"means": [[a]] * z, "devs": [[d]] * z,
                              "from": [0.0] * z, "to": [0.37] * z,
                              "p:patches": z, "p:bands": 1,
                              "p:duration": .02})
        decide(c, "pooled deviations are numbers", w4, v,
               Range({n: (1.0, 1e3, False), k: (1.0, 1e6, False)}, rule),
               scenes)


def P_find(c, name):
    return [f for q, fs in c.P.byq.items() if q.split("::")[-1] == name
            for f in fs if f.get("body")]


def smap_patches(k, n):
    j = t.fresh("patch", "i")

    def vec(x):
        return matrix(n, one(), lambda a, b: get(get(sym(x), j, "o"), a, "f"))
    return t.smap(k, j, rec("Visqol::PatchSimilarityResult", {
        "freq_band_means": vec("means"), "freq_band_stddevs": vec("devs"),
        "freq_band_deg_energy": vec("energies"),
        "similarity": get(sym("sims"), j, "f"),
        "ref_patch_start_time": get(sym("from"), j, "f"),
        "ref_patch_end_time": get(sym("to"), j, "f"),
        "deg_patch_start_time": get(sym("from"), j, "f"),
        "deg_patch_end_time": get(sym("to"), j, "f")}))
