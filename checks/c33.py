import math

from common import *
from terms import fn

TECHNIQUE = "abstract interpretation to value graphs: the similarity of two " \
    "patches of fixed size and symbolic content compared with the formula of " \
    "the index under random interpretation"
EXPLANATION = "MeasurePatchSimilarity is interpreted for patches of several " \
    "small shapes with symbolic cells, everything it calls included. The " \
    "extracted mean, deviation and energy of every band and the total are " \
    "compared with the neurogram similarity index written out: local means, " \
    "variances and covariance under the 3x3 Gaussian window with replicated " \
    "edges, intensity times structure, averaged per band and over the bands. " \
    "A patch compared with itself must come out as exactly similar."

NSIM = "Visqol::NeurogramSimiliarityIndexMeasure"
SHAPES = ((2, 2), (2, 3), (3, 2), (3, 4), (4, 3), (1, 5))
# Gaussian of deviation 0.5, 3x3, normalised
CORNER, EDGE, MID = 0.0113033910173052, 0.0838251475442633, 0.619485845753726
C1, C3 = 0.01 ** 2, 0.03 ** 2 / 2
LOW, HIGH = 0.0, 45.0


def check(c):
    # products of local means stay products: evaluated as they were computed
    whole, t.Mode.expand = t.Mode.expand, 3
    try:
        for n, m in SHAPES:
            one_shape(c, n, m)
    finally:
        t.Mode.expand = whole


def cell(p, i, j):
    return num("%s_%d_%d" % (p, i, j), "f")


def patch(p, n, m):
    q = t.seq(*[t.seq(*[cell(p, i, j) for j in range(m)]) for i in range(n)])
    return matrix(C(n), C(m), lambda i, j: get(get(q, i, "o"), j, "f"))


def total(xs):
    r = zero()
    for x in xs:
        r = add(r, x)
    return r


def local(f, n, m, i, j):
    """weighted mean around cell (i, j), edges replicated"""
    w = {0: MID, 1: EDGE, 2: CORNER}
    return total(mul(C(w[abs(a) + abs(b)]),
                     f(min(max(i + a, 0), n - 1), min(max(j + b, 0), m - 1)))
                 for a in (-1, 0, 1) for b in (-1, 0, 1))


def index(p, q, n, m, i, j):
    """similarity of cell (i, j)"""
    def r(a, b):
        return cell(p, a, b)

    def d(a, b):
        return cell(q, a, b)
    mr, md = local(r, n, m, i, j), local(d, n, m, i, j)
    vr = sub(local(lambda a, b: mul(r(a, b), r(a, b)), n, m, i, j),
             mul(mr, mr))
    vd = sub(local(lambda a, b: mul(d(a, b), d(a, b)), n, m, i, j),
             mul(md, md))
    cov = sub(local(lambda a, b: mul(r(a, b), d(a, b)), n, m, i, j),
              mul(mr, md))
    v = mk("fmul", vr, vd, ty="f")
    intensity = div(add(mul(C(2), mul(mr, md)), C(C1)),
                    add(add(mul(mr, mr), mul(md, md)), C(C1)))
    structure = div(add(cov, C(C3)),
                    ite(lt(v, zero()), C(C3), add(fn("sqrt", v), C(C3))))
    return mk("fmul", intensity, structure, ty="f")


def measure(c, n, m, p, q):
    s = c.session(NSIM, setup=lambda I: setattr(I, "unroll", 200))
    s.set_this(s.I.make(NSIM, []))
    r = s.call(NSIM + "::MeasurePatchSimilarity",
               args=[patch(p, n, m), patch(q, n, m)]).ret
    return r, {k: getfield(getfield(r, k), "matrix_") for k in (
        "freq_band_means", "freq_band_stddevs", "freq_band_deg_energy")}


def one_shape(c, n, m):
    w = "MeasurePatchSimilarity (%d bands, %d frames)" % (n, m)
    hints = {"p:%s_%d_%d" % (p, i, j): lambda h: LOW + (HIGH - LOW) * (
        h % 100003) / 100003.0 for p in "rd" for i in range(n)
        for j in range(m)}

    @c.rule("similarity of two patches", w, 200)
    def _():
        r, got = measure(c, n, m, "r", "d")
        for k, v in got.items():
            c.eq("one value per band", w + " " + k, t.rows(v), C(n),
                 what="the number of bands")
            c.eq("one value per band", w + " " + k, t.cols(v), one(),
                 what="the number of columns")
        means = []
        for i in range(n):
            x = [index("r", "d", n, m, i, j) for j in range(m)]
            mean = div(total(x), C(m))
            means.append(mean)
            at = w + " band %d" % i
            c.eq("the mean of a band is its mean similarity", at,
                 t.at(got["freq_band_means"], C(i), zero()), mean,
                 hints=hints, what="mean similarity")
            c.eq("the deviation of a band is that of its similarities", at,
                 t.at(got["freq_band_stddevs"], C(i), zero()),
                 fn("sqrt", div(total(mul(sub(y, mean), sub(y, mean))
                                      for y in x), C(m - 1))),
                 hints=hints, what="deviation")
            c.eq("the energy of a band is the degraded mean", at,
                 t.at(got["freq_band_deg_energy"], C(i), zero()),
                 div(total(cell("d", i, j) for j in range(m)), C(m)),
                 hints=hints, what="degraded energy")
        c.eq("the similarity is the mean over the bands", w,
             getfield(r, "similarity", "f"), div(total(means), C(n)),
             hints=hints, what="similarity")

    @c.rule("a patch is exactly similar to itself", w, 200)
    def _():
        r, got = measure(c, n, m, "r", "r")
        c.eq("a patch is exactly similar to itself", w,
             getfield(r, "similarity", "f"), one(), hints=hints,
             what="similarity")
        for i in range(n):
            c.eq("a patch is exactly similar to itself", w + " band %d" % i,
                 t.at(got["freq_band_means"], C(i), zero()), one(),
                 hints=hints, what="mean similarity")
