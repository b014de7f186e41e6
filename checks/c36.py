"""C36: the lag found is that of the greatest cross-correlation."""
import cmath
import os

import lib
import sample
from common import *

TECHNIQUE = "abstract interpretation to value graphs of the whole " \
    "cross-correlation with the transforms modelled by their definition; the " \
    "extracted lag compared with that of the greatest correlation under " \
    "random interpretation of the samples"
EXPLANATION = "FindLowestLagIndex is interpreted down to the PFFFT calls, for " \
    "pairs of signals of several small lengths and symbolic samples. The " \
    "PFFFT calls are terms of the content of their input buffer (real " \
    "transform in canonical or internal order, unscaled inverse, " \
    "reordering). The extracted lag is evaluated for random samples, for " \
    "delayed and for inverted signals and compared with the lag, between " \
    "minus and plus the longer length, of the greatest sum of products of " \
    "the first signal moved back by the lag with the second."

XC = "Visqol::XCorr::FindLowestLagIndex"
BEST = "the lag is that of the greatest cross-correlation"
LENGTHS = ((12, 12), (10, 13), (14, 9), (17, 16), (30, 20), (5, 5), (8, 3),
           (2, 4), (1, 1), (3, 11))


def xform(I, n, obj, args):
    """a PFFFT call: the output buffer is a term of the input buffer"""
    q = n["fn"]["q"].split("::")[-1]
    vs = [I.rv(a) for a in args]
    setup, src, dst, way = vs[0], vs[1], vs[2], vs[-1]
    I.emit("call", q, tuple(vs), n)
    x, y = [I.idx_of(p) if p.op == "ptr" else None for p in (src, dst)]
    if setup.op != "call" or setup.a[0] != "pffft_new_setup" or \
            setup.a[1].op != "c" or way.op != "c" or not x or not y or \
            x[2] is not zero() or y[2] is not zero():
        I.unknown("call " + q, n)
        if y:
            I.write(y[0], interp.unk("by " + q, "o", vs))
        return lib.VOID
    N = setup.a[1]
    k = t.fresh("k", "i")
    v = mk("xf", q, way, N, smap(N, k, get(I.read(x[0]), k, "f")))
    k = t.fresh("k", "i")
    I.write(y[0], smap(N, k, get(v, k, "f")))
    return lib.VOID


def scaled(I, n, obj, args):
    """vector instructions on a buffer: each element times the factor"""
    m, g, src, dst = [I.rv(a) for a in args]
    x, y = [I.idx_of(p) if p.op == "ptr" else None for p in (src, dst)]
    if not x or not y or x[2] is not zero() or y[2] is not zero():
        return I.unknown("scaling", n)
    k = t.fresh("k", "i")
    I.write(y[0], smap(m, k, mul(g, get(I.read(x[0]), k, "f"))))
    return lib.VOID


MODELS = {"pffft_transform": xform, "pffft_transform_ordered": xform,
          "pffft_zreorder": xform,
          "Visqol::FftManager::SimdScalarMultiply": scaled}


def forward(x):
    n = len(x)
    f = [sum(x[j] * cmath.exp(-2j * cmath.pi * j * k / n) for j in range(n))
         for k in range(n // 2 + 1)]
    out = [f[0].real, f[-1].real]
    for v in f[1:-1]:
        out += [v.real, v.imag]
    return out


def backward(x):
    n = len(x)
    f = [complex(x[0])] + [complex(x[2 * k], x[2 * k + 1])
                           for k in range(1, n // 2)] + [complex(x[1])]
    f += [f[k].conjugate() for k in range(n // 2 - 1, 0, -1)]
    return [sum(f[k] * cmath.exp(2j * cmath.pi * j * k / n)
                for k in range(n)).real for j in range(n)]


def inner(x):
    """canonical to internal order: any other order will do"""
    return [x[(5 * i + 3) % len(x)] for i in range(len(x))]


def outer(x):
    out = [0.0] * len(x)
    for i in range(len(x)):
        out[(5 * i + 3) % len(x)] = x[i]
    return out


class Signals(sample.Env):
    def __init__(self, seed, a, b):
        super().__init__((36, seed))
        self.given = {"A": a, "B": b}
        self.limit = 10 ** 7
        self.done = {}

    def o_get(self, x, b):
        if x.a[0].op == "sym" and x.a[0].a[0] in self.given:
            s, i = self.given[x.a[0].a[0]], self.evi(x.a[1], b)
            if not 0 <= i < len(s):
                raise sample.Invalid
            return s[i]
        return super().o_get(x, b)

    def o_xf(self, x, b):
        if x not in self.done:
            q, way, N, v = x.a
            s = [float(y) for y in self.ev(v, b)]
            if len(s) != N.a[0]:
                raise sample.Invalid
            self.done[x] = self.transform(q, way.a[0] != 0, s)
        return self.done[x]

    def transform(self, q, back, s):
        if q == "pffft_zreorder":
            return inner(s) if back else outer(s)
        if q == "pffft_transform_ordered":
            return backward(s) if back else forward(s)
        return backward(outer(s)) if back else inner(forward(s))

    def o_memset(self, x, b):
        if x.a[1] is not zero():
            raise sample.Invalid
        size = self.evi(x.a[2], b)
        if size % 4:
            raise sample.Invalid
        return Cleared(size // 4)

    def o_argmax(self, x, b):
        v = [float(y) for y in self.ev(x.a[0], b)]
        return v.index(max(v))

    def o_argmin(self, x, b):
        v = [float(y) for y in self.ev(x.a[0], b)]
        return v.index(min(v))

    def o_f32(self, x, b):
        return self.evn(x.a[0], b)


class Cleared(list):
    def __init__(self, n):
        super().__init__([0.0] * n)


def correlations(a, b):
    m = max(len(a), len(b)) - 1
    return {l: sum(a[i + l] * b[i] for i in range(len(b))
                   if 0 <= i + l < len(a)) for l in range(-m, m + 1)}


def signals(n1, n2):
    """random, delayed, advanced and inverted"""
    def rnd(n, seed):
        return [((sample.h("x", seed, i) % 2001) - 1000) / 1000.0 + 0.05
                for i in range(n)]
    for s in range(3):
        yield rnd(n1, s), rnd(n2, s + 10)
    base = rnd(max(n1, n2) * 3, 99)
    for d in (0, 1, 2, -1, -2, n2 // 2, -(n1 // 2)):
        o = max(n1, n2)
        yield base[o:o + n1], base[o + d:o + d + n2]
    yield [abs(y) for y in rnd(n1, 5)], [-abs(y) for y in rnd(n2, 6)]


def extract(c, n1, n2):
    def of(name, n):
        return matrix(C(n), one(), lambda i, j: get(sym(name), i, "f"))
    old = {q: lib.MODELS.get(q) for q in MODELS}
    try:
        lib.MODELS.update(MODELS)
        s = c.session("Visqol::XCorr",
                      setup=lambda I: setattr(I, "unroll", 200))
        return s.call(c.fn(XC), args=[of("A", n1), of("B", n2)]).ret
    finally:
        for q, m in old.items():
            if m is None:
                del lib.MODELS[q]
            else:
                lib.MODELS[q] = m


def check(c):
    for n1, n2 in LENGTHS:
        w = "XCorr::FindLowestLagIndex (%d and %d samples)" % (n1, n2)

        @c.rule(BEST, w, 120)
        def _():
            v = extract(c, n1, n2)
            done = 0
            for q, (a, b) in enumerate(signals(n1, n2)):
                want = correlations(a, b)
                try:
                    got = Signals(q, a, b).evi(v, {})
                except (sample.Invalid, KeyError, IndexError, TypeError,
                        AttributeError, RecursionError, ZeroDivisionError):
                    if os.environ.get("VERIF_DEBUG") == "2":
                        raise
                    continue
                done += 1
                c.samples += 1
                top = max(want.values())
                if got not in want or want[got] < top - 1e-6:
                    best = max(want, key=want.get)
                    c.violated(BEST, w, "lag %s, the greatest correlation is "
                               "at %d, e.g. for %s and %s" % (
                                   got, best, [round(y, 3) for y in a][:6],
                                   [round(y, 3) for y in b][:6]))
                    return
            if done >= 5:
                c.held(BEST, w)
            else:
                c.undecided(BEST, w, "%d pairs evaluated: %s" % (
                    done, t.show(v, 6)))
