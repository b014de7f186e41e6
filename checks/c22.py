from common import *
from c12 import audio

TECHNIQUE = "abstract interpretation: the aligned signals as closed forms in " \
    "the samples and the best lag; linear arithmetic with case distinction"
EXPLANATION = "GloballyAlign and AlignAndTruncate are interpreted on mono " \
    "signals of symbolic length with the correlation's best lag as an " \
    "arbitrary integer. Rules: the samples, length and rate returned follow " \
    "from the lag returned; the lag is at most half the reference; truncated " \
    "signals have one length and one origin; every row range exists."

LAG = "Visqol::XCorr::FindLowestLagIndex"


def check(c):
    @c.rule("global alignment", "Alignment::GloballyAlign")
    def _():
        align(c)

    @c.rule("truncating alignment", "Alignment::AlignAndTruncate")
    def _():
        truncate(c)


class Aligned:
    def __init__(self, c, name):
        f = c.fn("Visqol::Alignment::" + name)
        self.n1, a = audio("R")
        self.n2, b = audio("D")
        self.rate = num("rate", "i", True)
        a = setfield(a, "sample_rate", self.rate)
        b = setfield(b, "sample_rate", self.rate)
        self.r = c.run(f, args=[a, b], names=["ref", "deg"],
                       opaque=opq("FindLowestLagIndex", "CalcUpperEnv"),
                       obligations=True)
        ev = self.r.ev("call", LAG)
        if len(ev) != 1:
            raise Skip("%d calls of FindLowestLagIndex" % len(ev))
        self.best = sym("p:best lag", "i")
        e = ev[0]
        call = {mk("call", e.name, *e.args, ty=ty): self.best
                for ty in "iof"}
        self.sub = lambda v: t.subst(v, call)
        # neither signal is empty: see C10
        self.facts = [lt(zero(), self.n1), lt(zero(), self.n2),
                      lt(zero(), self.rate)]

    def part(self, i):
        v = self.sub(self.r.ret)
        return getfield(v, str(i)) if i < 3 else None

    def shifted(self, k, j):
        """sample j of the degraded signal moved by k"""
        return ite(lt(j, k), zero(), get(sym("D"), sub(j, k), "f"))


def shape(s):
    m = getfield(getfield(s, "data_matrix"), "matrix_")
    return t.rows(m), t.cols(m), m


def align(c):
    w = "Alignment::GloballyAlign"
    x = Aligned(c, "GloballyAlign")
    out, lag = x.part(0), x.part(1)
    k = mul(lag, x.rate)
    rows, cols, m = shape(out)
    c.eq("the length changes by the reported lag", w, rows, add(x.n2, k),
         x.facts, what="length")
    c.eq("the degraded signal stays mono", w, cols, one(), x.facts,
         what="channels")
    i = num("sample", "i", True)
    c.eq("samples move by the reported lag, silence before them", w,
         t.at(m, i, zero()), x.shifted(k, i), x.facts + [lt(i, rows)],
         what="sample")
    c.implies("the lag is at most half the reference", w, x.facts,
              and_(le(mul(C(2), k), x.n1), le(mul(C(-2), k), x.n1)),
              note="reported lag")
    c.eq("the rate of the degraded signal is kept", w,
         getfield(out, "sample_rate", "i"), x.rate, x.facts, what="rate")
    c.eq("an admissible best lag is the one applied", w, k, x.best,
         x.facts + [lt(mul(C(2), x.best), x.n1),
                    lt(mul(C(-2), x.best), x.n1),
                    lt(sub(zero(), x.best), x.n2)], what="lag")
    # the lag is that of the envelopes, reference first
    e = x.r.ev("call", LAG)[0]
    both = [sym("R"), sym("D")]
    for a, own, oth, nm in ((e.args[0], 0, 1, "first"),
                            (e.args[1], 1, 0, "second")):
        c.ok(t.mentions(a, both[own]) and not t.mentions(a, both[oth]),
             "the lag is that of the degraded signal to the reference", w,
             "%s argument of FindLowestLagIndex: %s" % (nm, t.show(a, 4)),
             e.loc)
    safe(c, w, x.r, x.facts, sub=x.sub)


def truncate(c):
    w = "Alignment::AlignAndTruncate"
    x = Aligned(c, "AlignAndTruncate")
    ref, deg, lag = x.part(0), x.part(1), x.part(2)
    k = mul(lag, x.rate)
    r1, c1, m1 = shape(ref)
    r2, c2, m2 = shape(deg)
    c.eq("both results have the same length", w, r1, r2, x.facts,
         what="length")
    total = add(x.n2, k)
    cut = ite(lt(x.n1, total), t.mnx("max", k, zero()), zero())
    i = num("sample", "i", True)
    here = x.facts + [lt(i, r1)]
    c.eq("the reference is cut at its origin or after the silence", w,
         t.at(m1, i, zero()), get(sym("R"), add(i, cut), "f"), here,
         what="sample")
    c.eq("the degraded signal is cut where the reference is", w,
         t.at(m2, i, zero()), x.shifted(k, add(i, cut)),
         here + [lt(i, r2)], what="sample")
    c.eq("nothing more is cut", w, r1, sub(t.mnx("min", x.n1, total), cut),
         x.facts, what="length")
    for s, nm in ((ref, "reference"), (deg, "degraded")):
        c.eq("the rate is kept", w, getfield(s, "sample_rate", "i"), x.rate,
             x.facts, what="%s rate" % nm)
    c.implies("the lag is at most half the reference", w, x.facts,
              and_(le(mul(C(2), k), x.n1), le(mul(C(-2), k), x.n1)),
              note="reported lag")
    safe(c, w, x.r, x.facts, sub=x.sub)
