from common import *

TECHNIQUE = "abstract interpretation of CalculateSimilarity to closed forms " \
    "of the feature vectors, compared with the documented statistics"
EXPLANATION = "Visqol::CalculateSimilarity is interpreted symbolically with " \
    "the patch matching, alignment, spectrograms and prediction left " \
    "uninterpreted (with and without fine realignment), for n patch results " \
    "over nb bands, n and nb symbolic. The closed form of every element of " \
    "the four feature vectors, in the result and at the mapper, is compared " \
    "with the documented statistic over all patches."


def check(c):
    for noreal in (False, True):
        n = "CalculateSimilarity (%s)" % ("coarse patches" if noreal else
                                          "realigned patches")

        @c.rule("features", n)
        def _():
            S = Similarity(c, noreal)
            b = num("b", "i", True)
            inb = S.facts + [lt(b, S.nb)]
            for i, f in enumerate(FEATURES):
                v = getfield(S.res, f)
                m = S.args[i]
                want = getattr(S, f)(b)
                c.eq(f + " has one value per band", n, length(v), S.nb,
                     S.facts, loc=S.loc, what="the number of values")
                # the feature is right where it is computed: in the result or
                # at the mapper (C02 and C06 tie those to one another)
                either2(c, f + " aggregates all patches", n,
                        get(v, b, "f"), get(m, b, "f"), want, inb, S.loc)
            d = get(getfield(S.res, "fstdnsim"), b, "f")
            c.implies("fstdnsim is never negative", n, inb,
                      le(zero(), d), loc=S.loc, note="fstdnsim of band b")


def either2(c, rule, where, a, b, want, facts, loc):
    """one of a, b is the value wanted (when a is not, b decides)"""
    n = len(c.obl)
    c.eq(rule, where, a, want, facts, loc=loc, what="value of band b")
    new = c.obl[n:]
    if all(o["status"] == "held" for o in new):
        return
    del c.obl[n:]
    k = len(c.obl)
    c.eq(rule, where, b, want, facts, loc=loc, what="value of band b")
    if not all(o["status"] == "held" for o in c.obl[k:]):
        del c.obl[k:]
        c.obl += new
