from common import *

TECHNIQUE = "abstract interpretation of CalculateSimilarity to value graphs, " \
    "comparison with the specified score"
EXPLANATION = "The result of Visqol::CalculateSimilarity is computed as a " \
    "value graph (patch matching, spectrograms and the mapper's prediction " \
    "uninterpreted; symbolic number of patches and bands). Rules: vnsim is " \
    "the mean of the reported fvnsim; the score is 1 below 0.15 and else the " \
    "very value PredictQuality returned; each of the four arguments of " \
    "PredictQuality is the feature of its position; the manager asks the " \
    "mapper it configured."


def check(c):
    for noreal in (False, True):
        n = "CalculateSimilarity (%s)" % ("coarse patches" if noreal else
                                          "realigned patches")

        @c.rule("score", n)
        def _():
            S = Similarity(c, noreal)
            e = S.predict
            b = num("b", "i", True)
            inb = S.facts + [lt(b, S.nb)]
            v = getfield(S.res, "fvnsim")
            i = t.fresh("i", "i")
            mean = div(t.ssum(length(v), i, get(v, i, "f")), length(v))
            got = getfield(S.res, "vnsim", "f")
            either(c, "vnsim is the mean of the reported fvnsim", n, got,
                   [mean], S.facts, loc=S.loc, what="vnsim")
            score = getfield(S.res, "moslqo", "f")
            x = num("vnsim", "f")
            score = t.subst(score, {got: x})
            got = x
            c.eq("a totally dissimilar signal scores 1", n, score, one(),
                 S.facts + [lt(got, C(0.15))], loc=e.loc, what="the score")
            c.eq("every other score is the mapper's own", n, score,
                 as_float(S.score), S.facts + [le(C(0.15), got)],
                 loc=e.loc, what="the score")
            c.eq("the configured mapper predicts the score", n,
                 e.kw.get("obj"), mk("deref", sym("p:mapper")), loc=e.loc,
                 what="the mapper")
            for k, f in enumerate(FEATURES):
                got = get(S.args[k], b, "f")
                either(c, "each feature is handed over in its own role",
                       n + " " + f, got,
                       [getattr(S, f)(b),
                        get(getfield(S.res, f), b, "f")], inb, loc=e.loc,
                       what="argument " + f)
                either(c, "each feature is handed over completely",
                       n + " " + f, length(S.args[k]),
                       [S.nb, length(getfield(S.res, f))], S.facts,
                       loc=e.loc, what="number of values")


def as_float(v):
    return mk("call", *v.a, ty="f") if v.op == "call" and v.ty != "f" else v
