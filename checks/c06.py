from common import *

TECHNIQUE = "abstract interpretation of CalculateSimilarity and of both " \
    "VisqolManager::Run to value graphs, comparison field by field"
EXPLANATION = "Both Run overloads and an API session are interpreted with the " \
    "comparison itself uninterpreted: every field of the returned message " \
    "must be the like-named field of that comparison's result, lists " \
    "element by element (symbolic lengths), the lag that of the alignment, " \
    "the paths those given. CalculateSimilarity is interpreted with the " \
    "matching uninterpreted: each result field must be the like-named " \
    "feature, the patches those of the matching, the bands those of the " \
    "spectrograms."

LISTS = FEATURES + ("center_freq_bands",)
PATCH = ("similarity", "ref_patch_start_time", "ref_patch_end_time",
         "deg_patch_start_time", "deg_patch_end_time")


def check(c):
    for noalign, bp, mode in itertools.product((False, True), (False, True),
                                               MODES):
        n = "VisqolManager::Run(%s), %s%s" % (
            "paths" if bp else "signals", mode,
            ", alignment disabled" if noalign else "")

        @c.rule("message", n)
        def _():
            s, i = init_manager(c, *MODES[mode], noalign)
            r = s.call(run_overload(c, bp), names=["ref", "deg"])
            message(c, n, r, noalign, bp)
    n = "VisqolApi::Measure"

    @c.rule("message", n)
    def _():
        s = c.session(API, opaque=opq(*STAGES))
        s.call(API + "::Create", names=["config"])
        r = s.call(API + "::Measure", names=["ref", "deg"])
        message(c, n, r, False, False)
    for noreal in (False, True):
        n = "CalculateSimilarity (%s)" % ("coarse patches" if noreal else
                                          "realigned patches")

        @c.rule("result", n)
        def _():
            result(c, n, Similarity(c, noreal))


def message(c, n, r, noalign, bp):
    ks = r.ev("call", STAGES[0])
    if len(ks) != 1:
        raise Skip("%d comparisons" % len(ks))
    e = ks[0]
    ok = result_ok(r.ret)
    ok = and_(ok, e.cond)
    m = t.assume1(sorv(t.assume1(r.ret, ok, True)), ok, True)
    ms = list(versions(m, ok))
    if any(x.op != "rec" for x, _ok in ms):
        raise Skip("message is %s" % t.show(m, 4))
    for m, ok in ms:
        fields(c, n, r, noalign, bp, e, m, ok, len(ms) > 1)


def versions(m, ok):
    """the messages that may result, each with its condition"""
    if m.op != "ite":
        yield m, ok
        return
    for v, k in ((m.a[1], m.a[0]), (m.a[2], not_(m.a[0]))):
        k = and_(ok, k)
        if k is not FALSE:
            yield from versions(t.assume1(v, k, True), k)


def fields(c, n, r, noalign, bp, e, m, ok, several):
    have = {x for x, _v in m.a[1]}
    # the result of this comparison
    obj = e.kw.get("obj")
    res = sorv(mk("call", e.name, *(((obj,) if obj is not None else ())
                                    + e.args)))
    res = t.assume1(res, ok, True)
    loc = e.loc
    for f in ("moslqo", "vnsim"):
        if need(c, n, f, have):
            c.eq("scores are those of the comparison", n + " " + f,
                 getfield(m, f, "f"), getfield(res, f, "f"), [ok], loc=loc,
                 what=f)
    i, b = num("i", "i", True), num("b", "i", True)
    for f in LISTS:
        if need(c, n, f, have):
            listeq(c, "each list is the like-named list", n + " " + f,
                   getfield(m, f), getfield(res, f), [ok], i, loc)
    if need(c, n, "patch_sims", have):
        got = getfield(m, "patch_sims")
        src = getfield(getfield(res, "debug_info"), "patch_sims")
        c.eq("all patches are reported", n, length(got), length(src), [ok],
             loc=loc, what="the number of patches")
        inn = [ok, lt(i, length(src))]
        p, q = [t.assume1(get(x, i), and_(*inn), True) for x in (got, src)]
        have2 = {x for x, _v in p.a[1]} if p.op == "rec" else None
        for f in PATCH:
            if have2 is None or need(c, n, f, have2):
                c.eq("each patch field is the like-named one", n + " " + f,
                     getfield(p, f, "f"), getfield(q, f, "f"), inn, loc=loc,
                     what="%s of patch i" % f)
        f = "freq_band_means"
        if have2 is None or need(c, n, f, have2):
            g = getfield(p, f)
            w = getfield(getfield(q, f), "matrix_")
            one_col = [eq(t.cols(w), one())]
            c.eq("band means of each patch", n, length(g), t.rows(w),
                 inn + one_col, loc=loc, what="the number of bands")
            c.eq("band means of each patch", n, get(g, b, "f"),
                 t.at(w, b, zero()), inn + one_col + [lt(b, t.rows(w))],
                 loc=loc, what="band b of patch i")
    lag = getfield(m, "alignment_lag_s", "f") if "alignment_lag_s" in have \
        else zero()
    ga = r.ev("call", STAGES[1])
    if noalign:
        c.eq("no lag is reported when alignment is disabled", n, lag, zero(),
             [ok], loc=loc, what="the lag")
    elif len(ga) == 1:
        want = getfield(mk("call", ga[0].name, *ga[0].args), "1", "f")
        c.eq("the lag is that of the alignment", n, lag, want, [ok],
             loc=ga[0].loc, what="the lag")
    else:
        c.violated("the lag is that of the alignment", n,
                   "%d alignments" % len(ga))
    if bp:
        for f, a in (("reference_filepath", "ref"),
                     ("degraded_filepath", "deg")):
            if several and f not in have:
                # as good as set to an empty path
                c.implies("paths are those given", n + " " + f, [ok],
                          eq(length(getfield(sym("p:" + a), "path_")),
                             zero()), loc=loc, note=f + " is not set")
            elif need(c, n, f, have):
                c.eq("paths are those given", n + " " + f, getfield(m, f),
                     getfield(sym("p:" + a), "path_"), [ok], loc=loc, what=f)


def need(c, n, f, have):
    return c.ok(f in have, "every field is set", n + " " + f,
                "the field is never set")


def listeq(c, rule, where, got, want, facts, i, loc):
    if got is want:
        c.held(rule, where, loc=loc)
        return
    c.eq(rule, where, length(got), length(want), facts, loc=loc,
         what="the length")
    c.eq(rule, where, get(got, i, "f"), get(want, i, "f"),
         facts + [lt(i, length(want))], loc=loc, what="element i")


def result(c, n, S):
    b = num("b", "i", True)
    inb = S.facts + [lt(b, S.nb)]
    for k, f in enumerate(FEATURES):
        got = getfield(S.res, f)
        either(c, "each feature is reported under its name", n + " " + f,
               get(got, b, "f"), [get(S.args[k], b, "f"), getattr(S, f)(b)],
               inb, loc=S.predict.loc, what=f + " of band b")
        either(c, "every band is reported", n + " " + f, length(got),
               [S.nb, length(S.args[k])], S.facts, loc=S.predict.loc,
               what="number of values")
    got = getfield(getfield(S.res, "debug_info"), "patch_sims")
    c.eq("the patches reported are those compared", n, got, S.sims, S.facts,
         loc=S.loc, what="patch_sims")
    got = getfield(S.res, "center_freq_bands")
    wants = []
    for e in S.r.ev("call", "PrepareSpectrogramsForComparison"):
        x = mk("call", e.name, *e.args)
        for k, a in enumerate(e.args):
            wants.append(getfield(mk("out", k, x), "center_freq_bands_"))
            wants.append(getfield(a, "center_freq_bands_"))
    for e in S.r.ev("call", "Build"):
        wants.append(getfield(sorv(mk("call", e.name, *(
            ((e.kw["obj"],) if e.kw.get("obj") is not None else ())
            + e.args))), "center_freq_bands_"))
    wants = [t.assume1(w, S.ok, True) for w in wants]
    either(c, "the frequency bands are those compared", n, got, wants,
           loc=S.loc, what="center_freq_bands")
