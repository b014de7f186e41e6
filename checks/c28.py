from common import *
from c12 import audio

TECHNIQUE = "abstract interpretation: the realigned results as a closed form " \
    "in the coarse ones; the cut audio as a closed form in the samples"
EXPLANATION = "FinelyAlignAndRecreatePatches is interpreted with alignment, " \
    "spectrograms and the similarity measure uninterpreted: the i-th result is " \
    "compared with what the coarse result, the lag and the new similarity " \
    "imply. Slice is interpreted on a symbolic signal and compared sample by " \
    "sample with the audio at the same times."

CPS = "Visqol::ComparisonPatchesSelector::"
PREP = "Visqol::MiscAudio::PrepareSpectrogramsForComparison"
TIMES = ("ref_patch_start_time", "ref_patch_end_time",
         "deg_patch_start_time", "deg_patch_end_time")


def check(c):
    w = "ComparisonPatchesSelector::FinelyAlignAndRecreatePatches"

    @c.rule("realigned results", w)
    def _():
        realigned(c, w)

    w2 = "ComparisonPatchesSelector::Slice"

    @c.rule("cut audio", w2)
    def _():
        cut(c, w2)


def realigned(c, w):
    f = c.fn(CPS + FINE)
    if len(f["params"]) != 5:
        raise Skip("%d parameters" % len(f["params"]))
    r = c.run(f, names="sims ref deg builder window".split(),
              opaque=opq("AlignAndTruncate", "Slice", "Build",
                         "MeasurePatchSimilarity", PREP),
              setup=lambda I: setattr(I, "pure", (
                  "Build", "MeasurePatchSimilarity")), obligations=True)
    ok = result_ok(r.ret)
    v = settled(t.assume1(sorv(t.assume1(r.ret, ok, True)), ok, True), ok)
    sims = sym("p:sims")
    c.eq("one result per matched patch", w, length(v), length(sims), [ok],
         what="number of results")
    i = num("anypatch", "i", True)
    got, old = get(v, i), get(sims, i)
    here = [lt(i, length(sims))]
    fld = lambda x, n: getfield(x, n, "f")
    lost = and_(eq(fld(old, TIMES[2]), fld(old, TIMES[3])),
                eq(fld(old, TIMES[2]), zero()))
    al = r.ev("call", "AlignAndTruncate")
    ms = r.ev("call", "MeasurePatchSimilarity")
    if len(al) != 1 or len(ms) != 1 or not al[0].loops:
        raise Skip("%d alignments, %d similarities" % (len(al), len(ms)))
    k = al[0].loops[-1][0]
    here_ = lambda x: settled(t.subst(x, {k: i}), ok)
    A = here_(mk("call", al[0].name, *al[0].args))
    M = here_(mk("call", ms[0].name, ms[0].kw["obj"], *ms[0].args))
    # no failure for this patch
    good = [okp(here_(mk("call", b.name, b.kw["obj"], *b.args)))
            for b in r.ev("call", "Build")]
    here += good
    top = [and_(ok, lt(i, length(sims)))]
    names = [x["name"] for x in
             c.P.all_fields("Visqol::PatchSimilarityResult")]
    sim = [fld(M, "similarity"), fld(old, "similarity")]
    for n in names:
        o = getfield(old, n, "f")
        g = getfield(got, n, "f")
        c.eq("a lost patch is passed through unchanged", w, g, o,
             here + [lost], what=n)
        c.eq("a realignment of lower similarity is not used", w, g, o,
             here + [not_(lost), lt(sim[0], sim[1])], what=n)
    better = here + [not_(lost), lt(sim[1], sim[0])]
    for n in names:
        if n not in TIMES:
            c.eq("a better realignment replaces the coarse result", w,
                 getfield(got, n, "f"), getfield(M, n, "f"), better, what=n)
    lag = getfield(A, "2", "f")
    zero_ = zero()
    start = {"ref": add(fld(old, TIMES[0]), t.mnx("max", lag, zero_)),
             "deg": add(fld(old, TIMES[2]),
                        t.mnx("max", sub(zero_, lag), zero_))}
    for side, n in (("ref", 0), ("deg", 1)):
        s = getfield(A, str(n))
        m = getfield(getfield(s, "data_matrix"), "matrix_")
        dur = div(t.rows(m), sig_rate(s))
        some = [not_(eq(t.cols(m), zero_)), not_(eq(sig_rate(s), zero_))]
        c.eq("start times follow from the lag", w,
             fld(got, side + "_patch_start_time"), start[side], better + some,
             what=side + " start")
        c.eq("end times follow from the realigned durations", w,
             fld(got, side + "_patch_end_time"), add(start[side], dur),
             better + some, what=side + " end")
    # the audio realigned is the patch's own
    for e in r.ev("call", "Slice"):
        side = [x for x in ("ref", "deg") if t.mentions(e.args[0],
                                                        sym("p:" + x))]
        if len(side) != 1:
            c.undecided("a patch is cut at its own times", w,
                        t.show(e.args[0], 4), e.loc)
            continue
        for n, a in (("start", e.args[1]), ("end", e.args[2])):
            c.eq("a patch is cut at its own times", w, here_(a),
                 fld(old, "%s_patch_%s_time" % (side[0], n)), here,
                 loc=e.loc, what="%s %s" % (side[0], n))
    sl = {x: [mk("call", e.name, *e.args) for e in r.ev("call", "Slice")
              if t.mentions(e.args[0], sym("p:" + x))] for x in ("ref", "deg")}
    if all(len(x) == 1 for x in sl.values()):
        for n, x in enumerate(("ref", "deg")):
            c.eq("reference and degraded patch are aligned with each other",
                 w, al[0].args[n], sl[x][0], [al[0].cond], loc=al[0].loc,
                 what=x)
    safe(c, w, r, kinds=("index",))


def cut(c, w):
    f = c.fn(CPS + "Slice")
    n, sig = audio("S")
    start, end = num("start"), num("end")
    rate = sig_rate(sig)
    r = c.run(f, args=[sig, start, end], names=["sig", "start", "end"])
    m = getfield(getfield(r.ret, "data_matrix"), "matrix_")
    s, e = mul(start, rate), mul(end, rate)
    facts = [lt(zero(), rate), lt(zero(), n), lt(start, end), lt(s, n),
             lt(zero(), e)]
    c.eq("the rate is kept", w, getfield(r.ret, "sample_rate", "i"), rate,
         facts, what="rate")
    first = t.mnx("max", zero(), t.trunc(s))
    pre = ite(lt(start, zero()), t.trunc(sub(zero(), s)), zero())
    post = ite(lt(n, e), t.trunc(sub(e, n)), zero())
    core = sub(t.rows(m), add(pre, post))
    i = num("sample", "i", True)
    got = t.at(m, i, zero())
    here = facts + [lt(i, t.rows(m)), le(zero(), core)]
    sound = get(sym("S"), add(first, sub(i, pre)), "f")
    c.eq("a patch starts with the audio at its start time", w, got, sound,
         here + [le(e, n), le(zero(), s), lt(i, core)], what="sample")
    c.eq("silence stands in for audio missing at the start", w, got,
         ite(lt(i, pre), zero(), sound),
         here + [le(e, n), lt(s, zero()), lt(start, zero())], what="sample")
    k = len(c.obl)
    late = here + [lt(n, e)]
    rule = "silence for audio missing at the end goes after the audio"
    c.eq(rule, w, got, ite(lt(i, pre), zero(), ite(lt(i, add(pre, core)),
                                                   sound, zero())),
         late, what="sample")
    new, rest = c.obl[k:], c.obl[:k]
    if any(o["status"] == "violated" for o in new):
        before = get(sym("S"), add(first, sub(sub(i, pre), post)), "f")
        c.obl = []
        c.eq(rule, w, got, ite(lt(i, add(pre, post)), zero(), before), late)
        if all(o["status"] == "held" for o in c.obl):
            for o in new:
                o["note"] = "all of the silence is put before the audio"
        c.obl = rest + new
    # every sample of a patch inside the signal but the last, inclusive one
    c.implies("no more than the inclusive end is cut off", w,
              facts + [le(zero(), start), le(zero(), s),
                       le(e, sub(n, one()))],
              eq(t.rows(m), sub(t.trunc(e), t.trunc(s))),
              note="number of samples")
