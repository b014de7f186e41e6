from common import *

TECHNIQUE = "abstract interpretation: both prepared spectrograms as closed " \
    "forms in their cells, compared with the documented preparation"
EXPLANATION = "PrepareSpectrogramsForComparison is interpreted on two " \
    "spectrograms of the same bands and unrelated lengths; each prepared cell " \
    "is compared with the documented value. CalculateSimilarity and the " \
    "realignment are checked to prepare each pair they compare once, together."

PREP = "Visqol::MiscAudio::PrepareSpectrogramsForComparison"
FLOOR, RANGE = C(-45.0), C(45.0)


def check(c):
    w = "MiscAudio::PrepareSpectrogramsForComparison"

    @c.rule("preparation", w)
    def _():
        nb = add(one(), num("nb", "i", True))
        (n1, a), (n2, b) = spectro("R", nb), spectro("D", nb)
        r = c.run(PREP, args=[a, b], names=["ref", "deg"])
        want = prepared(nb, ("R", n1), ("D", n2))
        for x, k, n in (("reference", 0, n1), ("degraded", 1, n2)):
            got = getfield(getfield(r.arg(k), "data_"), "matrix_")
            i, j = num("band", "i", True), num("frame", "i", True)
            facts = [lt(i, nb), lt(j, n)]
            both = lt(j, t.mnx("min", n1, n2))
            c.eq("every spectrogram keeps its shape", w,
                 seq(t.rows(got), t.cols(got)), seq(nb, n), what=x)
            g = t.at(got, i, j)
            c.eq("a frame both have is prepared as documented", w, g,
                 want(k, i, j, True), facts + [both], what=x + " cell")
            c.eq("a frame only one has is prepared as documented", w, g,
                 want(k, i, j, False), facts + [not_(both)], what=x + " cell")

    for noreal in (True, False):
        @c.rule("both are prepared together", "CalculateSimilarity")
        def _():
            whole(c, noreal)

    @c.rule("both are prepared together", "FinelyAlignAndRecreatePatches")
    def _():
        fine(c)


def spectro(name, nb):
    nc = add(one(), num(name + "_cols", "i", True))
    return nc, rec("Visqol::Spectrogram", {
        "data_": matrix(nb, nc, lambda i, j: mk("cell", sym(name), i, j,
                                                ty="f"))})


def extreme(op, n, f):
    k = t.fresh("k", "i")
    m = smap(n, k, f(k))
    return get(m, mk("arg" + op, m, ty="i"), "f")


def prepared(nb, *specs):
    """the documented value of cell (i, j) of spectrogram k"""
    def db(k, i, j):
        x = t.fn("abs", mk("cell", sym(specs[k][0]), i, j, ty="f"))
        x = ite(eq(x, zero()), C(2.220446049250313e-16), x)
        return t.mnx("max", FLOOR, mul(C(10), t.fn("log10", x)))
    common = t.mnx("min", specs[0][1], specs[1][1])

    def raised(k, i, j, both=None):
        top = t.mnx("max", *(extreme("max", nb, lambda x: db(q, x, j))
                             for q in (0, 1)))
        v = t.mnx("max", db(k, i, j), sub(top, RANGE))
        if both is None:
            return ite(lt(j, common), v, db(k, i, j))
        return v if both else db(k, i, j)

    def low(k):
        n = specs[k][1]
        i, j = t.fresh("i", "i"), t.fresh("j", "i")
        m = t.mat(nb, n, i, j, raised(k, i, j))
        return extreme("min", mul(nb, n), lambda x: t.lin(m, x))
    floor = t.mnx("min", low(0), low(1))
    return lambda k, i, j, both: sub(raised(k, i, j, both), floor)


def whole(c, noreal):
    f = c.fn(STAGES[0])
    r = c.run(f, args=[None] * 8 + [boolean(noreal)],
              names="ref deg builder window creator selector mapper radius "
              "noreal".split(), opaque=opq(*SIMSTEPS))
    w = "Visqol::CalculateSimilarity"
    ps = r.ev("call", PREP)
    c.ok(len(ps) == 1, "one preparation of the two spectrograms", w,
         "%d calls of PrepareSpectrogramsForComparison" % len(ps))
    if len(ps) != 1:
        return
    p = ps[0]
    bs = r.ev("call", "Build")
    if len(bs) != 2:
        raise Skip("%d calls of Build" % len(bs))
    built = [sorv(mk("call", b.name, b.kw["obj"], *b.args)) if
             b.kw.get("obj") is not None else sorv(mk("call", b.name, *b.args))
             for b in bs]
    ref = [x for x, b in zip(built, bs) if t.mentions(b.args[0],
                                                      sym("p:ref")) and
           not t.mentions(b.args[0], sym("p:deg"))]
    deg = [x for x in built if x not in ref]
    if len(ref) != 1 or len(deg) != 1:
        raise Skip("spectrograms not told apart")
    a = [t.assume1(x, p.cond, True) for x in p.args]
    if set(a) == {ref[0], deg[0]}:
        c.held("the spectrograms of reference and degraded are prepared "
               "together", w, loc=p.loc)
    else:
        for x, y in zip(a, (ref[0], deg[0])):
            c.eq("the spectrograms of reference and degraded are prepared "
                 "together", w, x, y, [p.cond], loc=p.loc, what="prepared")
    ok = result_ok(r.ret)
    c.implies("nothing is compared unprepared", w, [ok], p.cond, p.loc,
              note="success")
    outs = {y for e in r.ev("call") if e.name.split("::")[-1] in
            (COARSE, "CreatePatchesFromIndices") for x in e.args
            for y in occurrences(x, built, PREP)}
    c.ok(not outs, "what is compared is the prepared spectrogram", w,
         "an unprepared spectrogram reaches the comparison")


def occurrences(x, built, prep):
    """the spectrograms used other than through the preparation"""
    out, seen = set(), set()

    def go(y):
        if y in seen:
            return
        seen.add(y)
        if y in built:
            out.add(y)
            return
        if y.op == "out" and any(isinstance(z, t.T) and z.op == "call" and
                                 z.a[0] == prep for z in y.a):
            return
        for z in kids(y.a):
            go(z)
    go(x)
    return out


def kids(a):
    for z in a:
        if isinstance(z, t.T):
            yield z
        elif isinstance(z, tuple):
            yield from kids(z)


def fine(c):
    """the realigned pair is prepared together, per patch"""
    f = c.fn("Visqol::ComparisonPatchesSelector::" + FINE)
    w = f["q"].replace("Visqol::", "")
    r = c.run(f, opaque=opq("AlignAndTruncate", "Slice", "Build",
                            "MeasurePatchSimilarity", PREP),
              setup=lambda I: setattr(I, "pure", ("Build",)))
    ms = r.ev("call", "MeasurePatchSimilarity")
    bs = [sorv(mk("call", b.name, b.kw["obj"], *b.args))
          for b in r.ev("call", "Build")]
    if not ms or len(bs) != 2:
        raise Skip("%d similarities, %d spectrograms" % (len(ms), len(bs)))
    for m in ms:
        preps = {y for x in m.args for y in t.subterms(x)
                 if y.op == "call" and y.a[0] == PREP}
        raw = {y for x in m.args for y in occurrences(x, bs, PREP)}
        c.ok(not raw, "what is compared is the prepared spectrogram", w,
             "an unprepared spectrogram reaches the comparison", m.loc)
        good = len(preps) == 1 and set(list(preps)[0].a[1:]) == set(bs)
        if raw:
            continue
        if good:
            c.held("the spectrograms of reference and degraded are prepared "
                   "together", w, loc=m.loc)
        elif len(preps) == 1 and all(x in bs for x in list(preps)[0].a[1:]):
            c.violated("the spectrograms of reference and degraded are "
                       "prepared together", w, "one of them twice", m.loc)
        elif len(preps) > 1:
            c.violated("the spectrograms of reference and degraded are "
                       "prepared together", w, "%d separate preparations"
                       % len(preps), m.loc)
        else:
            c.undecided("the spectrograms of reference and degraded are "
                        "prepared together", w, "preparation not found", m.loc)
