from common import *
from c01 import paths, bounds, infeasible

TECHNIQUE = "abstract interpretation to value graphs; path-wise interval " \
    "argument with NaN kept apart for the values converted to 16 bits"
EXPLANATION = "Normalisation, channel separation and mono mixing are " \
    "interpreted on sample vectors and matrices of symbolic size and compared " \
    "with their definitions, alone and composed in LoadAsMono; every " \
    "floating-point to 16-bit conversion on the way to the voice activity " \
    "detector is an obligation: on every path of comparisons the value is " \
    "between -32768 and 32767 and not NaN."

NORM = "Visqol::MiscMath::NormalizeInt16ToDouble"
AUDIO = "Visqol::MiscAudio::"
VAD = "Visqol::VadPatchCreator::"


def check(c):
    scaling(c)
    mono(c)
    loading(c)
    t.Mode.nan_blind = False
    try:
        limited(c)
    finally:
        t.Mode.nan_blind = True


def scaling(c):
    w = "MiscMath::NormalizeInt16ToDouble"

    @c.rule("scaling", w)
    def _():
        r = c.run(NORM, names=["x"])
        x = sym("p:x")
        k = num("k", "i", True)
        xk = get(x, k, "i")
        c.eq("as many values as samples", w, length(r.ret), length(x),
             what="number of values")
        v = t.subst(get(r.ret, k, "f"), {xk: sym("p:sample", "i")})
        s = sym("p:sample", "i")
        facts = [lt(k, length(x)), le(C(-32768), s), le(s, C(32767))]
        c.eq("values are proportional to the samples", w, v,
             t.div(s, C(32768)), facts, what="value of a sample")
        c.implies("values lie in [-1, 1)", w, facts,
                  and_(le(C(-1), v), lt(v, one())), note="value of a sample")


def average(A, n, m):
    def el(i, j):
        k = t.fresh("k", "i")
        return t.div(t.ssum(m, k, A(i, k)), m)
    return el


def mono(c):
    n, m = num("n", "i", True), num("channels", "i", True)

    def A(i, j):
        return mk("call", "A", i, j, ty="f")
    i, j = num("i", "i", True), num("j", "i", True)
    for f in sorted(c.find(AUDIO + "ToMono"), key=lambda f: f["l"]):
        w = "MiscAudio::ToMono(%s)" % f["params"][0]["t"].split("::")[-1][:20]

        @c.rule("mono", w)
        def _():
            mat = matrix(n, m, A)
            sig = "AudioSignal" in f["params"][0]["t"]
            arg = rec("Visqol::AudioSignal", {
                "data_matrix": mat, "sample_rate": num("rate", "i", True)}) \
                if sig else mat
            r = c.run(f, args=[arg])
            v = getfield(getfield(r.ret, "data_matrix") if sig else r.ret,
                         "matrix_")
            facts = [lt(zero(), n), lt(zero(), m)]
            c.eq("one value per sample time", w, t.rows(v), n, facts,
                 what="number of samples")
            c.eq("mono is one channel", w, t.cols(v), one(), facts,
                 what="number of channels")
            c.eq("channels are averaged", w, t.at(v, i, zero()),
                 average(A, n, m)(i, zero()), facts + [lt(i, n)],
                 what="sample i")
            for k in (1, 2, 3):
                vk = t.subst(t.at(v, i, zero()), {m: C(k)})
                s = zero()
                for x in range(k):
                    s = add(s, A(i, C(x)))
                c.eq("channels are averaged", w + " %d channels" % k,
                     vk, t.div(s, C(k)), [lt(zero(), n), lt(i, n)],
                     what="sample i")
            if sig:
                c.eq("the sample rate is kept", w,
                     getfield(r.ret, "sample_rate", "i"),
                     num("rate", "i", True), facts, what="rate")

    w = "MiscAudio::ExtractMultiChannel"

    @c.rule("channels", w)
    def _():
        r = c.run(AUDIO + "ExtractMultiChannel", names=["n", "x"])
        x, ch = sym("p:x"), sym("p:n", "i")
        k = num("channel", "i", True)
        facts = [lt(zero(), ch), lt(k, ch)]
        c.eq("every channel is extracted", w, length(r.ret), ch, facts,
             what="number of channels")
        row = get(r.ret, k)
        c.eq("a channel holds its share of the samples", w, length(row),
             t.idiv(length(x), ch), facts, what="samples of a channel")
        c.eq("a channel holds its own samples", w, get(row, i, "f"),
             get(x, add(k, mul(i, ch)), "f"),
             facts + [lt(i, t.idiv(length(x), ch))], what="sample i")


def loading(c):
    for f in sorted(c.find(AUDIO + "LoadAsMono"), key=lambda f: f["l"]):
        if "stream" not in f["params"][0]["t"]:
            continue
        w = "MiscAudio::LoadAsMono"

        @c.rule("loading", w)
        def _():
            r = c.run(f, opaque=lambda q, g: q.startswith(
                "Visqol::WavReader::"), names=["stream", "path"])
            v = getfield(getfield(r.ret, "data_matrix"), "matrix_")
            ch = num("channels", "i", True)
            buf = sym("p:samples")
            mp = {}
            for x in t.subterms(v):
                if x.op == "call":
                    q = str(x.a[0]).split("::")[-1]
                    if q == "GetNumChannels":
                        mp[x] = ch
                    elif q == "IsHeaderValid":
                        mp[x] = TRUE
                    elif q == "GetNumTotalSamples" or q == "ReadSamples":
                        mp[x] = num("total", "i", True)
            outs = [x for x in t.subterms(v) if x.op == "out"]
            mp.update({x: buf for x in outs})
            v = t.subst(v, mp)
            i = num("i", "i", True)
            n = t.idiv(length(buf), ch)
            facts = [lt(zero(), ch), lt(zero(), n),
                     lt(zero(), num("total", "i", True)),
                     eq(length(buf), num("total", "i", True))]
            if t.mentions(v, buf) is False:
                raise Skip("samples not found in the result")
            c.eq("one value per sample time", w, t.rows(v), n, facts,
                 what="number of samples")
            c.eq("mono is one channel", w, t.cols(v), one(), facts,
                 what="number of channels")
            k = t.fresh("k", "i")
            want = t.div(t.ssum(ch, k, t.div(get(buf, add(k, mul(i, ch)),
                                                 "i"), C(32768))), ch)
            c.eq("a sample is the average of its channels over 32768", w,
                 t.at(v, i, zero()), want, facts + [lt(i, n)],
                 what="sample i")


SHORT = ("short", "signed short", "int16_t", "std::int16_t")


def limited(c):
    w = "VadPatchCreator::CreateRefPatchIndices"

    @c.rule("limiting", w)
    def _():
        f = c.fn(VAD + "CreateRefPatchIndices")
        r = c.run(f, obligations=True, opaque=opq("Normalize"),
                  names=["spectrogram", "signal", "window"])
        n = 0
        for e in r.ev("f2i"):
            if e.kw.get("to") not in SHORT:
                continue
            n += 1
            in16(c, w, e)
        # samples of other sizes narrowed to 16 bits
        for e in r.ev("i2i"):
            if e.kw.get("to") in SHORT and e.args[0].op != "c":
                n += 1
                v = e.args[0]
                c.implies("samples are limited before they are 16 bit", w,
                          [e.cond] + within(e),
                          and_(le(C(-32768), v), le(v, C(32767))), e.loc,
                          "value converted")
        if not n:
            c.undecided("samples are limited before they are 16 bit", w,
                        "no conversion seen")


def in16(c, w, e):
    rule = "samples are limited before they are 16 bit"
    v = e.args[0]
    given = []
    cs = e.cond.a if e.cond.op == "and" else (e.cond,)
    for x in cs:
        if x.op == "not":
            given.append((x.a[0], False))
        elif x is not TRUE:
            given.append((x, True))
    if v.op in ("trunc", "round", "floor", "ceil", "tround", "tfloor",
                "tceil"):
        v = v.a[0]
    k = 0
    open_ = []
    for x, lits in paths(v, given):
        k += 1
        lo, hi, nan = bounds(x, lits)
        if x.op in ("inf", "ninf", "nan"):
            pass
        elif not nan and lo is not None and hi is not None and \
                lo > -32769 and hi < 32768:
            continue
        elif x.op == "mnx" or x.unk or any(y.op in ("ite", "mnx") for y in
                                           t.subterms(x)) or \
                x.op != "c" and (hi == 32768 or lo == -32769):
            open_.append(x)
            continue
        if infeasible(lits):
            continue
        c.violated(rule, w, "on the path %s the value %s %s" % (
            [("" if p else "not ") + t.show(a, 6) for a, p in lits
             if "%s" % a.op in ("lt", "le", "eq", "isnan")],
            t.show(x, 6), "may be NaN" if nan and x.op != "c" else
            "lies between %s and %s" % (
                "-inf" if lo is None else float(lo),
                "inf" if hi is None else float(hi))), e.loc)
        return
    if open_:
        c.undecided(rule, w, "value on a path: %s" % t.show(open_[0], 6),
                    e.loc)
        return
    c.held(rule, w, "%d paths" % k, e.loc)
