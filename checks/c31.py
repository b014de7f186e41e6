import math

from common import *
from terms import fn

TECHNIQUE = "abstract interpretation to value graphs: filter design and " \
    "spectrogram construction compared with Slaney's formulas and with the " \
    "filter cascade written out; recurrences on instances of fixed size and " \
    "symbolic content"
EXPLANATION = "The filter design function is interpreted for a symbolic " \
    "sample rate, number of bands and frequency range; each of its ten " \
    "coefficients at a symbolic band is compared with the formula of " \
    "Slaney's gammatone filter bank. The spectrogram builder is interpreted " \
    "with symbolic samples and coefficients, for small windows and few " \
    "bands, and each cell is compared with the root mean square of the " \
    "Hann-windowed frame passed through the four sections of that band; for " \
    "symbolic sizes the number of frames, bands and the order of the " \
    "frequencies are compared."

ERB = "Visqol::EquivalentRectangularBandwidth::MakeFilters"
BUILDER = "Visqol::GammatoneSpectrogramBuilder"
BANK = "Visqol::GammatoneFilterBank"
EARQ, MINBW = 9.26449, 24.7
NAMES = ("A0", "A11", "A12", "A13", "A14", "A2", "B0", "B1", "B2", "gain")


def check(c):
    design(c)
    for nb, n, size, hop in ((1, 3, 2, 1), (2, 5, 3, 2), (3, 5, 4, 1),
                             (2, 7, 4, 2), (1, 9, 5, 3)):
        for speech in (False, True):
            frames(c, nb, n, size, hop, speech)
    window(c)
    streaming(c)
    sizes(c)


def plus(*xs):
    r = zero()
    for x in xs:
        r = add(r, x)
    return r


def times(*xs):
    r = one()
    for x in xs:
        r = mul(r, x)
    return r


# ------------------------------------------------------------------- design

HINTS = {
    "p:rate": lambda x: (8000, 11025, 16000, 22050, 44100, 48000)[x % 6],
    "p:bands": lambda x: (1, 2, 10, 21, 32)[x % 5],
    "p:lo": lambda x: 50.0 + x % 997,
    "p:hi": lambda x: (3000.0, 3999.0, 4000.0, 8000.0, 15000.0, 24000.0,
                       30000.0)[(x >> 9) % 7],
    "p:band": lambda x: x % 32,
}


def centre(i):
    """centre frequency of band i, from the highest down"""
    rate, n = num("rate", "i", True), num("bands", "i", True)
    lo, hi = sym("p:lo", "f"), sym("p:hi", "f")
    top = t.mnx("min", hi, div(rate, C(2)))
    k = C(EARQ * MINBW)
    step = div(sub(fn("log", add(lo, k)), fn("log", add(top, k))), n)
    return sub(mul(fn("exp", mul(add(i, one()), step)), add(top, k)), k)


def slaney(i):
    rate = num("rate", "i", True)
    T = div(one(), rate)
    cf = centre(i)
    B = times(C(1.019 * 2 * math.pi), add(div(cf, C(EARQ)), C(MINBW)))
    w = times(C(2 * math.pi), cf, T)
    damp = fn("exp", times(C(-1), B, T))
    cw, sw = fn("cos", w), fn("sin", w)

    def a1(sign, r):
        return times(C(-1), T, damp, add(cw, times(C(sign * math.sqrt(
            3 + r * 2 ** 1.5)), sw)))

    # gain: the response at the centre frequency. z = exp(iw)
    one_c = (one(), zero())

    def cm(p, q):
        return (sub(mul(p[0], q[0]), mul(p[1], q[1])),
                add(mul(p[0], q[1]), mul(p[1], q[0])))

    def ca(p, q):
        return (add(p[0], q[0]), add(p[1], q[1]))

    def cs(k, p):
        return (mul(k, p[0]), mul(k, p[1]))

    def abs2(p):
        return add(mul(p[0], p[0]), mul(p[1], p[1]))
    z1 = (cw, sw)
    z2 = (fn("cos", mul(C(2), w)), fn("sin", mul(C(2), w)))
    up = one()
    for r in (-1, 1):
        for s in (-1, 1):
            k = add(cw, mul(C(s * math.sqrt(3 + r * 2 ** 1.5)), sw))
            x = ca(cs(mul(C(-2), T), z2), cs(times(C(2), damp, T, k), z1))
            up = mul(up, abs2(x))
    d2 = mul(damp, damp)
    x5 = ca(ca((mul(C(-2), d2), zero()), cs(C(-2), z2)),
            cs(mul(C(2), damp), ca(one_c, z2)))
    low = abs2(x5)
    low = mul(low, low)
    gain = div(fn("sqrt", up), low)
    return [T, a1(1, 1), a1(-1, 1), a1(1, -1), a1(-1, -1), zero(), one(),
            times(C(-2), cw, damp), d2, gain]


def design(c):
    w = "EquivalentRectangularBandwidth::MakeFilters"
    i = num("band", "i", True)
    n, rate = num("bands", "i", True), num("rate", "i", True)
    lo, hi = sym("p:lo", "f"), sym("p:hi", "f")
    facts = [lt(i, n), lt(zero(), rate), lt(zero(), lo), lt(lo, hi),
             lt(lo, div(rate, C(2)))]

    @c.rule("filter design", w, 400)
    def _():
        r = c.run(ERB, names=["rate", "bands", "lo", "hi"])
        cf = getfield(r.ret, "centerFreqs")
        co = getfield(r.ret, "filterCoeffs")
        c.eq("one centre frequency per band", w, length(cf), n, facts,
             what="the number of frequencies")
        c.eq("centre frequencies are evenly spaced on the ERB scale", w,
             get(cf, i, "f"), centre(i), facts, hints=HINTS,
             what="centre frequency")
        c.eq("ten coefficients per band", w, length(co), C(10), facts,
             what="the number of coefficients")
        want = slaney(i)
        for j, name in enumerate(NAMES):
            col = get(co, C(j), "o")
            c.eq("one coefficient per band", w + " " + name, length(col), n,
                 facts, what="the number of bands")
            got = get(col, i, "f")
            # compared relative to the expected value
            if want[j].op != "c":
                got, ref = div(got, want[j]), one()
            else:
                ref = want[j]
            c.eq("coefficients are Slaney's", w + " " + name, got, ref,
                 facts, hints=HINTS, what="coefficient " + name +
                 ("" if ref is want[j] else " relative to the formula"))


# -------------------------------------------------------------- spectrogram

def coefficient(name, b):
    return one() if name == "B0" else num("%s_%d" % (name, b), "f")


def designed(nb):
    def f(*vals):
        return rec("Visqol::ErbFiltersResult", {
            "centerFreqs": t.seq(*[num("cf%d" % b, "f") for b in range(nb)]),
            "filterCoeffs": t.seq(*[t.seq(*[coefficient(x, b) for b in
                                            range(nb)]) for x in NAMES])})
    return f


def section(b0, b1, b2, a1, a2, x):
    """a second order filter started at rest"""
    z1 = z2 = zero()
    out = []
    for v in x:
        y = add(mul(b0, v), z1)
        z1 = plus(mul(b1, v), z2, times(C(-1), a1, y))
        z2 = sub(mul(b2, v), mul(a2, y))
        out.append(y)
    return out


def cascade(b, x):
    k = {n: coefficient(n, b) for n in NAMES}
    x = [div(v, k["gain"]) for v in x]
    for s in ("A11", "A12", "A13", "A14"):
        x = section(k["A0"], k[s], k["A2"], k["B1"], k["B2"], x)
    return x


def hann(size, i):
    return 0.5 - 0.5 * math.cos(2 * math.pi * i / (size - 1))


def signal(n, x=None):
    x = sym("x") if x is None else x
    return rec("Visqol::AudioSignal", {
        "data_matrix": matrix(n, one(), lambda i, j: get(x, i, "f")),
        "sample_rate": num("rate", "i", True)})


def a_window(size, overlap):
    return rec("Visqol::AnalysisWindow", {
        "size": size, "overlap": overlap,
        "window_duration": num("win_duration", "f", True)})


def builder(c, bands, speech, opaque, setup=None):
    s = c.session(BUILDER, opaque=opaque, setup=setup)
    bank = s.I.make(BANK, [bands, num("minfreq", "f", True)])
    s.set_this(s.I.make(BUILDER, [bank, C(1 if speech else 0)]))
    return s


def result(r):
    ok = result_ok(r.ret)
    v = t.assume1(sorv(t.assume1(r.ret, ok, True)), ok, True)
    return ok, getfield(getfield(v, "data_"), "matrix_"), \
        getfield(v, "center_freq_bands_")


def frames(c, nb, n, size, hop, speech):
    w = "GammatoneSpectrogramBuilder::Build (%d bands, %d samples, window " \
        "%d, hop %d%s)" % (nb, n, size, hop, ", speech" if speech else "")

    @c.rule("spectrogram of a small signal", w, 200)
    def _():
        def setup(I):
            I.unroll = n * size * 4
            I.given[ERB] = designed(nb)
        s = builder(c, C(nb), speech, opq("MakeFilters"), setup)
        xs = [num("x%d" % q, "f") for q in range(n)]
        hints = {x.a[0]: lambda h: (h % 2003 - 1001) / 700.7 for x in xs}
        for b in range(nb):
            for x in NAMES:
                x = coefficient(x, b)
                if x.op == "sym":
                    hints[x.a[0]] = lambda h: (h % 1009 + 300) / 650.3
        r = s.call(BUILDER + "::Build", args=[
            signal(C(n), t.seq(*xs)), a_window(C(size), C((hop + 0.5) / size))])
        ok, m, cf = result(r)
        facts = [ok]
        c.eq("one row per band", w, t.rows(m), C(nb), facts,
             what="the number of bands")
        nc = 1 + (n - size) // hop
        c.eq("a frame at every hop", w, t.cols(m), C(nc), facts,
             what="the number of frames")
        for b in range(nb):
            # bands are designed from the highest frequency down
            d = nb - 1 - b
            c.eq("frequencies from lowest to highest", w, get(cf, C(b), "f"),
                 num("cf%d" % d, "f"), facts, what="frequency %d" % b)
            for k in range(nc):
                x = [mul(C(hann(size, q)), xs[k * hop + q])
                     for q in range(size)]
                y = cascade(d, x)
                want = div(plus(*[mul(v, v) for v in y]), C(size))
                got = t.at(m, C(b), C(k))
                c.eq("a cell is the level of the windowed frame in its band",
                     w + " band %d frame %d" % (b, k),
                     mul(got, got), want, facts, hints=hints,
                     what="square of the level")
                c.implies("a level is not negative",
                          w + " band %d frame %d" % (b, k), facts,
                          le(zero(), got))


def streaming(c):
    w = "GammatoneFilterBank::ApplyFilter"

    @c.rule("a signal filtered in two parts", w, 100)
    def _():
        nb, cut, n = 2, 2, 4
        s = c.session(BANK, setup=lambda I: setattr(I, "unroll", 60))
        s.set_this(s.I.make(BANK, [C(nb), num("minfreq", "f", True)]))
        k = t.seq(*[t.seq(*[coefficient(x, b) for x in NAMES])
                    for b in range(nb)])
        s.call(BANK + "::SetFilterCoefficients", args=[
            matrix(C(nb), C(10), lambda i, j: get(get(k, i, "o"), j, "f"))])
        s.call(BANK + "::ResetFilterConditions")
        xs = [num("x%d" % q, "f") for q in range(n)]
        hints = {v.a[0]: lambda h: (h % 1009 + 300) / 650.3 for v in
                 t.subterms(t.seq(k, *xs)) if v.op == "sym"}
        outs = []
        for a, b in ((0, cut), (cut, n)):
            r = s.call(BANK + "::ApplyFilter", args=[t.seq(*xs[a:b])])
            outs.append(getfield(r.ret, "matrix_"))
        for b in range(nb):
            want = cascade(b, xs)
            for q in range(n):
                m = outs[q >= cut]
                c.eq("the second part carries on from the first",
                     w + " band %d sample %d" % (b, q),
                     t.at(m, C(b), C(q - cut if q >= cut else q)), want[q],
                     hints=hints, what="filtered sample")
        s.call(BANK + "::ResetFilterConditions")
        r = s.call(BANK + "::ApplyFilter", args=[t.seq(*xs[:cut])])
        for b in range(nb):
            for q in range(cut):
                c.eq("a reset filter starts at rest",
                     w + " band %d sample %d" % (b, q),
                     t.at(getfield(r.ret, "matrix_"), C(b), C(q)),
                     cascade(b, xs[:cut])[q], hints=hints,
                     what="filtered sample")


def window(c):
    w = "AnalysisWindow"

    @c.rule("analysis window", w, 60)
    def _():
        rate, dur = num("rate", "i", True), num("dur", "f", True)
        ov = num("overlap", "f", True)
        s = c.session("Visqol::AnalysisWindow")
        v = s.I.make("Visqol::AnalysisWindow", [rate, ov, dur])
        facts = [lt(zero(), rate), lt(zero(), dur)]
        c.eq("the window lasts its duration", w, getfield(v, "size"),
             t.trunc(fn("round", mul(rate, dur))), facts,
             what="samples of a window")
        c.eq("the overlap is the one given", w, getfield(v, "overlap"), ov,
             facts, what="overlap")
    w2 = w + "::ApplyHannWindow"

    @c.rule("Hann window", w2, 60)
    def _():
        n, i = num("size", "i", True), num("i", "i", True)
        s = c.session("Visqol::AnalysisWindow")
        s.set_this(a_window(n, num("overlap", "f", True)))
        k = t.fresh("k", "i")
        x = smap(n, k, get(sym("x"), k, "f"))
        r = s.call("Visqol::AnalysisWindow::ApplyHannWindow", args=[x])
        facts = [lt(one(), n), lt(i, n)]
        c.eq("a windowed sample per sample", w2, length(r.ret), n, facts,
             what="the number of samples")
        c.eq("samples are weighted by the Hann window", w2,
             get(r.ret, i, "f"),
             mul(get(sym("x"), i, "f"), sub(C(0.5), mul(C(0.5), fn(
                 "cos", div(mul(C(2 * math.pi), i), sub(n, one())))))),
             facts, what="windowed sample")


def sizes(c):
    w = "GammatoneSpectrogramBuilder::Build"

    @c.rule("spectrogram of any signal", w, 100)
    def _():
        n, nb = num("samples", "i", True), num("bands", "i", True)
        size, ov = num("size", "i", True), num("overlap", "f", True)
        s = builder(c, nb, False, opq("MakeFilters", "ApplyFilter"))
        r = s.call(BUILDER + "::Build", args=[signal(n), a_window(size, ov)])
        ok, m, cf = result(r)
        hop = t.trunc(mul(size, ov))
        facts = [ok, lt(zero(), size), lt(zero(), hop), lt(size, n)]
        c.eq("one row per band", w, t.rows(m), nb, facts,
             what="the number of bands")
        c.eq("a frame at every hop", w, t.cols(m),
             add(one(), t.idiv(sub(n, size), hop)), facts,
             what="the number of frames")
        c.implies("a longer signal has a spectrogram", w,
                  [lt(zero(), size), lt(zero(), hop), lt(size, n)], ok,
                  note="error")
