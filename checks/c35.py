"""C35: the degraded signal is compared at the level of the reference."""
from c23 import kids
from common import *

TECHNIQUE = "abstract interpretation to value graphs: the scaled signal as a " \
    "closed form in the samples of both signals, compared with the level " \
    "matching written out under random interpretation; where the scaled " \
    "signal goes decided on the value graph of the comparison"
EXPLANATION = "ScaleToMatchSoundPressureLevel is interpreted on two signals " \
    "of unrelated length and content: each sample is the degraded sample " \
    "times the ratio of the root mean squares, the rate and length are those " \
    "of the degraded signal, the reference is left alone and a degraded " \
    "signal that is only louder or softer is scaled to the same samples. " \
    "CalculateSimilarity is interpreted to the value graph of the calls it " \
    "makes: the signals it scales, and that spectrograms and the realignment " \
    "take the scaled signal and the original reference."

SCALE = "Visqol::MiscAudio::ScaleToMatchSoundPressureLevel"
SAMPLE = "a sample is scaled by the ratio of the levels"
SHAPE = "scaling keeps the length and the rate"
ALONE = "scaling leaves the reference alone"
SAME = "a signal that is only louder is scaled to the same samples"
USED = "the degraded signal is compared at the level of the reference"
REF = "the reference is compared as it is"


def audio(name, gain=None):
    n = add(one(), num(name + "_n", "i", True))

    def f(i, _j):
        v = mk("cell", sym(name), i, zero(), ty="f")
        return v if gain is None else mul(gain, v)
    return n, rec("Visqol::AudioSignal", {
        "data_matrix": matrix(n, one(), f),
        "sample_rate": num(name + "_rate", "i", True)})


def square(name, n):
    k = t.fresh("k", "i")
    x = mk("cell", sym(name), k, zero(), ty="f")
    return div(t.ssum(n, k, mul(x, x)), n)


def check(c):
    w = "MiscAudio::ScaleToMatchSoundPressureLevel"
    hints = {"p:gain": lambda h: 0.01 + (h % 1000) / 37.0}

    @c.rule("level matching", w)
    def _():
        (nr, ref), (nd, deg) = audio("R"), audio("D")
        r = c.run(SCALE, args=[ref, deg], names=["ref", "deg"])
        m = getfield(getfield(r.ret, "data_matrix"), "matrix_")
        i = num("i", "i", True)
        c.eq(SHAPE, w, seq(t.rows(m), t.cols(m)), seq(nd, one()),
             what="the size")
        c.eq(SHAPE, w, getfield(r.ret, "sample_rate", "i"),
             getfield(deg, "sample_rate", "i"), what="the rate")
        want = mul(mk("cell", sym("D"), i, zero(), ty="f"),
                   t.fn("sqrt", div(square("R", nr), square("D", nd))))
        c.eq(SAMPLE, w, t.at(m, i, zero()), want, [lt(i, nd)],
             what="sample i")
        left = getfield(getfield(r.arg(0), "data_matrix"), "matrix_")
        c.eq(ALONE, w, seq(t.rows(left), t.cols(left)), seq(nr, one()),
             what="the size")
        c.eq(ALONE, w, t.at(left, i, zero()),
             mk("cell", sym("R"), i, zero(), ty="f"), [lt(i, nr)],
             what="sample i")
        (_n, ref2), (_m, deg2) = audio("R"), audio("D", num("gain"))
        q = c.run(SCALE, args=[ref2, deg2], names=["ref", "deg"])
        m2 = getfield(getfield(q.ret, "data_matrix"), "matrix_")
        c.eq(SAME, w, t.at(m2, i, zero()), t.at(m, i, zero()),
             [lt(i, nd), lt(zero(), num("gain"))], hints=hints,
             what="sample i")

    for noreal in (True, False):
        w2 = "CalculateSimilarity" + (" without realignment" if noreal else "")

        @c.rule("use of the scaled signal", w2)
        def _():
            use(c, noreal, w2)


def use(c, noreal, w):
    f = c.fn(STAGES[0])
    r = c.run(f, args=[None] * 8 + [boolean(noreal)],
              names="ref deg builder window creator selector mapper radius "
              "noreal".split(), opaque=opq(*SIMSTEPS))
    es = [e for e in r.ev("call") if e.name == SCALE]
    ref, deg = sym("p:ref"), sym("p:deg")
    if len(es) != 1 or len(es[0].args) != 2:
        if not es and not [e for e in r.ev("call")
                           if "SoundPressure" in e.name]:
            bs = r.ev("call", "Build")
            if bs and all(b.args[0] in (ref, deg) for b in bs):
                c.violated(USED, w, "the signal is never scaled")
                return
        raise Skip("%d scalings" % len(es))
    e = es[0]
    c.eq(USED, w, e.args[0], ref, [e.cond], loc=e.loc, what="the level taken")
    c.eq(USED, w, e.args[1], deg, [e.cond], loc=e.loc,
         what="the signal scaled")
    scaled = mk("call", e.name, *(
        ((e.kw["obj"],) if e.kw.get("obj") is not None else ()) + e.args))
    n = 0
    for b in r.ev("call"):
        last = b.name.split("::")[-1]
        if last not in ("Build", FINE, "CreateRefPatchIndices"):
            continue
        for x in b.args:
            x = t.assume1(x, b.cond, True)
            n += bool({ref, scaled, deg} & set(t.subterms(x)))
            c.ok(not bare(x, deg, scaled), USED, w + ": " + last,
                 "it gets the degraded signal at its own level", b.loc)
            if last == "Build" and mixed(x, ref, scaled):
                c.violated(REF, w + ": " + last, "scaled: " + t.show(x, 4),
                           b.loc)
    ok = result_ok(r.ret)
    bs = [b for b in r.ev("call") if b.name.split("::")[-1] == "Build"]
    got = [t.assume1(b.args[0], and_(ok, b.cond), True) for b in bs]
    for x, what, rule in ((scaled, "the scaled signal", USED),
                          (ref, "the reference", REF)):
        if x in got:
            c.held(rule, w)
        elif all(y in (scaled, ref, deg) for y in got):
            c.violated(rule, w, "no spectrogram of " + what)
        else:
            c.undecided(rule, w, "no spectrogram of %s found" % what)


def mixed(x, ref, scaled):
    return x.op == "call" and x.a[0] == SCALE and x is not scaled


def bare(x, deg, scaled):
    """deg appears outside of the scaled signal"""
    seen = set()

    def go(y):
        if y is scaled or y in seen or (y.op == "call" and y.a[0] == SCALE):
            return False
        seen.add(y)
        if y.op == "field" and y.a[0] is deg and y.a[1] != "data_matrix":
            return False
        return y is deg or any(go(z) for z in kids(y.a))
    return go(x)
