"""C37: a speech patch is scored exactly when there is voice in it."""
from common import *

TECHNIQUE = "abstract interpretation to value graphs on recordings of fixed " \
    "length and symbolic content, compared with the voice decision written out"
EXPLANATION = "RmsVad is interpreted on chunks of symbolic samples: a chunk " \
    "has no voice exactly when its root mean square and those of the two " \
    "chunks before it are below 5000, and the first two always have. " \
    "VadPatchCreator::CreateRefPatchIndices is interpreted with the " \
    "detector uninterpreted: the patches selected are those with at least " \
    "one voiced frame among their own, and the frames given to the detector " \
    "are the hops of the normalised reference as 16-bit samples, in order, " \
    "for all frames of all patches."

VAD = "Visqol::RmsVad"
CREATOR = "Visqol::VadPatchCreator"
CHUNK = VAD + "::ProcessChunk"
NORMAL = "Visqol::MiscMath::Normalize"
RESULTS = VAD + "::GetVadResults"
VOICE = "a chunk lacks voice only after three quiet ones"
PICK = "a patch is scored exactly when a frame of it has voice"
FRAMES = "the detector is given the frames in order"
START = "the detector starts at the first patch"


def check(c):
    for n, m in ((1, 2), (3, 1), (4, 2), (6, 1)):
        detector(c, n, m)
    for size, patches in ((2, 1), (2, 3), (4, 2)):
        selection(c, size, patches)
    for hop in (1, 2, 3):
        handed(c, hop)


def detector(c, n, m):
    """n chunks of m samples"""
    w = "RmsVad (%d chunks of %d samples)" % (n, m)

    @c.rule("voice decision", w)
    def _():
        s = c.session(VAD, setup=lambda I: setattr(I, "unroll", n + 4))
        s.set_this(s.I.liblib.default_value(s.I, VAD))
        ctor = [f for f in c.P.fns.values()
                if f.get("ctor") and f.get("cls") == VAD and not f["params"]]
        if len(ctor) != 1:
            raise Skip("%d constructors" % len(ctor))
        s.call(ctor[0])
        x = [[sym("p:x%d_%d" % (i, j), "i") for j in range(m)]
             for i in range(n)]
        facts = [and_(le(C(-32768), v), le(v, C(32767))) for r in x for v in r]
        for r in x:
            s.call(CHUNK, args=[seq(*r)])
        r = s.call(RESULTS)

        def loud(i):
            q = zero()
            for v in x[i]:
                q = add(q, mul(v, v))
            return le(C(5000), t.fn("sqrt", div(q, C(m))))
        want = [one() if i < 2 else
                ite(or_(loud(i), loud(i - 1), loud(i - 2)), one(), zero())
                for i in range(max(2, n))]
        c.eq(VOICE, w, length(r.ret), C(len(want)), facts,
             what="the number of results")
        hints = {"p:x%d_%d" % (i, j): lambda h: (0, 300, -4000, 4999, 5000,
                                                 -5001, 7100, 32767)[h % 8]
                 for i in range(n) for j in range(m)}
        for i, v in enumerate(want):
            c.eq(VOICE, w, get(r.ret, C(i), "f"), v, facts, hints=hints,
                 what="result of chunk %d" % i)


def creator(c, size, opaque):
    s = c.session(CREATOR, opaque=opaque,
                  setup=lambda I: setattr(I, "unroll", 64))
    s.set_this(s.I.liblib.default_value(s.I, CREATOR))
    ctor = [f for f in c.P.fns.values()
            if f.get("ctor") and f.get("cls") == CREATOR and
            len(f["params"]) == 1 and "Creator" not in str(f["params"][0]["t"])]
    if len(ctor) != 1:
        raise Skip("%d constructors" % len(ctor))
    s.call(ctor[0], args=[C(size)])
    return s


def inputs(size, patches, hop):
    frames = size // 2 - 1 + size * patches
    samples = hop * (frames + 3)
    spec = matrix(C(2), C(frames), lambda i, j: mk(
        "cell", sym("S"), i, j, ty="f"))
    sig = rec("Visqol::AudioSignal", {
        "data_matrix": matrix(C(samples), one(), lambda i, j: mk(
            "cell", sym("R"), i, zero(), ty="f")),
        "sample_rate": num("rate", "i", True)})
    win = rec("Visqol::AnalysisWindow", {
        "size": C(4 * hop), "overlap": t.C(0.25), "window_duration": t.C(0.08)})
    return samples, spec, sig, win


def selection(c, size, patches):
    w = "VadPatchCreator::CreateRefPatchIndices (%d patches of %d frames)" % (
        patches, size)

    @c.rule("patches selected", w)
    def _():
        s = creator(c, size, opq(CHUNK.split("::")[-1]))
        v = [sym("p:v%d" % i, "b") for i in range(size * patches)]
        old = s.I.liblib.MODELS.get(RESULTS)
        s.I.liblib.MODELS[RESULTS] = lambda I, n, o, a: seq(*[
            ite(x, t.C(1.0), t.C(0.0)) for x in v])
        try:
            _n, spec, sig, win = inputs(size, patches, 1)
            r = s.call(c.fn(CREATOR + "::CreateRefPatchIndices"),
                       args=[spec, sig, win])
        finally:
            del s.I.liblib.MODELS[RESULTS]
            if old:
                s.I.liblib.MODELS[RESULTS] = old
        c.eq(PICK, w, result_ok(r.ret), TRUE, what="success")
        got = sorv(t.assume1(r.ret, result_ok(r.ret), True))
        # every combination of silent and voiced patches
        first = size // 2 - 1
        for bits in range(2 ** patches):
            for at in {0, size - 1}:
                env = {x: FALSE for x in v}
                want = []
                for p in range(patches):
                    if bits >> p & 1:
                        env[v[p * size + at]] = TRUE
                        want.append(C(first + p * size))
                c.eq(PICK, w, t.subst(got, env), seq(*want),
                     what="with voice in frames %s, the patches" % [
                         i for i, x in enumerate(v) if env[x] is TRUE])


def handed(c, hop):
    size, patches = 4, 2
    w = "VadPatchCreator::CreateRefPatchIndices (frames of %d samples)" % hop

    @c.rule("audio of the detector", w)
    def _():
        s = creator(c, size, opq("ProcessChunk", "GetVadResults"))
        n, spec, sig, win = inputs(size, patches, hop)
        given = []

        def normal(I, node, obj, args):
            given.append(I.rv(args[0]))
            return matrix(C(n), one(), lambda i, j: mk(
                "cell", sym("N"), i, zero(), ty="f"))
        models = s.I.liblib.MODELS
        models[NORMAL] = normal
        try:
            r = s.call(c.fn(CREATOR + "::CreateRefPatchIndices"),
                       args=[spec, sig, win])
        finally:
            del models[NORMAL]
        if len(given) != 1:
            raise Skip("%d calls of Normalize" % len(given))
        got = getfield(given[0], "matrix_")
        for i in range(n):
            c.eq(FRAMES, w, t.at(got, C(i), zero()), mk(
                "cell", sym("R"), C(i), zero(), ty="f"),
                what="sample %d normalised" % i)
        es = r.ev("call", CHUNK)
        if not es:
            raise Skip("no chunks seen")
        if any(e.loops for e in es):
            raise Skip("chunks in a loop")
        es = [e for e in es if e.cond is not FALSE]
        facts = ()

        hints = {"N": lambda h: (h % 4001 - 2000) / 1900.0}

        def want(k):
            v = mul(mk("cell", sym("N"), C(k), zero(), ty="f"), C(32768))
            return t.fn("trunc", t.mnx("max", C(-32768),
                                       t.mnx("min", C(32767), v)))
        c.eq(FRAMES, w, C(len(es)), C(size * patches), what="frames")
        start = None
        for k in range(0, n - hop * size * patches + 1):
            if all(equal(get(es[0].args[0], C(j), "i"), want(k + j), facts)
                   for j in range(hop)):
                start = k
        if start is None:
            start = size // 2 - 1
            c.eq(FRAMES, w, get(es[0].args[0], zero(), "i"), want(start),
                 loc=es[0].loc, what="first sample", hints=hints)
            return
        c.ok(start == hop * (size // 2 - 1), START, w.split(" (")[0],
             "starts at %s" % (
                 "the sample numbered like the first patch's frame"
                 if start == size // 2 - 1 else "sample %d" % start),
             es[0].loc)
        for i, e in enumerate(es):
            c.eq(FRAMES, w, length(e.args[0]), C(hop), loc=e.loc,
                 what="samples of frame %d" % i)
            for j in range(hop):
                if start + i * hop + j < n:
                    c.eq(FRAMES, w, get(e.args[0], C(j), "i"),
                         want(start + i * hop + j), facts, loc=e.loc,
                         what="sample %d of frame %d" % (j, i))


def equal(a, b, facts):
    import sample
    if a is b or t.same(a, b, 6):
        return True
    d, k = sample.differ(a, b, facts)
    return d is None and k > 0
