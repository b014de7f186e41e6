from common import *

TECHNIQUE = "abstract interpretation to value graphs; failure conditions, " \
    "index and divisor obligations decided by linear arithmetic and case " \
    "distinction"
EXPLANATION = "Build, CreateRefPatchIndices, CreatePatchesFromIndices and " \
    "FindMostOptimalDegPatches of the objects VisqolManager::Init creates for " \
    "either mode are interpreted on signals and spectrograms of symbolic size. " \
    "Rules: success implies the size needed; every index, sub-matrix and " \
    "integer division reached is defined."

INNER = ("MeasurePatchSimilarity", "GetVoiceActivity", "Normalize",
         "MakeFilters", "ApplyFilter", "ApplyHannWindow")


def check(c):
    for sp in (False, True):
        mode = "speech" if sp else "audio"

        @c.rule("short audio", mode)
        def _():
            s, _i = init_manager(c, sp, False, False,
                                 opaque=opq(*STAGES, *INNER))
            s.I.obl = True
            r = s.call(run_overload(c, False), names=["ref", "deg"])
            ks = comparisons(c, s, r)
            if not ks:
                raise Skip("no comparison")
            k = ks[0]

            @c.rule("short audio: spectrogram", mode)
            def _():
                build(c, k, mode)

            @c.rule("short audio: patch creation", mode)
            def _():
                create(c, k, mode, sp)

            @c.rule("short audio: matching", mode)
            def _():
                match(c, k, mode, sp)

def audio(name):
    """a mono signal of n samples"""
    n = num(name + "_samples", "i", True)
    return n, rec("Visqol::AudioSignal", {
        "data_matrix": matrix(n, one(), lambda i, j: get(sym(name), i, "f")),
        "sample_rate": num(name + "_rate", "i", True)})


def spectro(name):
    nr = add(one(), num(name + "_morebands", "i", True))
    nc = num(name + "_cols", "i", True)
    return nr, nc, matrix(nr, nc, lambda i, j: mk("cell", sym(name), i, j,
                                                 ty="f"))


def build(c, k, mode):
    w = "%s: %s::Build" % (mode, (k.cls(k.builder) or "").split("::")[-1])
    n, sig = audio("sig")
    size = num("win_size", "i", True)
    r = k.method(k.builder, "Build", args=[sig, rec("Visqol::AnalysisWindow", {
        "size": size, "overlap": num("win_overlap", "f", True),
        "window_duration": num("win_duration", "f", True)})])
    ok = result_ok(r.ret)
    c.implies("a signal of one window or less is an error", w, [ok],
              lt(size, n), note="success")
    facts = [lt(zero(), size)]
    safe(c, w, r, facts, only=lambda e: not about_filters(e))


def about_filters(e):
    return all(x.op != "sym" or x.a[0].startswith(("u:", "p:sig"))
               for x in t.subterms(e.args[0])) and False or any(
        x.op == "call" and "Erb" in x.a[0] or x.op == "call" and
        "EquivalentRect" in x.a[0] for x in t.subterms(e.args[0]))


def size_of(k):
    """frames per patch of the configured patch creator"""
    v = getfield(k.read(k.creator), "patch_size_", "i")
    return v if v.op == "c" else None


def create(c, k, mode, sp):
    w = "%s: %s" % (mode, (k.cls(k.creator) or "").split("::")[-1])
    _nr, nc, spec = spectro("spec")
    _n, sig = audio("sig")
    r = k.method(k.creator, "CreateRefPatchIndices", args=[spec, sig, None],
                 names=["spec", "sig", "win"], nparams=3)
    P = size_of(k) or C(20 if sp else 30)
    ok = result_ok(r.ret)
    c.implies("a spectrogram shorter than a patch is an error", w, [ok],
              le(P, nc), note="success")
    idx = t.assume1(sorv(r.ret), ok, True)
    i = num("anypatch", "i", True)
    here = [ok, lt(i, length(idx))]
    v = any_element(idx, i)
    if v is None:
        c.undecided("every selected patch lies inside the spectrogram", w,
                    "indices are not of a known form: " + t.show(idx, 5))
    else:
        x, fs = v
        c.implies("every selected patch lies inside the spectrogram", w,
                  [ok] + fs, and_(le(zero(), x), le(add(x, P), nc)),
                  note="patch selected")
    if not sp:
        c.implies("success yields a patch", w, [ok],
                  lt(zero(), length(idx)), note="success")
    safe(c, w, r)
    # the patches cut
    m, kk = num("npatches", "i", True), t.fresh("k", "i")
    ix = smap(m, kk, get(sym("p:indices"), kk, "i"))
    r = k.method(k.creator, "CreatePatchesFromIndices", args=[spec, ix],
                 names=["spec", "indices"])
    got = [e for e in r.ev() if e.kind in SAFE]
    for e in got:
        fs = []
        for y in t.subterms(within(e)):
            if y.op == "get" and y.a[0] is sym("p:indices"):
                fs += [le(zero(), y), le(add(y, P), nc)]
        safe(c, w + "::CreatePatchesFromIndices", r, fs,
             only=lambda x: x is e)


def any_element(v, i):
    """an element of the sequence and the conditions that it is one"""
    if v.op == "map":
        return get(v, i, "i"), [lt(i, v.a[0])]
    if v.op == "flat":
        body = t.subst(v.a[2], {t.bv(v.a[1]): i})
        fs = [lt(i, v.a[0])]
        while body.op == "ite":
            if length(body.a[1]) is zero():
                fs.append(not_(body.a[0]))
                body = body.a[2]
            elif length(body.a[2]) is zero():
                fs.append(body.a[0])
                body = body.a[1]
            else:
                return None
        if body.op == "seq" and len(body.a) == 1:
            return body.a[0], fs
    return None


def patches(n, nb, P):
    k = t.fresh("k", "i")
    return smap(n, k, matrix(nb, P, lambda i, j: mk(
        "cell", get(sym("p:patches"), k), i, j, ty="f")))


def match(c, k, mode, sp):
    w = "%s: ComparisonPatchesSelector::FindMostOptimalDegPatches" % mode
    P = C(20 if sp else 30)
    nb, nc, spec = spectro("deg")
    r = k.method(k.selector, "FindMostOptimalDegPatches",
                 args=[None, None, spec, None, None],
                 names="patches indices spec frame radius".split())
    ok = result_ok(r.ret)
    np_, ni = length(sym("p:patches")), length(sym("p:indices"))
    c.implies("no reference patch is an error", w, [ok, eq(np_, ni)],
              lt(zero(), np_), note="success")
    first = [e for e in r.ev("index") if e.args[0] is sym("p:patches") and
             e.args[1] is zero()]
    for e in first:
        c.implies(SAFE["index"], w, [e.cond], lt(zero(), np_), loc=e.loc,
                  note="first patch")
    # one reference patch that starts too late
    i0 = num("index", "i", True)
    r = k.method(k.selector, "FindMostOptimalDegPatches",
                 args=[patches(one(), nb, P), seq(i0), spec, None, None],
                 names="patches indices spec frame radius".split())
    ok = unroll(result_ok(r.ret), 1)
    half = t.idiv(P, C(2))
    late = lt(add(nc, half), i0)
    c.implies("a degraded signal too short for any patch is an error", w,
              [late, lt(zero(), nc)], not_(ok), note="failure")
    safe(c, w, r, [late, lt(zero(), nc)], kinds=("index",), sub=lambda v:
         unroll(v, 1), only=lambda e: not e.loops)
    # a patch that cannot be reached from within the search radius
    R = sym("p:radius", "i")
    out = le(add(nc, mul(R, P)), i0)
    facts = [out, le(zero(), R), lt(zero(), nc)]
    c.implies("a patch without any candidate is an error", w, facts,
              not_(tidy(ok, facts)), note="failure")


def unroll(v, n):
    """trip counts of loops over n elements"""
    m = {}
    for x in t.subterms(v):
        if x.op == "trip" and not t.freebv(x):
            r = C(n)
            for j in range(n - 1, -1, -1):
                p = t.subst(x.a[1], {t.bv(x.a[0]): C(j)})
                r = ite(p, r, C(j))
            last = t.subst(x.a[1], {t.bv(x.a[0]): C(n)})
            if last is FALSE:
                m[x] = r
    return t.subst(v, m) if m else v
