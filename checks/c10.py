from common import *

TECHNIQUE = "abstract interpretation to value graphs; failure conditions of " \
    "the loader and of Run as boolean terms decided by case distinction"
EXPLANATION = "VisqolManager::Run (both overloads, loader opaque) and " \
    "MiscAudio::LoadAsMono (WavReader opaque) are interpreted symbolically. " \
    "Rules: an empty signal on either side makes Run fail and makes the " \
    "comparison unreachable; the loader returns an empty signal whenever the " \
    "file does not open, the header is invalid, there are no samples or none " \
    "was read; what a successful Run(paths) compares are the two loaded files."

LOAD = "Visqol::MiscAudio::LoadAsMono"


def wav(q, f):
    return q.startswith("Visqol::WavReader::")


def check(c):
    for by_path, mode in itertools.product((False, True), MODES):
        w = "VisqolManager::Run(%s), %s" % (
            "paths" if by_path else "signals", mode)
        for side in (0, 1):
            @c.rule("empty signals", w)
            def _():
                s, i = init_manager(c, *MODES[mode])
                r = s.call(run_overload(c, by_path), names=["ref", "deg"])
                if by_path:
                    x = loaded(r, side)
                else:
                    x = (sym("p:ref"), sym("p:deg"))[side]
                n = mul(sig_rows(x), sig_cols(x))
                what = "%s %s" % (w, ("reference", "degraded")[side])
                ok = result_ok(r.ret)
                c.implies("an empty signal is an error", what,
                          [ok], not_(eq(n, zero())), note="Run succeeds")
                for e in r.events:
                    if e.kind == "call" and e.name == STAGES[0]:
                        c.implies("an empty signal is not compared", what,
                                  [e.cond], not_(eq(n, zero())), loc=e.loc,
                                  note="comparison reached")

    w = "MiscAudio::LoadAsMono(path)"

    @c.rule("failed loads", w)
    def _():
        f = loader(c, True)
        r = c.run(f, names=["path"], opaque=wav)
        e = one_ev(r, "open", "ifstream")
        c.eq("the named file is opened", w, e.args[0],
             getfield(sym("p:path"), "path_"), loc=e.loc, what="the path")
        n = mul(sig_rows(r.ret), sig_cols(r.ret))
        full = not_(eq(n, zero()))
        c.implies("an unopened file gives an empty signal", w, [full],
                  mk("streamok", e.args[0], ty="b"), note="signal not empty")
        failed(c, w, r, full)

    w2 = "MiscAudio::LoadAsMono(stream)"

    @c.rule("failed loads", w2)
    def _():
        r = c.run(loader(c, False), names=["stream", "path"], opaque=wav)
        n = mul(sig_rows(r.ret), sig_cols(r.ret))
        failed(c, w2, r, not_(eq(n, zero())))


def loader(c, by_path):
    for f in c.find(LOAD):
        if ("FilePath" in f["params"][0]["t"]) == by_path:
            return f
    raise Skip("no LoadAsMono")


def loaded(r, side):
    es = r.ev("call", LOAD)
    if len(es) != 2:
        raise Skip("%d loads" % len(es))
    want = getfield(sym("p:" + ("ref", "deg")[side]), "path_")
    for e in es:
        a = e.args[0]
        if a is sym("p:" + ("ref", "deg")[side]) or \
                getfield(a, "path_") is want:
            return mk("call", e.name, *e.args)
    raise Skip("the load of the %s file is not found" %
               ("reference", "degraded")[side])


def value(e):
    a = e.args
    if e.kw.get("obj") is not None:
        a = (e.kw["obj"],) + a
    return a


def failed(c, w, r, full):
    hv = r.ev("call", "IsHeaderValid")
    rd = r.ev("call", "ReadSamples")
    if not hv:
        c.violated("an invalid header gives an empty signal", w,
                   "the header's validity is never asked for")
    else:
        c.implies("an invalid header gives an empty signal", w, [full],
                  or_(*[mk("call", e.name, *value(e), ty="b") for e in hv]),
                  loc=hv[0].loc, note="signal not empty")
    if rd:
        c.implies("no sample read gives an empty signal", w, [full],
                  or_(*[and_(e.cond, lt(zero(), mk("call", e.name, *value(e),
                                                   ty="i"))) for e in rd]),
                  loc=rd[0].loc, note="signal not empty")
    for e in rd:
        # the buffer read into holds what is asked for: see C17
        c.implies("samples are read only after a valid header", w, [e.cond],
                  or_(*[mk("call", h.name, *value(h), ty="b") for h in hv]),
                  loc=e.loc, note="ReadSamples reached")
