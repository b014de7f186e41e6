from common import *

TECHNIQUE = "typestate by abstract interpretation to value graphs: fresh, " \
    "initialised and failed states of VisqolManager, all configurations"
EXPLANATION = "A default-constructed VisqolManager and one on which Init was " \
    "called (from an arbitrary earlier state, 8 configurations) are " \
    "interpreted symbolically through Init and both Run overloads with all " \
    "helpers inlined. Rules: a fresh manager and one whose last Init failed " \
    "return Aborted and reach no load, alignment or comparison call; Init " \
    "succeeds only with the model loader's result non-null; after a " \
    "successful Init no failure of Run carries Aborted unless a later step " \
    "itself returned it and the comparison call is reached for valid signals."


def check(c):
    api(c)
    for by_path in (False, True):
        w = "VisqolManager::Run(%s)" % ("paths" if by_path else "signals")

        @c.rule("fresh", w)
        def _():
            s = c.session(MGR, opaque=opq(*STAGES))
            s.set_this(s.I.default_construct(MGR))
            r = s.call(run_overload(c, by_path), names=["ref", "deg"])
            c.implies("a fresh instance fails", w, [], not_(result_ok(r.ret)),
                      note="Run succeeds without Init")
            c.eq("a fresh instance gives Aborted", w, error_code(r.ret),
                 ABORTED, what="the status code")
            work(c, "a fresh instance does no work", w, r, FALSE)

        for cfg in configs():
            n = "%s after Init (%s)" % (w, cname(*cfg))

            @c.rule("failed Init", n)
            def _():
                s, i = init_manager(c, *cfg)
                ok = result_ok(i.ret)
                r = s.call(run_overload(c, by_path), names=["ref", "deg"])
                c.implies("no result after a failed Init", n, [not_(ok)],
                          not_(result_ok(r.ret)), note="Run succeeds")
                c.eq("Aborted after a failed Init", n, error_code(r.ret),
                     ABORTED, [not_(ok)], what="the status code")
                work(c, "no work after a failed Init", n, r, ok)
                usable(c, n, r, ok, by_path)

    for cfg in configs():
        n = "VisqolManager::Init (%s)" % cname(*cfg)

        @c.rule("model loaded", n)
        def _():
            s, i = init_manager(c, *cfg)
            ok = result_ok(i.ret)
            speech, _u, lattice = cfg
            if speech and not lattice:
                # the exponential mapping needs no model
                c.implies("Init succeeds without a model", n, [], ok,
                          note="Init fails")
                return
            load = "BuildFromFile" if speech else "svm_load_model"
            es = [e for e in i.events if e.kind == "call" and
                  e.name.split("::")[-1] == load]
            if not es:
                c.violated("Init loads the model", n,
                           "no call of %s is reachable" % load)
                return
            got = or_(*[and_(e.cond, not_(eq(mk("call", e.name, *e.args),
                                             NULL))) for e in es])
            c.implies("Init succeeds only with a loaded model", n, [ok], got,
                      loc=es[0].loc, note="Init succeeds")


def work(c, rule, where, r, allowed):
    """no event of a scoring step unless allowed"""
    n = 0
    for e in r.events:
        if e.kind == "call" and e.name in STAGES:
            n += 1
            c.implies(rule, where, [e.cond], allowed, loc=e.loc,
                      note="%s reached" % e.name)
    if not n:
        c.ok(allowed is FALSE, rule, where, "no comparison is ever reached")


def usable(c, where, r, ok, by_path):
    if by_path:
        es = r.ev("call", "LoadAsMono")
        for e in es:
            c.eq("files are loaded after a successful Init", where, e.cond,
                 TRUE, [ok], loc=e.loc, what="the condition")
        if len(es) != 2:
            return
        ref, deg = [mk("call", e.name, *e.args) for e in es]
    else:
        ref, deg = sym("p:ref"), sym("p:deg")
    facts = [ok, eq(sig_rate(ref), sig_rate(deg))]
    for x in (ref, deg):
        facts += nonempty(x) + [lt(zero(), sig_rate(x))]
    es = r.ev("call", "CalculateSimilarity")
    if len(es) != 1:
        raise Skip("%d comparison calls" % len(es))
    c.implies("initialised instances compare valid signals", where, facts,
              es[0].cond, loc=es[0].loc, note="comparison refused")


def api(c):
    w = "VisqolApi::Measure after a refused VisqolApi::Create"

    @c.rule("refused Create", w)
    def _():
        s = c.session(API, opaque=opq(*STAGES))
        r1 = s.call(API + "::Create", names=["config"])
        ok = result_ok(r1.ret)
        r2 = s.call(API + "::Measure", names=["ref", "deg"])
        c.implies("no result after a refused Create", w, [not_(ok)],
                  not_(result_ok(r2.ret)), note="Measure succeeds")
        c.eq("Aborted after a refused Create", w, error_code(r2.ret),
             ABORTED, [not_(ok)], what="the status code")
        work(c, "no work after a refused Create", w, r2, ok)

    w2 = "VisqolApi::Measure without VisqolApi::Create"

    @c.rule("fresh session", w2)
    def _():
        s = c.session(API, opaque=opq(*STAGES))
        s.set_this(s.I.default_construct(API))
        r = s.call(API + "::Measure", names=["ref", "deg"])
        c.eq("Aborted on a fresh session", w2, error_code(r.ret), ABORTED,
             what="the status code")
        work(c, "no work on a fresh session", w2, r, FALSE)
