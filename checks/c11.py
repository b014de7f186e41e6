from common import *

TECHNIQUE = "abstract interpretation to value graphs (gated SSA), comparison " \
    "with the property's terms; refusal conditions as boolean terms"
EXPLANATION = "VisqolManager::Run (both overloads) and VisqolApi::Create are " \
    "interpreted symbolically with all private helpers inlined. Rules: under " \
    "differing sample rates the result is an InvalidArgument error and no " \
    "comparison call is reachable; Create is refused with InvalidArgument " \
    "exactly for missing audio info, rate <= 0, or a rate other than 48000 in " \
    "audio mode without the override."


def check(c):
    for by_path, mode in itertools.product((False, True), MODES):
        w = "VisqolManager::Run(%s), %s" % (
            "paths" if by_path else "signals", mode)

        @c.rule("rates", w)
        def _():
            s, _r = init_manager(c, *MODES[mode])
            okf = result_ok(_r.ret)
            f = run_overload(c, by_path)
            r = s.call(f, names=["ref", "deg"])
            if by_path:
                es = r.ev("call", "LoadAsMono")
                if len(es) != 2:
                    raise Skip("loads")
                ref = mk("call", es[0].name, *es[0].args)
                deg = mk("call", es[1].name, *es[1].args)
            else:
                ref, deg = sym("p:ref"), sym("p:deg")
            facts = [okf, not_(eq(sig_rate(ref), sig_rate(deg)))]
            for x in (ref, deg):
                facts += nonempty(x)
            c.implies("different sample rates are refused", w, facts,
                      not_(result_ok(r.ret)), note="Run succeeds")
            c.eq("different sample rates give InvalidArgument", w,
                 error_code(r.ret), INVALID, facts, what="the status code")
            for e in r.ev("call", "CalculateSimilarity"):
                c.implies("no comparison at different sample rates", w,
                          [okf, e.cond],
                          eq(sig_rate(ref), sig_rate(deg)), loc=e.loc,
                          note="comparison reached")

    @c.rule("create", "VisqolApi::Create")
    def _():
        f = c.fn(API + "::Create")
        r = c.run(f, names=["config"], opaque=opq(MGR + "::Init"))
        cfg = sym("p:config")
        has_audio = getfield(cfg, "has_audio", "b")
        rate = getfield(getfield(cfg, "audio"), "sample_rate", "i")
        has_opt = getfield(cfg, "has_options", "b")
        o = getfield(cfg, "options")
        speech = getfield(o, "use_speech_scoring", "b")
        over = getfield(o, "allow_unsupported_sample_rates", "b")
        # protobuf: absent messages read as defaults
        facts = [or_(has_opt, and_(not_(speech), not_(over))),
                 or_(has_audio, eq(rate, zero()))]
        accept = and_(has_audio, lt(zero(), rate),
                      or_(eq(rate, C(48000)), speech, over))
        init = [mk("call", e.name, *((e.kw["obj"],) + e.args if e.kw.get("obj")
                                     is not None else e.args))
                for e in r.ev("call", "Init")]
        if len(init) != 1:
            raise Skip("%d calls of VisqolManager::Init" % len(init))
        c.eq("accepted exactly for a supported rate", "VisqolApi::Create",
             result_ok(r.ret), and_(accept, result_ok(init[0])), facts,
             what="success")
        c.eq("refused with InvalidArgument", "VisqolApi::Create",
             error_code(r.ret), INVALID, facts + [not_(accept)],
             what="the status code")
        e = r.ev("call", "Init")[0]
        c.eq("initialised exactly for a supported rate", "VisqolApi::Create",
             e.cond, accept, facts, loc=e.loc, what="the condition")
