from common import *

TECHNIQUE = "abstract interpretation of VisqolApi::Create followed by " \
    "Measure to value graphs, comparison with the documented effect of each " \
    "option"
EXPLANATION = "An API session (Create then Measure, everything inlined down " \
    "to loading models, alignment and the comparison itself) is interpreted " \
    "for all combinations of the mode options and without options; other " \
    "options symbolic. Rules: model path handed to the model loader, kind " \
    "and scale of the mapper, arguments of the comparison (search radius, " \
    "realignment), sample values, sample rate and roles of both signals."


def check(c):
    for cfg in configs():
        n = "VisqolApi (%s)" % cname(*cfg)

        @c.rule("session", n)
        def _():
            session(c, n, cfg)
    n = "VisqolApi (no options)"

    @c.rule("session", n)
    def _():
        session(c, n, None)


def session(c, n, cfg):
    s = c.session(API, opaque=opq(*STAGES), snap=STAGES[:1])
    rate = num("rate", "i")
    model = sym("p:model")
    radius = num("radius", "i")
    over = num("override", "b")
    fields = {"has_audio": TRUE, "has_options": boolean(cfg is not None),
              "audio": rec("msg:A", {"sample_rate": rate})}
    if cfg is not None:
        sp, un, la = cfg
        fields["options"] = rec("msg:O", dict(
            use_speech_scoring=boolean(sp),
            use_unscaled_speech_mos_mapping=boolean(un),
            use_lattice_model=boolean(la), svr_model_path=model,
            allow_unsupported_sample_rates=over,
            search_window_radius=radius))
    else:
        sp = un = la = False
        model = over = None
        # what is read of an absent message is its defaults
        fields["options"] = rec("msg:O", dict(
            use_speech_scoring=FALSE, use_unscaled_speech_mos_mapping=FALSE,
            use_lattice_model=FALSE, svr_model_path=t.s(""),
            allow_unsupported_sample_rates=FALSE,
            search_window_radius=zero()))
    r1 = s.call(API + "::Create", [rec("Visqol::VisqolConfig", fields)])
    ok = result_ok(r1.ret)
    r = s.call(API + "::Measure", names=["ref", "deg"])
    cs = comparisons(c, s, r)
    if len(cs) != 1:
        raise Skip("%d comparison calls" % len(cs))
    k = cs[0]
    facts = [ok, k.cond]
    # the override works for every rate, speech mode too
    if over is not None:
        acc = and_(lt(zero(), rate), or_(eq(rate, C(48000)), over,
                                         boolean(sp)))
    else:
        acc = and_(lt(zero(), rate), eq(rate, C(48000)))
    c.implies("only accepted sample rates are compared", n, [k.cond, ok],
              acc, loc=k.e.loc, note="comparison reached")
    want = C(60)
    if cfg is not None:
        want = ite(eq(radius, zero()), C(60), radius)
    c.eq("the search radius reaches the comparison", n, k.radius, want, facts,
         loc=k.e.loc, what="search_window")
    c.eq("realignment stays enabled", n, k.noreal, FALSE, facts, loc=k.e.loc,
         what="disable_realignment")
    ga = r.ev("call", STAGES[1])
    if not ga:
        c.violated("global alignment stays enabled", n, "never reached")
    deg = None
    for e in ga:
        c.implies("global alignment stays enabled", n, facts, e.cond,
                  loc=e.loc, note="comparison without alignment")
        call = mk("call", e.name, *e.args)
        c.eq("the aligned signal is compared", n, k.deg, getfield(call, "0"),
             facts, loc=k.e.loc, what="the degraded signal")
        deg = e.args[1]
        samples(c, n, "reference", e.args[0], rate, facts, e)
    samples(c, n, "reference", k.ref, rate, facts, k.e)
    if deg is not None:
        samples(c, n, "degraded", deg, rate, facts, k.e)
    mapper_rules(c, n, k, r1.events, sp, un, la, model)


def samples(c, n, what, v, rate, facts, e):
    x = sym("p:" + what[:3])
    m = getfield(getfield(v, "data_matrix"), "matrix_")
    i = num("i", "i", True)
    v = t.assume1(v, and_(*facts), True)
    m = getfield(getfield(v, "data_matrix"), "matrix_")
    c.eq("the %s samples are compared" % what, n, t.rows(m), length(x),
         facts, loc=e.loc, what="the number of samples")
    c.eq("the %s samples are compared" % what, n, t.at(m, i, zero()),
         get(x, i, "f"), facts + [lt(i, length(x))], loc=e.loc,
         what="sample i")
    c.eq("one channel", n + " " + what, t.cols(m), one(), facts, loc=e.loc,
         what="the number of channels")
    c.eq("the configured sample rate is used", n + " " + what,
         getfield(v, "sample_rate", "i"), rate, facts, loc=e.loc,
         what="the sample rate")
