from common import *
from program import walk

TECHNIQUE = "abstract interpretation of main, the command line parser, the " \
    "manager and the writer to value graphs, flags as symbols, 16 " \
    "configurations; comparison with the documented effect of each option"
EXPLANATION = "main is interpreted symbolically end to end for every " \
    "combination of the mode options (flags symbolic otherwise; file loading, " \
    "alignment and the comparison itself opaque). Rules: paths loaded, " \
    "refusal conditions, arguments of the comparison, model path handed to " \
    "the model loader, kind and scale of the mapper, arguments and files of " \
    "the writer, printed values under verbosity, default values of the flags."

SP, AU = SP_MODEL, AU_MODEL

BATCH = sym("flag:batch_input_csv")
REF = sym("flag:reference_file")
DEG = sym("flag:degraded_file")
MODEL = sym("flag:similarity_to_quality_model")
READ = "Visqol::VisqolCommandLineParser::ReadFilesToCompare"
WRITE = "Visqol::SimilarityResultsWriter::Write"

DEFAULTS = dict(reference_file="", degraded_file="", batch_input_csv="",
                results_csv="", verbose=0, output_debug="",
                similarity_to_quality_model="", use_speech_mode=0,
                use_lattice_model=1, use_unscaled_speech_mos_mapping=0,
                search_window_radius=60, disable_global_alignment=0,
                disable_realignment=0)


empty = str_empty


def exists(x):
    return mk("exists", x, ty="b")


def check(c):
    for cfg in configs():
        n = "main (%s)" % cname(*cfg)

        @c.rule("wiring", n, 200)
        def _():
            wiring(c, n, *cfg)

    parse(c)
    pairs(c)
    writer(c)
    defaults(c)


def run_main(c, speech, unscaled, lattice):
    fl = {"use_speech_mode": boolean(speech),
          "use_lattice_model": boolean(lattice),
          "use_unscaled_speech_mos_mapping": boolean(unscaled)}
    s = c.session(None, opaque=opq("ReadFilesToCompare", WRITE, *STAGES),
                  flags=fl, snap=STAGES[:1])
    return s, s.call("main", names=["argc", "argv"])


def path_of(v):
    """path loaded by a LoadAsMono call term"""
    if v.op == "call" and v.a[0] == STAGES[2]:
        return getfield(v.a[1], "path_")
    return None


def wiring(c, n, speech, unscaled, lattice):
    s, r = run_main(c, speech, unscaled, lattice)
    cs = comparisons(c, s, r)
    if len(cs) != 1:
        raise Skip("%d comparison calls" % len(cs))
    k = cs[0]
    single = [k.cond, empty(BATCH)]
    batch = [k.cond, not_(empty(BATCH))]
    noal = sym("flag:disable_global_alignment", "b")
    loads = r.ev("call", STAGES[2])
    for e in loads:
        c.implies("no batch file: only existing inputs are scored", n,
                  [e.cond, empty(BATCH)], and_(exists(REF), exists(DEG)),
                  loc=e.loc, note="file loaded")
        c.implies("a batch file must exist", n, [e.cond, not_(empty(BATCH))],
                  exists(BATCH), loc=e.loc, note="file loaded")
        if not speech:
            c.implies("a given audio model must exist", n,
                      [e.cond, not_(empty(MODEL))], exists(MODEL), loc=e.loc,
                      note="file loaded")
    for v, want, what in ((k.ref, REF, "reference"), (k.deg, DEG, "degraded")):
        for d in (False, True):
            if v is k.ref and d:
                continue
            x = t.assume1(v, noal, True) if v is k.deg else v
            x = t.assume1(x, k.cond, True)
            # a single pair
            y = t.assume1(x, empty(BATCH), True)
            p = path_of(y)
            if p is not None:
                c.eq("the single pair is what is compared", n + " " + what, p,
                     want, single, loc=k.e.loc, what="the path")
            y = t.assume1(x, empty(BATCH), False)
            p = path_of(y)
            if p is not None and k.e.loops:
                lst = mk("call", READ, rec("Visqol::FilePath",
                                           {"path_": BATCH}))
                w = getfield(getfield(get(lst, k.e.loops[-1][0]), what),
                             "path_")
                c.eq("a batch file replaces the single pair",
                     n + " " + what, p, w, batch, loc=k.e.loc,
                     what="the path")
    for e in r.ev("call", READ):
        c.implies("only a batch file is read as one", n, [e.cond],
                  not_(empty(BATCH)), loc=e.loc, note="batch file read")
        c.eq("the batch file is the one named", n,
             getfield(e.args[0], "path_"), BATCH, [e.cond], loc=e.loc,
             what="the path")
    c.eq("the search radius reaches the comparison", n, k.radius,
         sym("flag:search_window_radius", "i"), [k.cond], loc=k.e.loc,
         what="search_window")
    c.eq("disable_realignment reaches the comparison", n, k.noreal,
         sym("flag:disable_realignment", "b"), [k.cond], loc=k.e.loc,
         what="disable_realignment")
    ga = r.ev("call", STAGES[1])
    if not ga:
        c.violated("global alignment unless disabled", n,
                   "alignment is never reached")
    for e in ga:
        c.implies("no global alignment when disabled", n, [e.cond],
                  not_(noal), loc=e.loc, note="alignment reached")
    c.implies("global alignment unless disabled", n, [k.cond, not_(noal)],
              or_(*[e.cond for e in ga]), loc=k.e.loc,
              note="comparison without alignment")
    if ga:
        a = mk("call", ga[0].name, *ga[0].args)
        c.eq("the aligned signal is compared", n, k.deg,
             ite(noal, ga[0].args[1], getfield(a, "0")), [k.cond],
             loc=k.e.loc, what="the degraded signal")
    mapper_rules(c, n, k, r.events, speech, unscaled, lattice, MODEL)
    ws = r.ev("call", WRITE)
    if len(ws) != 1:
        raise Skip("%d calls of Write" % len(ws))
    w = ws[0]
    fls = ("verbose", "results_csv", "output_debug")
    for i, fl in enumerate(fls):
        v = w.args[i]
        if i:
            v = getfield(v, "path_")
        c.eq("%s reaches the writer" % fl, n, v,
             sym("flag:" + fl, "b" if i == 0 else "o"), [w.cond], loc=w.loc,
             what=fl)
    c.eq("the mode reaches the writer", n, w.args[4], boolean(speech),
         [w.cond], loc=w.loc, what="the mode")
    c.eq("the model kind reaches the writer", n, w.args[5], boolean(lattice),
         [w.cond], loc=w.loc, what="the model kind")


def parse(c):
    w = "VisqolCommandLineParser::Parse"
    for speech in (False, True):
        n = "%s (%s mode)" % (w, "speech" if speech else "audio")

        @c.rule("refusals", n)
        def _():
            r = c.run(w.replace("Visq", "Visqol::Visq", 1),
                      names=["argc", "argv"],
                      flags={"use_speech_mode": boolean(speech)})
            dm = mk("strcat", sym("cwd"), t.s(SP if speech else AU))
            for x in t.subterms(r.ret):
                if x.op == "strcat" and x.a[-1].op == "str" and \
                        x.a[-1].a[0] == (SP if speech else AU):
                    dm = x
            ok = ite(empty(BATCH), and_(exists(REF), exists(DEG)),
                     exists(BATCH))
            mod = exists(dm)
            if not speech:
                mod = ite(empty(MODEL), exists(dm), exists(MODEL))
            else:
                mod = or_(not_(empty(MODEL)), exists(dm))
            c.eq("refused exactly for missing files", n, result_ok(r.ret),
                 and_(ok, mod), [not_(empty(dm))], what="success")
            c.eq("refused with InvalidArgument", n, error_code(r.ret),
                 INVALID, [not_(result_ok(r.ret)), not_(empty(dm))],
                 what="the status code")


def pairs(c):
    w = "VisqolCommandLineParser::BuildFilePairPaths"

    @c.rule("pairs", w)
    def _():
        r = c.run("Visqol::" + w, names=["args"],
                  opaque=opq("ReadFilesToCompare"))
        a = sym("p:args")
        b = getfield(getfield(a, "batch_input_csv"), "path_")
        ref = getfield(getfield(a, "reference_signal_path"), "path_")
        deg = getfield(getfield(a, "degraded_signal_path"), "path_")
        facts = [empty(b), exists(ref), exists(deg)]
        c.eq("one pair without a batch file", w, length(r.ret), one(), facts,
             what="the number of pairs")
        p = get(t.assume1(r.ret, and_(*facts), True), zero())
        c.eq("the pair's reference", w,
             getfield(getfield(p, "reference"), "path_"), ref, facts,
             what="the path")
        c.eq("the pair's degraded", w,
             getfield(getfield(p, "degraded"), "path_"), deg, facts,
             what="the path")


def writer(c):
    w = "SimilarityResultsWriter::Write"

    @c.rule("files", w)
    def _():
        r = c.run(WRITE, names="verbose csv json msg speech lattice".split())
        verbose = sym("p:verbose", "b")
        paths = {k: getfield(sym("p:" + k), "path_") for k in ("csv", "json")}
        seen = {}
        for e in r.ev("wrote"):
            kind_ = None
            for x in t.subterms(e.args[2]):
                if x.op == "json":
                    kind_ = "json"
            kind_ = kind_ or "csv"
            seen[kind_] = seen.get(kind_, []) + [e]
            c.eq("the %s output goes to its own path" % kind_, w, e.args[0],
                 paths[kind_], loc=e.loc, what="the path")
            c.implies("%s is written only when asked for" % kind_, w,
                      [e.cond], not_(empty(paths[kind_])), loc=e.loc,
                      note="file written")
        for k in paths:
            fail = mk("jsonok", sym("p:msg"), ty="b") if k == "json" else TRUE
            c.implies("%s is written when asked for" % k, w,
                      [not_(empty(paths[k])), fail],
                      or_(*[e.cond for e in seen.get(k, ())]),
                      note="nothing written")
        msg = sym("p:msg")
        pr = r.ev("print")
        det = [e for e in pr if any(
            t.mentions(a, getfield(msg, x)) for a in e.args
            for x in ("fvnsim", "patch_sims"))]
        for e in det:
            c.implies("details are printed only when verbose", w, [e.cond],
                      verbose, loc=e.loc, note="details printed")
        for x in ("fvnsim", "patch_sims"):
            c.implies("details are printed when verbose", w + " " + x,
                      [verbose],
                      or_(*[e.cond for e in det if any(
                          t.mentions(a, getfield(msg, x)) for a in e.args)]),
                      note="not printed")
        c.implies("the score is always printed", w, [], or_(*[
            e.cond for e in pr if any(
                t.mentions(a, getfield(msg, "moslqo", "f"))
                for a in e.args)]), note="not printed")


def defaults(c):
    for name, want in sorted(DEFAULTS.items()):
        w = "--" + name

        @c.rule("flag defaults", w)
        def _():
            f = c.fn("AbslFlagDefaultGenFor%s::Gen" % name)
            got = None
            for x in walk(f["body"]):
                if x.get("k") != "New":
                    continue
                i = x.get("init") or {}
                if "cv" in i:
                    got = int(i["cv"])
                for y in walk(i):
                    if got is None and y.get("k") == "Str":
                        got = y["v"]
            if got is None:
                raise Skip("default not found")
            c.ok(got == want, "documented default", w,
                 "default is %r, documented %r" % (got, want))
