from common import *

TECHNIQUE = "abstract interpretation: the batch reader as a closed form over " \
    "the file's text, the comparison loop as a family of calls over the pairs"
EXPLANATION = "ReadFilesToCompare is interpreted to a value graph over the " \
    "text of the batch file and compared with the documented rows; " \
    "BuildFilePairPaths and main are interpreted with the stages opaque. " \
    "Rules: exactly one Run per pair, on that pair's paths, whatever the other " \
    "pairs' outcomes; Write exactly for the successful ones."

PARSER = "Visqol::VisqolCommandLineParser::"


def check(c):
    w = "VisqolCommandLineParser::ReadFilesToCompare"

    @c.rule("batch file", w)
    def _():
        r = c.run(PARSER + "ReadFilesToCompare", names=["path"],
                  obligations=True)
        path = getfield(sym("p:path"), "path_")
        got = t.subst(r.ret, {mk("streamok", path, ty="b"): TRUE})
        c.eq("every complete row gives its pair, in order", w, got,
             rows(mk("filetext", path)), what="the pairs")
        safe(c, w, r)

    for name, lines, pairs in FILES:
        small(c, w, name, lines, pairs)

    w2 = "VisqolCommandLineParser::BuildFilePairPaths"

    @c.rule("the pairs of a batch file are compared", w2)
    def _():
        r = c.run(PARSER + "BuildFilePairPaths", names=["args"],
                  opaque=opq("ReadFilesToCompare"))
        b = getfield(sym("p:args"), "batch_input_csv")
        e = one_ev(r, "call", PARSER + "ReadFilesToCompare")
        given = not_(eq(length(getfield(b, "path_")), zero()))
        c.eq("the pairs of a batch file are compared", w2, r.ret,
             mk("call", e.name, b), [given], what="the pairs")

    @c.rule("comparison loop", "main")
    def _():
        loop(c)


# Lines of batch files, whose paths are labels for any path without a comma or
# an end of line, and the pairs that such a file lists.
FILES = [
    ("a row with a single path", ["reference,degraded", "a,b", "c", "d,e"],
     ["ab", "de"]),
    ("rows that end in CR LF", ["reference,degraded\r", "a,b\r", "c,d\r"],
     ["ab", "cd"]),
    ("blank rows", ["reference,degraded", "", "a,b", "\r", "", "c,d", ""],
     ["ab", "cd"]),
    ("a row with more columns", ["reference,degraded,x", "a,b,c", "d,e"],
     ["ab", "de"]),
    ("no rows", ["reference,degraded"], []),
    ("no header", [], []),
]


def small(c, w, name, lines, pairs):
    """the pairs of a file of a given shape"""
    @c.rule("pairs of a file with " + name, w)
    def _():
        path = getfield(sym("p:path"), "path_")

        def setup(I):
            I.unroll = 12
            I.files = {path: mk("text", C(10), *[t.s(x) for x in lines])}
        f = c.fn(PARSER + "ReadFilesToCompare")
        r = c.session(f.get("cls"), setup=setup).call(f, names=["path"])
        fp = lambda x: rec("Visqol::FilePath", {"path_": t.s(x)})
        want = seq(*[rec("Visqol::ReferenceDegradedPathPair",
                         {"reference": fp(a), "degraded": fp(b)})
                     for a, b in pairs])
        got = t.subst(r.ret, {mk("streamok", path, ty="b"): TRUE})
        c.eq("pairs of a file with " + name, w, got, want, what="the pairs")


def rows(text):
    """the documented pairs of a batch file with this text"""
    lines = mk("split", text, C(10))
    first = ite(le(one(), length(lines)), one(), zero())
    k = t.fresh("k", "i")
    s = get(lines, add(first, k))
    cr = and_(not_(eq(length(s), zero())),
              eq(get(s, sub(length(s), one()), "i"), C(13)))
    s = ite(cr, t.sslice(s, zero(), sub(length(s), one())), s)
    items = mk("split", s, C(44))
    fp = lambda i: rec("Visqol::FilePath", {"path_": get(items, C(i))})
    pair = rec("Visqol::ReferenceDegradedPathPair",
               {"reference": fp(0), "degraded": fp(1)})
    body = ite(eq(length(s), zero()), seq(),
               ite(le(C(2), length(items)), seq(pair), seq()))
    return t.flat(t.mnx("max", zero(), sub(length(lines), first)), k, body)


def loop(c):
    f = c.fn("main")
    r = c.run(f, opaque=opq("Parse", "BuildFilePairPaths", "Init", "Run",
                            "Write"),
              setup=lambda I: setattr(I, "pure", ("Run",)))
    RUN, WRITE = MGR + "::Run", "Visqol::SimilarityResultsWriter::Write"
    b = one_ev(r, "call", PARSER + "BuildFilePairPaths")
    p = one_ev(r, "call", PARSER + "Parse")
    i = one_ev(r, "call", MGR + "::Init")
    pairs = mk("call", b.name, *b.args)
    n = length(pairs)
    runs = r.ev("call", RUN)
    if not runs:
        raise Skip("Run is not called")
    good = [okp(mk("call", p.name, *p.args)),
            st_ok(mk("call", i.name, i.kw["obj"], *i.args))]

    def never(v):
        """no comparison of an initialised manager is aborted: see C09"""
        def f(x):
            if x.op == "eq" and any(
                    y.op == "stcode" and any(z.op == "call" and z.a[0] == RUN
                                             for z in t.subterms(y))
                    for y in t.subterms(x)):
                k, d = t.parts(x.a[0])
                if len(d) == 1 and abs(k) == 10:
                    return FALSE
        return rewrite(v, f)

    total = zero()
    for e in runs:
        w = "main: Run"
        if len(e.loops) != 1:
            c.undecided("every pair is compared", w, "Run in %d loops" %
                        len(e.loops), e.loc)
            return
        k, N = e.loops[0]
        c.eq("every pair is compared", w, never(N), n, good, loc=e.loc,
             what="the number of comparisons")
        facts = good + [le(zero(), k), lt(k, n)]
        cond = never(e.cond)
        total = add(total, ite(t.subst(cond, {k: sym("k", "i")}), one(),
                               zero()))
        of = get(pairs, k)
        for j, side in enumerate(("reference", "degraded")):
            c.eq("the pair's %s file is the comparison's" % side, w, e.args[j],
                 getfield(of, side), [cond] + facts, loc=e.loc,
                 what="the %s path" % side)
        # what is written
        done = mk("call", RUN, e.kw["obj"], *e.args)
        if len(runs) == 1:
            ws = r.ev("call", WRITE)
            if not ws:
                c.violated("successful comparisons are written out", "main",
                           "Write is never called", e.loc)
            if len(ws) == 1 and len(ws[0].loops) == 1:
                x = ws[0]
                kk, M = x.loops[0]
                back = lambda v: never(t.subst(v, {kk: k}))
                c.eq("successful comparisons are written out", "main: Write",
                     back(M), n, good, loc=x.loc, what="the number of pairs")
                c.eq("successful comparisons are written out", "main: Write",
                     back(x.cond), okp(done), facts, loc=x.loc,
                     what="the condition")
                c.eq("the pair's own result is written", "main: Write",
                     back(x.args[3]), sorv(done), facts + [okp(done)],
                     loc=x.loc, what="the result")
            else:
                c.undecided("successful comparisons are written out", "main",
                            "%d calls of Write" % len(ws))
    k = sym("k", "i")
    c.eq("every pair is compared exactly once", "main: Run", total, one(),
         good + [le(zero(), k), lt(k, n)], what="the number of comparisons")
