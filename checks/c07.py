from common import *
import re

TECHNIQUE = "abstract interpretation of the results writer to the sequence " \
    "of tokens it writes, header and row compared column by column"
EXPLANATION = "SimilarityResultsWriter::Write is interpreted on a symbolic " \
    "message (all paths, the file existing or not, 1, 2, 21 and 32 bands) to " \
    "the exact token sequence written to each file. Rules: every column of " \
    "the row holds the quantity its header names, the header is written " \
    "exactly when the file does not exist, files are opened for appending, " \
    "one line per comparison in the CSV and one object in the JSON file, " \
    "nothing without a path; main writes each comparison's result once."

WRITE = "Visqol::SimilarityResultsWriter::Write"
FIELDS = ("reference_filepath", "degraded_filepath", "moslqo", "vnsim",
          "fvnsim", "fvnsim10", "fstdnsim", "fvdegenergy",
          "center_freq_bands", "patch_sims", "alignment_lag_s")
LISTS = FEATURES + ("center_freq_bands",)
PLAIN = {"reference": "reference_filepath", "degraded": "degraded_filepath"}
BANDS = (1, 2, 21, 32)


def check(c):
    w = "SimilarityResultsWriter::Write"
    for n in BANDS:
        @c.rule("CSV", "%s (%d bands)" % (w, n))
        def _():
            asked(c, csv, "%s (%d bands)" % (w, n), n)

    @c.rule("JSON", w)
    def _():
        asked(c, json_, w)
    main_(c)


def asked(c, f, w, *args):
    try:
        f(c, w, *args)
    except Elsewhere as x:
        e, cond = x.args
        c.violated("written exactly when asked for", w, "the file %s is "
                   "written under %s" % (t.show(e.args[0], 4),
                                         t.show(cond, 7)), e.loc)


def message(n):
    d = {}
    for f in FIELDS:
        if f in LISTS:
            d[f] = seq(*[sym("%s[%d]" % (f, i), "f") for i in range(n)])
        elif f == "patch_sims":
            d[f] = sym("p:patches")
        else:
            d[f] = sym(f, "o" if "filepath" in f else "f")
    return rec("Visqol::SimilarityResultMsg", d)


def run_write(c, n):
    f = c.fn(WRITE)
    if len(f["params"]) != 6:
        raise Skip("Write has %d parameters" % len(f["params"]))
    m = message(n)
    r = c.run(f, args=[None, None, None, m, None, None],
              names="verbose csv json msg speech lattice".split())
    return r, m


PATH = {k: getfield(sym("p:" + k), "path_") for k in ("csv", "json")}


class Elsewhere(Exception):
    """written, but not exactly when asked for"""


def writes(r, path, *facts):
    """what is written to the file of the path where the facts hold"""
    fs = and_(*facts)
    out = []
    for e in r.ev("wrote"):
        p = t.assume1(e.args[0], fs, True)
        if p is not path:
            continue
        cond = t.assume1(e.cond, fs, True)
        if cond is FALSE:
            continue
        if cond is not TRUE:
            for a in t.subterms(cond):
                if a.op == "eq" and any(t.mentions(a, length(p))
                                        for p in PATH.values()):
                    raise Elsewhere(e, cond)
            if not all(a.op in ("streamok", "sym", "field") for a in
                       t.conditions(cond)):
                raise Skip("written under %s" % t.show(cond, 6))
        out.append((e, t.assume1(e.args[2], fs, True)))
    return out


def tokens(v):
    if v.op == "seq":
        return list(v.a)
    if v.op == "cat":
        return [x for p in v.a for x in tokens(p)]
    if v.op in ("flat", "map") and v.a[0].op == "c" and v.a[0].a[0] < 100:
        out = []
        for i in range(int(v.a[0].a[0])):
            b = t.subst(v.a[2], {t.bv(v.a[1]): C(i)})
            out += tokens(b) if v.op == "flat" else [b]
        return out
    if v.op == "ite" and v.a[0].op == "c":
        return tokens(v.a[1] if v.a[0] is TRUE else v.a[2])
    raise Skip("content not resolved: %s" % t.show(v, 6))


def text(x):
    if x.op == "str":
        return x.a[0]
    if x.op == "c" and x.ty == "i":
        return str(int(x.a[0]))
    return None


def lines(toks):
    """lines of columns of pieces (strings joined)"""
    out, col, row = [], [], []
    for x in toks:
        s = text(x)
        if x.op == "strcat":
            s = [text(y) for y in x.a]
            if None in s:
                raise Skip("token %s" % t.show(x, 5))
            s = "".join(s)
        if s is None:
            col.append(x)
            continue
        for p in re.split("([,\n])", s):
            if p == ",":
                row.append(col)
                col = []
            elif p == "\n":
                row.append(col)
                out.append(row)
                col, row = [], []
            elif p:
                if col and isinstance(col[-1], str):
                    col[-1] += p
                else:
                    col.append(p)
    if col or row:
        row.append(col)
        out.append(row + [None])     # no end of line
    return out


def fields_of(name):
    """the (message field, index) a header may name"""
    if name in PLAIN:
        return [(PLAIN[name], None)]
    out = []
    for f in FIELDS:
        if f not in LISTS:
            if name == f:
                out.append((f, None))
        elif name.startswith(f):
            d = name[len(f):].lstrip("_[").rstrip("]")
            if d.isdigit():
                out.append((f, int(d)))
    return out


def shown(p):
    return p if isinstance(p, str) else t.show(p, 5)


def holds(col, want):
    if len(col) != 1 or isinstance(col[0], str):
        return False
    x = col[0]
    if x.op == "num":
        x = x.a[0]
    return x is want


def csv(c, w, n):
    r, m = run_write(c, n)
    asked = not_(str_empty(PATH["csv"]))
    ex = mk("exists", PATH["csv"], ty="b")
    hdr = None
    for there in (False, True):
        ws = writes(r, PATH["csv"], asked, ex if there else not_(ex))
        if not ws:
            c.violated("every comparison adds a line", w,
                       "nothing is written to the CSV file when it %s" %
                       ("exists" if there else "does not exist"))
            return
        loc = ws[0][0].loc
        toks = [x for _e, v in ws for x in tokens(v)]
        ls = lines(toks)
        need = 1 if there else 2
        c.ok(len(ls) == need and all(x[-1] is not None for x in ls),
             "each comparison adds exactly one line" if there else
             "the header is written exactly for a new file", w,
             "%d line(s)%s are written to a file that %s" % (
                 len(ls), "" if all(x[-1] is not None for x in ls) else
                 ", the last one unfinished", "exists" if there else
                 "does not exist"), loc)
        if len(ls) < need:
            return
        row = ls[-1]
        if not there:
            hdr = ls[0]
        names = []
        for col in hdr:
            names.append("".join(shown(p) for p in col or ()))
        c.ok(len(row) == len(hdr), "row and header have the same columns", w,
             "%d columns under %d headers" % (len(row), len(hdr)), loc)
        c.ok(len(set(names)) == len(names), "every header is distinct", w,
             "%s appears twice" % [x for x in names if names.count(x) > 1][:1],
             loc)
        d = dict(m.a[1])
        for k, (name, col) in enumerate(zip(names, row)):
            fs = fields_of(name)
            want = [d[f] if i is None else d[f].a[i] for f, i in fs
                    if i is None or i < n]
            if not want:
                c.put("violated" if fs else "undecided",
                      "every value stands under its name", w,
                      "header %r names no known quantity of %d bands" % (
                          name, n), loc)
                continue
            if col is None or not any(holds(col, x) for x in want):
                c.violated("every value stands under its name", w,
                           "the value under %r is %s, should be %s" % (
                               name, " ".join(shown(p) for p in col or ()),
                               " or ".join(t.show(x, 4) for x in want)), loc)
                return
        c.held("every value stands under its name", w,
               "%d columns" % len(names), loc)
        for x in ("reference", "degraded", "moslqo"):
            c.ok(x in names, "the documented columns are there", w,
                 "no column %r" % x, loc)
    appended(c, w, r, "csv")
    c.ok(not any(e.args[0] is PATH["csv"] and
                 t.assume1(e.cond, asked, False) is not FALSE
                 for e in r.ev("wrote") + r.ev("open", "ofstream")),
         "nothing is written without a path", w,
         "the CSV file is written though not asked for")


def appended(c, w, r, which):
    for e in r.ev("open", "ofstream"):
        p = e.args[0]
        if p is not PATH[which]:
            continue
        mode = e.args[1]
        if mode.op != "c":
            c.undecided("existing results are kept", w, "open mode %s" %
                        t.show(mode, 5), e.loc)
            continue
        b = int(mode.a[0])
        c.ok(b & 1 and not b & 32, "existing results are kept", w,
             "the %s file is opened with mode %d, not for appending" % (
                 which, b), e.loc)


def json_(c, w):
    r, m = run_write(c, 2)
    asked = not_(str_empty(PATH["json"]))
    good = None
    for e in r.ev("wrote"):
        for x in t.subterms(e.cond):
            if x.op == "jsonok":
                good = x
    ws = writes(r, PATH["json"], asked, *([good] if good is not None else []))
    if not ws:
        c.violated("every comparison adds an object", w,
                   "nothing is written to the debug file")
        return
    toks = [x for _e, v in ws for x in tokens(v)]
    objs = [x for x in toks if x.op == "json"]
    rest = [x for x in toks if x.op != "json" and
            (text(x) is None or text(x).strip())]
    loc = ws[0][0].loc
    c.ok(len(objs) == 1 and not rest, "each comparison adds exactly one object",
         w, "%d objects and %d other pieces are written" % (
             len(objs), len(rest)), loc)
    for x in objs:
        c.ok(x.a[0] is m, "the object is the whole message", w,
             "it is %s" % t.show(x.a[0], 4), loc)
    appended(c, w, r, "json")
    c.ok(not any(e.args[0] is PATH["json"] and
                 t.assume1(e.cond, asked, False) is not FALSE
                 for e in r.ev("wrote") + r.ev("open", "ofstream")),
         "nothing is written without a path", w,
         "the debug file is written though not asked for")


def main_(c):
    w = "main"

    @c.rule("one write per comparison", w)
    def _():
        s = c.session(None, opaque=opq("ReadFilesToCompare", WRITE,
                                       MGR + "::Run", MGR + "::Init"))
        r = s.call("main", names=["argc", "argv"])
        ws = r.ev("call", WRITE)
        rs = r.ev("call", MGR + "::Run")
        if len(rs) != 1 or len(rs[0].args) != 2:
            raise Skip("%d comparisons" % len(rs))
        c.ok(len(ws) == 1, "each comparison is written once", w,
             "%d writes for one comparison" % len(ws), rs[0].loc)
        e = rs[0]
        v = mk("call", e.name, *(((e.kw["obj"],) if e.kw.get("obj") is not None
                                  else ()) + e.args))
        for x in ws:
            c.eq("what is written is the comparison's result", w, x.args[3],
                 sorv(v), [x.cond], loc=x.loc, what="the message")
            c.ok(x.loops == e.loops, "each comparison is written once", w,
                 "the write is not in the loop of the comparison", x.loc)
