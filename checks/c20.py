from common import *
import assigned
import interp
import lib
import program
from c17 import broken, cut

TECHNIQUE = "definite-assignment dataflow over the syntax trees of all " \
    "functions and constructors; path conditions from value graphs where an " \
    "assignment depends on the path"
EXPLANATION = "Every local and every member of a type without a value of its " \
    "own is followed through every function and constructor (members in " \
    "declaration order, member functions called by constructors included). " \
    "A read no path has assigned before is a violation; where some paths do, " \
    "the function is interpreted and the condition under which the read sees " \
    "no value must be unsatisfiable. Header fields a short stream did not " \
    "fill count as without value."


def check(c):
    T = assigned.Types(c.P)
    reads = readers(c.P)
    locals_(c, T)
    members(c, T, reads)
    classes(c, T, reads)
    globals_(c)
    headers(c)


def short(q):
    return q.replace("Visqol::", "")


def readers(P):
    """(class, member) pairs that are read somewhere"""
    out = set()
    for f in P.fns.values():
        for part in (f.get("body"), f.get("inits")):
            if part:
                look(part, out, False)
    return out


def look(n, out, lhs):
    if isinstance(n, list):
        for x in n:
            look(x, out, False)
        return
    if not isinstance(n, dict):
        return
    if n.get("k") == "Member" and "fn" not in n and not lhs:
        out.add((n.get("cls"), n["name"]))
    for k, v in n.items():
        if isinstance(v, (dict, list)):
            look(v, out, n.get("k") == "Assign" and k == "a" and
                 n.get("op", "=") == "=")


def locals_(c, T):
    nv = nr = nf = 0
    for f in sorted(c.P.fns.values(), key=lambda f: (f["file"], f["l"])):
        if not f.get("body"):
            continue
        w = short(f["q"])

        @c.rule("locals", w, 60)
        def _():
            nonlocal nv, nr, nf
            rep, v, r = assigned.locals_of(T, f)
            nv, nr, nf = nv + v, nr + r, nf + 1
            maybe = [x for x in rep if not x.sure]
            for x in rep:
                if x.sure:
                    c.violated("a local has a value when it is read", w,
                               "%s is read before anything is assigned to it"
                               % x.var, "%s:%s" % (rel(f["file"]), x.line))
            if maybe:
                confirm(c, f, w, maybe)
            if not rep and v:
                c.held("a local has a value when it is read", w,
                       "%d variables" % v)
    c.held("a local has a value when it is read", "all functions",
           "%d functions, %d variables without initial value, %d reads" % (
               nf, nv, nr))


def rel(p):
    r = program.REPO.rstrip("/") + "/"
    return p[len(r):] if p.startswith(r) else p


def confirm(c, f, w, reports):
    """reads that some paths reach without an assignment"""
    cls = f.get("cls") if not f.get("static") else None
    s = c.session(cls, {} if cls else None, obligations=True,
                  opaque=lambda q, g: q.startswith("Visqol::") and
                  g is not None and g["u"] != f["u"])
    s.call(f)
    for x in reports:
        loc = "%s:%s" % (rel(f["file"]), x.line)
        rule = "a local has a value when it is read"
        evs = [e for e in s.I.events if e.kind in ("maybeundef", "undef") and
               (e.loc or "").endswith(":%s" % x.line)]
        if not evs:
            c.undecided(rule, w, "%s may be read before it is assigned"
                        % x.var, loc)
        for e in evs:
            no = e.args[0] if e.kind == "maybeundef" else TRUE
            never(c, rule, w, list(own(e.cond)), no, loc,
                  "%s is read without a value" % x.var)


def own(v):
    return v.a if v.op == "and" else (v,)


def members(c, T, reads):
    n = 0
    for f in sorted(c.P.fns.values(), key=lambda f: (f["file"], f["l"])):
        if not f.get("ctor") or f.get("body") is None or \
                f.get("cls") not in c.P.records:
            continue
        w = short(f["q"])

        @c.rule("members", w, 60)
        def _():
            nonlocal n
            rep, left, names, r = assigned.constructor(T, f)
            bad = False
            for x in rep:
                loc = "%s:%s" % (rel(x.f["file"]), x.line)
                if x.kind == "member" and x.sure:
                    bad = True
                    c.violated("a member has a value when construction reads "
                               "it", w, "%s is read before it is initialised"
                               % x.var, loc)
                elif x.kind == "member":
                    bad = True
                    c.undecided("a member has a value when construction "
                                "reads it", w, "%s may be read before it is "
                                "initialised" % x.var, loc)
            if not bad:
                c.held("a member has a value when construction reads it", w,
                       "%d members" % len(names))
            lost = {k: v for k, v in left.items()
                    if (f["cls"], k.split(".")[0]) in reads}
            for k, sure in sorted(lost.items()):
                if sure:
                    c.violated("construction gives every member a value", w,
                               "%s is left without a value" % k,
                               "%s:%s" % (rel(f["file"]), f["l"]))
            maybe = sorted(k for k, s in lost.items() if not s)
            if maybe:
                constructed(c, f, w, maybe)
            if not lost:
                c.held("construction gives every member a value", w,
                       "%d members" % len(names))
            n += 1


def constructed(c, f, w, names):
    """members only some paths through the constructor assign"""
    rule = "construction gives every member a value"
    loc = "%s:%s" % (rel(f["file"]), f["l"])
    s = c.session(f["cls"], obligations=True,
                  opaque=lambda q, g: q.startswith("Visqol::") and
                  g is not None and g.get("cls") != f["cls"])
    s.set_this(s.I.undef_of(f["cls"]))
    s.call(f)
    if s.I.st is None:
        raise Skip("no state after construction")
    o = s.obj()
    for k in names:
        v = o
        for x in k.split("."):
            v = t.getfield(v, x)
        never(c, rule, w, [], interp.unset(v), loc,
              "%s is left without a value" % k)


def classes(c, T, reads):
    """classes nobody wrote a constructor for"""
    for name, r in sorted(c.P.records.items()):
        if not name.startswith("Visqol::") or T.user_ctor(name) or \
                r.get("agg") or "(" in name.split("::")[-1]:
            continue
        if r.get("file") and program.REPO not in r["file"] and \
                not r["file"].startswith("src"):
            continue
        if not r.get("fields") or ".pb" in (r.get("file") or ""):
            continue
        w = short(name)
        left = [p for p in T.leaves(name) if (name, p[0]) in reads]
        for p in left:
            c.violated("construction gives every member a value", w,
                       "%s has no initial value and there is no constructor"
                       % ".".join(p))
        if not left:
            c.held("construction gives every member a value", w,
                   "%d members" % len(r["fields"]))


def globals_(c):
    """variables of namespace scope built at start-up from others"""
    dyn = {}
    for u, g in c.P.globals.items():
        i = g.get("init")
        if i is None or g.get("slocal") or "cv" in i or "cf" in i or \
                i.get("k") == "Str":
            continue
        dyn[u] = g
    rule = "start-up does not depend on the order of source files"
    bad = 0
    for u, g in sorted(dyn.items(), key=lambda x: x[1]["q"]):
        if g["q"].startswith("FLAGS_"):
            continue
        for n in program.walk(g["init"]):
            if n["k"] == "Ref" and n.get("u") in dyn and \
                    dyn[n["u"]]["file"] != g["file"]:
                bad += 1
                c.violated(rule, g["q"], "its initial value reads %s of %s" % (
                    n.get("q", n.get("name")), rel(dyn[n["u"]]["file"])),
                    "%s:%s" % (rel(g["file"]), g["l"]))
    if not bad:
        c.held(rule, "namespace scope", "%d variables" % len(dyn))


def headers(c):
    w = "WavReader"
    rule = "bytes a short stream did not deliver are not used"

    @c.rule(rule, w)
    def _():
        fs = [f for f in c.find("Visqol::WavReader::WavReader")
              if len(f["params"]) == 1]
        for name, (parts, total) in broken().items():
            s = c.session("Visqol::WavReader", obligations=True)
            s.I.unroll = 80
            st = s.I.root("v", "stream")
            s.I.st.store[st] = lib.binary_stream(cut(parts, total))
            s.set_this(s.I.undef_of("Visqol::WavReader"))
            s.call(fs[0], [s.I.ptr(st)])
            hit = None
            for e in s.I.events:
                if e.kind in ("endless", "seek", "log", "binread"):
                    vs = (e.cond,)
                else:
                    vs = (e.cond,) + tuple(
                        a for a in e.args if isinstance(a, t.T))
                for v in vs:
                    if any(x.op == "old" for x in t.subterms(v)):
                        hit = hit or e
            if hit is not None:
                c.violated(rule, "%s, %s" % (w, name),
                           "a header field is used although the stream ended "
                           "before it", hit.loc)
            elif s.I.st is not None and any(
                    x.op == "old" for v in [s.obj()]
                    for x in t.subterms(v)):
                c.undecided(rule, "%s, %s" % (w, name),
                            "a member keeps a field the stream did not fill")
            else:
                c.held(rule, "%s, %s" % (w, name))
