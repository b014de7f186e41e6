import re

from common import *
from c12 import audio
from effects import Effects, strip_cv
from program import strip_targs, walk

TECHNIQUE = "effect analysis over the call graph (static storage, clocks, " \
    "random sources, environment, addresses) and noninterference of member " \
    "state on abstract-interpretation closed forms"
EXPLANATION = "Every function reachable from VisqolManager::Init, both Run " \
    "overloads and the VisqolApi entry points (virtual calls resolved to all " \
    "overrides, destructors included) is searched for variables of static " \
    "storage that are written and read, static locals initialised from " \
    "arguments, and calls whose outcome is not a function of their arguments. " \
    "State: the manager's and the API's members before and after a run, the " \
    "values reaching a comparison after Init on an arbitrary earlier state, " \
    "and the state of every component of the pipeline; what a component " \
    "changes must not reach a later result, and each filter of each frame " \
    "starts from zero conditions."

# outcome not a function of the arguments, or of the files named by them
VOLATILE = re.compile(
    r"^(std::)?(rand|srand|random|srandom|rand_r|[dlmejn]+rand48|time|clock|"
    r"gettimeofday|clock_gettime|times|getpid|gettid|getenv|secure_getenv|"
    r"pthread_self|localtime|localtime_r|gmtime|tmpnam|tempnam|mkstemp|"
    r"getrandom|arc4random|random_shuffle)$"
    r"|random_device|_clock::now$|^absl::(Now|GetCurrentTimeNanos|"
    r"GetCurrentTimeMicros|BitGen|InsecureBitGen|Uniform|Bernoulli|Gaussian)"
    r"|this_thread::get_id|hardware_concurrency|last_write_time"
    r"|^arma::(randu|randn|randi|shuffle|randperm)|arma_rng"
    r"|__rdtsc|^absl::GetFlag$")
RUNONLY = re.compile(r"filesystem::current_path$")
ADDRESS = re.compile(r"std::(map|set|multimap|multiset|less|greater|hash|"
                     r"unordered_(map|set))<(const )?[^,<>]*\*")


def entries(c):
    run = [f for f in c.find(MGR + "::Run")] + [
        f for f in c.find(API + "::Measure")]
    init = [f for f in c.find(MGR + "::Init")] + [
        f for f in c.find(API + "::Create")]
    if not run or not init:
        raise Skip("no entry points")
    return run, init


def check(c):
    run, init = entries(c)
    every = Effects(c.P, run + init)
    only = Effects(c.P, run)

    @c.rule("static storage", "functions reachable from Init and Run")
    def _():
        storage(c, every)

    @c.rule("outcomes are functions of the arguments", "calls")
    def _():
        outcomes(c, every, only)

    @c.rule("state", "VisqolManager")
    def _():
        keeps(c, "VisqolManager::Run", MGR, "ref deg ref2 deg2".split(),
              [f for f in run if f.get("cls") == MGR])

    @c.rule("state", "VisqolApi")
    def _():
        keeps(c, "VisqolApi::Measure", API, "ref deg ref2 deg2".split(),
              [f for f in run if f.get("cls") == API])

    for cfg in configs():
        n = "VisqolManager::Init (%s)" % cname(*cfg)

        @c.rule("an earlier configuration leaves nothing behind", n)
        def _():
            reinit(c, n, cfg)

    components(c, only)


# --------------------------------------------------------- static storage

def mutable(c, a):
    g = c.P.globals.get(a.var)
    if g is None:
        return False
    ty = g["t"]
    if re.search(r"(absl::Mutex|std::\w*mutex|once_flag)$", strip_cv(ty)):
        return False
    if not g["const"]:
        return True
    # constant objects that let their contents change
    rec_ = c.P.records.get(strip_cv(ty))
    if rec_ and any(x.get("mutable") for x in rec_["fields"]):
        return True
    return bool(re.search(r"(?<!const)\s*\*\s*const$", ty)) and \
        not ty.startswith("const ")


def storage(c, E):
    acc = {}
    for a in E.access:
        if mutable(c, a):
            acc.setdefault(a.var, []).append(a)
    for v, f in E.statics:
        g = c.P.globals.get(v["u"])
        if g is not None and not g["const"]:
            acc.setdefault(v["u"], [])
    n = 0
    for u, xs in sorted(acc.items()):
        q = c.P.globals[u]["q"]
        w = [a for a in xs if a.mode != "r"]
        r = [a for a in xs if a.mode not in ("w", "u")]
        n += 1
        if w and r and not overwritten(c, u, xs):
            c.violated("no static storage carries values between "
                       "comparisons", q, "%s is changed at %s (%s) and read "
                       "at %s (%s)" % (
                           q, w[0].loc, E.path(w[0].f["u"]), r[0].loc,
                           E.path(r[0].f["u"])), loc=w[0].loc)
        else:
            c.held("no static storage carries values between comparisons", q)
    for v, f in E.statics:
        # initialised once, from the first comparison's values
        bad = [m for m in walk(v.get("init") or {})
               if m["k"] == "This" or
               m["k"] == "Ref" and m.get("dk") in ("param", "var")]
        lam = set()
        for m in walk(v.get("init") or {}):
            if m["k"] == "Lambda":
                lam |= {id(y) for y in walk(m)}
        bad = [m for m in bad if id(m) not in lam or m["k"] == "This"]
        where = "%s in %s" % (v["name"], strip_targs(f["q"]))
        if bad and v.get("init", {}).get("cv") is None:
            c.violated("static locals do not depend on the first comparison",
                       where, "initialised once from %s" % ", ".join(sorted(
                           {m.get("name", "this") for m in bad})),
                       loc="%s:%s" % (f["file"], v["l"]))
        else:
            c.held("static locals do not depend on the first comparison",
                   where)
    for u in sorted(E.funcs):
        f = c.P.fns[u]
        if not any(a.f is f and mutable(c, a) for a in E.access):
            c.held("uses no mutable static storage",
                   strip_targs(f["q"]) + "/%d" % len(f["params"]))


def overwritten(c, u, xs):
    """the only function using the variable sets it anew first"""
    if len({a.f["u"] for a in xs}) != 1:
        return False
    for s in xs[0].f["body"]["s"]:
        refs = [m for m in walk(s) if m["k"] == "Ref" and m.get("u") == u]
        if not refs:
            continue
        if s["k"] != "Expr":
            return False
        e = s["e"]
        while e.get("k") == "Cast":
            e = e["e"]
        if e["k"] == "Assign" and e.get("op", "=") == "=":
            return e["a"] is refs[0] and len(refs) == 1
        if e["k"] == "Call" and e.get("obj") is refs[0] and len(refs) == 1:
            return strip_targs(e["fn"]["q"]).split("::")[-1] in (
                "clear", "assign", "operator=")
        if e["k"] == "Call" and e.get("op") == "=":
            return e["args"][0] is refs[0] and len(refs) == 1
        return False
    return False


# --------------------------------------------------- outcomes of functions

def outcomes(c, every, only):
    bad = {}
    for E in (every, only):
        for s in E.calls:
            if VOLATILE.search(s.q) or E is only and RUNONLY.search(s.q) and \
                    not (s.node.get("args")):
                bad.setdefault(s.f["u"], (s, E))
    for u in sorted(every.funcs):
        f = c.P.fns[u]
        w = strip_targs(f["q"]) + "/%d" % len(f["params"])
        if u in bad:
            s, E = bad[u]
            c.violated("outcomes are functions of the arguments", w,
                       "%s is called (%s)" % (s.q, E.path(u)), loc=s.loc)
            continue
        addr = [l for g, l in every.casts if g is f]
        tys = [v["t"] for n in walk(f.get("body") or {}) if n["k"] == "Decl"
               for v in n["vars"] if ADDRESS.search(v.get("t", ""))]
        if addr or tys:
            c.violated("outcomes are functions of the arguments", w,
                       "depends on addresses (%s)" % (
                           tys[0] if tys else "pointer to integer"),
                       loc="%s:%s" % (f["file"], addr[0] if addr else f["l"]))
            continue
        c.held("outcomes are functions of the arguments", w)


# ------------------------------------------------------------ member state

def leaves(c, cls, v, pre=""):
    """the members of an object, members of member objects included"""
    for x in c.P.all_fields(cls):
        a = getfield(v, x["name"], t_ty(x["t"]))
        ty = strip_cv(x["t"])
        if ty in c.P.records and "AMatrix" not in ty and \
                c.P.records[ty]["fields"]:
            yield from leaves(c, ty, a, pre + x["name"] + ".")
        else:
            yield pre + x["name"], a


def t_ty(ct):
    ct = strip_cv(ct)
    if ct in ("double", "float"):
        return "f"
    if ct in ("bool", "int", "long", "unsigned long", "unsigned int",
              "short", "unsigned short", "char"):
        return "i"
    return "o"


def keeps(c, where, cls, names, fs):
    for f in fs:
        w = "%s(%s)" % (where, ", ".join(
            strip_cv(p["t"]).split("::")[-1] for p in f["params"]))
        s = c.session(cls, opaque=opq(*STAGES))
        if cls == API:
            # an open session: the manager behind it is initialised
            s.call(API + "::Create", names=["config"])
        before = s.obj()
        r = s.call(f, names=names[:2])
        ch = changed(c, cls, before, s.obj())
        if not ch:
            c.held("a run changes no member", w)
            continue
        r2 = s.call(f, names=names[2:])
        s1 = c.session(cls, opaque=opq(*STAGES))
        if cls == API:
            s1.call(API + "::Create", names=["config"])
        s1.set_this(before)
        r1 = s1.call(f, names=names[2:])
        c.eq("a result does not depend on earlier runs", w, r2.ret, r1.ret,
             what="result after an earlier run (which changes %s)" %
             ", ".join(sorted(ch)))
        for e2, e1 in zip(r2.ev("call"), r1.ev("call")):
            if e2.name in STAGES and e1.name == e2.name:
                c.eq("a comparison does not depend on earlier runs", w,
                     e2.cond, e1.cond, loc=e2.loc, what="condition of " +
                     e2.name.split("::")[-1])
                for i, (a, b) in enumerate(zip(e2.args, e1.args)):
                    c.eq("a comparison does not depend on earlier runs", w,
                         a, b, [e1.cond], loc=e2.loc,
                         what="argument %d of %s" % (
                             i + 1, e2.name.split("::")[-1]))


def changed(c, cls, before, after):
    a, b = dict(leaves(c, cls, before)), dict(leaves(c, cls, after))
    return {k: (a[k], b[k]) for k in a if not t.same(a[k], b[k], 40)}


def reinit(c, w, cfg):
    s0 = c.session(MGR, opaque=opq(*STAGES))
    before = dict(leaves(c, MGR, s0.obj()))
    s, i = init_manager(c, *cfg)
    ok = result_ok(i.ret)
    state = dict(leaves(c, MGR, s.obj()))
    r = s.call(run_overload(c, False), names=["ref", "deg"])
    es = r.ev("call", "CalculateSimilarity")
    if not es:
        raise Skip("no comparison call")
    vals = [("result", r.ret)]
    for e in es:
        vals.append(("condition of the comparison", e.cond))
        for k, a in enumerate(e.args):
            vals.append(("argument %d of the comparison" % (k + 1), a))
    old = {v: sym("p:older " + k, v.ty) for k, v in before.items()
           if v.op in ("sym", "field")}
    bad = 0
    for what, v in vals:
        v = t.assume1(v, ok, True)
        hit = [k for k, x in before.items() if x in old and t.mentions(v, x)]
        if hit:
            bad += 1
            c.eq("an earlier configuration leaves nothing behind", w,
                 v, t.subst(v, old), [ok],
                 what="%s, which depends on the earlier %s" % (
                     what, ", ".join(hit)))
    if not bad:
        c.held("an earlier configuration leaves nothing behind", w)


# -------------------------------------------------------------- components

PURE = ("Visqol::Convolution2D", "Visqol::XCorr", "Visqol::FastFourier",
        "Visqol::Envelope", "Visqol::RmsVad", "Visqol::MiscMath",
        "Visqol::EquivalentRect", "Visqol::AlignmentX")
BASES = ("SpectrogramBuilder", "PatchCreator", "ImagePatchCreator",
         "ComparisonPatchesSelector", "PatchSimilarityComparator",
         "SimilarityToQualityMapper")


def components(c, only):
    """the members each component changes while comparing must be set before
    they are used"""
    done = set()
    for b in BASES:
        base = "Visqol::" + b
        for k in [base] + c.P.derived(base):
            r = c.P.records.get(k)
            if r is None or r.get("abstract") or k in done:
                continue
            done.add(k)
            component(c, k, only)


def component(c, k, only):
    short = k.split("::")[-1]
    fs = [c.P.fns[u] for u in only.funcs if c.P.fns[u].get("cls") == k and
          not c.P.fns[u].get("ctor") and not c.P.fns[u].get("dtor") and
          not c.P.fns[u].get("static")]
    own = owned(c, k)
    writes = {}
    for cls, name, mode, f, l, base in only.members:
        if cls in own and mode in ("w", "u", "rw") and not f.get("ctor") \
                and not f.get("dtor") and local_free(base):
            writes.setdefault(cls, {}).setdefault(name, (f, l))
    if not writes:
        for f in fs:
            c.held("comparing changes no member of the component",
                   strip_targs(f["q"]))
        if not fs:
            c.held("comparing changes no member of the component", short)
        return
    mine = {n for d in writes.values() for n in d}
    entry = [f for f in fs if f.get("over") or f.get("virt")] or fs
    for f in entry:
        w = strip_targs(f["q"])
        if f.get("const") and not any(
                x.get("mutable") for x in c.P.all_fields(k)):
            c.held("comparing changes no member of the component", w)
            continue

        @c.rule("no state of the component reaches a later result", w)
        def _():
            if k.endswith("GammatoneSpectrogramBuilder"):
                args = [audio("S")[1], None]
                hide = ("MakeFilters", "Filter")
            else:
                args = None
                hide = ("MeasurePatchSimilarity", "Build")
            s = c.session(k, opaque=lambda q, g: opq(*hide)(q, g) and
                          g is not f and q != w or
                          any(q.startswith(x) for x in PURE))
            before = s.obj()
            r = s.call(f, args=args, names=["a%d" % i for i in range(
                len(f["params"]))])
            olds = {n: v for n, v in leaves(c, k, before)
                    if n.split(".")[-1] in mine}
            vals = [("the result", r.ret, None)]
            for e in r.events:
                if e.kind == "call":
                    for i, a in enumerate(e.args):
                        vals.append(("argument %d of %s" % (
                            i + 1, e.name), a, e.loc))
            fresh = {v: sym("p:older " + n, v.ty) for n, v in olds.items()}
            bad = 0
            for what, v, loc in vals:
                car = carried(v, mine)
                if car and loc is not None:
                    bad += 1
                    c.violated("no state of the component reaches a later "
                               "frame", w, "%s depends on %s as left by the "
                               "frame before" % (what, ", ".join(car)),
                               loc=loc)
                    continue
                hit = [n for n, x in olds.items() if t.mentions(v, x)]
                if hit:
                    bad += 1
                    c.eq("no state of the component reaches a later result",
                         w, v, t.subst(v, fresh), loc=loc,
                         what="%s, which depends on the earlier %s" % (
                             what, ", ".join(hit)))
            if not bad:
                c.held("no state of the component reaches a later result", w)


def carried(v, mine):
    out = set()
    for x in t.subterms(v):
        if x.op == "unk" and str(x.a[0]).startswith("loop:"):
            n = str(x.a[0])[5:].split("#")[0]
            if n in mine:
                out.add(n)
    return sorted(out)


def owned(c, k, seen=None):
    """classes whose objects live as long as one of class k"""
    seen = seen if seen is not None else set()
    if k in seen:
        return seen
    seen.add(k)
    for x in c.P.all_fields(k):
        for a in re.findall(r"Visqol::\w+(?:<\w+>)?", x["t"]):
            if a in c.P.records:
                owned(c, a, seen)
                for d in c.P.derived(a):
                    owned(c, d, seen)
    return seen


def local_free(base):
    """the object written may outlive the call"""
    while base is not None:
        k = base.get("k")
        if k == "This":
            return True
        if k == "Ref":
            return base.get("dk") == "param" or base.get("ref", False) or \
                "*" in base.get("t", "")
        base = base.get("base") or base.get("e") or base.get("obj") or \
            base.get("a")
    return True
