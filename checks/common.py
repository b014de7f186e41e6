"""Shared parts of the rules."""
import re
import itertools

import terms as t
from terms import (T, C, TRUE, FALSE, UNDEF, NULL, sym, mk, add, sub, mul, div,
                   le, lt, eq, and_, or_, not_, ite, zero, one, fresh, seq,
                   smap, length, get, getfield, setfield, rec)
from lib import okp, sorv, sorst, st_code, st_ok, soe, sor
from check import Skip, Run, Session
import interp

INVALID = C(3)
ABORTED = C(10)

MGR = "Visqol::VisqolManager"
API = "Visqol::VisqolApi"
STAGES = ("Visqol::Visqol::CalculateSimilarity",
          "Visqol::Alignment::GloballyAlign",
          "Visqol::MiscAudio::LoadAsMono")


def opq(*names):
    """the functions with these names are left uninterpreted"""
    s = set(names)
    return lambda q, f: q in s or q.split("::")[-1] in s


def num(name, ty="f", nn=False):
    v = sym("p:" + name, ty)
    if nn:
        t.NONNEG.add(v)
    return v


def one_ev(r, kind, name, what=None):
    es = r.ev(kind, name)
    if len(es) != 1:
        raise Skip("%d events %s (%s)" % (len(es), name, what or r.f["q"]))
    return es[0]


def result_ok(v):
    """the status or StatusOr is success"""
    if v is None:
        raise Skip("no result")
    return okp(v) if has_so(v) else st_ok(v)


def has_so(v):
    if v.op in ("sor", "soe"):
        return True
    if v.op == "ite":
        return has_so(v.a[1]) or has_so(v.a[2])
    if v.op == "status":
        return False
    return True


def error_code(v):
    """status code of the failed StatusOr or status"""
    if v.op == "ite":
        return ite(v.a[0], error_code(v.a[1]), error_code(v.a[2]))
    if v.op == "soe":
        return st_code(v.a[0])
    if v.op == "sor":
        return zero()
    return st_code(v)


def under(v, *facts):
    return t.assume1(v, and_(*facts), True)


def cls_of(v):
    while v.op in ("with", "after"):
        v = v.a[0] if v.op == "with" else v.a[1]
    if v.op == "rec":
        return v.a[0]
    return None


def audio_signal(name):
    return sym("p:" + name)


def sig_rows(s):
    return t.rows(getfield(getfield(s, "data_matrix"), "matrix_"))


def sig_cols(s):
    return t.cols(getfield(getfield(s, "data_matrix"), "matrix_"))


def nonempty(s):
    return [lt(zero(), sig_rows(s)), lt(zero(), sig_cols(s)),
            not_(eq(mul(sig_rows(s), sig_cols(s)), zero()))]


def sig_rate(s):
    return getfield(s, "sample_rate", "i")


def run_overload(c, by_path):
    for f in c.find(MGR + "::Run"):
        if len(f["params"]) == 2 and \
                ("FilePath" in f["params"][0]["t"]) == by_path:
            return f
    raise Skip("no VisqolManager::Run on %s" % (
        "paths" if by_path else "signals"))


def init_overload(c):
    for f in c.find(MGR + "::Init"):
        if "FilePath" in f["params"][0]["t"]:
            return f
    raise Skip("no VisqolManager::Init on FilePath")


def filepath(name):
    return rec("Visqol::FilePath", {"path_": sym("p:" + name)})


def boolean(x):
    return TRUE if x else FALSE


def init_manager(c, speech, unscaled, lattice, noalign=False, noreal=False,
                 radius=None, opaque=None, model=None):
    """a manager initialised for one configuration: session and the Run of
    Init"""
    f = init_overload(c)
    s = c.session(MGR, opaque=opaque or opq(*STAGES), snap=STAGES[:1])
    vals = [model or filepath("model"), boolean(speech), boolean(unscaled),
            radius if radius is not None else num("radius", "i"),
            boolean(lattice), boolean(noalign), boolean(noreal)]
    if len(f["params"]) != len(vals):
        raise Skip("VisqolManager::Init has %d parameters" % len(f["params"]))
    r = s.call(f, vals)
    return s, r


# (speech, unscaled, lattice) of one configuration of each kind
MODES = {"audio": (False, False, False), "speech": (True, False, False),
         "speech, lattice": (True, True, True)}


def configs():
    return itertools.product((False, True), repeat=3)


def cname(speech, unscaled, lattice):
    return "%s%s%s" % ("speech" if speech else "audio",
                       ", unscaled" if unscaled else "",
                       ", lattice" if lattice else "")


# ------------------------------------------------- the comparison call

ROLES = ("Visqol::SpectrogramBuilder", "Visqol::ImagePatchCreator",
         "Visqol::ComparisonPatchesSelector",
         "Visqol::SimilarityToQualityMapper")


class Comparison:
    """the arguments of one call of Visqol::CalculateSimilarity"""

    def __init__(self, c, s, e):
        f = c.fn(STAGES[0])
        ps = f["params"]
        if len(ps) != 9 or len(e.args) != 9:
            raise Skip("CalculateSimilarity has %d parameters" % len(ps))
        self.e, self.s, self.c = e, s, c
        self.ref, self.deg = e.args[0], e.args[1]
        self.builder, self.window, self.creator, self.selector, \
            self.mapper, self.radius, self.noreal = [
                t.assume1(x, e.cond, True) for x in e.args[2:]]
        self.cond = e.cond

    def read(self, p):
        """the object a pointer argument points to"""
        I = self.s.I
        if "store" in self.e.kw and I.st.store is not self.e.kw["store"]:
            # the state at the call
            I.st = type(I.st)(dict(self.e.kw["store"]), self.e.pc)
        v = I.read(p) if p.op == "ptr" else None
        if v is not None and v.op == "lastw" and cls_of(v.a[4]):
            # as left by earlier comparisons: see C14
            v = v.a[4]
            I.write(p, v)
        if v is None or cls_of(v) is None:
            raise Skip("argument object not resolved: %s" % t.show(p, 5))
        return v

    def cls(self, p):
        return cls_of(self.read(p))

    def method(self, p, name, args=None, names=None, nparams=None, pred=None):
        """the method of the argument object, interpreted"""
        k = self.cls(p)
        for b in [k] + list(self.c.P.bases(k)):
            for g in self.c.P.byq.get(b + "::" + name, ()):
                if g.get("body") and (nparams is None or
                                      len(g["params"]) == nparams) and \
                        (pred is None or pred(g)):
                    return self.s.call(g, args, names, this=p)
        raise Skip("no %s::%s" % (k, name))


def comparisons(c, s, r):
    return [Comparison(c, s, e) for e in r.ev("call", STAGES[0])]


SP_MODEL = "/model/lattice_tcditugenmeetpackhref_ls2_nl60_lr12_bs2048_" \
    "learn.005_ep2400_train1_7_raw.tflite"
AU_MODEL = "/model/libsvm_nu_svr_model.txt"


def str_empty(x):
    return eq(length(x), zero())


def default_model(events, suffix):
    """the term cwd + suffix as the code builds it"""
    for e in events:
        for a in e.args:
            for x in t.subterms(a):
                if x.op == "strcat" and x.a[-1].op == "str" and \
                        x.a[-1].a[0] == suffix:
                    return x
    return None


def mapper_rules(c, n, k, events, speech, unscaled, lattice, given):
    """the configured model is loaded, the scale of the mapping"""
    ms = loaded_models(events)
    suffix = SP_MODEL if speech else AU_MODEL
    want = default_model(events, suffix)
    if speech and not lattice:
        c.ok(not ms, "the exponential mapping needs no model", n,
             "a model is loaded")
        nb = num("nb", "i", True)
        r = k.method(k.mapper, "PredictQuality",
                     args=[smap(nb, t.fresh("k", "i"), one())])
        pos = lt(zero(), nb)
        top = t.assume1(r.ret, pos, True)
        if unscaled:
            c.implies("unscaled mapping leaves a perfect score below 5", n,
                      [pos], lt(top, C(5)), note="score of similarity 1")
        else:
            c.implies("scaled mapping gives 5 at similarity 1", n, [pos],
                      and_(lt(C(4.99), top), le(top, C(5))),
                      note="score of similarity 1")
        return
    kind = "BuildFromFile" if speech else "svm_load_model"
    got = [m for m in ms if m[2] == kind]
    other = [m for m in ms if m[2] != kind]
    c.ok(not other, "only the model of the selected mode is loaded", n,
         "%s also called" % ", ".join(m[2] for m in other))
    if not got:
        c.violated("the model of the selected mode is loaded", n,
                   "no call of " + kind)
        return
    for e, p, _k in got:
        fs = [e.cond, not_(str_empty(given))] if given is not None else []
        x = t.assume1(p, and_(*fs), True) if fs else None
        if fs and not x.unk and given not in t.subterms(x) and \
                x.op in ("str", "strcat"):
            c.violated("a given model is the one loaded", n,
                       "the path is %s whatever model is given" %
                       t.show(x, 4), e.loc)
        elif fs:
            c.eq("a given model is the one loaded", n, p, given,
                 [e.cond, not_(str_empty(given))], loc=e.loc, what="the path")
        facts = [e.cond] + ([str_empty(given)] if given is not None else [])
        if want is not None:
            c.eq("without a model the default of the mode is loaded", n, p,
                 want, facts, loc=e.loc, what="the path")
        else:
            c.violated("without a model the default of the mode is loaded", n,
                       "the default path (working directory + %s) is never "
                       "built" % suffix, e.loc)


def loaded_models(events):
    """paths of the models loaded: (event, path, kind)"""
    out = []
    for e in events:
        if e.kind == "call":
            n = e.name.split("::")[-1]
            if n in ("BuildFromFile", "svm_load_model"):
                out.append((e, e.args[0], n))
    return out


# ------------------------------------------------- inside a comparison

COARSE = "FindMostOptimalDegPatches"
FINE = "FinelyAlignAndRecreatePatches"
SIMSTEPS = (COARSE, FINE, "Build", "CreateRefPatchIndices",
            "CreatePatchesFromIndices", "PredictQuality",
            "ScaleToMatchSoundPressureLevel",
            "PrepareSpectrogramsForComparison")
FEATURES = ("fvnsim", "fvnsim10", "fstdnsim", "fvdegenergy")


def matrix(rows, cols, f):
    """a matrix value with element f(i, j)"""
    i, j = t.fresh("i", "i"), t.fresh("j", "i")
    return rec("Visqol::AMatrix", {"matrix_": t.mat(rows, cols, i, j,
                                                    f(i, j))})


class Similarity:
    """CalculateSimilarity with its steps left uninterpreted. The list of
    patch results is replaced by a list of n results over the same nb bands"""

    def __init__(self, c, noreal):
        self.c = c
        self.n, self.nb = num("npatches", "i", True), num("nbands", "i", True)
        f = c.fn(STAGES[0])
        if len(f["params"]) != 9:
            raise Skip("CalculateSimilarity has %d parameters"
                       % len(f["params"]))
        self.r = r = c.run(
            f, args=[None] * 8 + [boolean(noreal)],
            names="ref deg builder window creator selector mapper radius "
            "noreal".split(), opaque=opq(*SIMSTEPS))
        self.coarse = r.ev("call", COARSE)
        self.fine = r.ev("call", FINE)
        last = (self.coarse if noreal else self.fine)
        if len(last) != 1:
            raise Skip("%d calls of %s" % (len(last), COARSE if noreal
                                           else FINE))
        e = last[0]
        self.loc = e.loc
        self.sims0 = sorv(mk("call", e.name, *(
            ((e.kw["obj"],) if e.kw.get("obj") is not None else ())
            + e.args)))
        self.sims = self.model()
        self.ok = result_ok(r.ret)
        v = t.assume1(sorv(t.assume1(r.ret, self.ok, True)), self.ok, True)
        self.raw = v
        self.res = self.sub(v)
        ps = r.ev("call", "PredictQuality")
        if len(ps) != 1:
            raise Skip("%d predictions" % len(ps))
        self.predict = ps[0]
        self.args = [self.sub(t.assume1(a, and_(self.ok, ps[0].cond), True))
                     for a in ps[0].args]
        self.order = FEATURES
        if len(self.args) != 4:
            raise Skip("PredictQuality has %d parameters" % len(self.args))
        self.score = self.sub(mk("call", ps[0].name, *(
            ((ps[0].kw["obj"],) if ps[0].kw.get("obj") is not None else ())
            + ps[0].args)))
        rate = sym("p:ref")
        win = sym("p:window")
        self.frame = div(t.trunc(mul(getfield(win, "size", "i"),
                                     getfield(win, "overlap", "f"))),
                         getfield(rate, "sample_rate", "i"))
        self.facts = [lt(zero(), self.n), lt(zero(), self.nb),
                      lt(zero(), self.frame)]

    def elem(self, name, i, b=None):
        v = get(sym("S:" + name), i, "f") if b is None else \
            get(get(sym("S:" + name), i), b, "f")
        return v

    def model(self):
        k = t.fresh("k", "i")
        d = {x: self.elem(x, k) for x in (
            "similarity", "ref_patch_start_time", "ref_patch_end_time",
            "deg_patch_start_time", "deg_patch_end_time")}
        for x in ("freq_band_means", "freq_band_stddevs",
                  "freq_band_deg_energy"):
            d[x] = matrix(self.nb, one(), lambda b, _j: self.elem(x, k, b))
        return smap(self.n, k, rec("Visqol::PatchSimilarityResult", d))

    def sub(self, v):
        return t.subst(v, {self.sims0: self.sims})

    # the documented statistics, band b
    def fvnsim(self, b):
        i = t.fresh("i", "i")
        return div(t.ssum(self.n, i, self.elem("freq_band_means", i, b)),
                   self.n)

    def fvdegenergy(self, b):
        i = t.fresh("i", "i")
        return div(t.ssum(self.n, i, self.elem("freq_band_deg_energy", i, b)),
                   self.n)

    def fvnsim10(self, b):
        k, i = t.fresh("k", "i"), t.fresh("i", "i")
        m = t.mnx("max", one(), t.trunc(mul(self.n, C(0.1))))
        srt = mk("sorted", smap(self.n, k,
                                self.elem("freq_band_means", k, b)))
        return div(t.ssum(m, i, get(srt, i, "f")), m)

    def frames(self, i):
        return mk("tceil", div(sub(self.elem("ref_patch_end_time", i),
                                   self.elem("ref_patch_start_time", i)),
                               self.frame), ty="i")

    def fstdnsim(self, b):
        i = t.fresh("i", "i")
        tot = t.ssum(self.n, i, self.frames(i))
        i = t.fresh("i", "i")
        s, m = self.elem("freq_band_stddevs", i, b), \
            self.elem("freq_band_means", i, b)
        cn = t.ssum(self.n, i, add(
            mul(sub(self.frames(i), one()), mul(s, s)),
            mul(self.frames(i), mul(m, m))))
        g = self.fvnsim(b)
        v = div(sub(cn, mul(tot, mul(g, g))), sub(tot, one()))
        return ite(lt(v, zero()), zero(), t.fn("sqrt", v))


def either(c, rule, where, got, wants, facts=(), loc=None, what="value"):
    """obligation: got equals one of the values wanted"""
    first = None
    for w in wants:
        if w is None:
            continue
        n = len(c.obl)
        c.eq(rule, where, got, w, facts, loc=loc, what=what)
        new = c.obl[n:]
        del c.obl[n:]
        if all(o["status"] == "held" for o in new):
            c.held(rule, where, loc=loc)
            return True
        if first is None or any(o["status"] == "undecided" for o in new):
            first = new
    c.obl += first or []
    return None


# ------------------------------------------------- safe accesses

def within(e):
    """the condition under which the operation of an event is defined"""
    a = e.args
    if e.kind == "index":
        return and_(le(zero(), a[1]), lt(a[1], a[2]))
    if e.kind == "div" and not e.kw.get("float"):
        return not_(eq(a[1], zero()))
    if e.kind == "submat":
        m, r0, c0, r1, c1 = a
        return and_(le(zero(), r0), le(r0, r1), lt(r1, t.rows(m)),
                    le(zero(), c0), le(c0, c1), lt(c1, t.cols(m)))
    if e.kind == "matindex":
        m, i, j = a
        return and_(le(zero(), i), lt(i, t.rows(m)), le(zero(), j),
                    lt(j, t.cols(m)))
    if e.kind == "range":
        return le(a[1], a[2])
    if e.kind == "slice":
        return and_(le(zero(), a[1]), le(zero(), a[2]),
                    le(add(a[1], a[2]), a[3]))
    if e.kind == "blockrange":
        n = bytes_of(e.name)
        return n and and_(le(zero(), a[0]), le(mul(C(n), add(a[0], a[1])),
                                               a[2]))
    if e.kind == "block":
        n = bytes_of(e.name)
        return n and and_(le(zero(), a[0]),
                          le(mul(C(n), add(a[0], one())), a[1]))
    return None


def bytes_of(ty):
    ty = ty.replace("const", "").replace("volatile", "").strip()
    m = re.search(r"__vector_size__\((\d+) \* sizeof\((\w+)\)", ty)
    if m:
        return int(m.group(1)) * BYTES.get(m.group(2), 8)
    return BYTES.get(ty) or (8 if ty.endswith("*") else None)


BYTES = {"svm_node": 16, "double": 8, "float": 4, "int": 4, "long": 8,
         "unsigned long": 8, "short": 2, "char": 1}
SAFE = {"block": "allocated memory is large enough",
        "index": "element accesses are within bounds",
        "submat": "sub-matrices lie within their matrix",
        "matindex": "element accesses are within bounds",
        "range": "ranges written are large enough",
        "slice": "ranges read lie within their sequence",
        "blockrange": "ranges copied lie within the allocated memory",
        "div": "no integer division by zero"}


def safe(c, w, r, facts=(), kinds=tuple(SAFE), only=None, sub=None):
    """obligations: the accesses and divisions of a run are defined"""
    seen = set()
    for e in r.ev():
        if e.kind not in kinds or only and not only(e):
            continue
        p = within(e)
        if p is None:
            continue
        cond = e.cond
        if sub:
            p, cond = sub(p), sub(cond)
        key = (e.kind, e.loc, p, cond)
        if key in seen:
            continue
        seen.add(key)
        n = len(c.obl)
        c.implies(SAFE[e.kind], w, [cond] + list(facts), p, loc=e.loc,
                  note="%s %s" % (e.kind, e.name))
        for o in c.obl[n:]:
            if o["status"] == "violated" and any(
                    x.op in ("call", "out", "after", "unk")
                    for x in t.subterms(p)):
                # what a callee left uninterpreted guarantees is not known
                o["status"] = "undecided"
    return len(seen)


def tidy(v, facts):
    """minima and maxima that the facts decide"""
    import linear
    fs = tuple(x for f in facts for x in (f.a if f.op == "and" else (f,)))
    for _ in range(4):
        m = {}
        for x in t.subterms(v):
            if x.op in ("min", "max") and not t.freebv(x):
                for y in x.a:
                    o = [z for z in x.a if z is not y]
                    if all(linear.implied(fs, le(z, y) if x.op == "max"
                                          else le(y, z)) for z in o):
                        m[x] = y
                        break
        if not m:
            break
        v = t.subst(v, m)
    return v


def rewrite(v, f):
    """v with each part x for which f(x) is not None replaced by it, under
    binders too"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = f(x)
            if r is None:
                r = t.rebuild(x, go) if x.a else x
            memo[x] = r
        return r
    return go(v)


def settled(v, ok):
    """v on success: where an element with a property would have made ok
    false, there is no first one"""
    import split
    m = {}
    for x in t.subterms(v):
        if x.op != "first":
            continue
        k = t.fresh("k", "i")
        a = t.sany(x.a[0], k, t.subst(x.a[-1], {t.bv(x.a[1]): k}))
        some = t.assume1(ok, a, True)
        if some is ok:
            continue
        holds = t.subst(x.a[-1], {t.bv(x.a[1]): x})
        if split.prove([some, holds], FALSE, TRUE):
            m[x] = x.a[0]
            m[a] = FALSE
    return t.subst(v, m) if m else v


# ---------------------------------------------------- propositional structure

def conjuncts(v):
    return list(v.a) if v.op == "and" else [v]


def atom(x):
    n = not_(x)
    return (x, True) if x < n else (n, False)


def truth3(x, env):
    """truth of formula x where env decides it; what is left undecided"""
    if x is TRUE or x is FALSE:
        return x is TRUE, None
    if x.op in ("and", "or"):
        stop = x.op == "or"
        left = None
        for y in x.a:
            v, a = truth3(y, env)
            if v is stop:
                return stop, None
            if v is None and left is None:
                left = a
        return (None, left) if left is not None else (not stop, None)
    if x.op == "not" and x.a[0].op in ("and", "or"):
        v, a = truth3(x.a[0], env)
        return (None if v is None else not v), a
    a, sign = atom(x)
    if a in env:
        return env[a] is sign, None
    return None, (a, sign)


def satisfiable(fs, env, budget):
    budget[0] -= 1
    if budget[0] < 0:
        return True
    pick, left = None, []
    for f in fs:
        for x in conjuncts(f):
            v, a = truth3(x, env)
            if v is False:
                return False
            if v is None:
                left.append(x)
                if pick is None or x.op not in ("and", "or"):
                    pick = a
    if pick is None:
        return True
    a, sign = pick
    return satisfiable(left, env | {a: sign}, budget) or \
        satisfiable(left, env | {a: not sign}, budget)


def sure_ways(w, limit=40):
    """conjunctions of atoms free of unknowns that make w true whatever the
    unknown ones are"""
    out = []

    def go(env, depth):
        v, _ = truth3(w, env)
        if v is True:
            out.append([a if s else not_(a) for a, s in env.items()])
            return
        if v is False or len(out) >= limit or depth > 14:
            return
        pick = undecided_atom(w, env)
        if pick is None:
            return
        a, sign = pick
        go({**env, a: sign}, depth + 1)
        go({**env, a: not sign}, depth + 1)
    go({}, 0)
    return out


def undecided_atom(x, env):
    """an atom free of unknowns env says nothing about"""
    if x is TRUE or x is FALSE or truth3(x, env)[0] is not None:
        return None
    ys = x.a if x.op in ("and", "or") else \
        x.a[0].a if x.op == "not" and x.a[0].op in ("and", "or") else None
    if ys is not None:
        for y in ys:
            r = undecided_atom(y, env)
            if r is not None:
                return r
        return None
    a, sign = atom(x)
    return None if a.unk or a in env else (a, sign)


def never(c, rule, where, facts, w, loc, note):
    """w is never true where the facts hold"""
    whole = and_(w, *facts)
    if whole is FALSE:
        c.held(rule, where, loc=loc)
        return True
    if not whole.unk:
        return c.implies(rule, where, facts, not_(w), loc=loc, note=note)
    if not satisfiable([whole], {}, [20000]):
        c.held(rule, where, loc=loc)
        return True
    for way in sure_ways(whole):
        import sample
        d, n = sample.differ(TRUE, FALSE, way, seed=c.seed)
        c.samples += n
        if d is not None:
            c.violated(rule, where, "%s where %s" % (
                note, [t.show(x, 5) for x in way]), loc)
            return False
    c.undecided(rule, where, "%s: %s" % (note, t.show(w, 5)), loc)
    return None
