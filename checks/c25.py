from common import *

TECHNIQUE = "abstract interpretation to value graphs: the memory handed to " \
    "svm_predict and svm_train as closed forms, bounds by linear arithmetic"
EXPLANATION = "The SVR mapper's PredictQuality and the model's training Init " \
    "are interpreted from the public interface down to the libsvm calls with " \
    "observations of symbolic size; the node arrays are read from the " \
    "interpreted heap at the call. Rules: element i carries feature i under " \
    "index i+1, the element after the last one carries -1, every element " \
    "written lies inside the allocated memory, and the score depends on the " \
    "given means and the model only."

SVR = "Visqol::SvrSimilarityToQualityMapper"
MODEL = "Visqol::SupportVectorRegressionModel"


class At:
    """the interpreted memory at an event"""

    def __init__(self, s, e):
        self.s, self.store = s, e.kw["store"]

    def block(self, p):
        """contents of the memory p points to the start of"""
        r, path = p.a[0], p.a[1]
        if len(path) > 1 or path and path[0][0] != "i" or r[0] == "d":
            raise Skip("not a plain block of memory")
        off = path[0][1] if path else zero()
        I = self.s.I
        keep = I.st
        try:
            I.st = type(keep)(self.store, keep.pc)
            v = I.rootval(r)
        finally:
            I.st = keep
        return off, v

    def element(self, p, i, ty="o"):
        off, v = self.block(p)
        if not p.a[1]:
            if i is zero():
                return v
            raise Skip("a single object")
        return get(v, add(off, i), ty)

    def obj(self, p):
        I = self.s.I
        keep = I.st
        try:
            I.st = type(keep)(self.store, keep.pc)
            return I.read(p)
        finally:
            I.st = keep


def sized(v, I):
    """block lengths in elements: bytes / 16"""
    m = {}
    for x in t.subterms(v):
        if x.op == "len" and x.a[0].op == "heaparr" and len(x.a[0].a) > 1:
            m[x] = t.idiv(x.a[0].a[1], C(16))
    return t.subst(v, m) if m else v


def nodes(c, w, at, p, n, feature, facts, loc, what="observation"):
    i = num("feature", "i", True)
    got = at.element(p, i)
    f = facts + [lt(i, n)]
    c.eq("features are numbered from 1 in order", w,
         sized(getfield(got, "index", "i"), at.s.I), add(i, one()), f, loc,
         what="index of feature i of the " + what)
    c.eq("every feature is handed over in order", w,
         sized(getfield(got, "value", "f"), at.s.I), feature(i), f, loc,
         what="value of feature i of the " + what)
    end = at.element(p, n)
    c.eq("the last feature is followed by the terminator", w,
         sized(getfield(end, "index", "i"), at.s.I), C(-1), facts, loc,
         what="index after the last feature of the " + what)


def check(c):
    w = "SvrSimilarityToQualityMapper::PredictQuality"

    @c.rule("prediction", w)
    def _():
        f = c.fn(SVR + "::PredictQuality")
        s = c.session(SVR, obligations=True)
        s.I.snap = ("svm_predict",)
        r = s.call(f, names=list("fvnsim fvnsim10 fstdnsim fvdegenergy"
                                 .split()))
        es = r.ev("call", "svm_predict")
        if len(es) != 1:
            raise Skip("%d calls of svm_predict" % len(es))
        e = es[0]
        x = sym("p:fvnsim")
        n = length(x)
        p = e.args[1]
        if p.op != "ptr":
            raise Skip("observation is not a block of memory")
        nodes(c, w, At(s, e), p, n, lambda i: get(x, i, "f"), [], e.loc)
        c.ok(not any(t.mentions(e.args[0], sym("p:" + y)) for y in
                     ("fvnsim", "fvnsim10", "fstdnsim", "fvdegenergy")),
             "the loaded model predicts", w, "another model", loc=e.loc)
        score = mk("call", e.name, *e.args, ty="f")
        fr = num("prediction")
        ret = t.subst(r.ret, {mk("call", e.name, *e.args, ty=y): fr
                              for y in "iof"})
        other = [y for y in ("fvnsim", "fvnsim10", "fstdnsim", "fvdegenergy")
                 if t.mentions(ret, sym("p:" + y))]
        c.ok(not other, "the score is a function of the prediction", w,
             "it also depends on " + ", ".join(other))
        # between the limits the prediction is the score
        c.eq("the score is the prediction within the limits", w, ret, fr,
             [le(C(1), fr), le(fr, C(5))], e.loc, what="score")
        safe(c, w, r, kinds=("block", "index"))

    w2 = "SupportVectorRegressionModel::Init(observations, targets)"

    @c.rule("training", w2)
    def _():
        s, r, e, problem, _param = training(c)
        at = At(s, e)
        obs, tg = sym("p:observations"), sym("p:targets")
        n = length(obs)
        k = num("row", "i", True)
        nf = length(get(obs, k))
        facts = [lt(k, n), lt(zero(), n), eq(length(tg), n),
                 eq(length(get(obs, zero())), nf)]
        x = getfield(problem, "x")
        if x.op != "ptr":
            raise Skip("observations are not a block of memory")
        row = sized8(at.element(x, k))
        row = t.assume1(row, lt(k, n), True)
        if row.op != "ptr":
            raise Skip("row is not a block of memory")
        nodes(c, w2, at, row, nf, lambda i: get(get(obs, k), i, "f"), facts,
              e.loc, "observation of row k")
        # a loop over rows speaks of any row: they have equally many features
        seen = safe(c, w2, Rows(r, obs), [lt(zero(), n)],
                    kinds=("block", "index"))
        if not seen:
            c.undecided("allocated memory is large enough", w2, "no access")




class Rows:
    """events of a run, each under the fact that rows are equally long"""

    def __init__(self, r, obs):
        self.out = []
        for e in r.ev():
            if e.kind in ("block", "index"):
                self.out.append(Same(e, obs))

    def ev(self):
        return self.out


class Same:
    def __init__(self, e, obs):
        self.kind, self.name, self.kw = e.kind, e.name, e.kw
        self.loc, self.loops = e.loc, e.loops
        first = length(get(obs, zero()))
        m = {}
        for v in list(e.args) + [e.cond]:
            for x in t.subterms(v):
                if x.op == "len" and x.a[0].op == "get" and \
                        x.a[0].a[0] is obs:
                    m[x] = first
        self.args = [t.subst(a, m) for a in e.args]
        self.cond = t.subst(e.cond, m)
        # targets and observations are as many
        tg = {length(sym("p:targets")): length(obs)}
        self.args = [t.subst(a, tg) for a in self.args]
        self.cond = t.subst(self.cond, tg)
        if e.kind == "index" and not e.loops:
            # an element of the first row or the first target
            self.cond = and_(self.cond, lt(zero(), length(obs)))


def sized8(v):
    m = {}
    for x in t.subterms(v):
        if x.op == "len" and x.a[0].op == "heaparr" and len(x.a[0].a) > 1:
            m[x] = t.idiv(x.a[0].a[1], C(8))
    return t.subst(v, m) if m else v


def training(c):
    fs = [f for f in c.find(MODEL + "::Init") if len(f["params"]) == 2]
    if not fs:
        raise Skip("no training Init")
    s = c.session(MODEL, obligations=True)
    s.I.snap = ("svm_train",)
    r = s.call(fs[0], names=["observations", "targets"])
    es = r.ev("call", "svm_train")
    if len(es) != 1:
        raise Skip("%d calls of svm_train" % len(es))
    e = es[0]
    at = At(s, e)
    return s, r, e, at.obj(e.args[0]), at.obj(e.args[1])


