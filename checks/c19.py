from common import *
from c25 import At, MODEL
from program import walk

TECHNIQUE = "abstract interpretation to value graphs: a ledger of what is " \
    "acquired, released and held at the end of each interpreted history, " \
    "and queries over the typed syntax tree for copies of owners"
EXPLANATION = "Whole lifetimes (constructor, initialiser, use, destructor) of " \
    "the owning classes and every function that acquires are interpreted " \
    "with symbolic inputs. Rules over the recorded events: under the " \
    "condition something was acquired, it is released by the function that " \
    "belongs to it or held at the end by a member whose destructor does so; " \
    "no two releases of it can both happen; what is released was acquired; " \
    "nothing released is used. Owners without a copying operation of their " \
    "own are never copied; the lattice delegate is owned with its deleter " \
    "and declared before the interpreter that uses it."

ACQ = {"malloc": ("free",), "calloc": ("free",),
       "pffft_aligned_malloc": ("pffft_aligned_free",),
       "pffft_new_setup": ("pffft_destroy_setup",),
       "svm_load_model": ("svm_free_and_destroy_model",),
       "svm_train": ("svm_free_and_destroy_model",),
       "TfLiteXNNPackDelegateCreate": ("TfLiteXNNPackDelegateDelete",),
       "new": ("delete",), "new[]": ("delete[]",)}
REL = {"free": 0, "pffft_aligned_free": 0, "pffft_destroy_setup": 0,
       "svm_free_and_destroy_model": 1, "TfLiteXNNPackDelegateDelete": 0}
MAYFAIL = ("svm_load_model",)
AUDIO, FFT = "Visqol::AudioChannel", "Visqol::FftManager"
LATTICE = "Visqol::TFLiteQualityMapper"


def short(q):
    return q.split("::")[-1]


class Got:
    """something acquired"""

    def __init__(self, at, e, name):
        self.at, self.e, self.name = at, e, name
        p = e.args[0] if e.kind == "malloc" else None
        if e.kind == "new":
            p = e.args[0]
        self.root = p.a[0] if p is not None and p.op == "ptr" else None
        self.call = None if self.root else e
        self.ks = self.root[3] if self.root else ()

    def match(self, leaf):
        """how the index of this must be read for the pointer leaf to be it"""
        if self.root:
            if leaf.op == "ptr" and leaf.a[0][:3] == self.root[:3]:
                return dict(zip(leaf.a[0][3], self.ks))
            return None
        if leaf.op == "call" and short(str(leaf.a[0])) == self.name and \
                len(leaf.a) - 1 <= len(self.e.args) + 1:
            a = [x for x in self.e.args]
            b = list(leaf.a[1:])[-len(a):] if a else []
            if len(a) == len(b) and all(t.same(x, y, 6)
                                        for x, y in zip(a, b)):
                return {}
        return None

    def what(self):
        return self.name + " at " + str(self.e.loc)


def leaves(v, cond=TRUE, depth=0):
    if v.op == "ite" and depth < 12:
        yield from leaves(v.a[1], and_(cond, v.a[0]), depth + 1)
        yield from leaves(v.a[2], and_(cond, not_(v.a[0])), depth + 1)
    else:
        yield cond, v


def assume_leaves(v, cond):
    try:
        v = t.assume1(v, cond, True)
    except t.TooLong:
        raise
    except Exception:
        pass
    return leaves(v)


def renamed(cond, m, loops=()):
    """cond for the round in which the element indexed by m is released"""
    more = []
    for have, want in m.items():
        if have is want:
            continue
        for u, _ in loops or [(have, None)]:
            if have is u:
                cond = t.subst(cond, {u: want})
                break
            for d, x in ((sub(have, u), None), (add(have, u), 1)):
                if not t.mentions(d, u):
                    x = sub(d, want) if x else sub(want, d)
                    cond = t.subst(cond, {u: x})
                    more.append(le(zero(), x))
                    break
            else:
                continue
            break
    return and_(cond, *more)


class Ledger:
    def __init__(self, c, w, s, events, owners, final=True, roots=None,
                 before=None, cls=None):
        self.before, self.cls = before, cls
        self.c, self.w, self.s = c, w, s
        self.owners = owners
        self.got, self.rel, self.own, self.let = [], [], [], []
        self.events = events
        for i, e in enumerate(events):
            n = short(e.name)
            if e.kind == "malloc" or e.kind == "call" and n in ACQ:
                self.got.append(Got(i, e, n))
            if e.kind == "new":
                self.got.append(Got(i, e, "new[]" if e.kw.get("array")
                                    else "new"))
            if e.kind in ("free", "delete") or e.kind == "call" and n in REL:
                for cond, leaf in self.released(e, n):
                    self.rel.append((i, e, n, cond, leaf))
            if e.kind == "own" and e.args:
                for cond, leaf in leaves(e.args[0]):
                    self.own.append((i, e, cond, leaf))
            if e.kind == "disown":
                for cond, leaf in leaves(e.args[0]):
                    self.let.append((i, e, cond, leaf))
        self.held = list(self.holders(roots)) if final else []

    def released(self, e, n):
        if not e.args:
            return []
        v = e.args[0]
        if REL.get(n):
            if v.op == "addr" or v.op == "ptr":
                v = At(self.s, e).obj(v)
            else:
                return [(TRUE, mk("unk", "holder of " + n))]
        return assume_leaves(v, e.cond)

    def holders(self, roots):
        """(condition, pointer, release) of what owners hold at the end"""
        I = self.s.I
        for r, v in list(I.st.store.items()):
            if roots and r not in roots:
                continue
            for x in [v] if v.op == "rec" else []:
                yield from self.inside(x)
            if v.op != "rec":
                for x in t.subterms(v):
                    if x.op == "rec" and x.a[0] in self.owners:
                        yield from self.inside(x)

    def inside(self, x, depth=0):
        cls = x.a[0]
        mine = self.owners.get(cls, {})
        for f, y in x.a[1]:
            if f in mine:
                for cond, leaf in leaves(y):
                    yield and_(cond, mine[f].on(x)), leaf, mine[f].how, \
                        cls + "::" + f
            if y.op == "rec" and depth < 4:
                yield from self.inside(y, depth + 1)
            elif y.op == "ite":
                for cond, z in leaves(y):
                    if z.op == "rec":
                        yield from self.inside(z, depth + 1)

    # -------------------------------------------------------- the rules
    def check(self, facts=(), transfer=(), notnull=()):
        c, w = self.c, self.w
        facts = list(facts)
        for e in [e for e in self.events if e.kind == "call"
                  and short(e.name) in ("svm_train", "pffft_new_setup")]:
            v = mk("call", e.name, *e.args)
            facts += [mk("truth", v, ty="b"), not_(eq(NULL, v))]
        for g in self.got:
            self.one(g, facts, transfer)
        for a, g in enumerate(self.got):
            # the same acquisition repeated: the first one has to be over
            for h in self.got[a + 1:] if g.call else ():
                if g.name != h.name or not h.call or len(g.e.args) != len(
                        h.e.args) or not all(t.same(x, y, 6) for x, y in
                                             zip(g.e.args, h.e.args)):
                    continue
                between = [and_(x[1].cond, x[3]) for x in self.rel
                           if g.at < x[0] < h.at and
                           g.match(x[4]) is not None]
                both(c, "nothing is acquired twice over", w, facts,
                     [g.e.cond, h.e.cond] + [not_(x) for x in between],
                     h.e.loc, "acquired again, the one of %s is lost" %
                     g.e.loc)
        for i, e, n, cond, leaf in self.rel:
            if leaf.op == "null" or and_(e.cond, cond) is FALSE:
                continue
            ms = [g for g in self.got if g.match(leaf) is not None]
            rule = "what is released was acquired"
            if ms:
                good = any(n in ACQ[g.name] for g in ms)
                c.ok(good, "released by the function that belongs to it", w,
                     "%s releases what %s acquired" % (n, ms[0].what()),
                     loc=e.loc)
                if leaf.op == "ptr" and leaf.a[1] and not all(
                        k == "i" and x is zero() for k, x in leaf.a[1]):
                    c.undecided(rule, w, "released at %s" %
                                t.show(leaf, 4), loc=e.loc)
                else:
                    c.held(rule, w, loc=e.loc)
            elif self.member(e, n, and_(e.cond, cond), leaf, facts):
                pass
            elif leaf.op == "ptr" and leaf.a[0][0] in ("v", "c"):
                c.violated(rule, w, "%s of memory not acquired: %s" %
                           (n, t.show(leaf, 4)), e.loc)
            elif leaf.op == "undef":
                c.violated(rule, w, "%s of an uninitialised pointer" % n,
                           e.loc)
            else:
                never(c, rule, w, facts, and_(e.cond, cond), e.loc,
                      "%s releases %s" % (n, t.show(leaf, 4))) \
                    if self.got else c.undecided(rule, w, t.show(leaf, 4),
                                                 loc=e.loc)

    def one(self, g, facts, transfer):
        c, w, e = self.c, self.w, g.e
        f = list(facts)
        cond = e.cond
        if g.name in MAYFAIL:
            v = mk("call", e.name, *e.args)
            cond = and_(cond, mk("truth", v, ty="b"))
            f.append(not_(eq(NULL, v)))
        ways, hows = [], []
        for i, e2, n, cd, leaf in self.rel:
            m = g.match(leaf)
            if m is None or i < g.at:
                continue
            ways.append(renamed(and_(e2.cond, cd), m, e2.loops))
            hows.append((i, e2, n, ways[-1], m))
        holds = []
        for cd, leaf, how, name in self.held:
            m = g.match(leaf)
            if m is not None:
                holds.append(renamed(cd, m))
                c.ok(how in ACQ[g.name],
                     "released by the function that belongs to it", w,
                     "%s is held by %s, which releases it with %s" % (
                         g.what(), name, how), loc=e.loc)
        own = [(i, e2, and_(e2.cond, cd)) for i, e2, cd, leaf in self.own
               if g.match(leaf) is not None]
        let = [(i, e2, and_(e2.cond, cd)) for i, e2, cd, leaf in self.let
               if g.match(leaf) is not None]
        keep = [y for _, _, y in own]
        owned = "one smart pointer owns an object"
        for a in range(len(own)):
            for b in range(a):
                if any(own[b][0] < i <= own[a][0] for i, _, _ in let):
                    continue
                both(c, owned, w, f, [own[a][2], own[b][2]], own[a][1].loc,
                     "%s is owned here and at %s" % (g.what(),
                                                     own[b][1].loc))
            for i, e2, n, cd, leaf in self.rel:
                if g.match(leaf) is not None and not any(
                        own[a][0] < j <= i for j, _, _ in let):
                    both(c, owned, w, f, [own[a][2], and_(e2.cond, cd)],
                         e2.loc, "%s is released here and owned by a smart "
                         "pointer" % g.what())
        for i, e2, cd in let:
            later = [x[2] for x in own if x[0] > i] + \
                [and_(x[1].cond, x[3]) for x in self.rel
                 if x[0] > i and g.match(x[4]) is not None]
            if later:
                c.implies("what a smart pointer gives up is released", w,
                          f + [cd], or_(*later), loc=e2.loc,
                          note=g.what())
            elif not transfer:
                both(c, "what a smart pointer gives up is released", w, f,
                     [cd], e2.loc, "%s is given up and not released" %
                     g.what())
        for v in transfer:
            for cd, leaf in leaves(v):
                if g.match(leaf) is not None or leaf.op == "ptr" and \
                        self.reaches(leaf, g):
                    holds.append(cd)
        rule = "what is acquired is released or held by its owner"
        alts = ways + holds + keep
        if not alts:
            if satisfiable([cond], {}, [20000]):
                c.violated(rule, w, "%s is neither released nor held by an "
                           "owner" % g.what(), e.loc)
            return
        c.implies(rule, w, f + [cond], or_(*alts), loc=e.loc,
                  note="%s is not released on every path" % g.what())
        once = "nothing is released twice"
        for a in range(len(hows)):
            i, e2, n, wa, m = hows[a]
            ks = [k for k, _ in e2.loops]
            loose = [(k, N) for k, N in e2.loops
                     if not any(t.mentions(x, k) for x in m)]
            for k, N in loose:
                k2 = t.fresh("again", "i")
                never(c, once, w, f, and_(wa, t.subst(wa, {k: k2}), lt(k, k2),
                                          le(zero(), k)),
                      e2.loc, "%s in several rounds of the loop of %s" % (
                          n, g.what()))
            for b in range(a):
                never(c, once, w, f, and_(wa, hows[b][3]), e2.loc,
                      "%s is released here and at %s" % (
                          g.what(), hows[b][1].loc))
            for h in holds:
                never(c, once, w, f, and_(wa, h), e2.loc,
                      "%s is released here and held by its owner" % g.what())
            if not a and not loose:
                c.held(once, w, loc=e2.loc)
            self.after(g, hows[a], f)

    def member(self, e, n, cond, leaf, facts):
        """the release of what an owning member held on entry"""
        b = self.before
        if b is None:
            return False
        for f, x in (self.owners.get(self.cls) or {}).items():
            if not t.same(leaf, x.mine, 4):
                continue
            self.c.ok(n == x.how, "released by the function that belongs "
                      "to it", self.w, "%s releases what %s holds" % (n, f),
                      loc=e.loc)
            for cd, now in leaves(getfield(self.s.obj(), f)):
                if t.same(now, x.mine, 4):
                    both(self.c, "nothing is released twice", self.w, facts,
                         [cond, cd, not_(eq(NULL, x.mine))], e.loc,
                         "%s still holds what %s released" % (f, n))
            return True
        return False

    def reaches(self, leaf, g):
        """leaf points to memory whose elements include g"""
        try:
            v = self.s.I.rootval(leaf.a[0])
        except Exception:
            return False
        return any(x.op == "ptr" and x.a[0][:3] == g.root[:3]
                   for x in t.subterms(v)) if g.root else False

    def after(self, g, how, f):
        """no use of g once it is released"""
        i, e2, n, wa, m = how
        c, w = self.c, self.w
        bad = []
        for j, e in enumerate(self.events):
            if j <= i or e.kind in ("i2i", "f2i", "div", "math", "own",
                                    "range", "undef", "maybeundef"):
                continue
            if e.kind in ("free", "delete") or \
                    e.kind == "call" and short(e.name) in REL:
                continue
            if any(self.uses(x, g) for x in e.args if hasattr(x, "op")):
                bad.append(e)
        for e in bad:
            never(c, "nothing released is used", w, f, and_(wa, e.cond),
                  e.loc, "%s uses what %s released at %s" % (
                      e.name or e.kind, n, e2.loc))
        if not bad:
            c.held("nothing released is used", w, loc=e2.loc)

    def uses(self, x, g):
        if g.root:
            return any(y.op == "ptr" and y.a[0][:3] == g.root[:3]
                       for y in t.subterms(x))
        return any(y.op == "call" and g.match(y) is not None
                   for y in t.subterms(x))


def both(c, rule, w, facts, conds, loc, note):
    """the conditions never hold together"""
    x = and_(*conds)
    for y in facts:
        x = t.assume1(x, y, True)
    if x is FALSE or not satisfiable([x], {}, [20000]):
        c.held(rule, w, loc=loc)
    elif x is TRUE or answers(x):
        c.violated(rule, w, note, loc)
    else:
        never(c, rule, w, facts, x, loc, note)


def answers(x):
    """x speaks of nothing but what library functions answered"""
    kids = [y for y in x.a if hasattr(y, "op")]
    if x.op in ("and", "or", "not"):
        return all(answers(y) for y in kids)
    return x.op in ("eqv", "truth") and any(y.op == "call" for y in kids)


def release_sites(c):
    for f in c.P.fns.values():
        for nd in everything(f):
            if nd.get("k") in ("New", "Delete") and not \
                    short(f["q"]) == "Gen":
                yield f, nd, nd["k"].lower()
            if nd.get("k") == "Call" and (nd.get("fn") or {}).get(
                    "q", "").endswith("_ptr::release"):
                yield f, nd, "release"
            if nd.get("k") == "Call":
                q = short((nd.get("fn") or {}).get("q", ""))
                if q in ACQ or q in REL:
                    yield f, nd, q


def everything(f):
    yield from walk(f.get("body") or {})
    for i in f.get("inits") or []:
        yield from walk(i.get("e") or {})


def dtor(c, q):
    fs = [f for f in c.P.fns.values() if f.get("dtor") and
          f["q"].startswith(q + "::") and f.get("body")]
    return fs[0] if fs else None


def ctors(c, q):
    return [f for f in c.P.fns.values() if f.get("ctor") and
            f["q"].startswith(q + "::") and not f.get("copyctor") and
            not f.get("movector") and f.get("body")]


class Claim:
    """a destructor's release of a member: by what, when"""

    def __init__(self, how, when, e, names, mine):
        self.how, self.when, self.e = how, when, e
        self.names, self.mine = names, mine

    def on(self, x):
        """the condition for the object x"""
        if self.when is TRUE:
            return TRUE
        return t.subst(self.when, {y: getfield(x, *n)
                                   for y, n in self.names.items()})


def owners(c):
    """class -> {member: function that releases it in the destructor}"""
    out = {}
    for q, r in c.P.records.items():
        d = dtor(c, q)
        if d is None or r.get("abstract"):
            continue
        if not any(nd.get("k") == "Call" for nd in walk(d["body"])):
            continue
        try:
            s = c.session(q)
            s.I.snap = tuple(n for n in REL if REL[n])
            before = s.obj()
            run = s.call(d, args=[])
        except Skip:
            continue
        for e in run.ev():
            n = short(e.name)
            if e.kind != "free" and not (e.kind == "call" and n in REL):
                continue
            if not e.args:
                continue
            v = e.args[0]
            if REL.get(n) and v.op in ("ptr", "addr"):
                v = At(s, e).obj(v)
            for cond, leaf in leaves(v):
                for x in r["fields"]:
                    mine = getfield(before, x["name"])
                    if t.same(leaf, mine, 4) and not e.loops:
                        when = t.assume1(t.assume1(
                            and_(e.cond, cond), eq(NULL, leaf), False),
                            mk("truth", leaf, ty="b"), True)
                        out.setdefault(q, {})[x["name"]] = Claim(
                            n, when, e, {getfield(before, y["name"], k):
                                         (y["name"], k)
                                         for y in r["fields"]
                                         for k in "iofb"}, mine)
    return out


def check(c):
    seen = set()
    contract = {}

    def note(run):
        for e in run.ev():
            seen.add(e.loc)

    w0 = "destructors"

    @c.rule("owners release what they hold", w0)
    def _():
        for q, fs in owners(c).items():
            contract[q] = fs
            for name, x in fs.items():
                c.held("a held resource is released by the destructor",
                       short(q) + "::~" + short(q), "%s %s" % (
                           name, "always" if x.when is TRUE else
                           "where " + t.show(x.when, 4)), x.e.loc)

    def life(name, q, steps, facts=(), obligations=True):
        """one history of an object of class q, from construction on"""
        w = name

        @c.rule("lifetime", w, 60)
        def _():
            s = c.session(q, obligations=obligations)
            s.I.snap = tuple(n for n in REL if REL[n]) + ("svm_train",)
            s.set_this(s.I.undef_of(q) if steps and steps[0][0].get("ctor")
                       else s.I.make(q, []))
            events = []
            ends = dtor(c, q)
            for f, args, names in steps:
                r = s.call(f, args=args, names=names)
                note(r)
                events += r.ev()
            cut = len(events)
            if ends is not None:
                r = s.call(ends, args=[])
                note(r)
                events += r.ev()
            led = Ledger(c, w, s, events, members(c, q, contract))
            led.check(facts)
            # data the model points into lives as long as the model
            for e in events:
                if e.kind == "call" and short(e.name) == "svm_train":
                    problem = At(s, e).obj(e.args[0])
                    early = [x for x in led.rel if x[0] < cut and x[4].op ==
                             "ptr" and any(
                                 g.match(x[4]) is not None and
                                 (led.uses(problem, g) or any(
                                     led.reaches(y, g) for y in
                                     t.subterms(problem) if y.op == "ptr"))
                                 for g in led.got)]
                    c.ok(not early, "training data outlives the model", w,
                         "freed before the model is destroyed",
                         loc=early[0][1].loc if early else e.loc)

    P = c.P
    n = num("size", "i", True)
    init = [f for f in c.find(AUDIO + "::Init")]
    if init:
        life("AudioChannel: Init, destructor", AUDIO,
             [(init[0], [n], None)])
        life("AudioChannel: destructor alone", AUDIO, [])
    fc = [f for f in ctors(c, FFT) if len(f["params"]) == 1]
    if fc:
        life("FftManager: constructor, destructor", FFT,
             [(fc[0], [n], None)])
    sc = [f for f in ctors(c, MODEL) if not f["params"]]
    inits = c.find(MODEL + "::Init")
    load = [f for f in inits if len(f["params"]) == 1]
    fit = [f for f in inits if len(f["params"]) == 2]
    use = c.find(MODEL + "::Predict")
    first = [(f, [], None) for f in sc]
    life("SupportVectorRegressionModel: constructor, destructor", MODEL,
         first)
    predict = [(f, None, ["observation"]) for f in use]
    if load:
        life("SupportVectorRegressionModel: load, predict, destructor", MODEL,
             first + [(load[0], None, ["path"])] + predict)
    if fit:
        obs, tg = sym("p:observations"), sym("p:targets")
        life("SupportVectorRegressionModel: train, predict, destructor",
             MODEL, first + [(fit[0], None, ["observations", "targets"])] +
             predict, [lt(zero(), length(obs)),
                       eq(length(obs), length(tg))])

    def call(q, args=None, names=None, opaque=None, what=None, facts=(),
             transfer=False):
        w = what or short(q)

        @c.rule("function", w, 100)
        def _():
            f = c.fn(q) if isinstance(q, str) else q
            s = c.session(f.get("cls") if not f.get("static") else None,
                          opaque=opaque, obligations=False)
            s.I.snap = tuple(x for x in REL if REL[x])
            before = s.obj() if s.this is not None else None
            if before is not None and f.get("cls") in c.P.records:
                s.set_this(rec(f["cls"], {
                    x["name"]: getfield(before, x["name"], t_kind(c, x))
                    for x in c.P.all_fields(f["cls"])}))
            r = s.call(f, args=args, names=names)
            note(r)
            led = Ledger(c, w, s, r.ev(), contract, before=before,
                         cls=f.get("cls"))
            led.check(facts, [r.ret] if transfer and hasattr(r.ret, "op")
                      else [])

    sig = matrix(n, one(), lambda i, j: get(sym("sig"), i, "f"))
    ref = matrix(num("m", "i", True), one(),
                 lambda i, j: get(sym("ref"), i, "f"))
    far = opq("NextPowTwo")
    call("Visqol::Envelope::CalcUpperEnv", [sig], opaque=far)
    call("Visqol::XCorr::FindLowestLagIndex", [sig, ref], opaque=far)

    w2 = "TFLiteQualityMapper::Init"

    @c.rule("lattice model", w2, 60)
    def _():
        f = c.fn(LATTICE + "::Init")
        s = c.session(LATTICE)
        s.set_this(s.I.undef_of(LATTICE))
        r = s.call(f, args=[])
        note(r)
        es = r.ev("call", "TfLiteXNNPackDelegateCreate")
        this = s.obj()

        def member(name):
            """members of this that hold results of the call"""
            return [(x, cd) for x, v in this.a[1] for cd, leaf in leaves(v)
                    if any(y.op == "call" and short(str(y.a[0])) == name or
                           y.op == "call" and str(y.a[0]).endswith(name)
                           for y in [leaf] + [z for z in leaf.a
                                              if hasattr(z, "op")])]
        led = Ledger(c, w2, s, r.ev(), {}, final=False)
        use = [e for e in r.ev("call") if short(e.name) ==
               "ModifyGraphWithDelegate"]
        for e in es:
            g = Got(0, e, short(e.name))
            rule = "the delegate is owned with its deleter"
            own = [(x, cd) for _, x, cd, leaf in led.own
                   if g.match(leaf) is not None]
            if not own:
                c.violated("the delegate is owned", w2,
                           "no smart pointer takes it", e.loc)
                continue
            c.implies("the delegate is owned", w2, [e.cond],
                      or_(*[and_(x.cond, cd) for x, cd in own]), loc=e.loc,
                      note="not on every path")
            for x, cd in own:
                d = x.args[1]
                if d.op == "null":
                    c.violated(rule, w2, "no deleter is given", x.loc)
                elif d.op == "fnptr":
                    c.ok(short(str(d.a[0])) == "TfLiteXNNPackDelegateDelete",
                         rule, w2, "deleted by %s" % d.a[0], loc=x.loc)
                elif d.op == "lam":
                    n0 = len(s.I.events)
                    s.I.apply(d, [x.args[0]])
                    c.ok(any(short(y.name) == "TfLiteXNNPackDelegateDelete"
                             and y.args and g.match(y.args[0]) is not None
                             for y in s.I.events[n0:]),
                         rule, w2, "the deleter does not delete it",
                         loc=x.loc)
                else:
                    c.undecided(rule, w2, t.show(d, 3), loc=x.loc)
            led.one(g, [], [])
            for u in use:
                mine = [cd for x, v in this.a[1] for cd, leaf in leaves(v)
                        if g.match(leaf) is not None]
                c.implies("the interpreter's delegate is kept", w2, [u.cond],
                          or_(*mine) if mine else FALSE, loc=u.loc,
                          note="no member keeps the delegate the "
                          "interpreter uses")
        order = [x["name"] for x in P.all_fields(LATTICE)]
        run = member("InterpreterBuilder::operator()")
        for dep, what in (("BuildFromFile", "model"),
                          ("TfLiteXNNPackDelegateCreate", "delegate")):
            have = member(dep)
            names = {x for x, _ in have}
            rule = "the interpreter is destroyed before its " + what
            users = {x for x, _ in run} - names
            if not users:
                c.undecided(rule, w2, "no member holds the interpreter")
                continue
            if not names:
                if r.ev("call", dep):
                    c.violated(rule, w2, "the %s is destroyed at the end of "
                               "Init, the interpreter is kept" % what,
                               r.ev("call", dep)[0].loc)
                continue
            late = [(a, b) for a in names for b in users
                    if order.index(a) > order.index(b)]
            c.ok(not late, rule, w2, "member %s is declared after %s" %
                 (late[0] if late else ("", "")), loc=P.records[LATTICE].get(
                     "file"))
        seen.update(e.loc for e in r.ev())

    # ------------------------------------------------------------- copies
    w3 = "copies"

    @c.rule("owners are not copied", w3)
    def _():
        raw = {q for q in P.records if q in contract}
        for q in (AUDIO, FFT, MODEL):
            if dtor(c, q) is not None:
                raw.add(q)
        raw = {q for q in raw if not P.records[q].get("ucopyc")}
        own = set(raw)
        grew = True
        while grew:
            grew = False
            for q, r in P.records.items():
                if q in own or r.get("ucopyc"):
                    continue
                if any(t_base(x["t"]) in own for x in r["fields"]) or any(
                        b in own for b in P.bases(q)):
                    own.add(q)
                    grew = True
        rule = "objects owning resources are never copied"
        for f in P.fns.values():
            if f.get("defaulted") or f.get("implicit"):
                continue
            for nd in everything(f):
                k, ty = nd.get("k"), t_base(str(nd.get("t")))
                loc = "%s:%s" % (f.get("file"), nd.get("l"))
                if k == "Construct" and ty in own:
                    if nd.get("copy") or nd.get("move"):
                        a = (nd.get("args") or [{}])[0]
                        if nd.get("elide"):
                            continue
                        c.violated(rule, f["q"], "a copy of %s shares what "
                                   "both destructors release" % ty, loc)
                    else:
                        c.held(rule, f["q"], loc=loc)
                if k == "Call":
                    fn = nd.get("fn") or {}
                    if short(fn.get("q", "")) == "operator=" and \
                            t_base(fn.get("cls") or "") in own and \
                            not P.records[t_base(fn["cls"])].get("ucopya"):
                        c.violated(rule, f["q"], "%s is assigned from "
                                   "another object" % fn["cls"], loc)
                    grow = short(fn.get("q", "")) in (
                        "push_back", "emplace_back", "resize", "reserve",
                        "insert", "make_unique", "make_shared", "make_pair",
                        "make_tuple", "swap")
                    if grow and any(t_base(str(a.get("t"))) in own
                                    for a in nd.get("args") or []):
                        c.violated(rule, f["q"], "%s copies an owner" %
                                   fn.get("q"), loc)
                    elif grow and any(x in own for x in
                                      inner(str(fn.get("cls")))):
                        c.violated(rule, f["q"], "%s of owners copies them" %
                                   fn.get("q"), loc)
                if k == "Lambda":
                    for cap in nd.get("caps") or []:
                        if t_base(str(cap.get("t"))) in own and \
                                not cap.get("ref"):
                            c.violated(rule, f["q"], "captured by copy", loc)
        for f in P.fns.values():
            for p in f["params"]:
                if p["t"].replace("const ", "").strip() in own:
                    c.undecided(rule, f["q"], "takes %s by value" % p["t"])

    # --------------------------------------------------------- everything
    w4 = "all call sites"

    @c.rule("every acquisition is covered", w4)
    def _():
        todo = {}
        for f, nd, q in release_sites(c):
            loc = "%s:%s" % (f.get("file"), nd.get("l"))
            if loc in seen:
                c.held("the site lies on an interpreted history", f["q"],
                       q, loc)
            else:
                todo.setdefault(f["u"], []).append((nd, q, loc))
        for u, sites in todo.items():
            f = P.fns[u]
            call(f, what=f["q"].replace("Visqol::", ""), transfer=True)
            for nd, q, loc in sites:
                if loc in seen:
                    c.held("the site lies on an interpreted history",
                           f["q"], q, loc)
                else:
                    c.undecided("the site lies on an interpreted history",
                                f["q"], q, loc)


def t_base(ty):
    ty = ty.replace("const ", "").strip()
    return ty[:-1].strip() if ty.endswith("&") and not ty.endswith("&&") \
        else ty


def inner(cls):
    import re
    return re.findall(r"Visqol::\w+", cls) if "<" in cls else []


def t_kind(c, x):
    import program
    return program.kind(x["t"])


def members(c, q, contract):
    """owning members of other classes than q, whose destructor is run"""
    return {k: v for k, v in contract.items() if k != q}
