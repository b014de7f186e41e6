from common import *

TECHNIQUE = "abstract interpretation to value graphs of the whole transform " \
    "path; buffer sizes and copies decided by linear arithmetic, the transform " \
    "size by a known-bits domain"
EXPLANATION = "The envelope and the cross-correlation are interpreted from " \
    "their public entry points down to the pffft calls on signals of symbolic " \
    "length (up to 2^29 samples). Rules: the transform size of a plan is a " \
    "power of two, at least 32 and at least the number of samples; every " \
    "buffer handed to pffft was allocated aligned and holds what the plan's " \
    "size needs; without a work area the size is at most 16384; zreorder is " \
    "not done in place; every element access, clearing and copy on an " \
    "allocated block or a sequence on the way lies within it."

LIMIT = C(1 << 29)
BUFFERS = {"pffft_transform_ordered": (1, 2, 3), "pffft_transform": (1, 2, 3),
           "pffft_zreorder": (1, 2, None), "pffft_zconvolve_accumulate":
           (1, 2, None)}
STACK = C(16384)


# ------------------------------------------------------------- known bits

WIDTH = 64


def const_bits(n):
    return [(n >> i) & 1 for i in range(WIDTH)]


def value(b):
    return None if None in b else sum(x << i for i, x in enumerate(b))


def bits(v, env):
    """v bit by bit: 0, 1 or None where it is not known"""
    if v in env:
        return env[v]
    if v.op == "c" and v.a[0].denominator == 1 and v.a[0] >= 0:
        return const_bits(int(v.a[0]))
    if v.op in ("bit|", "bit&", "bit^"):
        xs = [bits(x, env) for x in v.a]
        r = xs[0]
        for y in xs[1:]:
            r = [pick(v.op, p, q) for p, q in zip(r, y)]
        return r
    if v.op == "idiv" and v.a[1].op == "c":
        d = int(v.a[1].a[0])
        if d > 0 and d & (d - 1) == 0:
            s = d.bit_length() - 1
            return bits(v.a[0], env)[s:] + [0] * s
    if v.op in ("max", "min"):
        xs = [value(bits(x, env)) for x in v.a]
        if None not in xs:
            return const_bits(max(xs) if v.op == "max" else min(xs))
    if v.op == "ite":
        k = truth_of(v.a[0], env)
        if k is not None:
            return bits(v.a[1] if k else v.a[2], env)
    if v.op == "p":
        m = {}
        for x in t.subterms(v):
            if x is not v and x.op not in ("c", "p"):
                try:
                    n = value(bits(x, env))
                except Skip:
                    continue
                if n is not None:
                    m[x] = C(n)
        w = t.subst(v, m)
        if w.op == "c" and w.a[0] >= 0:
            return const_bits(int(w.a[0]) & 0xffffffffffffffff)
    raise Skip("bits of %s" % t.show(v, 4))


def truth_of(cond, env):
    m = {}
    for x in t.subterms(cond):
        if x.ty != "b" and x.op not in ("c", "p"):
            try:
                n = value(bits(x, env))
            except Skip:
                continue
            if n is not None:
                m[x] = C(n)
    w = t.subst(cond, m)
    return True if w is TRUE else False if w is FALSE else None


def pick(op, p, q):
    if op == "bit|":
        return 1 if 1 in (p, q) else None if None in (p, q) else 0
    if op == "bit&":
        return 0 if 0 in (p, q) else None if None in (p, q) else 1
    return None if None in (p, q) else p ^ q


def power(c):
    w = "MiscMath::NextPowTwo"
    f = c.fn("Visqol::MiscMath::NextPowTwo")
    r = c.run(f, names=["n"], obligations=True)
    n, v = sym("p:n", "i"), num("bits", "i", True)
    for e in r.ev("i2i"):
        cond = keeps(e)
        if cond is not None and not any(x.op.startswith("bit") for x in
                                        t.subterms(e.args[0])):
            c.implies(CAST, w, [le(one(), n), le(n, mul(C(2), LIMIT)),
                                e.cond], cond, e.loc, "conversion")
    rule = "the next power of two is one and holds the number"
    ret = t.subst(r.ret, {n: add(v, one())})
    for h in range(-1, 29):
        # v = n - 1 is 0, or has its highest bit at h
        top = [None] * h + [1] if h >= 0 else []
        env = {v: top + [0] * (WIDTH - len(top))}
        try:
            got = value(bits(ret, env))
        except Skip:
            got = None
        what = "n - 1 in [2^%d, 2^%d)" % (h, h + 1) if h >= 0 else "n = 1"
        if got is None:
            # not settled by the highest bit: some single numbers
            for x in {1, (1 << h) + 1, 2 << h, (1 << h) + (1 << h) // 3 + 1} \
                    if h >= 0 else {1}:
                try:
                    g = value(bits(t.subst(r.ret, {n: C(x)}), {}))
                except Skip:
                    continue
                if g is not None and (g & (g - 1) or g < x):
                    c.violated(rule, w, "n = %d gives %d" % (x, g),
                               loc="%s:%s" % (f["file"], f["l"]))
                    return
            c.undecided(rule, w, "%s: not every bit is settled" % what)
            continue
        # n <= v + 1 <= 2^(h+1)
        ok = got & (got - 1) == 0 and got >= (2 << h if h >= 0 else 1)
        if not ok:
            c.violated(rule, w, "%s gives %d" % (what, got),
                       loc="%s:%s" % (f["file"], f["l"]))
        else:
            c.held(rule, w)


# ------------------------------------------------------------ transforms

def keeps(e):
    """the condition under which an integer conversion keeps the value"""
    w = interp.WIDTH.get(e.kw["to"])
    if w is None:
        return None
    lo, hi = (0, (1 << -w) - 1) if w < 0 else (-(1 << (w - 1)),
                                               (1 << (w - 1)) - 1)
    return and_(le(C(lo), e.args[0]), le(e.args[0], C(hi)))


CAST = "sizes are not cut by their type"


class Plan:
    """the events of a run with the transform size made explicit: the smallest
    power of two not below x, as one of 1 to 16 and the multiples of 32"""

    def __init__(self, c, w, r, facts):
        self.c, self.w, self.r, self.facts = c, w, r, list(facts)
        xs = {}
        for e in r.ev():
            for v in tuple(e.args) + (e.cond,):
                for x in t.subterms(v):
                    if x.op == "call" and str(x.a[0]).endswith("NextPowTwo") \
                            or x.op == "fn" and x.a[0] == "pow" or \
                            x.op == "pow" and x.a[0] is C(2):
                        xs.setdefault(x)
        self.nexts = [x for x in xs if x.op == "call"]
        self.pows = [x for x in xs if x.op != "call"]
        if len(self.nexts) > 1 or len(self.pows) > 1:
            raise Skip("several transform sizes")

    def cases(self):
        h = num("h", "i", True)
        for p in (1, 2, 4, 8, 16):
            yield self.case(C(p))
        yield self.case(mul(C(32), add(one(), h)), [], h)

    def case(self, p, extra=(), h=None):
        facts = list(extra)
        m = {}
        if self.pows:
            q = self.pows[0]
            ex = q.a[-1]
            if ex.op != "frexp_e":
                raise Skip("exponent of the transform size")
            y = ex.a[0]
            m[q] = p
            # y = m * 2^e with m in [1/2, 1)
            facts += [lt(y, p), le(p, mul(C(2), y))]
        if self.nexts:
            x = t.subst(self.nexts[0].a[1], m)
            m[self.nexts[0]] = p
            if not self.pows or not t.same(x, p):
                facts += [le(x, p), le(p, mul(C(2), sub(x, one())))
                          if p is not C(1) else le(x, one()), le(one(), x)]

        def sb(v):
            if m:
                # inside first: the argument of one mentions the other
                v = t.subst(v, {k: z for k, z in m.items() if k.op == "call"})
                v = t.subst(v, {k: z for k, z in m.items() if k.op != "call"})
            return v
        return sb, self.facts + [sb(x) for x in facts], h

    def prove(self, rule, cond, guard, loc, note):
        """cond holds for every transform size"""
        c = self.c
        for sb, facts, h in self.cases():
            g, v = sb(guard), sb(cond)
            fs = [x for x in [g] + facts if x is not TRUE]
            if FALSE in fs:
                continue
            if h is None:
                c.implies(rule, self.w, fs, v, loc=loc, note=note)
                continue
            n = len(c.obl)
            c.implies(rule, self.w, fs, v, loc=loc, note=note)
            for o in c.obl[n:]:
                if o["status"] != "violated":
                    continue
                # only powers of two count
                o["status"] = "undecided"
                for k in (0, 1, 3, 63, 511, 1023, (1 << 20) - 1):
                    one_h = {h: C(k)}
                    fk = [t.subst(x, one_h) for x in fs]
                    if FALSE in fk:
                        continue
                    j = len(c.obl)
                    c.implies(rule, self.w, fk, t.subst(v, one_h), loc=loc,
                              note=note)
                    bad = [y for y in c.obl[j:] if y["status"] == "violated"]
                    del c.obl[j:]
                    if bad:
                        o.update(bad[0])
                        break

    # -- rules
    def setup(self):
        es = self.r.ev("call", "pffft_new_setup")
        for e in es:
            f, k = e.args[:2]
            self.prove("a plan holds all samples", le(self.samples, f), e.cond,
                       e.loc, "size of the plan")
            self.prove("a plan has at least the smallest size",
                       le(C(32 if k is zero() else 16), f), e.cond, e.loc,
                       "size of the plan")
            self.prove("the size of a plan fits its type",
                       le(f, C((1 << 31) - 1)), e.cond, e.loc,
                       "size of the plan")
            # 1 + h stands for a power of two: so must the size
            for sb, facts, h in self.cases():
                v = tidy(sb(f), facts + [sb(e.cond)])
                if v.op == "c":
                    n = int(v.a[0])
                    self.c.ok(n & (n - 1) == 0,
                              "the size of a plan is a power of two", self.w,
                              "size %d" % n, loc=e.loc)
                    continue
                ls = leaves(v)
                ok = all(power_of(x, h) for x in ls)
                self.c.put("held" if ok else "undecided",
                           "the size of a plan is a power of two", self.w,
                           t.show(v, 6), e.loc)
        return len(es)

    def buffers(self):
        n = 0
        for e in self.r.ev("call"):
            if e.name not in BUFFERS:
                continue
            n += 1
            src, dst, work = BUFFERS[e.name]
            setup = e.args[0]
            if setup.op != "call" or setup.a[0] != "pffft_new_setup":
                self.c.undecided("transforms use a plan", self.w, e.name,
                                 e.loc)
                continue
            f, k = setup.a[1:3]
            per = 4 if k is zero() else 8
            for i in (src, dst):
                self.buffer(e, e.args[i], mul(C(per), f), TRUE, f)
            if work is not None and work < len(e.args):
                self.buffer(e, e.args[work], mul(C(per), f), TRUE, f, True)
            if e.name == "pffft_zreorder":
                a, b = e.args[src], e.args[dst]
                same = a.op == "ptr" and b.op == "ptr" and a.a[0] == b.a[0]
                self.c.ok(not same, "reordering is not done in place", self.w,
                          "input and output are the same block", loc=e.loc)
        return n

    def buffer(self, e, p, need, guard, f, work=False):
        c = self.c
        rule = "work areas are large enough" if work else \
            "transform buffers hold a transform"
        if p.op == "ite":
            self.buffer(e, p.a[1], need, and_(guard, p.a[0]), f, work)
            self.buffer(e, p.a[2], need, and_(guard, not_(p.a[0])), f, work)
            return
        g = and_(guard, e.cond)
        if p is NULL:
            if work:
                self.prove("large transforms have a work area", le(f, STACK),
                           g, e.loc, e.name)
            else:
                self.prove(rule, FALSE, g, e.loc, e.name + " on no buffer")
            return
        size = None
        if p.op == "ptr" and p.a[0][0] == "h":
            size = self.r.I.hsize.get(p.a[0][:3])
        if size is None:
            c.undecided(rule, self.w, "%s: %s" % (e.name, t.show(p, 4)), e.loc)
            return
        off = p.a[1][0][1] if p.a[1] else zero()
        self.prove(rule, and_(le(zero(), off),
                              le(add(need, mul(C(4), off)), size)), g, e.loc,
                   "%s argument" % e.name)
        c.ok(p.a[0][1] == "pffft_aligned_malloc",
             "transform buffers are allocated aligned", self.w,
             "memory from " + str(p.a[0][1]), loc=e.loc)

    def accesses(self):
        n = 0
        seen = set()
        for e in self.r.ev():
            if e.kind == "memset":
                p, _v, size = e.args
                have = self.r.I.hsize.get(p.a[0][:3]) if p.op == "ptr" \
                    else None
                if have is None or p.a[1] and p.a[1][-1][0] != "i":
                    continue
                off = p.a[1][-1][1] if p.a[1] else zero()
                cond, rule = le(add(size, mul(C(4), off)), have), \
                    "clearing stays within the allocated memory"
            elif e.kind == "i2i":
                cond, rule = keeps(e), CAST
                if cond is None:
                    continue
            elif e.kind in SAFE:
                cond = within(e)
                if cond is None:
                    continue
                rule = SAFE[e.kind]
            else:
                continue
            key = (e.kind, e.loc, cond, e.cond)
            if key in seen:
                continue
            seen.add(key)
            n += 1
            self.prove(rule, cond, e.cond, e.loc, "%s %s" % (e.kind, e.name))
        return n


def leaves(v):
    if v.op == "ite":
        return leaves(v.a[1]) + leaves(v.a[2])
    if v.op in ("max", "min"):
        return [y for x in v.a for y in leaves(x)]
    return [v]


def power_of(x, h):
    """x is a power of two, times 1 + h or not"""
    if x.op == "c":
        n = x.a[0]
        return n.denominator == 1 and n > 0 and int(n) & (int(n) - 1) == 0
    k = t.subst(x, {h: zero()}) if h is not None else x
    return k.op == "c" and power_of(k, None) and \
        t.same(x, mul(k, add(one(), h)))


def check(c):
    @c.rule("transform size", "MiscMath::NextPowTwo")
    def _():
        power(c)

    def signal(name):
        n = num(name + "_samples", "i", True)
        return n, matrix(n, one(), lambda i, j: get(sym(name), i, "f"))

    def run(w, r, facts, samples):
        p = Plan(c, w, r, facts)
        p.samples = samples
        if not p.setup():
            raise Skip("no transform plan")
        if not p.buffers():
            raise Skip("no transform")
        p.accesses()

    w = "Envelope::CalcUpperEnv"

    @c.rule("envelope", w)
    def _():
        n, s = signal("signal")
        r = c.run(c.fn("Visqol::Envelope::CalcUpperEnv"), args=[s],
                  obligations=True, opaque=opq("NextPowTwo"))
        run(w, r, [le(one(), n), le(n, LIMIT)], n)

    w2 = "XCorr::FindLowestLagIndex"

    @c.rule("cross-correlation", w2)
    def _():
        n, d = num("samples", "i", True), num("more", "i", True)

        def of(name, k):
            return matrix(k, one(), lambda i, j: get(sym(name), i, "f"))
        # the second signal is longer, or as long; the first is longer
        for a, b in ((n, add(n, d)), (add(n, add(d, one())), n)):
            r = c.run(c.fn("Visqol::XCorr::FindLowestLagIndex"),
                      args=[of("first", a), of("second", b)],
                      obligations=True, opaque=opq("NextPowTwo"))
            top = b if a is n else a
            run(w2, r, [le(one(), n), le(top, LIMIT)], top)
