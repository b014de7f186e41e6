"""Hash-consed value graph: every program value is a term in normal form.

Numbers are polynomials with rational coefficients over atoms (exponents may be
negative, so quotients are polynomials too); conditions are signs of such
polynomials; joins are gates `ite(c, a, b)`; sequences and matrices are
comprehensions with bound variables. Equal terms are the same object.
"""
from fractions import Fraction
import struct
import time


class Mode:
    # With nan_blind a comparison and the negation of its opposite are the same.
    nan_blind = True
    # Larger products of sums are not expanded.
    expand = 60


class T:
    __slots__ = ("op", "a", "ty", "lv", "id", "unk")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_n = [0]


def reset():
    _tab.clear()
    _init_consts()


class TooLong(BaseException):
    """the time for one question is used up: it stays undecided"""


_deadline = [0.0]


def limit(seconds):
    _deadline[0] = time.time() + seconds if seconds else 0.0


def mk(op, *a, ty="o", lv=None):
    key = (op, ty, a)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.a, t.ty = op, a, ty
    m = 0
    u = op == "unk"
    for x in a:
        if isinstance(x, T):
            if x.lv > m:
                m = x.lv
            if x.unk:
                u = True
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    if y.lv > m:
                        m = y.lv
                    if y.unk:
                        u = True
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            if z.lv > m:
                                m = z.lv
                            if z.unk:
                                u = True
    t.lv = m if lv is None else lv
    t.unk = u
    _n[0] += 1
    t.id = _n[0]
    if not _n[0] & 1023 and _deadline[0] and time.time() > _deadline[0]:
        raise TooLong
    _tab[key] = t
    return t


def _init_consts():
    global TRUE, FALSE, NULL, VOID, UNDEF
    TRUE = mk("true", ty="b")
    FALSE = mk("false", ty="b")
    NULL = mk("null")
    VOID = mk("void")
    UNDEF = mk("undef")


_init_consts()

_fresh = [0]


def sym(name, ty="o"):
    return mk("sym", name, ty=ty)


def fresh(name, ty="o"):
    _fresh[0] += 1
    return mk("sym", "%s#%d" % (name, _fresh[0]), ty=ty)


def unk(why, ty="o", deps=()):
    """A value the analysis cannot describe. It never supports a report."""
    _fresh[0] += 1
    return mk("unk", "%s#%d" % (why, _fresh[0]), tuple(deps), ty=ty)


# ---------------------------------------------------------------- numbers

def C(v, ty=None):
    if isinstance(v, float):
        if v != v:
            return mk("nan", ty="f")
        if v in (float("inf"), float("-inf")):
            return mk("inf" if v > 0 else "ninf", ty="f")
        if ty is None:
            ty = "f"
    v = Fraction(v)
    if ty is None:
        ty = "i" if v.denominator == 1 else "f"
    # The same number is the same term, whatever its C++ type.
    return mk("c", v, ty="i" if v.denominator == 1 else "f")


def is_c(t):
    return t.op == "c"


def cval(t):
    return t.a[0] if t.op == "c" else None


ZERO = None


def zero():
    return C(0)


def one():
    return C(1)


def is_num(t):
    return t.ty in ("i", "f") or t.op in ("c", "p", "m")


def parts(t):
    """polynomial -> (const, {monomial term: coef})"""
    if t.op == "c":
        return t.a[0], {}
    if t.op == "p":
        return t.a[0], dict(t.a[1])
    return Fraction(0), {t: Fraction(1)}


def _poly(c, d):
    d = {m: k for m, k in d.items() if k != 0}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        (m, k), = d.items()
        if k == 1:
            return m
    ty = "i"
    if Fraction(c).denominator != 1:
        ty = "f"
    for m, k in d.items():
        if k.denominator != 1 or m.ty != "i":
            ty = "f"
    items = tuple(sorted(d.items(), key=lambda x: x[0].id))
    return mk("p", Fraction(c), items, ty=ty)


def _special(*ts):
    return any(t.op in ("nan", "inf", "ninf") for t in ts)


def add(x, y):
    if _special(x, y):
        return mk("fadd", x, y, ty="f")
    x, y = num(x), num(y)
    cx, dx = parts(x)
    cy, dy = parts(y)
    for m, k in dy.items():
        dx[m] = dx.get(m, 0) + k
    return _poly(cx + cy, dx)


def num(t):
    """booleans and others in arithmetic"""
    if t.ty == "b":
        return ite(t, one(), zero())
    return t


def scale(t, k):
    k = Fraction(k)
    if k == 0:
        return zero()
    if _special(t):
        return mk("fmul", t, C(k), ty="f")
    c, d = parts(num(t))
    return _poly(c * k, {m: v * k for m, v in d.items()})


def neg(t):
    if t.op == "inf":
        return mk("ninf", ty="f")
    if t.op == "ninf":
        return mk("inf", ty="f")
    return scale(t, -1)


def sub(x, y):
    return add(x, neg(y))


def _mono(factors):
    """factors: {atom: exp}"""
    f = {a: e for a, e in factors.items() if e != 0}
    if not f:
        return one()
    if len(f) == 1:
        (a, e), = f.items()
        if e == 1:
            return a
    ty = "i" if all(a.ty == "i" and e > 0 for a, e in f.items()) else "f"
    return mk("m", tuple(sorted(f.items(), key=lambda x: x[0].id)), ty=ty)


def _fac(m):
    return dict(m.a[0]) if m.op == "m" else {m: 1}


def mul(x, y):
    if _special(x, y):
        return mk("fmul", x, y, ty="f")
    x, y = num(x), num(y)
    if x.op == "c":
        return scale(y, x.a[0])
    if y.op == "c":
        return scale(x, y.a[0])
    cx, dx = parts(x)
    cy, dy = parts(y)
    if len(dx) * len(dy) > Mode.expand:
        return mk("fmul", *sorted((x, y)), ty="f" if "f" in (x.ty, y.ty) else "i")
    acc = {}
    c = Fraction(cx * cy)

    def put(m, k):
        nonlocal c
        if m.op == "c":
            c += k * m.a[0]
            return
        if m.op == "p":
            cc, dd = parts(m)
            c += k * cc
            for mm, kk in dd.items():
                acc[mm] = acc.get(mm, 0) + k * kk
            return
        acc[m] = acc.get(m, 0) + k

    for m, k in dx.items():
        if cy:
            put(m, k * cy)
        for n, l in dy.items():
            f = _fac(m)
            for a, e in _fac(n).items():
                f[a] = f.get(a, 0) + e
            put(_mono(f), k * l)
    if cx:
        for n, l in dy.items():
            put(n, cx * l)
    return _poly(c, acc)


def recip(y):
    """1/y"""
    y = num(y)
    if y.op == "c":
        if y.a[0] == 0:
            return mk("inf", ty="f")
        return C(1 / y.a[0], "f")
    c, d = parts(y)
    if c == 0 and len(d) == 1:
        (m, k), = d.items()
        return scale(_mono({a: -e for a, e in _fac(m).items()}), 1 / k)
    # Normalise the leading coefficient.
    lead = sorted(d.items(), key=lambda x: x[0].id)[0][1]
    z = scale(y, 1 / lead)
    return scale(_mono({z: -1}), 1 / lead)


def div(x, y):
    if _special(x, y):
        return mk("fdiv", x, y, ty="f")
    if y.op == "c" and y.a[0] == 0:
        return mk("fdiv", x, y, ty="f")
    x = num(x)
    # p / p
    if x is y:
        return one()
    c, d = parts(x)
    cy, dy = parts(y)
    if dy and d and len(dy) > 1 and len(d) == len(dy):
        # proportional polynomials
        k = None
        for m, v in dy.items():
            if m not in d:
                k = None
                break
            r = d[m] / v
            if k is None:
                k = r
            elif k != r:
                k = None
                break
        if k is not None and c == k * cy:
            return C(k)
    return mul(x, recip(y))


def idiv(x, y):
    x, y = num(x), num(y)
    if x.op == "c" and y.op == "c" and y.a[0] != 0:
        q = abs(x.a[0]) // abs(y.a[0])
        return C(q if (x.a[0] >= 0) == (y.a[0] >= 0) else -q)
    if y.op == "c" and y.a[0] == 1:
        return x
    if y.op == "c" and y.a[0] != 0:
        c, d = parts(x)
        if d and (c / y.a[0]).denominator == 1 and all(
                (k / y.a[0]).denominator == 1 for k in d.values()):
            return scale(x, 1 / y.a[0])
        r = multiples(x, y, c, d)
        if r is not None:
            return add(scale(r, 1 / y.a[0]), idiv(C(c), y))
    if x is y:
        return one()
    return mk("idiv", x, y, ty="i")


def multiples(x, y, c, d):
    """x - c where it is a natural multiple of the natural y, c >= 0"""
    if d and c >= 0 and y.a[0] > 0 and x.ty == "i" and all(
            (k / y.a[0]).denominator == 1 for k in d.values()):
        r = sub(x, C(c))
        if nonneg(r):
            return r
    return None


def imod(x, y):
    x, y = num(x), num(y)
    if x.op == "c" and y.op == "c" and y.a[0] != 0:
        r = abs(x.a[0]) % abs(y.a[0])
        return C(r if x.a[0] >= 0 else -r)
    if y.op == "c" and y.a[0] == 1:
        return zero()
    if y.op == "c" and y.a[0] != 0:
        c, d = parts(x)
        if multiples(x, y, c, d) is not None:
            return imod(C(c), y)
    return mk("imod", x, y, ty="i")


def trunc(x):
    x = num(x)
    if x.ty == "i":
        return x
    if x.op == "c":
        v = x.a[0]
        q = abs(v.numerator) // v.denominator
        return C(q if v >= 0 else -q)
    if x.op in ("floor", "ceil", "round"):
        return mk("t" + x.op, x.a[0], ty="i")
    if x.op == "ite":
        return ite(x.a[0], trunc(x.a[1]), trunc(x.a[2]))
    return mk("trunc", x, ty="i")


def f32(x):
    x = num(x)
    if x.op == "c":
        try:
            return C(struct.unpack("f", struct.pack("f", float(x.a[0])))[0])
        except OverflowError:
            return mk("f32", x, ty="f")
    if x.op in ("f32", "ninf", "inf", "nan"):
        return x
    if x.op == "ite":
        return ite(x.a[0], f32(x.a[1]), f32(x.a[2]))
    return mk("f32", x, ty="f")


def fn(name, *a, ty="f"):
    a = tuple(num(x) for x in a)
    if name in ("floor", "ceil", "round"):
        if a[0].ty == "i":
            return a[0]
        if a[0].op == "c":
            v = a[0].a[0]
            if name == "floor":
                return C(v.numerator // v.denominator)
            if name == "ceil":
                return C(-((-v.numerator) // v.denominator))
    if name in ("cos", "exp", "sin", "log", "tan", "sqrt") and \
            a[0].op == "c" and a[0].a[0] == (name == "log"):
        return C(1 if name in ("cos", "exp") else 0)
    if name == "abs":
        if a[0].op == "c":
            return C(abs(a[0].a[0]))
        if a[0].op == "abs" or a[0].op == "len":
            return a[0]
        # |x| = |-x|
        c, d = parts(a[0])
        if d and not _special(a[0]):
            lead = sorted(d.items(), key=lambda x: x[0].id)[0][1]
            if lead < 0:
                a = (neg(a[0]),)
        return mk("abs", *a, ty=a[0].ty)
    if name == "pow" and a[1].op == "c" and a[1].a[0] == 2:
        return mul(a[0], a[0])
    if name == "pow" and a[0] is C(2) and a[1].op == "c" and \
            a[1].a[0].denominator == 1 and 0 <= a[1].a[0] <= 62:
        return C(2 ** int(a[1].a[0]))
    if name == "pow" and a[1].op == "c" and a[1].a[0] == Fraction(1, 2):
        return mk("sqrt", a[0], ty="f")
    return mk(name, *a, ty=ty)


# ---------------------------------------------------------------- conditions

def _const_arms(m):
    return all(x.op == "c" or (x.op == "ite" and _const_arms(x))
               for x in m.a[1:])


def _cmp_arms(op, c, k, m):
    if m.op == "c":
        return _cmp0(op, C(c + k * m.a[0]))
    return ite(m.a[0], _cmp_arms(op, c, k, m.a[1]),
               _cmp_arms(op, c, k, m.a[2]))


def _cmp0(op, d):
    """d <op> 0 for op in lt, le, eq"""
    if d.op == "c":
        v = d.a[0]
        r = v < 0 if op == "lt" else v <= 0 if op == "le" else v == 0
        return TRUE if r else FALSE
    if d.ty == "i" and op == "lt":
        d, op = add(d, one()), "le"
    if op != "eq" and (d.ty == "i" or Mode.nan_blind):
        # sign known from the signs of the monomials
        if op == "le" and _signed(d, -1):
            return TRUE
        if _signed(d, 1) and (op == "lt" or parts(d)[0] > 0):
            return FALSE
    elif op == "eq" and d.op == "p" and d.a[0] != 0 and (
            d.ty == "i" or Mode.nan_blind):
        if (d.a[0] > 0 and _signed(d, 1)) or (d.a[0] < 0 and _signed(d, -1)):
            return FALSE
    c, dd = parts(d)
    if len(dd) == 1:
        (m, k), = dd.items()
        if m.op == "ite" and _const_arms(m):
            return _cmp_arms(op, c, k, m)
    lead = sorted(dd.items(), key=lambda x: x[0].id)[0][1]
    if op == "eq":
        d = scale(d, 1 / lead)
    else:
        k = abs(lead)
        if k != 1:
            if d.ty == "i" and op == "le":
                # keep integer coefficients, divide by content
                from math import gcd
                g = 0
                for v in dd.values():
                    g = gcd(g, int(v))
                if g > 1:
                    # sum(dd) <= -c  <=>  sum(dd/g) <= floor(-c/g)
                    b = (-c) // g
                    d = _poly(Fraction(-b), {m: v / g for m, v in dd.items()})
            else:
                d = scale(d, 1 / k)
    return mk(op, d, ty="b")


class _NN(set):
    """atoms of unsigned type"""

    def add(self, v):
        if v.op not in ("p", "c", "ite", "m", "undef"):
            set.add(self, v)


NONNEG = _NN()


def _signed(d, sg):
    """every term of the polynomial has the sign sg (or is zero)"""
    c, dd = parts(d)
    return c * sg >= 0 and all(k * sg > 0 and nonneg(m)
                               for m, k in dd.items())


def nonneg_atom(t):
    return t in NONNEG or t.op in ("len", "abs", "usym", "rows", "cols", "nelem", "sizeof",
                    "trip") or (t.op == "sym" and isinstance(t.a[0], str)
                                and t.a[0].startswith("u:"))


def lt(a, b):
    a, b = num(a), num(b)
    if _special(a, b):
        if a.op == "nan" or b.op == "nan":
            return FALSE
        if a is b:
            return FALSE
        return mk("flt", a, b, ty="b")
    r = _cmp0("lt", sub(a, b))
    return r


def le(a, b):
    a, b = num(a), num(b)
    if _special(a, b):
        if a.op == "nan" or b.op == "nan":
            return FALSE
        if a is b:
            return TRUE
        return mk("fle", a, b, ty="b")
    return _cmp0("le", sub(a, b))


def eq(a, b):
    if a is b:
        return TRUE
    if a.ty == "b" and b.ty == "b":
        return ite(a, b, not_(b))
    if a.ty == "b" or b.ty == "b":
        a, b = num(a), num(b)
    if is_num(a) and is_num(b) and not _special(a, b):
        return _cmp0("eq", sub(a, b))
    if a.op == "str" and b.op == "str":
        return TRUE if a.a[0] == b.a[0] else FALSE
    if a.op == "enum" and b.op == "enum":
        return TRUE if a.a[0] == b.a[0] else FALSE
    if {a.op, b.op} == {"null", "ptr"}:
        return FALSE
    if a.op == "ite":
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == "ite":
        return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    if a.op == "ptr" and b.op == "ptr" and a.a[0] == b.a[0]:
        pa, pb = a.a[1], b.a[1]
        if len(pa) == len(pb) and pa[:-1] == pb[:-1] and pa and \
                pa[-1][0] == pb[-1][0] and pa[-1][0] in ("i", "lin"):
            return eq(pa[-1][1], pb[-1][1])
    # empty string / container
    for x, y in ((a, b), (b, a)):
        if x.op == "str" and x.a[0] == "":
            return eq(length(y), zero()) if y.op in ("cat", "flat", "map") \
                else mk("eqv", *sorted((a, b)), ty="b")
    return mk("eqv", *sorted((a, b)), ty="b")


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.a[0]
    if c.op == "le":
        d = c.a[0]
        if d.ty == "i" or Mode.nan_blind:
            return _cmp0("lt", neg(d))
    if c.op == "lt":
        d = c.a[0]
        if Mode.nan_blind:
            return _cmp0("le", neg(d))
    if c.op == "and":
        return or_(*[not_(x) for x in c.a])
    if c.op == "or":
        return and_(*[not_(x) for x in c.a])
    if c.op == "ite" and c.ty == "b":
        return ite(c.a[0], not_(c.a[1]), not_(c.a[2]))
    if c.ty != "b":
        c = truth(c)
        return not_(c)
    return mk("not", c, ty="b")


def truth(t):
    """t used as a condition"""
    if t.ty == "b":
        return t
    if t.op == "c":
        return FALSE if t.a[0] == 0 else TRUE
    if t.op == "null":
        return FALSE
    if t.op == "ptr":
        return TRUE
    if t.op == "ite":
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if t.op == "unk":
        return mk("truth", t, ty="b")
    if t.ty in ("i", "f"):
        return not_(eq(t, zero()))
    return mk("truth", t, ty="b")


def and_(*cs):
    s = set()
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == "and":
            s.update(c.a)
        else:
            s.add(c)
    for c in list(s):
        if not_(c) in s:
            return FALSE
    # absorption / unit propagation
    ch = True
    while ch:
        ch = False
        for c in list(s):
            if c.op == "or":
                if any(x in s for x in c.a):
                    s.discard(c)
                    ch = True
                    continue
                keep = [x for x in c.a if not_(x) not in s]
                if len(keep) < len(c.a):
                    s.discard(c)
                    n = or_(*keep)
                    if n is FALSE:
                        return FALSE
                    if n.op == "and":
                        s.update(n.a)
                    elif n is not TRUE:
                        s.add(n)
                    ch = True
    for c in list(s):
        if not_(c) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s.pop()
    return mk("and", *sorted(s), ty="b")


def or_(*cs):
    s = set()
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        if c.op == "or":
            s.update(c.a)
        else:
            s.add(c)
    for c in list(s):
        if not_(c) in s:
            return TRUE
    ch = True
    while ch:
        ch = False
        for c in list(s):
            if c.op == "and":
                if any(x in s for x in c.a):
                    s.discard(c)
                    ch = True
                    continue
                keep = [x for x in c.a if not_(x) not in s]
                if len(keep) < len(c.a):
                    s.discard(c)
                    n = and_(*keep)
                    if n is TRUE:
                        return TRUE
                    if n.op == "or":
                        s.update(n.a)
                    elif n is not FALSE:
                        s.add(n)
                    ch = True
    for c in list(s):
        if not_(c) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s.pop()
    return mk("or", *sorted(s), ty="b")


def ite(c, a, b):
    if c.ty != "b":
        c = truth(c)
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return ite(c.a[0], b, a)
    a, b = (assume1(a, c, True), assume1(b, c, False))
    if a is b:
        return a
    if a.ty == "b" and b.ty == "b":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if b is FALSE:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
    # canonical polarity for negatable comparisons
    n = not_(c)
    if n.op != "not" and n.id < c.id:
        c, a, b = n, b, a
    if Mode.nan_blind and c.op in ("lt", "le") and is_num(a) and is_num(b):
        d = c.a[0]
        k = sub(a, b)
        # a <= b when d <= 0 and d is a positive multiple of a-b: min
        r = _ratio(k, d)
        if r is not None:
            return mnx("min", a, b) if r > 0 else mnx("max", a, b)
        # integer strictness: d = a-b+1 (a < b)
        if d.ty == "i" and k.ty == "i":
            for off in (1, -1):
                r = _ratio(k, add(d, C(off)))
                if r is not None and abs(r) == 1:
                    return mnx("min", a, b) if r > 0 else mnx("max", a, b)
    if b.op == "ite" and b.a[1] is a:
        # ite(c, a, ite(d, a, x)) = ite(c or d, a, x)
        return ite(or_(c, b.a[0]), a, b.a[2])
    if a.op == "ite" and a.a[2] is b:
        return ite(and_(c, a.a[0]), a.a[1], b)
    if a.op == "rec" and b.op == "rec" and a.a[0] == b.a[0]:
        da, db = dict(a.a[1]), dict(b.a[1])
        if set(da) == set(db):
            return rec(a.a[0], {k: ite(c, da[k], db[k]) for k in da})
    if a.op == "with" or b.op == "with":
        xa = a.a[0] if a.op == "with" else a
        xb = b.a[0] if b.op == "with" else b
        if xa is xb and xa.op not in ("rec", "ite"):
            da = dict(a.a[1]) if a.op == "with" else {}
            db = dict(b.a[1]) if b.op == "with" else {}
            r = xa
            for k in sorted(set(da) | set(db)):
                va, vb = da.get(k), db.get(k)
                if va is None:
                    va = getfield(xa, k, vb.ty)
                if vb is None:
                    vb = getfield(xa, k, va.ty)
                r = setfield(r, k, ite(c, va, vb))
            return r
    if is_num(a) and is_num(b):
        ty = "i" if a.ty == "i" and b.ty == "i" else "f"
    elif a.ty == b.ty:
        ty = a.ty
    else:
        ty = "o" if not (a.op == "undef" or b.op == "undef") else (
            a.ty if b.op == "undef" else b.ty)
    return mk("ite", c, a, b, ty=ty)


def _ratio(k, d):
    if k.op == "c" or d.op == "c":
        return None
    ck, dk = parts(k)
    cd, dd = parts(d)
    if set(dk) != set(dd):
        return None
    r = None
    for m in dk:
        q = dk[m] / dd[m]
        if r is None:
            r = q
        elif r != q:
            return None
    if ck != r * cd:
        return None
    return r


def mnx(op, a, b):
    """min/max of two numbers, order irrelevant (nan-blind)"""
    s = set()
    for x in (a, b):
        if x.op == op:
            s.update(x.a)
        else:
            s.add(x)
    cs = [x for x in s if x.op == "c"]
    if len(cs) > 1:
        for x in cs:
            s.discard(x)
        v = (min if op == "min" else max)(x.a[0] for x in cs)
        s.add(C(v))
    # x vs x + const
    xs = sorted(s)
    drop = set()
    for i, x in enumerate(xs):
        for y in xs[i + 1:]:
            if x in drop or y in drop:
                continue
            d = sub(x, y)
            if d.op == "c":
                v = d.a[0]
                lo, hi = (x, y) if v <= 0 else (y, x)
                drop.add(hi if op == "min" else lo)
            elif x.ty == "i" and y.ty == "i":
                if nonneg(d):
                    drop.add(x if op == "min" else y)
                elif nonneg(sub(y, x)):
                    drop.add(y if op == "min" else x)
    if op == "max":
        for x in xs:
            if x.op == "c" and x.a[0] <= 0 and any(
                    nonneg(y) for y in xs if y is not x and y not in drop):
                drop.add(x)
    elif op == "min":
        for x in xs:
            if x.op == "c" and x.a[0] <= 0:
                for y in xs:
                    if y is not x and nonneg(y):
                        drop.add(y)
    xs = [x for x in xs if x not in drop]
    if len(xs) == 1:
        return xs[0]
    return mk(op, *xs, ty="i" if all(x.ty == "i" for x in xs) else "f")


def nonneg(t):
    """syntactic"""
    if t.op == "c":
        return t.a[0] >= 0
    if nonneg_atom(t):
        return True
    if t.op == "p":
        return t.a[0] >= 0 and all(k > 0 and nonneg(m) for m, k in t.a[1])
    if t.op == "m":
        return all(nonneg(a) or e % 2 == 0 for a, e in t.a[0])
    if t.op in ("sqrt", "exp"):
        return True
    if t.op in ("f32", "trunc", "floor", "ceil"):
        return nonneg(t.a[0])
    if t.op == "max":
        return any(nonneg(x) for x in t.a)
    if t.op == "min":
        return all(nonneg(x) for x in t.a)
    if t.op == "ite":
        return nonneg(t.a[1]) and nonneg(t.a[2])
    if t.op == "idiv":
        return nonneg(t.a[0]) and nonneg(t.a[1])
    if t.op == "imod":
        return nonneg(t.a[0])
    if t.op in ("sum",):
        return nonneg(t.a[2])
    if t.op == "bv":
        return True
    return False


def assume1(t, c, val):
    """t simplified knowing that c has the value val"""
    if t is c and t.ty == "b":
        return TRUE if val else FALSE
    if t.op in ("c", "true", "false", "str", "ptr", "lam"):
        return t
    if not _mentions(t, c):
        n = not_(c)
        if not _mentions(t, n):
            if c.op == "and" and val:
                for x in c.a:
                    t = assume1(t, x, True)
            elif c.op == "or" and not val:
                for x in c.a:
                    t = assume1(t, x, False)
            return t
    m = {c: TRUE if val else FALSE, not_(c): FALSE if val else TRUE}
    if c.op == "and" and val:
        for x in c.a:
            m[x] = TRUE
            m[not_(x)] = FALSE
    if c.op == "or" and not val:
        for x in c.a:
            m[x] = FALSE
            m[not_(x)] = TRUE
    return subst(t, m)


_ment = {}


def _mentions(t, c):
    if t is c:
        return True
    if t.id < c.id:
        return False
    k = (t.id, c.id)
    r = _ment.get(k)
    if r is None:
        r = any(_mentions(x, c) for x in children(t))
        if len(_ment) > 2000000:
            _ment.clear()
        _ment[k] = r
    return r


mentions = _mentions


def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z
                        elif isinstance(z, tuple):
                            for w in z:
                                if isinstance(w, T):
                                    yield w


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


# ---------------------------------------------------------------- records

def rec(ty, fields):
    return mk("rec", ty, tuple(sorted(fields.items(), key=lambda x: x[0])))


FIELD_TY = {}  # (field name) -> scalar type, filled by the interpreter


def field(o, name, ty="o"):
    if o.op == "rec":
        for n, v in o.a[1]:
            if n == name:
                return v
        return UNDEF
    if o.op == "ite":
        return ite(o.a[0], field(o.a[1], name, ty), field(o.a[2], name, ty))
    if o.op == "undef":
        return UNDEF
    if o.op == "unk":
        return mk("field", o, name, ty=ty)
    if o.op == "upd" or o.op == "map":
        pass
    return mk("field", o, name, ty=ty)


def setfield(o, name, v, names=None, tys=None):
    if o.op == "rec":
        d = dict(o.a[1])
        d[name] = v
        return rec(o.a[0], d)
    if o.op == "ite":
        return ite(o.a[0], setfield(o.a[1], name, v), setfield(o.a[2], name, v))
    # a symbolic object with an overwritten field
    if o.op == "with":
        d = dict(o.a[1])
        d[name] = v
        base = o.a[0]
    else:
        d = {name: v}
        base = o
    return mk("with", base, tuple(sorted(d.items(), key=lambda x: x[0])))


def getfield(o, name, ty="o"):
    if o.op == "with":
        for n, v in o.a[1]:
            if n == name:
                return v
        return getfield(o.a[0], name, ty)
    if o.op == "ite":
        return ite(o.a[0], getfield(o.a[1], name, ty),
                   getfield(o.a[2], name, ty))
    return field(o, name, ty)


# ---------------------------------------------------------------- sequences
# seq(e...), map(n, lvl, body), flat(n, lvl, bodyseq), cat(s...), upd(s, i, v),
# slice(s, lo, n), anything else: opaque with len() and get().

def bv(l):
    return mk("bv", l, ty="i")


def _level(n, *bodies, wide=0):
    """n, or the next level whose variables are not free in the bodies"""
    f = set()
    for b in bodies:
        f |= freebv(b)
    while n in f or n + wide in f:
        n += 1
    return n


def _bind(body, k):
    l = _level(body.lv, body)
    return l, subst(body, {k: bv(l)})


def seq(*e):
    return mk("seq", *e)


def _within(body, k, n):
    """body simplified for 0 <= k < n"""
    if not _mentions(body, k):
        return body
    m = {}
    c = lt(k, n)
    z = le(zero(), k)
    for x in (c, z):
        if x.op in ("le", "lt", "and"):
            for y in (x.a if x.op == "and" else (x,)):
                if _mentions(body, y):
                    m[y] = TRUE
                ny = not_(y)
                if _mentions(body, ny):
                    m[ny] = FALSE
    return subst(body, m) if m else body


def smap(n, k, body):
    """[body(k) for k in 0..n)"""
    if n is zero():
        return seq()
    body = _within(body, k, n)
    l, b = _bind(body, k)
    # eta: map(len s, get(s, k)) = s
    if b.op == "get" and b.a[1] is bv(l) and not _mentions(b.a[0], bv(l)) \
            and length(b.a[0]) is n:
        return b.a[0]
    if is_c(n) and n.a[0] <= 8 and l == 0:
        return seq(*[subst(b, {bv(l): C(i)}) for i in range(int(n.a[0]))])
    return mk("map", n, l, b, lv=l + 1)


def fill(n, v):
    return smap(n, sym("_nok", "i"), v)


def flat(n, k, body):
    if n is zero() or body is seq():
        return seq()
    if body.op == "seq" and len(body.a) == 1:
        return smap(n, k, body.a[0])
    l, b = _bind(body, k)
    return mk("flat", n, l, b, lv=l + 1)


def cat(*ss):
    out = []
    for s in ss:
        if s.op == "cat":
            xs = s.a
        else:
            xs = (s,)
        for x in xs:
            if x.op == "seq" and not x.a:
                continue
            if x.op == "str" and x.a[0] == "" and len(ss) > 1:
                continue
            if out and out[-1].op == "seq" and x.op == "seq":
                out[-1] = seq(*(out[-1].a + x.a))
                continue
            out.append(x)
    if not out:
        return seq()
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)


def length(s):
    if s.op == "layout":
        return s.a[0]
    if s.op == "seq":
        return C(len(s.a))
    if s.op == "map":
        return s.a[0]
    if s.op == "cat":
        r = zero()
        for x in s.a:
            r = add(r, length(x))
        return r
    if s.op == "flat":
        l = length(s.a[2])
        if l.op == "c":
            return scale(s.a[0], l.a[0])
        k = fresh("k", "i")
        return ssum(s.a[0], k, subst(l, {bv(s.a[1]): k}))
    if s.op == "upd":
        return length(s.a[0])
    if s.op == "slice":
        return s.a[2]
    if s.op == "ite":
        return ite(s.a[0], length(s.a[1]), length(s.a[2]))
    if s.op == "str":
        return C(len(s.a[0]))
    if s.op in ("sorted", "rev"):
        return length(s.a[0])
    if s.op == "undef":
        return zero()
    h = LEN.get(s.op)
    if h:
        return h(s)
    if s.op == "unk":
        # a value that a loop changes in a way that is not known may carry
        # its length and those of its elements
        for d in s.a[1]:
            if d.op == "lens":
                return d.a[0]
    if s.op == "get" and s.a[0].op == "unk":
        for d in s.a[0].a[1]:
            if d.op == "lens" and d.a[1].op != "void":
                return get(d.a[1], s.a[1], "i")
    return mk("len", s, ty="i")


def get(s, i, ty="o"):
    if s.op == "seq":
        if i.op == "c" and 0 <= i.a[0] < len(s.a):
            return s.a[int(i.a[0])]
        if len(set(s.a)) == 1:
            return s.a[0]
    elif s.op == "str" and i.op == "c" and isinstance(s.a[0], str) and \
            0 <= i.a[0] < len(s.a[0]):
        return C(ord(s.a[0][int(i.a[0])]))
    elif s.op == "map":
        return subst(s.a[2], {bv(s.a[1]): i})
    elif s.op == "upd":
        c = eq(s.a[1], i)
        if c is TRUE:
            return s.a[2]
        if c is FALSE:
            return get(s.a[0], i, ty)
        return ite(c, s.a[2], get(s.a[0], i, ty))
    elif s.op == "cat":
        off = zero()
        out = []
        for x in s.a:
            n = length(x)
            out.append((off, n, x))
            off = add(off, n)
        r = None
        for (o, n, x) in reversed(out):
            j = sub(i, o)
            if r is None:
                c = le(o, i)
                if c is TRUE or len(out) == 1:
                    return get(x, j, ty)
                r = get(x, j, ty) if not (
                    x.op == "seq" and n is one()) else x.a[0]
            else:
                c = lt(i, add(o, n))
                if c is TRUE and le(o, i) is TRUE:
                    return get(x, j, ty)
                r = ite(c, get(x, j, ty), r)
        return r
    elif s.op == "slice":
        return get(s.a[0], add(s.a[1], i), ty)
    elif s.op == "ite":
        return ite(s.a[0], get(s.a[1], i, ty), get(s.a[2], i, ty))
    elif s.op == "undef":
        return UNDEF
    return mk("get", s, i, ty=ty)


def upd(s, i, v):
    if s.op == "seq" and i.op == "c" and 0 <= i.a[0] < len(s.a):
        l = list(s.a)
        l[int(i.a[0])] = v
        return seq(*l)
    if s.op == "upd" and s.a[1] is i:
        return upd(s.a[0], i, v)
    if s.op == "ite":
        return ite(s.a[0], upd(s.a[1], i, v), upd(s.a[2], i, v))
    if s.op == "cat":
        off = zero()
        for j, x in enumerate(s.a):
            d = sub(i, off)
            if x.op == "seq" and d.op == "c" and 0 <= d.a[0] < len(x.a):
                l = list(x.a)
                l[int(d.a[0])] = v
                return cat(*(s.a[:j] + (seq(*l),) + s.a[j + 1:]))
            off = add(off, length(x))
    # canonical order of writes at different constant distance
    if s.op == "upd":
        d = sub(s.a[1], i)
        if d.op == "c" and d.a[0] > 0:
            return upd(upd(s.a[0], i, v), s.a[1], s.a[2])
    return mk("upd", s, i, v)


def sslice(s, lo, n):
    if lo is zero() and length(s) is n:
        return s
    if n is zero():
        return seq()
    if s.op == "slice":
        return sslice(s.a[0], add(s.a[1], lo), n)
    if s.op == "map":
        k = fresh("k", "i")
        return smap(n, k, subst(s.a[2], {bv(s.a[1]): add(k, lo)}))
    if s.op == "seq" and lo.op == "c" and n.op == "c":
        return seq(*s.a[int(lo.a[0]):int(lo.a[0] + n.a[0])])
    if s.op == "str" and lo.op == "c" and n.op == "c" and \
            isinstance(s.a[0], str):
        return mk("str", s.a[0][int(lo.a[0]):int(lo.a[0] + n.a[0])])
    return mk("slice", s, lo, n)


# ---------------------------------------------------------------- folds

def ssum(n, k, body):
    """sum of body(k) for k in 0..n)"""
    body = num(_within(body, k, n))
    if n is zero() or body is zero():
        return zero()
    if not _mentions(body, k) and not _special(body):
        return mul(n, body)
    # distribute over the polynomial, pull constants out
    if body.op in ("p",):
        c, d = parts(body)
        r = scale(n, c)
        for m, v in d.items():
            r = add(r, scale(ssum(n, k, m), v))
        return r
    if body.op == "m":
        inv = {a: e for a, e in body.a[0] if not _mentions(a, k)}
        if inv:
            var = {a: e for a, e in body.a[0] if _mentions(a, k)}
            return mul(_mono(inv), ssum(n, k, _mono(var)))
    if body is k:
        # n(n-1)/2
        return scale(mul(n, sub(n, one())), Fraction(1, 2))
    if is_c(n) and n.a[0] <= 8:
        r = zero()
        for i in range(int(n.a[0])):
            r = add(r, subst(body, {k: C(i)}))
        return r
    if body.op == "ite":
        # a constant share
        if body.a[2] is zero() and body.a[1].op == "c" and body.a[1].a[0] != 1:
            return scale(ssum(n, k, ite(body.a[0], one(), zero())),
                         body.a[1].a[0])
    l, b = _bind(body, k)
    return mk("sum", n, l, b, ty=body.ty if body.ty == "i" else "f", lv=l + 1)


def fold(op, n, k, body, init):
    """prod / max / min folds with an initial value"""
    body = _within(body, k, n)
    if n is zero():
        return init
    if op in ("max", "min") and not _mentions(body, k):
        pass
    l, b = _bind(body, k)
    return mk("fold" + op, n, l, b, init, ty="f" if body.ty != "i" else "i",
              lv=l + 1)


def sany(n, k, cond):
    """some k in 0..n) has cond"""
    cond = _within(cond, k, n)
    if cond is FALSE or n is zero():
        return FALSE
    if not _mentions(cond, k):
        return and_(cond, lt(zero(), n))
    if cond.op == "or":
        return or_(*[sany(n, k, x) for x in cond.a])
    if cond.op == "and":
        inv = [x for x in cond.a if not _mentions(x, k)]
        if inv:
            return and_(*inv, sany(n, k, and_(
                *[x for x in cond.a if _mentions(x, k)])))
    if is_c(n) and 0 < n.a[0] <= 8 and not freebv(cond):
        return or_(*[subst(cond, {k: C(i)}) for i in range(int(n.a[0]))])
    l, b = _bind(cond, k)
    return mk("any", n, l, b, ty="b", lv=l + 1)


def first(n, k, cond):
    cond = _within(cond, k, n)
    if cond is TRUE:
        return zero()
    if cond is FALSE:
        return n
    l, b = _bind(cond, k)
    return mk("first", n, l, b, ty="i", lv=l + 1)


def lastw(n, k, cond, val, init):
    """val(k) for the last k in 0..n) with cond(k), init when there is none"""
    if cond is TRUE:
        return ite(lt(zero(), n), subst(val, {k: sub(n, one())}), init)
    if cond is FALSE or n is zero():
        return init
    l = _level(max(cond.lv, val.lv), cond, val)
    m = {k: bv(l)}
    return mk("lastw", n, l, subst(cond, m), subst(val, m), init, ty=val.ty,
              lv=l + 1)


def trip(k, cond):
    """number of leading k = 0, 1, .. for which cond holds"""
    if cond is FALSE:
        return zero()
    l, b = _bind(cond, k)
    return mk("trip", l, b, ty="i", lv=l + 1)


# ---------------------------------------------------------------- matrices
# mat(rows, cols, lvl, body) with bv(lvl) the row and bv(lvl+1) the column.

SHAPE = {}       # op -> shape of the term
LEN = {}         # op -> length of the term


def mat(r, c, kr, kc, body):
    if r is one():
        body = subst(body, {kr: zero()})
    if c is one():
        body = subst(body, {kc: zero()})
    body = _within(_within(body, kr, r), kc, c)
    l = _level(body.lv, body, wide=1)
    b = subst(body, {kr: bv(l), kc: bv(l + 1)})
    if b.op == "at" and b.a[1] is bv(l) and b.a[2] is bv(l + 1) and \
            not _mentions(b.a[0], bv(l)) and not _mentions(b.a[0], bv(l + 1)) \
            and rows(b.a[0]) is r and cols(b.a[0]) is c:
        return b.a[0]
    return mk("mat", r, c, l, b, lv=l + 2)


def rows(m):
    if m.op == "mat":
        return m.a[0]
    if m.op in ("mupd", "lupd"):
        return rows(m.a[0])
    if m.op == "ite":
        return ite(m.a[0], rows(m.a[1]), rows(m.a[2]))
    if m.op == "elem":
        return m.a[0]
    if m.op == "undef":
        return zero()
    h = SHAPE.get(m.op)
    if h:
        return h(m)[0]
    return mk("rows", m, ty="i")


def cols(m):
    if m.op == "mat":
        return m.a[1]
    if m.op in ("mupd", "lupd"):
        return cols(m.a[0])
    if m.op == "ite":
        return ite(m.a[0], cols(m.a[1]), cols(m.a[2]))
    if m.op == "elem":
        return m.a[1]
    if m.op == "undef":
        return zero()
    h = SHAPE.get(m.op)
    if h:
        return h(m)[1]
    return mk("cols", m, ty="i")


def nelem(m):
    return mul(rows(m), cols(m))


def at(m, r, c, ty="f"):
    if m.op == "mat":
        return subst(m.a[3], {bv(m.a[2]): r, bv(m.a[2] + 1): c})
    if m.op == "mupd":
        e = and_(eq(m.a[1], r), eq(m.a[2], c))
        if e is TRUE:
            return m.a[3]
        return ite(e, m.a[3], at(m.a[0], r, c, ty))
    if m.op == "lupd":
        e = eq(m.a[1], add(r, mul(c, rows(m))))
        return ite(e, m.a[2], at(m.a[0], r, c, ty))
    if m.op == "ite":
        return ite(m.a[0], at(m.a[1], r, c, ty), at(m.a[2], r, c, ty))
    if m.op == "elem":
        # written by linear index
        if m.a[1] is one():
            return subst(m.a[3], {bv(m.a[2]): r})
    if m.op == "undef":
        return UNDEF
    return mk("at", m, r, c, ty=ty)


def mupd(m, r, c, v):
    if m.op == "mupd" and m.a[1] is r and m.a[2] is c:
        return mupd(m.a[0], r, c, v)
    if m.op == "ite":
        return ite(m.a[0], mupd(m.a[1], r, c, v), mupd(m.a[2], r, c, v))
    return mk("mupd", m, r, c, v)


def lupd(m, i, v):
    """m with element i (column-major) replaced"""
    if cols(m) is one():
        return mupd(m, i, zero(), v)
    if m.op == "ite":
        return ite(m.a[0], lupd(m.a[1], i, v), lupd(m.a[2], i, v))
    if m.op == "lupd" and m.a[1] is i:
        return lupd(m.a[0], i, v)
    return mk("lupd", m, i, v)


def lin(m, i, ty="f"):
    """element i in column-major order"""
    if cols(m) is one():
        return at(m, i, zero(), ty)
    if m.op == "lupd":
        e = eq(m.a[1], i)
        return ite(e, m.a[2], lin(m.a[0], i, ty))
    if m.op == "mupd":
        e = eq(add(m.a[1], mul(m.a[2], rows(m))), i)
        return ite(e, m.a[3], lin(m.a[0], i, ty))
    if m.op == "ite":
        return ite(m.a[0], lin(m.a[1], i, ty), lin(m.a[2], i, ty))
    if m.op == "mat":
        l = m.a[2]
        b = _lin_body(m.a[3], bv(l), bv(l + 1), i, m.a[0], m.a[1])
        if b is not None:
            return b
        if i.op == "c" and i.a[0] == 0:
            return at(m, zero(), zero(), ty)
        if i.op == "c" and m.a[0].op == "c" and m.a[0].a[0] > 0:
            q, r = divmod(int(i.a[0]), int(m.a[0].a[0]))
            return at(m, C(r), C(q), ty)
    if m.op == "elem":
        return subst(m.a[3], {bv(m.a[2]): i})
    if m.op == "undef":
        return UNDEF
    if ty == "f" and m.op == "mat" and m.a[3].op == "rec":
        ty = "o"
    return mk("mlin", m, i, ty=ty)


def _lin_body(b, vr, vc, i, r, c):
    if not _mentions(b, vr) and not _mentions(b, vc):
        return b
    mp = {}
    for x in subterms(b):
        if x.op == "at" and x.a[1] is vr and x.a[2] is vc and \
                not _mentions(x.a[0], vr) and not _mentions(x.a[0], vc) and \
                rows(x.a[0]) is r and cols(x.a[0]) is c:
            mp[x] = lin(x.a[0], i)
    if not mp:
        return None
    n = subst(b, mp)
    if _mentions(n, vr) or _mentions(n, vc):
        return None
    return n


def elem(r, c, k, body):
    """matrix given by linear index"""
    if c is one():
        # the column index is not mentioned
        kc = fresh("c", "i")
        return mat(r, c, k, kc, body)
    if _mentions(body, k):
        for g in (lt(k, mul(r, c)), le(zero(), k)):
            if g is not TRUE and g is not FALSE:
                body = assume1(body, g, True)
    l, b = _bind(body, k)
    # pointwise in other matrices of the same shape: use the 2-d form
    mp = {}
    kr, kc = fresh("r", "i"), fresh("c", "i")
    for x in subterms(b):
        if x.op == "mlin" and x.a[1] is bv(l) and rows(x.a[0]) is r and \
                cols(x.a[0]) is c:
            mp[x] = at(x.a[0], kr, kc)
    n = subst(b, mp) if mp else b
    if not _mentions(n, bv(l)):
        return mat(r, c, kr, kc, n)
    return mk("elem", r, c, l, b, lv=l + 1)


# ---------------------------------------------------------------- strings

def s(v):
    return mk("str", v)


# ---------------------------------------------------------------- rewriting

def _rb_binder(make):
    def f(a, old):
        n, l, b = a[0], a[1], a[2]
        k = fresh("k", "i")
        return make(n, k, subst(b, {bv(l): k}), *a[3:])
    return f


REBUILD = {
    "p": lambda a: _rebuild_p(a),
    "m": lambda a: _rebuild_m(a),
    "fadd": lambda a: add(*a),
    "fmul": lambda a: mul(*a),
    "fdiv": lambda a: div(*a),
    "idiv": lambda a: idiv(*a),
    "imod": lambda a: imod(*a),
    "trunc": lambda a: trunc(*a),
    "f32": lambda a: f32(*a),
    "floor": lambda a: fn("floor", *a),
    "ceil": lambda a: fn("ceil", *a),
    "round": lambda a: fn("round", *a),
    "tfloor": lambda a: trunc(fn("floor", *a)),
    "tceil": lambda a: trunc(fn("ceil", *a)),
    "tround": lambda a: trunc(fn("round", *a)),
    "abs": lambda a: fn("abs", *a),
    "lt": lambda a: lt(a[0], zero()),
    "le": lambda a: le(a[0], zero()),
    "eq": lambda a: eq(a[0], zero()),
    "flt": lambda a: lt(*a),
    "fle": lambda a: le(*a),
    "eqv": lambda a: eq(*a),
    "not": lambda a: not_(*a),
    "and": lambda a: and_(*a),
    "or": lambda a: or_(*a),
    "ite": lambda a: ite(*a),
    "truth": lambda a: truth(*a),
    "min": lambda a: _rb_mnx("min", a),
    "max": lambda a: _rb_mnx("max", a),
    "rec": lambda a: rec(a[0], dict(a[1])),
    "with": lambda a: _rb_with(a),
    "seq": lambda a: seq(*a),
    "cat": lambda a: cat(*a),
    "upd": lambda a: upd(*a),
    "slice": lambda a: sslice(*a),
    "mupd": lambda a: mupd(*a),
    "lupd": lambda a: lupd(*a),
    "rows": lambda a: rows(*a),
    "cols": lambda a: cols(*a),
    "len": lambda a: length(*a),
}
REBUILD_TY = {
    "field": lambda a, ty: getfield(a[0], a[1], ty),
    "get": lambda a, ty: get(a[0], a[1], ty),
    "at": lambda a, ty: at(a[0], a[1], a[2], ty),
    "mlin": lambda a, ty: lin(a[0], a[1], ty),
}
BINDERS = {
    "map": lambda n, k, b: smap(n, k, b),
    "flat": lambda n, k, b: flat(n, k, b),
    "sum": lambda n, k, b: ssum(n, k, b),
    "any": lambda n, k, b: sany(n, k, b),
    "first": lambda n, k, b: first(n, k, b),
}


def _rb_with(a):
    o = a[0]
    for n, v in a[1]:
        o = setfield(o, n, v)
    return o


def _rb_mnx(op, a):
    r = a[0]
    for x in a[1:]:
        r = mnx(op, r, x)
    return r


def _rebuild_p(a):
    r = C(a[0])
    for m, k in a[1]:
        r = add(r, scale(m, k) if not _special(m) else mul(m, C(k)))
    return r


def _rebuild_m(a):
    r = one()
    for x, e in a[0]:
        if e < 0:
            x = recip(x) if not _special(x) else mk("fdiv", one(), x, ty="f")
            e = -e
        for _ in range(e):
            r = mul(r, x)
    return r


def _map_arg(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_map_arg(y, f) for y in x)
    return x


def subst(t, m, memo=None):
    if not m:
        return t
    if memo is None:
        memo = {}
    lo = min(k.id for k in m)
    # bound variables in the values would be captured by binders of the same
    # level
    hot = set()
    for v in m.values():
        hot |= freebv(v)

    keys = set()
    for k in m:
        keys |= freebv(k)

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        if x.id < lo or not x.a:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        r = None
        if x.op in LEVEL:
            if keys:
                l = x.a[LEVEL[x.op]]
                if l in keys or x.op == "mat" and l + 1 in keys:
                    # these variables are others inside
                    own = {l, l + 1} if x.op == "mat" else {l}
                    m2 = {k: v for k, v in m.items() if not freebv(k) & own}
                    r = _shadowed(x, go, m2)
                    memo[x] = r
                    return r
            if hot:
                r = _open_rebuild(x, go, hot)
        if r is None:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


LEVEL = {"map": 1, "flat": 1, "sum": 1, "any": 1, "first": 1, "foldmax": 1,
         "foldmin": 1, "foldprod": 1, "trip": 0, "mat": 2, "elem": 2,
         "lastw": 1}
_bvmemo = {}


def freebv(x):
    """levels of the variables free in x"""
    r = _bvmemo.get(x)
    if r is not None:
        return r
    if x.op == "bv":
        r = frozenset((x.a[0],))
    elif not x.a:
        r = frozenset()
    elif x.op in LEVEL:
        n = LEVEL[x.op]
        l = x.a[n]
        own = {l, l + 1} if x.op == "mat" else {l}
        # the condition and value of lastw and the bodies are bound
        bound = (2, 3) if x.op == "lastw" else (n + 1,)
        r = set()
        for i, y in enumerate(x.a):
            if isinstance(y, T):
                f = freebv(y)
                r |= f - own if i in bound else f
        r = frozenset(r)
    else:
        r = set()
        for y in children(x):
            r |= freebv(y)
        r = frozenset(r)
    if len(_bvmemo) > 1000000:
        _bvmemo.clear()
    _bvmemo[x] = r
    return r


def _shadowed(x, go, m2):
    op, a = x.op, x.a
    n = LEVEL[op]
    bound = (2, 3) if op == "lastw" else (n + 1,)
    na = tuple((subst(y, m2) if i in bound else go(y))
               if isinstance(y, T) else y for i, y in enumerate(a))
    if na == a:
        return x
    k = fresh("k", "i")
    m = {bv(a[n]): k}
    if op == "mat":
        k2 = fresh("k", "i")
        m[bv(a[n] + 1)] = k2
        return mat(na[0], na[1], k, k2, subst(na[3], m))
    if op == "trip":
        return trip(k, subst(na[1], m))
    if op == "elem":
        return elem(na[0], na[1], k, subst(na[3], m))
    if op == "lastw":
        return lastw(na[0], k, subst(na[2], m), subst(na[3], m), na[4])
    if op in BINDERS:
        return BINDERS[op](na[0], k, subst(na[2], m))
    return fold(op[4:], na[0], k, subst(na[2], m), na[3])


def _open_rebuild(x, go, hot):
    op, a = x.op, x.a
    l = a[LEVEL[op]]
    if l not in hot and not (op == "mat" and l + 1 in hot):
        return None
    k = fresh("k", "i")
    m = {bv(l): k}
    if op == "mat":
        k2 = fresh("k", "i")
        m[bv(l + 1)] = k2
        return mat(go(a[0]), go(a[1]), k, k2, go(subst(a[3], m)))
    if op == "trip":
        return trip(k, go(subst(a[1], m)))
    if op == "elem":
        return elem(go(a[0]), go(a[1]), k, go(subst(a[3], m)))
    if op == "lastw":
        return lastw(go(a[0]), k, go(subst(a[2], m)), go(subst(a[3], m)),
                     go(a[4]))
    if op in BINDERS:
        return BINDERS[op](go(a[0]), k, go(subst(a[2], m)))
    return fold(op[4:], go(a[0]), k, go(subst(a[2], m)), go(a[3]))


def rebuild(x, go):
    op = x.op
    if op in ("map", "flat", "sum", "any", "first", "foldmax", "foldmin",
              "foldprod", "trip", "mat", "elem", "stores", "lastw"):
        na = tuple(_map_arg(y, go) for y in x.a)
        if na == x.a:
            return x
        k = fresh("k", "i")
        if op in BINDERS:
            return BINDERS[op](na[0], k, subst(na[2], {bv(na[1]): k}))
        if op == "lastw":
            m = {bv(na[1]): k}
            return lastw(na[0], k, subst(na[2], m), subst(na[3], m), na[4])
        if op == "trip":
            return trip(k, subst(na[1], {bv(na[0]): k}))
        if op in ("foldmax", "foldmin", "foldprod"):
            return fold(op[4:], na[0], k, subst(na[2], {bv(na[1]): k}), na[3])
        if op == "mat":
            k2 = fresh("k", "i")
            return mat(na[0], na[1], k, k2, subst(
                na[3], {bv(na[2]): k, bv(na[2] + 1): k2}))
        if op == "elem":
            return elem(na[0], na[1], k, subst(na[3], {bv(na[2]): k}))
        return mk(op, *na, ty=x.ty, lv=x.lv)
    na = tuple(_map_arg(y, go) for y in x.a)
    if na == x.a:
        return x
    f = REBUILD.get(op)
    if f:
        return f(na)
    f = REBUILD_TY.get(op)
    if f:
        return f(na, x.ty)
    f = EXTRA.get(op)
    if f:
        return f(na)
    return mk(op, *na, ty=x.ty)


EXTRA = {}


# ---------------------------------------------------------------- comparison

def conditions(t, seen=None, out=None):
    """atomic conditions of gates in t (not below binders)"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.ty == "b" and x.op in ("lt", "le", "eq", "eqv", "flt", "fle",
                                    "truth", "sym", "field", "any", "get",
                                    "okp"):
            if not freebv(x):
                out.append(x)
        elif x.ty == "b" and x.op not in ("and", "or", "not", "ite", "true",
                                          "false"):
            if not freebv(x):
                out.append(x)
        stack.extend(children(x))
    return out


def _has_bv(x):
    b = set()
    for y in subterms(x):
        if y.op == "bv":
            return True
    return False


def same(a, b, depth=10, facts=()):
    """the two terms are equal on every assignment of their conditions"""
    if a is b:
        return True
    if is_num(a) and is_num(b) and sub(a, b) is zero():
        return True
    if depth == 0:
        return False
    cs = conditions(a) + conditions(b)
    if not cs:
        return False
    c = min(cs, key=lambda x: x.id)
    for v in (True, False):
        x, y = assume1(a, c, v), assume1(b, c, v)
        if _mentions(x, c) and x is a and _mentions(y, c) and y is b:
            return False
        if not same(x, y, depth - 1):
            return False
    return True


# ---------------------------------------------------------------- printing

def show(t, d=7):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    if d == 0:
        return "…"
    op, a = t.op, t.a
    if op == "c":
        v = a[0]
        return str(v) if v.denominator == 1 else "%.9g" % float(v)
    if op in ("sym", "unk"):
        return str(a[0]) if op == "sym" else "?" + str(a[0])
    if op == "str":
        return repr(a[0])
    if op == "bv":
        return "_%d" % a[0]
    if op in ("true", "false", "null", "void", "undef", "nan", "inf", "ninf"):
        return op
    if op == "p":
        r = []
        for m, k in a[1]:
            if k == 1:
                r.append(show(m, d - 1))
            elif k == -1:
                r.append("-" + show(m, d - 1))
            else:
                r.append(("%s" % k if k.denominator == 1 else "%.6g" % float(k))
                         + "*" + show(m, d - 1))
        if a[0]:
            r.append(str(a[0]) if a[0].denominator == 1 else "%.9g" % float(a[0]))
        return "(" + " + ".join(r) + ")"
    if op == "m":
        return "*".join(show(x, d - 1) + ("^%d" % e if e != 1 else "")
                        for x, e in a[0])
    if op in ("lt", "le", "eq"):
        return "%s %s 0" % (show(a[0], d - 1),
                            {"lt": "<", "le": "<=", "eq": "=="}[op])
    if op == "ite":
        return "(%s ? %s : %s)" % tuple(show(x, d - 1) for x in a)
    if op == "not":
        return "!" + show(a[0], d - 1)
    if op in ("and", "or"):
        return "(" + (" && " if op == "and" else " || ").join(
            show(x, d - 1) for x in a) + ")"
    if op == "get":
        return "%s[%s]" % (show(a[0], d - 1), show(a[1], d - 1))
    if op == "at":
        return "%s(%s,%s)" % (show(a[0], d - 1), show(a[1], d - 1),
                              show(a[2], d - 1))
    if op == "field":
        return "%s.%s" % (show(a[0], d - 1), a[1])
    if op in ("map", "sum", "flat", "any", "first"):
        return "%s(_%d<%s: %s)" % (op, a[1], show(a[0], d - 1),
                                   show(a[2], d - 1))
    if op == "rec":
        return "%s{%s}" % (a[0].split("::")[-1], ", ".join(
            "%s=%s" % (n, show(v, d - 1)) for n, v in a[1]))
    if op == "ptr":
        return "&%s%s" % (a[0], "".join("." + str(p[1]) for p in a[1]))
    return "%s(%s)" % (op, ", ".join(show(x, d - 1) for x in a))
