"""Random interpretation of value graphs (after Gulwani and Necula).

Two value graphs with different normal forms may still denote the same value.
A difference is reported only when the two also separate under random
interpretation of their symbols; otherwise it stays undecided. Symbols and
uninterpreted functions are interpreted by a keyed hash, so equal arguments
give equal results. Nothing of /repo is executed: the terms are interpreted.
"""
import cmath
import hashlib
import math
import time
import struct
from fractions import Fraction

import terms as t
from terms import T


class Invalid(Exception):
    """outside the domain: the sample says nothing"""


NAN = float("nan")


def h(*k):
    return int.from_bytes(
        hashlib.blake2b(repr(k).encode(), digest_size=8).digest(), "little")


class Obj:
    """a value known only by name"""
    __slots__ = ("key", "env")

    def __init__(self, key, env):
        self.key, self.env = key, env

    def __repr__(self):
        return "<%s>" % (self.key,)


class Rec:
    __slots__ = ("ty", "f", "base")

    def __init__(self, ty, f, base=None):
        self.ty, self.f, self.base = ty, f, base

    def __repr__(self):
        return "%s%r" % (self.ty, self.f)


class Mat:
    __slots__ = ("r", "c", "f", "d")

    def __init__(self, r, c, f):
        if r < 0 or c < 0 or r * c > 400:
            raise Invalid
        self.r, self.c, self.f, self.d = r, c, f, {}

    def at(self, i, j):
        if not (0 <= i < self.r and 0 <= j < self.c):
            raise Invalid
        k = (i, j)
        if k not in self.d:
            self.d[k] = self.f(i, j)
        return self.d[k]


class Tag:
    """constructor applied to values"""
    __slots__ = ("op", "a")

    def __init__(self, op, a):
        self.op, self.a = op, a


MAXN = 120


class Env:
    def __init__(self, seed, hints=None):
        self.seed = seed
        self.memo = {}
        self.steps = 0
        self.hints = hints or {}
        self.pool = ()
        self.limit = 60000
        self.fix = {}
        self.lens = {}
        self.wide = None
        self.recur = {}          # loop values by their recurrences
        self.vals = {}

    # -- interpretation of names
    def num(self, key, ty, nn=False):
        x = h(self.seed, "n", key)
        hk = self.hints.get(key)
        if hk is not None:
            return hk(x)
        c = x % 16
        y = (x >> 8)
        if ty == "f" and self.wide is None:
            self.wide = h(self.seed, "wide") % 4 == 0
        if ty == "f" and self.wide and (x >> 44) % 4:
            # of very different magnitudes
            v = 10.0 ** ((y % 2401) / 200.0 - 6) * (1 if x & 1 else -1)
            return abs(v) if nn else v
        if self.pool and (x >> 40) % 4 == 0:
            # near a constant of the terms compared
            v = self.pool[y % len(self.pool)]
            z = (x >> 50) % 8
            if ty == "i":
                v = int(v) + (0, 0, 0, 0, 1, 1, -1, -1)[z]
            else:
                v = float(v) * (1, 1, 1, 1, 1, 1.001, .999, -1)[z]
            if abs(v) < 1e7:
                return abs(v) if nn else v
        if ty == "i":
            if c < 10:
                v = y % 6
            elif c < 13:
                v = y % 40
            else:
                v = -(y % 5)
            return abs(v) if nn else v
        if c < 2:
            v = 0.0
        elif c < 4:
            v = float(y % 5 - 2)
        elif c < 11:
            v = (y % 20011) / 1000.7 - 10
        elif c < 14:
            v = (y % 20011) / 20011.0
        else:
            v = ((y % 20011) - 10005) * 7.3
        return abs(v) if nn else v

    def boolean(self, key):
        return bool(h(self.seed, "b", key) & 1)

    def meet(self, facts):
        """the facts hold, after moving numbers in linear ones if need be"""
        for _ in range(8):
            bad = [f for f in facts if not self.evb(f, {})]
            if not bad:
                return True
            f = bad[0]
            if f.op not in ("le", "lt", "eq"):
                return False
            k, d = t.parts(f.a[0])
            ms = [m for m in d if m.op == "sym" and m.ty in ("i", "f") or
                  m.op == "len" and not t.freebv(m)]
            if not ms:
                return False
            x = h(self.seed, "fix", _, f.id)
            m = sorted(ms, key=lambda y: h(self.seed, y.a[0], _))[0]
            v = self.ev(f.a[0], {})
            c = d[m]
            if f.op == "eq":
                z = self.ev(m, {}) - v / c
            else:
                gap = (0, 0, 1, 1, 2, 5)[x % 6]
                if f.op == "lt" or m.ty == "f":
                    gap += .25 * (f.op == "lt")
                z = self.ev(m, {}) - (v + gap) / c
            if m.ty == "i":
                z = (math.ceil(z) if c < 0 else math.floor(z))
            if t.nonneg(m) and z < 0 or abs(z) > 1e9:
                return False
            if m.op == "len":
                o = self.ev(m.a[0], {})
                if not isinstance(o, Obj) or z > MAXN:
                    return False
                self.lens[o.key] = max(int(z), 0)
            else:
                self.fix[m] = int(z) if m.ty == "i" else float(z)
            self.memo.clear()
        return False

    def size(self, key, what):
        hk = self.hints.get((what, key))
        x = h(self.seed, what, key)
        if hk is not None:
            return hk(x)
        if key in self.lens:
            return self.lens[key]
        if self.pool and (x >> 40) % 4 == 0:
            # near a constant of the terms compared
            v = self.pool[(x >> 8) % len(self.pool)]
            if 0 <= v < MAXN:
                return max(int(v) + (0, 0, 1, -1, 2)[(x >> 50) % 5], 0)
        c = x % 8
        return (x >> 8) % 5 if c < 6 else (x >> 8) % 13

    def make(self, key, ty, nn=False):
        if ty in ("i", "f"):
            return self.num(key, ty, nn)
        if ty == "b":
            return self.boolean(key)
        return Obj(key, self)

    # -- canonical keys of values
    def canon(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v
        if isinstance(v, float):
            if v != v:
                return "nan"
            if v == int(v) if abs(v) < 1e15 else False:
                return int(v)
            return float("%.9g" % v)
        if isinstance(v, str):
            return v
        if isinstance(v, Obj):
            return v.key
        if isinstance(v, list):
            return ("seq",) + tuple(self.canon(x) for x in v)
        if isinstance(v, Rec):
            b = () if v.base is None else (self.canon(v.base),)
            return ("rec",) + b + tuple((n, self.canon(x))
                                        for n, x in sorted(v.f.items()))
        if isinstance(v, Mat):
            return ("mat", v.r, v.c) + tuple(
                self.canon(v.at(i, j)) for j in range(v.c)
                for i in range(v.r))
        if isinstance(v, Tag):
            return (v.op,) + tuple(self.canon(x) for x in v.a)
        if isinstance(v, tuple):
            return tuple(self.canon(x) for x in v)
        return v

    # -- evaluation
    def ev(self, x, b):
        """value of term x; b maps bound variable levels to values"""
        closed = not t.freebv(x)
        if closed:
            r = self.memo.get(x)
            if r is not None:
                return r
        self.steps += 1
        if self.steps > self.limit:
            raise Invalid
        if x in self.fix:
            r = self.fix[x]
        else:
            m = getattr(self, "o_" + x.op, None)
            r = m(x, b) if m else self.other(x, b)
        if closed:
            self.memo[x] = r
        return r

    def evn(self, x, b):
        v = self.ev(x, b)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, Obj):
            return self.num(v.key, "f")
        raise Invalid

    def evi(self, x, b):
        v = self.evn(x, b)
        if isinstance(v, float):
            if v != v or abs(v) > 1e15:
                raise Invalid
            if v != int(v):
                raise Invalid
            v = int(v)
        return v

    def count(self, x, b):
        n = self.evi(x, b)
        if n > MAXN:
            raise Invalid
        return max(n, 0)

    def other(self, x, b):
        key = [x.op]
        for y in x.a:
            key.append(self.key(y, b))
        k = tuple(key)
        return self.make(k, x.ty, x in t.NONNEG)

    def key(self, y, b):
        if isinstance(y, T):
            return self.canon(self.ev(y, b))
        if isinstance(y, tuple):
            return tuple(self.key(z, b) for z in y)
        return y

    def o_c(self, x, b):
        v = x.a[0]
        return int(v) if v.denominator == 1 else float(v)

    def o_nan(self, x, b):
        return NAN

    def o_inf(self, x, b):
        return math.inf

    def o_ninf(self, x, b):
        return -math.inf

    def o_true(self, x, b):
        return True

    def o_false(self, x, b):
        return False

    def o_str(self, x, b):
        return x.a[0]

    def o_null(self, x, b):
        return Tag("null", ())

    def o_void(self, x, b):
        return Tag("void", ())

    def o_undef(self, x, b):
        raise Invalid

    def o_unk(self, x, b):
        r = self.recur.get(x.a[0])
        if r is None:
            raise Invalid
        K = self.count(x.a[1][0], b)
        vs = self.vals.setdefault(x.a[0], [])
        k, phi, x0, x1 = r
        while len(vs) <= K:
            if not vs:
                vs.append(self.ev(x0, {}))
                continue
            vs.append(self.at(x1, {k: len(vs) - 1, phi: vs[-1]}))
        return vs[K]

    def at(self, x, names):
        """value of x where the names have the given values"""
        memo, fix = self.memo, self.fix
        self.memo, self.fix = {}, {**fix, **names}
        try:
            return self.solid(self.ev(x, {}))
        finally:
            self.memo, self.fix = memo, fix

    def solid(self, v):
        """no part of the value is evaluated later"""
        if isinstance(v, list):
            for y in v:
                self.solid(y)
        elif isinstance(v, Rec):
            for y in v.f.values():
                self.solid(y)
        elif isinstance(v, Tag):
            for y in v.a:
                self.solid(y)
        elif isinstance(v, Mat):
            for i in range(v.r):
                for j in range(v.c):
                    v.at(i, j)
        return v

    def o_sym(self, x, b):
        return self.make(x.a[0], x.ty, x in t.NONNEG)

    def o_bv(self, x, b):
        if x.a[0] not in b:
            raise Invalid
        return b[x.a[0]]

    def o_p(self, x, b):
        r = float(x.a[0]) if x.a[0].denominator != 1 else int(x.a[0])
        for m, k in x.a[1]:
            v = self.evn(m, b)
            kk = float(k) if k.denominator != 1 else int(k)
            r = r + v * kk
        return r

    def o_m(self, x, b):
        r = 1
        for y, e in x.a[0]:
            v = self.evn(y, b)
            if e < 0 and v == 0:
                raise Invalid
            try:
                r = r * (v ** e)
            except OverflowError:
                raise Invalid
        return r

    def o_fadd(self, x, b):
        return self.evn(x.a[0], b) + self.evn(x.a[1], b)

    def o_fmul(self, x, b):
        return self.evn(x.a[0], b) * self.evn(x.a[1], b)

    def o_fdiv(self, x, b):
        p, q = self.evn(x.a[0], b), self.evn(x.a[1], b)
        if q == 0:
            if p == 0 or p != p:
                return NAN
            return math.copysign(math.inf, p)
        return p / q

    def o_idiv(self, x, b):
        p, q = self.evi(x.a[0], b), self.evi(x.a[1], b)
        if q == 0:
            raise Invalid
        r = abs(p) // abs(q)
        return r if (p >= 0) == (q >= 0) else -r

    def o_imod(self, x, b):
        p, q = self.evi(x.a[0], b), self.evi(x.a[1], b)
        if q == 0:
            raise Invalid
        r = abs(p) % abs(q)
        return r if p >= 0 else -r

    def fin(self, x, b):
        v = self.evn(x, b)
        if v != v or v in (math.inf, -math.inf):
            raise Invalid
        return v

    def o_trunc(self, x, b):
        return math.trunc(self.fin(x.a[0], b))

    def o_floor(self, x, b):
        return math.floor(self.fin(x.a[0], b))

    def o_ceil(self, x, b):
        return math.ceil(self.fin(x.a[0], b))

    def o_round(self, x, b):
        v = self.fin(x.a[0], b)
        return int(math.copysign(math.floor(abs(v) + 0.5), v))

    o_tfloor, o_tceil, o_tround = o_floor, o_ceil, o_round

    def o_abs(self, x, b):
        return abs(self.evn(x.a[0], b))

    def o_cabs(self, x, b):
        v = self.ev(x.a[0], b)
        if isinstance(v, Rec) and "re" in v.f and "im" in v.f:
            try:
                return math.hypot(v.f["re"], v.f["im"])
            except (TypeError, OverflowError):
                raise Invalid
        return self.other(x, b)

    def cval(self, x, b):
        v = self.ev(x, b)
        if isinstance(v, Rec):
            if "re" not in v.f or "im" not in v.f:
                raise Invalid
            v = (v.f["re"], v.f["im"])
            if not all(isinstance(y, (int, float, Fraction)) for y in v):
                raise Invalid
            return complex(*(float(y) for y in v))
        if isinstance(v, (bool, str, tuple, list, Obj)):
            raise Invalid
        return complex(float(v))

    def complexfn(f):
        def g(self, x, b):
            try:
                r = f(*(self.cval(y, b) for y in x.a))
            except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                raise Invalid
            return Rec("complex", {"re": r.real, "im": r.imag})
        return g
    o_cexp, o_clog, o_csqrt = map(complexfn, (cmath.exp, cmath.log,
                                              cmath.sqrt))
    o_csin, o_ccos, o_ctan, o_ctanh = map(complexfn, (
        cmath.sin, cmath.cos, cmath.tan, cmath.tanh))
    o_cpow = complexfn(lambda p, q: p ** q)

    def o_f32(self, x, b):
        v = self.evn(x.a[0], b)
        try:
            return struct.unpack("f", struct.pack("f", v))[0]
        except OverflowError:
            return math.copysign(math.inf, v)

    def math1(f):
        def g(self, x, b):
            v = self.fin(x.a[0], b)
            try:
                return f(v)
            except (ValueError, OverflowError):
                raise Invalid
        return g
    o_sqrt = math1(math.sqrt)
    o_exp = math1(math.exp)
    o_log = math1(math.log)
    o_log10 = math1(math.log10)
    o_log2 = math1(math.log2)
    o_sin = math1(math.sin)
    o_cos = math1(math.cos)
    o_tan = math1(math.tan)

    def o_pow(self, x, b):
        p, q = self.fin(x.a[0], b), self.fin(x.a[1], b)
        try:
            r = float(p) ** q
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Invalid
        if isinstance(r, complex):
            raise Invalid
        return r

    def nanchk(self, v):
        if v != v and t.Mode.nan_blind:
            raise Invalid
        return v

    def o_lt(self, x, b):
        return self.nanchk(self.evn(x.a[0], b)) < -self.eps(x)

    def o_le(self, x, b):
        return self.nanchk(self.evn(x.a[0], b)) <= self.eps(x)

    def o_eq(self, x, b):
        return abs(self.nanchk(self.evn(x.a[0], b))) <= self.eps(x)

    def eps(self, x):
        # absorbs rounding of the interpretation
        return 0 if x.a[0].ty == "i" else 1e-11

    def o_flt(self, x, b):
        return self.evn(x.a[0], b) < self.evn(x.a[1], b)

    def o_fle(self, x, b):
        return self.evn(x.a[0], b) <= self.evn(x.a[1], b)

    def o_isnan(self, x, b):
        v = self.evn(x.a[0], b)
        return v != v

    def o_isinf(self, x, b):
        return self.evn(x.a[0], b) in (math.inf, -math.inf)

    def o_isfinite(self, x, b):
        v = self.evn(x.a[0], b)
        return v == v and v not in (math.inf, -math.inf)

    def o_eqv(self, x, b):
        p, q = self.ev(x.a[0], b), self.ev(x.a[1], b)
        for u, v in ((p, q), (q, p)):
            if isinstance(u, Tag) and u.op == "null" and isinstance(v, Obj):
                return not self.boolean(v.key)
        return self.equal(p, q)

    def o_not(self, x, b):
        return not self.evb(x.a[0], b)

    def evb(self, x, b):
        v = self.ev(x, b)
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            return v != 0
        if isinstance(v, Obj):
            return self.boolean(v.key)
        if isinstance(v, Tag):
            return v.op != "null"
        raise Invalid

    def o_and(self, x, b):
        return self.conn(x, b, False)

    def o_or(self, x, b):
        return self.conn(x, b, True)

    def conn(self, x, b, stop):
        bad = None
        for y in x.a:
            try:
                if self.evb(y, b) == stop:
                    return stop
            except Invalid as e:
                bad = e
        if bad:
            raise bad
        return not stop

    def o_ite(self, x, b):
        return self.ev(x.a[1] if self.evb(x.a[0], b) else x.a[2], b)

    def o_truth(self, x, b):
        return self.evb(x.a[0], b)

    def o_min(self, x, b):
        return self.nanchk(min(self.evn(y, b) for y in x.a))

    def o_max(self, x, b):
        return self.nanchk(max(self.evn(y, b) for y in x.a))

    # records
    def o_rec(self, x, b):
        f = {}
        for n, v in x.a[1]:
            try:
                f[n] = self.ev(v, b)
            except Invalid:
                if v.op != "undef":
                    raise
                f[n] = Tag("undef", ())
        return Rec(x.a[0], f)

    def o_with(self, x, b):
        o = self.ev(x.a[0], b)
        f = {n: self.ev(v, b) for n, v in x.a[1]}
        if isinstance(o, Rec):
            g = dict(o.f)
            g.update(f)
            return Rec(o.ty, g, o.base)
        return Rec("with", f, o)

    def o_field(self, x, b):
        return self.field(self.ev(x.a[0], b), x.a[1], x.ty, x)

    def field(self, o, n, ty, x=None):
        if isinstance(o, Rec):
            if n in o.f:
                v = o.f[n]
                if isinstance(v, Tag) and v.op == "undef":
                    raise Invalid
                return v
            if o.base is None:
                raise Invalid
            o = o.base
        return self.make(("field", self.canon(o), n), ty,
                         x is not None and x in t.NONNEG)

    # sequences
    def o_seq(self, x, b):
        return [self.ev(y, b) for y in x.a]

    def aslist(self, v):
        if isinstance(v, list):
            return v
        if isinstance(v, Obj):
            return [Obj(("get", v.key, i), self)
                    for i in range(self.size(v.key, "len"))]
        if isinstance(v, str):
            return v
        raise Invalid

    def o_map(self, x, b):
        n = self.count(x.a[0], b)
        l = x.a[1]
        return [self.ev(x.a[2], {**b, l: i}) for i in range(n)]

    def o_sorted(self, x, b):
        v = self.ev(x.a[0], b)
        if not isinstance(v, list):
            return self.make(("sorted", self.canon(v)), x.ty)
        try:
            return sorted(v)
        except TypeError:
            return Obj(("sorted", self.canon(v)), self)

    def o_flat(self, x, b):
        n = self.count(x.a[0], b)
        out = []
        for i in range(n):
            out += self.aslist(self.ev(x.a[2], {**b, x.a[1]: i}))
        return out

    def o_cat(self, x, b):
        vs = [self.aslist(self.ev(y, b)) for y in x.a]
        out = []
        for v in vs:
            out += list(v)
        return out

    def o_len(self, x, b):
        v = self.ev(x.a[0], b)
        if isinstance(v, Obj):
            return self.size(v.key, "len")
        if isinstance(v, (list, str)):
            return len(v)
        if isinstance(v, Mat):
            return v.r * v.c
        return self.size(self.canon(v), "len")

    def o_get(self, x, b):
        s = self.ev(x.a[0], b)
        i = self.evi(x.a[1], b)
        if isinstance(s, list):
            if not 0 <= i < len(s):
                raise Invalid
            v = s[i]
            if isinstance(v, Obj) and x.ty in ("i", "f", "b"):
                return self.make(v.key, x.ty, x in t.NONNEG)
            return v
        if isinstance(s, str):
            if not 0 <= i < len(s):
                raise Invalid
            return ord(s[i])
        k = self.canon(s)
        return self.make(("get", k, i), x.ty, x in t.NONNEG)

    def o_upd(self, x, b):
        s = list(self.aslist(self.ev(x.a[0], b)))
        i = self.evi(x.a[1], b)
        if not 0 <= i < len(s):
            raise Invalid
        s[i] = self.ev(x.a[2], b)
        return s

    def o_slice(self, x, b):
        s = self.aslist(self.ev(x.a[0], b))
        lo, n = self.evi(x.a[1], b), self.evi(x.a[2], b)
        if lo < 0 or n < 0 or lo + n > len(s):
            raise Invalid
        return s[lo:lo + n]

    # folds
    def o_sum(self, x, b):
        n = self.count(x.a[0], b)
        r = 0
        for i in range(n):
            r += self.evn(x.a[2], {**b, x.a[1]: i})
        return r

    def foldop(f):
        def g(self, x, b):
            n = self.count(x.a[0], b)
            r = self.evn(x.a[3], b)
            for i in range(n):
                r = f(r, self.evn(x.a[2], {**b, x.a[1]: i}))
            return r
        return g
    o_foldmax = foldop(max)
    o_foldmin = foldop(min)
    o_foldprod = foldop(lambda p, q: p * q)

    def o_any(self, x, b):
        n = self.count(x.a[0], b)
        return any([self.evb(x.a[2], {**b, x.a[1]: i}) for i in range(n)])

    def o_first(self, x, b):
        n = self.count(x.a[0], b)
        for i in range(n):
            if self.evb(x.a[2], {**b, x.a[1]: i}):
                return i
        return n

    def o_lastw(self, x, b):
        n = self.count(x.a[0], b)
        for i in reversed(range(n)):
            e = {**b, x.a[1]: i}
            if self.evb(x.a[2], e):
                return self.ev(x.a[3], e)
        return self.ev(x.a[4], b)

    def o_trip(self, x, b):
        for i in range(MAXN):
            if not self.evb(x.a[1], {**b, x.a[0]: i}):
                return i
        raise Invalid

    # matrices
    def asmat(self, v):
        if isinstance(v, Mat):
            return v
        if isinstance(v, Obj):
            k = v.key
            return Mat(self.size(k, "rows"), self.size(k, "cols"),
                       lambda i, j: self.num(("at", k, i, j), "f"))
        raise Invalid

    def o_mat(self, x, b):
        r, c = self.evi(x.a[0], b), self.evi(x.a[1], b)
        l = x.a[2]
        return Mat(r, c, lambda i, j: self.ev(x.a[3], {**b, l: i, l + 1: j}))

    def o_elem(self, x, b):
        r, c = self.evi(x.a[0], b), self.evi(x.a[1], b)
        return Mat(r, c, lambda i, j: self.ev(x.a[3], {**b, x.a[2]: i + j * r}))

    def o_rows(self, x, b):
        v = self.ev(x.a[0], b)
        return v.r if isinstance(v, Mat) else self.size(self.canon(v), "rows")

    def o_cols(self, x, b):
        v = self.ev(x.a[0], b)
        return v.c if isinstance(v, Mat) else self.size(self.canon(v), "cols")

    def o_at(self, x, b):
        m = self.asmat(self.ev(x.a[0], b))
        return m.at(self.evi(x.a[1], b), self.evi(x.a[2], b))

    def o_mlin(self, x, b):
        m = self.asmat(self.ev(x.a[0], b))
        i = self.evi(x.a[1], b)
        if m.r == 0:
            raise Invalid
        return m.at(i % m.r, i // m.r)

    def o_mupd(self, x, b):
        m = self.asmat(self.ev(x.a[0], b))
        i, j = self.evi(x.a[1], b), self.evi(x.a[2], b)
        if not (0 <= i < m.r and 0 <= j < m.c):
            raise Invalid
        v = self.ev(x.a[3], b)
        return Mat(m.r, m.c,
                   lambda p, q: v if (p, q) == (i, j) else m.at(p, q))

    def o_lupd(self, x, b):
        m = self.asmat(self.ev(x.a[0], b))
        k = self.evi(x.a[1], b)
        if m.r == 0 or not 0 <= k < m.r * m.c:
            raise Invalid
        i, j = k % m.r, k // m.r
        v = self.ev(x.a[2], b)
        return Mat(m.r, m.c,
                   lambda p, q: v if (p, q) == (i, j) else m.at(p, q))

    def tagop(op):
        def g(self, x, b):
            return Tag(op, tuple(
                self.ev(y, b) if isinstance(y, T) else y for y in x.a))
        return g
    o_status = tagop("status")
    o_strcat = tagop("strcat")
    o_tostr = tagop("tostr")
    o_num = tagop("num")

    def o_sor(self, x, b):
        return Tag("sor", (self.ev(x.a[0], b),))

    def o_soe(self, x, b):
        return Tag("soe", (self.ev(x.a[0], b),))

    def o_ptr(self, x, b):
        return Tag("ptr", (str(x.a[0][0]) + ":" + (
            self.keystr(x.a[0][1], b)),) + tuple(
            tuple(self.key(z, b) for z in s) for s in x.a[1]))

    def keystr(self, v, b):
        return repr(self.key(v, b))

    # -- equality of values
    def close(self, p, q):
        if p == q:
            return True
        if p != p or q != q:
            return p != p and q != q
        return abs(p - q) <= 1e-7 * max(1.0, abs(p), abs(q))

    def equal(self, p, q):
        if isinstance(p, bool) or isinstance(q, bool):
            if isinstance(p, Obj):
                p = self.boolean(p.key)
            if isinstance(q, Obj):
                q = self.boolean(q.key)
            return p == q
        if isinstance(p, (int, float)) and isinstance(q, (int, float)):
            return self.close(p, q)
        if isinstance(p, Obj) and isinstance(q, Obj):
            return p.key == q.key
        if isinstance(q, Obj):
            p, q = q, p
        if isinstance(p, Obj):
            if isinstance(q, (int, float)):
                return any(self.close(self.num(p.key, ty, nn), q)
                           for ty in "if" for nn in (False, True))
            if isinstance(q, list):
                n = self.size(p.key, "len")
                if n != len(q):
                    return False
                return all(self.equal(Obj(("get", p.key, i), self), y)
                           for i, y in enumerate(q))
            if isinstance(q, Mat):
                if "fn" == q:
                    return False
                return self.equal(self.asmat(p), q)
            if isinstance(q, Rec):
                return all(self.equal(Obj(("field", p.key, n), self), y)
                           for n, y in q.f.items()) and (
                    q.base is None or self.equal(p, q.base))
            if isinstance(q, Tag) or isinstance(q, str):
                raise Invalid
        if isinstance(p, Mat) and isinstance(q, Mat):
            return p.r == q.r and p.c == q.c and all(
                self.equal(p.at(i, j), q.at(i, j))
                for i in range(p.r) for j in range(p.c))
        if isinstance(p, list) and isinstance(q, list):
            return len(p) == len(q) and all(map(self.equal, p, q))
        if isinstance(p, Rec) and isinstance(q, Rec):
            for n in set(p.f) | set(q.f):
                a = p.f.get(n)
                c = q.f.get(n)
                if a is None:
                    a = self.field(p, n, "o")
                if c is None:
                    c = self.field(q, n, "o")
                if not self.equal(a, c):
                    return False
            if p.base is not None and q.base is not None:
                return self.equal(p.base, q.base)
            return True
        if isinstance(p, Tag) and isinstance(q, Tag):
            if p.op != q.op:
                return False
            if p.op == "status":      # the message is not part of it
                return self.equal(p.a[0], q.a[0])
            return len(p.a) == len(q.a) and all(map(self.equal, p.a, q.a))
        if type(p) is not type(q):
            if isinstance(p, (Tag, str)) and isinstance(q, (Tag, str)):
                return False
            if {type(p), type(q)} <= {list, str}:
                return list(p) == list(q)
            return False
        return p == q


def constants(ts):
    out = set()
    seen = set()
    for x in ts:
        for y in t.subterms(x, seen):
            if y.op == "c":
                out.add(y.a[0])
            elif y.op == "p":
                for m, k in t.parts(y)[1].items():
                    out.add(abs(t.parts(y)[0] / k))
    return sorted(v for v in out if abs(v) < 10**7)


def differ(a, b, facts=(), samples=500, seed=1, hints=None):
    """a seed under which the two terms have different values, else None;
    second value: number of samples both were defined on"""
    ok = 0
    pool = constants((a, b) + tuple(facts))
    conj, todo = [], list(facts)[::-1]
    while todo:
        f = todo.pop()
        if f.op == "and":
            todo.extend(f.a[::-1])
        else:
            conj.append(f)
    t0 = time.time()
    for i in range(samples):
        if time.time() - t0 > 20:
            break
        e = Env((seed, i), hints)
        e.pool = pool
        try:
            if not (e.meet(conj) if i % 4 else
                    all(e.evb(f, {}) for f in conj)):
                continue
            p = e.ev(a, {})
            q = e.ev(b, {})
            same = e.equal(p, q)
        except (Invalid, RecursionError, OverflowError, ZeroDivisionError):
            continue
        ok += 1
        if not same:
            return (i, p, q), ok
    return None, ok


def _okp(self, x, b):
    v = self.ev(x.a[0], b)
    if isinstance(v, Tag):
        if v.op == "sor":
            return True
        if v.op == "soe":
            return False
        if v.op == "status":
            return self.equal(v.a[0], 0)
    return self.make(("okp", self.canon(v)), "b")


def _sorv(self, x, b):
    v = self.ev(x.a[0], b)
    if isinstance(v, Tag):
        if v.op == "sor":
            return v.a[0]
        raise Invalid
    return self.make(("sorv", self.canon(v)), x.ty)


def _sorst(self, x, b):
    v = self.ev(x.a[0], b)
    if isinstance(v, Tag):
        if v.op == "soe":
            return v.a[0]
        raise Invalid
    return self.make(("sorst", self.canon(v)), x.ty)


def _stcode(self, x, b):
    v = self.ev(x.a[0], b)
    if isinstance(v, Tag) and v.op == "status":
        return v.a[0]
    return self.make(("stcode", self.canon(v)), x.ty)


Env.o_okp, Env.o_sorv, Env.o_sorst, Env.o_stcode = _okp, _sorv, _sorst, _stcode
