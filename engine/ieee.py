"""What IEEE arithmetic does to a value: an interval domain with NaN, and the
interpretation of a value on given numbers with infinities and NaN."""
import math

import linear
import terms as t
from sample import Env, Invalid, Mat, Rec
from terms import TRUE, FALSE

INF = math.inf
NAN = math.nan
BIG = 1.7e308


class Top(Exception):
    pass


def up(lo, hi, nan=False):
    if lo != lo or hi != hi:
        return -INF, INF, True
    return lo, hi, nan


class Range:
    """(low, high, NaN possible) of terms; infinities are values like others.

    given: term -> range, for the inputs.  Sequences and matrices stand for
    any of their elements."""

    def __init__(self, given=None, rule=None):
        self.given = dict(given or {})
        self.rule = rule
        self.memo = {}

    def of(self, v, lits=()):
        key = (v, lits)
        r = self.memo.get(key)
        if r is None:
            t.check_time() if hasattr(t, "check_time") else None
            lo, hi, nan = self.raw(v, lits)
            lo, hi, nan = self.cut(v, lits, lo, hi, nan)
            r = self.memo[key] = (lo, hi, nan)
        return r

    def cut(self, v, lits, lo, hi, nan):
        """what the comparisons on the path say of v"""
        if v.op == "c" or v.ty == "b":
            return lo, hi, nan
        vc, vm = t.parts(v)
        if not vm:
            return lo, hi, nan
        for x, p in lits:
            if x.op == "isnan" and x.a[0] is v and not p:
                nan = False
            if x.op not in ("lt", "le", "eq"):
                continue
            dc, dm = t.parts(x.a[0])
            if set(dm) != set(vm):
                continue
            y = next(iter(vm))
            k = dm[y] / vm[y]
            if any(abs(dm[z] - k * vm[z]) > abs(dm[z]) / 10 ** 12
                   for z in vm):
                continue
            lim = float(vc - dc / k)
            if p:
                nan = False
            if x.op == "eq":
                if p:
                    lo = hi = lim
                elif lim == 0 and lo == 0:
                    lo = 5e-324
                elif lim == 0 and hi == 0:
                    hi = -5e-324
            elif (k > 0) == p:
                hi = min(hi, lim)
            else:
                lo = max(lo, lim)
        return lo, hi, nan

    def raw(self, v, lits):
        g = self.given.get(v)
        if g is not None:
            return g
        if self.rule:
            g = self.rule(self, v, lits)
            if g is not None:
                return g
        f = getattr(self, "o_" + v.op, None)
        if f is None:
            raise Top(t.show(v, 4))
        return f(v, lits)

    # -- numbers
    def o_c(self, v, lits):
        x = float(v.a[0])
        return x, x, False

    def o_nan(self, v, lits):
        return -INF, INF, True

    def o_inf(self, v, lits):
        return INF, INF, False

    def o_ninf(self, v, lits):
        return -INF, -INF, False

    def plus(self, a, b):
        nan = a[2] or b[2]
        if a[1] == INF and b[0] == -INF or a[0] == -INF and b[1] == INF:
            nan = True
        lo = -INF if -INF in (a[0], b[0]) else a[0] + b[0]
        hi = INF if INF in (a[1], b[1]) else a[1] + b[1]
        return lo, hi, nan

    def times(self, a, b):
        nan = a[2] or b[2]
        for x, y in ((a, b), (b, a)):
            if x[0] <= 0 <= x[1] and (y[0] == -INF or y[1] == INF):
                nan = True
        ps = [0.0 if 0 in (x, y) else x * y for x in a[:2] for y in b[:2]]
        return min(ps), max(ps), nan

    def power(self, a, n):
        if n < 0:
            a = self.power(a, -n)
            if a[0] > 0 or a[1] < 0:
                return 1 / a[1] if a[1] not in (INF, -INF) else 0.0, \
                    (1 / a[0] if abs(a[0]) > 1e-308 else INF), a[2]
            return -INF, INF, True
        r = a
        for _ in range(n - 1):
            r = self.times(r, a)
        if n % 2 == 0:
            m = 0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1])) ** n
            top = max(abs(a[0]), abs(a[1]))
            try:
                top = top ** n
            except OverflowError:
                top = INF
            r = (m, top, a[2])
        return r

    def o_p(self, v, lits):
        k, d = t.parts(v)
        r = (float(k), float(k), False)
        for m, c in d.items():
            c = float(c)
            r = self.plus(r, self.times((c, c, False), self.of(m, lits)))
        return r

    def o_m(self, v, lits):
        r = (1.0, 1.0, False)
        for y, e in v.a[0]:
            r = self.times(r, self.power(self.of(y, lits), e))
        return r

    def o_fadd(self, v, lits):
        return self.plus(self.of(v.a[0], lits), self.of(v.a[1], lits))

    def o_fmul(self, v, lits):
        if v.a[0] is v.a[1]:
            return self.power(self.of(v.a[0], lits), 2)
        return self.times(self.of(v.a[0], lits), self.of(v.a[1], lits))

    def o_fdiv(self, v, lits):
        return self.times(self.of(v.a[0], lits),
                          self.power(self.of(v.a[1], lits), -1))

    def o_abs(self, v, lits):
        lo, hi, nan = self.of(v.a[0], lits)
        if lo >= 0:
            return lo, hi, nan
        return (0.0 if hi >= 0 else -hi), max(-lo, hi), nan

    def mono(self, v, lits, f, low, at):
        lo, hi, nan = self.of(v.a[0], lits)
        if lo < low:
            nan, lo = True, low
        g = lambda x: at if x == low else INF if x == INF else f(x)
        return g(lo), g(max(hi, low)), nan

    def o_log10(self, v, lits):
        return self.mono(v, lits, math.log10, 0.0, -INF)

    def o_log(self, v, lits):
        return self.mono(v, lits, math.log, 0.0, -INF)

    def o_log2(self, v, lits):
        return self.mono(v, lits, math.log2, 0.0, -INF)

    def o_sqrt(self, v, lits):
        return self.mono(v, lits, math.sqrt, 0.0, 0.0)

    def o_exp(self, v, lits):
        lo, hi, nan = self.of(v.a[0], lits)
        g = lambda x: 0.0 if x < -745 else INF if x > 709 else math.exp(x)
        return g(lo), g(hi), nan

    def o_f32(self, v, lits):
        lo, hi, nan = self.of(v.a[0], lits)
        return (lo if lo > -3e38 else -INF), (hi if hi < 3e38 else INF), nan

    def o_trunc(self, v, lits):
        lo, hi, nan = self.of(v.a[0], lits)
        return lo - 1, hi + 1, False

    o_floor = o_ceil = o_round = o_tfloor = o_tceil = o_tround = o_trunc

    def o_bv(self, v, lits):
        if v.ty == "i":
            return 0.0, 2.0 ** 40, False
        raise Top("bound value")

    def o_sym(self, v, lits):
        if v.ty == "i":
            return (0.0 if t.nonneg(v) else -2.0 ** 40), 2.0 ** 40, False
        raise Top(t.show(v, 3))

    def o_len(self, v, lits):
        return 0.0, 2.0 ** 40, False

    o_rows = o_cols = o_len

    # -- choices
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return min(a[0], b[0]), max(a[1], b[1]), a[2] or b[2]

    def o_ite(self, v, lits):
        out = None
        for want, x in ((True, v.a[1]), (False, v.a[2])):
            ways = self.assume(v.a[0], want, lits)
            for ls in ways:
                r = self.of(x, ls)
                if r[0] > r[1] and not r[2]:
                    continue                  # no such value
                out = self.join(out, r)
        if out is None:
            return INF, -INF, False
        return out

    def assume(self, c, want, lits):
        """the comparisons under which c is want"""
        if c is TRUE or c is FALSE:
            return [lits] if (c is TRUE) == want else []
        if c.op == "not":
            return self.assume(c.a[0], not want, lits)
        if c.op in ("and", "or"):
            if (c.op == "and") == want:
                out = [lits]
                for x in c.a:
                    out = [m for ls in out for m in self.assume(x, want, ls)]
                return out[:64]
            return [m for x in c.a for m in self.assume(x, want, lits)][:64]
        for x, p in lits:
            if x is c:
                return [lits] if p == want else []
        return [lits + ((c, want),)]

    def extreme(self, v, lits, f):
        rs = [self.of(x, lits) for x in v.a]
        return f(r[0] for r in rs), f(r[1] for r in rs), \
            any(r[2] for r in rs)

    def o_max(self, v, lits):
        return self.extreme(v, lits, max)

    def o_min(self, v, lits):
        return self.extreme(v, lits, min)

    # -- elements
    def o_mat(self, v, lits):
        return self.of(v.a[3], lits)

    def o_elem(self, v, lits):
        return self.of(v.a[3], lits)

    def o_map(self, v, lits):
        return self.of(v.a[2], lits)

    def first(self, v, lits):
        return self.of(v.a[0], lits)

    o_at = o_mlin = o_field = o_get = first

    def o_rec(self, v, lits):
        out = None
        for _, x in v.a[1]:
            out = self.join(out, self.of(x, lits))
        return out

    def o_seq(self, v, lits):
        out = None
        for x in v.a:
            out = self.join(out, self.of(x, lits))
        return out or (0.0, 0.0, False)

    o_cat = o_seq

    def o_sum(self, v, lits):
        lo, hi, nan = self.of(v.a[2], lits)
        n = self.of(v.a[0], lits)[1]
        n = max(n, 0.0)
        return (min(lo * n, 0.0) if lo < 0 else 0.0), \
            (max(hi * n, 0.0) if hi > 0 else 0.0), nan

    def o_foldmax(self, v, lits):
        r = self.join(self.of(v.a[2], lits), self.of(v.a[3], lits))
        return r

    o_foldmin = o_foldmax


class Ieee(Env):
    """terms on given numbers, as the machine computes"""

    def __init__(self, given, calls=None):
        super().__init__((0, 0))
        self.given = given
        self.limit = 400000

    def num(self, key, ty, nn=False):
        raise Invalid

    def o_sym(self, x, b):
        if x.a[0] in self.given:
            return self.given[x.a[0]]
        raise Invalid

    def o_p(self, x, b):
        r = float(x.a[0]) if x.a[0].denominator != 1 else int(x.a[0])
        for m, k in x.a[1]:
            v = self.evn(m, b)
            kk = float(k) if k.denominator != 1 else int(k)
            r = r + v * kk
        return r

    def o_m(self, x, b):
        r = 1
        for y, e in x.a[0]:
            v = self.evn(y, b)
            if e < 0 and v == 0:
                r = r * INF
                continue
            try:
                r = r * (v ** e)
            except OverflowError:
                r = r * INF
        return r

    def math1(f, low, at):
        def g(self, x, b):
            v = self.evn(x.a[0], b)
            if v != v or v < low:
                return NAN
            if v == low and at is not None:
                return at
            return INF if v == INF else f(v)
        return g
    o_log10 = math1(math.log10, 0, -INF)
    o_log2 = math1(math.log2, 0, -INF)
    o_log = math1(math.log, 0, -INF)
    o_sqrt = math1(math.sqrt, 0, 0.0)

    def nanchk(self, v):
        return v

    def eps(self, x):
        return 0

    def o_argmin(self, x, b):
        return self.arg(x, b, lambda p, q: p < q)

    def o_argmax(self, x, b):
        return self.arg(x, b, lambda p, q: q < p)

    def arg(self, x, b, less):
        v = self.aslist(self.ev(x.a[0], b))
        if not v:
            raise Invalid
        k = 0
        for i in range(1, len(v)):
            if less(v[i], v[k]):
                k = i
        return k


def numbers(v):
    """the numbers in an interpreted value"""
    if isinstance(v, Mat):
        for j in range(v.c):
            for i in range(v.r):
                yield from numbers(v.at(i, j))
    elif isinstance(v, Rec):
        for x in v.f.values():
            yield from numbers(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from numbers(x)
    elif isinstance(v, (int, float)) and not isinstance(v, bool):
        yield v
