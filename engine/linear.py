"""Entailment between linear facts: `implied(pc, c)` tells whether the path
conditions entail c. Monomials are the variables of a system of linear
inequalities, which is refuted by Fourier-Motzkin elimination. Incomplete (the
answer "no" says nothing), never wrong on the mathematical integers and reals.
"""
from fractions import Fraction

import terms as t
from terms import TRUE, FALSE, not_

MAXC = 160
_memo = {}


def reset():
    _memo.clear()


def _atoms(c, out):
    """adds the linear constraints of a conjunction to out"""
    if c.op == "and":
        for x in c.a:
            _atoms(x, out)
    elif c.op in ("le", "lt"):
        k, d = t.parts(c.a[0])
        out.append((d, k, c.op == "lt"))
    elif c.op == "eq":
        k, d = t.parts(c.a[0])
        out.append((d, k, False))
        out.append(({m: -v for m, v in d.items()}, -k, False))


def _lin(out, p, strict=False):
    """p <= 0 (or < 0)"""
    if t._special(p):
        return
    k, d = t.parts(p)
    if d:
        out.append((d, k, strict))


def lower(x, depth=0):
    """a constant lower bound of the term, or None"""
    k, d = t.parts(x)
    for m, v in d.items():
        if v > 0 and m.op == "max" and depth < 4:
            ls = [lower(y, depth + 1) for y in m.a]
            ls = [y for y in ls if y is not None]
            if t.nonneg(m):
                ls.append(0)
            if not ls:
                return None
            k = k + v * max(ls)
        elif v > 0 and t.nonneg(m):
            pass
        else:
            return None
    return k


def facts_of(m, out, depth=0):
    """facts every value of the monomial satisfies"""
    if t.nonneg(m):
        out.append(({m: Fraction(-1)}, Fraction(0), False))
    op = m.op
    if op == "min":
        for x in m.a:
            _lin(out, t.sub(m, x))
    elif op == "max":
        for x in m.a:
            _lin(out, t.sub(x, m))
    elif op == "trunc":
        x = m.a[0]
        if t.nonneg(x):
            _lin(out, t.sub(m, x))
            _lin(out, t.sub(t.sub(x, t.one()), m), True)
        else:
            _lin(out, t.sub(t.sub(m, x), t.one()), True)
            _lin(out, t.sub(t.sub(x, t.one()), m), True)
    elif op in ("tfloor", "floor"):
        _lin(out, t.sub(m, m.a[0]))
        _lin(out, t.sub(t.sub(m.a[0], t.one()), m), True)
    elif op in ("tceil", "ceil"):
        _lin(out, t.sub(m.a[0], m))
        _lin(out, t.sub(m, t.add(m.a[0], t.one())), True)
    elif op in ("tround", "round"):
        h = t.C(Fraction(1, 2))
        _lin(out, t.sub(t.sub(m, m.a[0]), h))
        _lin(out, t.sub(t.sub(m.a[0], m), h))
    elif op == "idiv" and m.a[1].op == "c" and m.a[1].a[0] > 0:
        x, c = m.a
        slack = t.sub(c, t.one())
        lo = lower(x)
        pos = t.nonneg(x) or lo is not None and lo >= 0
        if pos:
            _lin(out, t.neg(m))
        _lin(out, t.sub(t.sub(t.mul(m, c), x), t.zero() if pos else slack))
        _lin(out, t.sub(t.sub(x, t.mul(m, c)), slack))
    elif op == "idiv" and t.nonneg(m.a[0]) and t.nonneg(m.a[1]):
        _lin(out, t.sub(m, m.a[0]))
    elif op == "imod":
        x, c = m.a
        if t.nonneg(x):
            _lin(out, t.neg(m))
            _lin(out, t.sub(m, x))
            if c.op == "c" and c.a[0] > 0:
                _lin(out, t.sub(m, t.sub(c, t.one())))
            elif t.nonneg(c):
                _lin(out, t.add(t.sub(m, c), t.one()))
    elif op == "abs":
        _lin(out, t.sub(m.a[0], m))
        _lin(out, t.neg(t.add(m.a[0], m)))
    elif op == "first":
        _lin(out, t.sub(m, m.a[0]))
    elif op == "trip":
        n = not_(t.subst(m.a[1], {t.bv(m.a[0]): m}))
        _atoms(n, out)
        # before the last iteration the condition held (when there was one)
    elif op == "ite" and t.is_num(m) and depth < 2:
        # bounded by both sides' constants
        a, b = m.a[1], m.a[2]
        if a.op == "c" and b.op == "c":
            _lin(out, t.sub(m, t.C(max(a.a[0], b.a[0]))))
            _lin(out, t.sub(t.C(min(a.a[0], b.a[0])), m))
    elif op == "foldmax":
        _lin(out, t.sub(m.a[3], m))
    elif op == "foldmin":
        _lin(out, t.sub(m, m.a[3]))
    elif op == "sum":
        b = m.a[2]
        if b.ty == "b" or (b.op == "ite" and b.a[1].op == "c" and
                           b.a[2].op == "c"):
            hi = max(b.a[1].a[0], b.a[2].a[0])
            _lin(out, t.sub(m, t.scale(m.a[0], hi)))
    elif op == "m":
        # product of two non-negative integers dominates each when positive
        pass
    h = HOOK.get(op)
    if h:
        h(m, out)


HOOK = {}
EXTRA = []       # global facts (conditions) added by clients


def _relevant(goal, cons):
    """constraints connected with the goal through shared monomials, with the
    implicit facts of the monomials involved"""
    used = set(goal)
    pool = list(cons)
    out = []
    seen = set()
    todo = list(goal)
    rounds = 0
    while todo and len(out) < 400:
        nxt = []
        rounds += 1
        if rounds > 12:
            break
        for m in todo:
            if m in seen:
                continue
            seen.add(m)
            fs = []
            facts_of(m, fs)
            if m.op == "m":
                nxt.extend(x for x, _e in m.a[0])
            for f in fs:
                out.append(f)
                for x in f[0]:
                    if x not in seen:
                        nxt.append(x)
        rest = []
        cur = set(todo) | seen
        for c in pool:
            if any(x in cur for x in c[0]):
                out.append(c)
                nxt.extend(x for x in c[0] if x not in seen)
            else:
                rest.append(c)
        pool = rest
        todo = nxt
    return out


def _norm(c):
    d, k, s = c
    d = {m: v for m, v in d.items() if v != 0}
    if not d:
        return d, k, s
    lead = abs(d[min(d, key=lambda x: x.id)])
    if lead != 1:
        d = {m: v / lead for m, v in d.items()}
        k = k / lead
    return d, k, s


def infeasible(cons):
    # keep the strongest constraint per direction
    def compact(cs):
        best = {}
        for c in cs:
            d, k, s = _norm(c)
            if not d:
                if k > 0 or (k == 0 and s):
                    return None
                continue
            key = tuple(sorted(((m.id, v) for m, v in d.items())))
            o = best.get(key)
            if o is None or k > o[1] or (k == o[1] and s and not o[2]):
                best[key] = (d, k, s)
        return list(best.values())
    cs = compact(cons)
    if cs is None:
        return True
    while cs:
        # choose the variable with the least product of occurrences
        cnt = {}
        for d, k, s in cs:
            for m, v in d.items():
                p = cnt.setdefault(m, [0, 0])
                p[0 if v > 0 else 1] += 1
        m = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1], x.id))
        pos = [c for c in cs if c[0].get(m, 0) > 0]
        neg = [c for c in cs if c[0].get(m, 0) < 0]
        rest = [c for c in cs if m not in c[0]]
        if len(pos) * len(neg) + len(rest) > MAXC * 4:
            return False
        for dp, kp, sp in pos:
            for dn, kn, sn in neg:
                a, b = dp[m], -dn[m]
                d = {}
                for x, v in dp.items():
                    d[x] = d.get(x, 0) + v * b
                for x, v in dn.items():
                    d[x] = d.get(x, 0) + v * a
                d.pop(m, None)
                rest.append((d, kp * b + kn * a, sp or sn))
        cs = compact(rest)
        if cs is None:
            return True
        if len(cs) > MAXC:
            return False
    return False


def apart(p, cons, ors):
    """p is not 0"""
    k, d = t.parts(p)
    if k == 0 and len(d) == 1 and all(t.nonneg(m) for m in d):
        _atoms(t._cmp0("lt", t.neg(next(iter(d)))), cons)
    else:
        o = t.or_(t._cmp0("lt", p), t._cmp0("lt", t.neg(p)))
        if o.op == "or":
            ors.append(o)


def products(pc, rel, depth):
    """facts on products: quotients by terms, and constraints multiplied by
    a factor that is not negative"""
    out = []
    ms = {m for c in rel for m in c[0]}
    for m in list(ms):
        if m.op == "idiv" and t.nonneg(m.a[1]) and depth > 0:
            x, h = m.a
            if t.nonneg(x) and h.op != "c" or refute(pc, [t._cmp0("lt", x)], 0):
                fs = []
                _lin(fs, t.neg(m))
                _lin(fs, t.sub(t.mul(m, h), x))
                out += fs
                for f in fs:
                    ms.update(f[0])
    new = []
    for m in [m for m in ms if m.op == "m"]:
        for f, e in m.a[0]:
            if e != 1 or not t.nonneg(f):
                continue
            for d, k, s in rel + out:
                if len(d) <= 4 and any(t.mul(x, f) is m for x in d):
                    p = t.scale(f, k)
                    for x, v in d.items():
                        p = t.add(p, t.scale(t.mul(x, f), v))
                    _lin(new, p)
            if len(new) > 60:
                break
    return out + new


def refute(pc, extra, depth=2):
    """the conjunction of pc and extra has no solution"""
    cons = []
    ors = []
    for c in list(pc) + list(EXTRA):
        st = [c]
        while st:
            x = st.pop()
            if x.op == "and":
                st.extend(x.a)
            elif x.op == "or":
                ors.append(x)
            elif x.op == "not" and x.a[0].op == "eq" and \
                    t.is_num(x.a[0].a[0]) and not t._special(x.a[0].a[0]):
                apart(x.a[0].a[0], cons, ors)
            else:
                _atoms(x, cons)
    goal = []
    for c in extra:
        if c.op == "or":
            ors.insert(0, c)
        else:
            _atoms(c, goal)
    vs = set()
    for c in goal:
        vs.update(c[0])
    if not goal and not ors:
        return False
    if goal:
        rel = _relevant(vs, cons + goal)
        if infeasible(rel + goal):
            return True
        more = products(pc, rel + goal, depth)
        if more:
            rel = rel + more
            if infeasible(rel + goal):
                return True
        mx = {m for c in rel + goal for m in c[0] if m.op in ("max", "min")}
        for m in sorted(mx, key=lambda x: x.id)[:2] if depth > 0 else ():
            o = t.or_(*[t._cmp0("le", t.sub(m, x) if m.op == "max"
                                else t.sub(x, m)) for x in m.a])
            if o.op == "or" and not t._special(*m.a) and \
                    not any(o is x for x in pc) and \
                    not any(x in o.a for x in list(pc) + list(extra)):
                ors.append(o)
    if depth > 0:
        for o in ors[:6]:
            # split only on disjunctions that talk about the same things
            if goal:
                ms = set()
                for x in o.a:
                    cc = []
                    _atoms(x, cc)
                    for y in cc:
                        ms.update(y[0])
                if not ms & vs and not (ms & {m for c in rel for m in c[0]}):
                    continue
            rest = [x for x in pc if x is not o]
            ex = [x for x in extra if x is not o]
            if all(refute(rest, ex + [x], depth - 1) for x in o.a):
                return True
    return False


def implied(pc, c):
    if c is TRUE:
        return True
    if c is FALSE or not _arith(c):
        return False
    key = (pc, c, t.Mode.nan_blind, len(EXTRA))
    r = _memo.get(key)
    if r is None:
        if c.op == "and":
            r = all(implied(pc, x) for x in c.a)
        elif c.op == "eq":
            d = c.a[0]
            r = implied(pc, t._cmp0("le", d)) and \
                implied(pc, t._cmp0("le", t.neg(d)))
        else:
            n = not_(c)
            r = refute(pc, [n] if n.op != "and" else list(n.a))
        if len(_memo) > 200000:
            _memo.clear()
        _memo[key] = r
    return r


def _arith(c):
    if c.op in ("le", "lt", "eq"):
        return True
    if c.op in ("and", "or"):
        return any(_arith(x) for x in c.a)
    if c.op == "not":
        return _arith(c.a[0])
    return False


UNKFACTS = {}


def _unkfacts(m, out):
    for f in UNKFACTS.get(m.a[0], ()):
        _atoms(f(m), out)


HOOK["unk"] = _unkfacts
