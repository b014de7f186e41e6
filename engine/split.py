"""Proof of `facts entail got = want` by case distinction over the atomic
conditions of the terms: every leaf must be contradictory or make both sides
the same term (or equal by linear arithmetic)."""
import time

import linear
import terms as t
from terms import TRUE, FALSE


class Out(Exception):
    pass


def _flat(cs):
    out = []
    st = list(cs)
    while st:
        x = st.pop()
        if x.op == "and":
            st.extend(x.a)
        elif x is not TRUE:
            out.append(x)
    return out


def _arith(x):
    return x.op in ("le", "lt", "eq") or \
        (x.op == "not" and x.a[0].op in ("le", "lt", "eq"))


class Split:
    def __init__(self, budget, secs):
        self.n = budget
        self.end = time.time() + secs

    def prove(self, lits, todo, g, w):
        """lits: literals already assumed; todo: facts not yet assumed"""
        self.n -= 1
        if self.n < 0 or time.time() > self.end:
            raise Out()
        lits = list(lits)
        todo = _flat(todo)
        while True:
            lit = None
            for i, x in enumerate(todo):
                if x is FALSE:
                    return True
                if x.op != "or":
                    lit = x
                    del todo[i]
                    break
            if lit is None:
                break
            if lit.op == "ite":
                # condition of a gate
                todo.append(t.or_(t.and_(lit.a[0], lit.a[1]),
                                  t.and_(t.not_(lit.a[0]), lit.a[2])))
                continue
            if _arith(lit) and linear.implied(
                    tuple(x for x in lits if _arith(x)), t.not_(lit)):
                return True
            nl = []
            for x in lits:
                y = t.assume1(x, lit, True)
                if y is FALSE:
                    return True
                if y is not x:
                    todo.append(y)
                else:
                    nl.append(x)
            lits = nl
            lits.append(lit)
            todo = _flat([t.assume1(x, lit, True) for x in todo])
            g = t.assume1(g, lit, True)
            w = t.assume1(w, lit, True)
        if g is w:
            return True
        if t.is_num(g) and t.is_num(w) and t.sub(g, w) is t.zero():
            return True
        ar = tuple(x for x in lits if _arith(x))
        if ar and not g.unk and not w.unk:
            if t.is_num(g) and t.is_num(w):
                if not t._special(g, w) and linear.implied(ar, t.eq(g, w)):
                    return True
            elif g.ty == "b" and w.ty == "b":
                if w is TRUE and linear.implied(ar, g):
                    return True
                if w is FALSE and linear.implied(ar, t.not_(g)):
                    return True
        cs = t.conditions(g) + t.conditions(w)
        for x in todo:
            cs += t.conditions(x)
        for x in lits:
            y = x.a[0] if x.op == "not" else x
            cs += [z for z in t.conditions(x) if z is not y]
        known = set(lits) | {t.not_(x) for x in lits}
        cs = [x for x in cs if x not in known]
        for c in sorted(set(cs), key=lambda x: x.id):
            if ar and _arith(c):
                if linear.implied(ar, c):
                    return self.prove(lits, todo + [c], g, w)
                if linear.implied(ar, t.not_(c)):
                    return self.prove(lits, todo + [t.not_(c)], g, w)
            al = todo + lits + [g, w]
            if [t.assume1(x, c, True) for x in al] == al and \
                    [t.assume1(x, c, False) for x in al] == al:
                continue       # the case distinction changes nothing
            return self.prove(lits, todo + [c], g, w) and \
                self.prove(lits, todo + [t.not_(c)], g, w)
        # extrema of two values: which of them it is
        for x in sorted({y for v in (g, w) for y in t.subterms(v)
                         if y.op in ("min", "max") and len(y.a) == 2 and
                         not t.freebv(y) and not t._special(*y.a)},
                        key=lambda y: y.id):
            a, b = x.a if x.op == "min" else x.a[::-1]
            c = t.le(a, b)
            for cond, v in ((c, x.a[0]), (t.not_(c), x.a[1])):
                if ar and linear.implied(ar, t.not_(cond)):
                    continue
                if not self.prove(lits, todo + [cond], t.subst(g, {x: v}),
                                  t.subst(w, {x: v})):
                    return False
            return True
        return False


def plain(v, memo):
    """v with absolute values written as case distinctions"""
    def go(x):
        r = memo.get(x)
        if r is None:
            r = t.rebuild(x, go) if x.a else x
            if r.op == "abs" and not t._special(r.a[0]):
                r = t.ite(t.lt(r.a[0], t.zero()), t.sub(t.zero(), r.a[0]),
                          r.a[0])
            memo[x] = r
        return r
    return go(v)


def prove(facts, g, w, budget=600, secs=15):
    facts = list(facts)
    try:
        if Split(budget, secs).prove([], facts, g, w):
            return True
    except Out:
        return None
    m = {}
    fs, g2, w2 = [plain(f, m) for f in facts], plain(g, m), plain(w, m)
    if fs == facts and g2 is g and w2 is w:
        return False
    try:
        return Split(budget, secs).prove([], fs, g2, w2)
    except (Out, RecursionError):
        return None
