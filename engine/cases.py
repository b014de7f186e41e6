"""Refutation by case distinction over what loops may have done.

A set of formulas has no model if every case is contradictory: a gate takes one
of its values, an extremum is one of its arguments (and bounds the others), a
search for the last match found an element or found none of them, the trip
count of a loop is where its condition first fails. Sequences of unknown length
are not unrolled: a found element is a fresh index; that none was found is used
at the elements that could have matched."""
import time

import linear
import terms as t
from terms import TRUE, FALSE, zero, le, lt, eq, and_, or_, not_, add, sub


class Out(Exception):
    pass


ATOMIC = ("call", "method", "get", "cell", "unk")
SPLIT = ("ite", "max", "min", "lastw", "foldmax", "foldmin", "trip")


def inst(body, level, v):
    return t.subst(body, {t.bv(level): v})


class Cases:
    def __init__(self, instances=None, budget=4000, secs=60):
        self.instances = instances or (lambda x: ())
        self.n = budget
        self.secs = secs
        self.known = {}

    def unsat(self, formulas):
        self.end = time.time() + self.secs
        try:
            return self.go([], list(formulas), [], frozenset())
        except (Out, RecursionError):
            return False

    def proves(self, facts, goal):
        return self.unsat(list(facts) + [not_(goal)])

    # -- parts of formulas
    def visible(self, f):
        """closed terms the formula talks about"""
        r = self.known.get(f)
        if r is not None:
            return r
        seen, out = set(), []
        st = [f]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if not t.freebv(x):
                out.append(x)
            if x.op == "field" or x.op in ("call", "method"):
                continue
            st.extend(t.children(x))
        r = self.known[f] = sorted(out, key=lambda x: x.id)
        return r

    def gate(self, f):
        for x in self.visible(f):
            if x.op in SPLIT and not (x.ty == "b" and x is f):
                return x
        return None

    def go(self, lits, todo, ors, seen):
        self.n -= 1
        if self.n < 0 or time.time() > self.end:
            raise Out()
        lits, ors, hard = list(lits), list(ors), []
        todo = list(todo)
        fresh_lits = []
        while todo:
            f = todo.pop()
            if f is TRUE:
                continue
            if f is FALSE:
                return True
            if f.op == "and":
                todo.extend(f.a)
            elif f.op == "or":
                ors.append(f)
            elif f.op == "not" and f.a[0].op == "eq" and \
                    t.is_num(f.a[0].a[0]):
                p = f.a[0].a[0]
                todo.append(or_(t._cmp0("lt", p), t._cmp0("lt", t.neg(p))))
            elif f.op == "not" and f.a[0].op in ("and", "or"):
                g = f.a[0]
                todo.append((or_ if g.op == "and" else and_)(
                    *[not_(x) for x in g.a]))
            elif f.op == "ite" and f.ty == "b":
                todo.append(or_(and_(f.a[0], f.a[1]),
                                and_(not_(f.a[0]), f.a[2])))
            elif self.gate(f) is not None:
                hard.append(f)
            else:
                lits.append(f)
                fresh_lits.append(f)
                new = []
                for x in self.visible(f):
                    if x in seen or not t.is_num(x):
                        continue
                    seen = seen | {x}
                    new += self.instances(x)
                todo.extend(new)
        if fresh_lits and self.dead(lits, fresh_lits):
            return True
        if hard:
            return self.resolve(lits, hard, ors, seen)
        # the disjunction with the fewest open cases
        best = None
        for o in ors:
            left = []
            for x in o.a:
                if self.gate(x) is None and x.op in ("le", "lt", "eq") and \
                        self.dead(lits + [x], [x]):
                    continue
                left.append(x)
            if not left:
                return True
            if best is None or len(left) < len(best[1]):
                best = (o, left)
            if len(left) == 1:
                break
        if best is None:
            self.model = lits
            return False
        rest = [o for o in ors if o is not best[0]]
        return all(self.go(lits, [x], rest, seen) for x in best[1])

    def dead(self, lits, new):
        """the literals, consistent without the new ones, have no solution"""
        cons, goal = [], []
        for x in lits:
            linear._atoms(x, cons)
        for x in new:
            linear._atoms(x, goal)
        reach = {m for c in goal for m in c[0]}
        if not reach:
            return linear.infeasible(goal)
        used, left = [], cons
        while left:
            near = [c for c in left if any(m in reach for m in c[0])]
            if not near:
                break
            left = [c for c in left if not any(m in reach for m in c[0])]
            used += near
            for c in near:
                reach.update(c[0])
        for m in reach:
            if t.nonneg(m):
                used.append(({m: -1}, 0, False))
        return linear.infeasible(used)

    def resolve(self, lits, hard, ors, seen):
        """case distinction over the innermost gate"""
        x = min((self.gate(f) for f in hard), key=lambda g: g.id)

        def case(v, *facts):
            m = {x: v}
            fs = [t.subst(f, m) for f in hard]
            os_ = [t.subst(o, m) for o in ors]
            ls = [t.subst(f, m) if t.mentions(f, x) else f for f in lits]
            return self.go(ls, list(facts) + fs,
                           [], seen) if not os_ else \
                self.go(ls, list(facts) + fs + os_, [], seen)
        if x.op == "ite":
            return case(x.a[1], x.a[0]) and case(x.a[2], not_(x.a[0]))
        if x.op in ("max", "min"):
            c = le if x.op == "max" else (lambda p, q: le(q, p))
            return all(case(v, *[c(w, v) for w in x.a if w is not v])
                       for v in x.a)
        if x.op == "trip":
            v = t.fresh("trip", "i")
            t.NONNEG.add(v)
            self.trips[v] = x
            return case(v, not_(inst(x.a[1], x.a[0], v)))
        if x.op in ("foldmax", "foldmin"):
            N, l, body, init = x.a
            up = le if x.op == "foldmax" else (lambda p, q: le(q, p))
            v, j = t.fresh("fold", x.ty), t.fresh("j", "i")
            t.NONNEG.add(j)
            fs = [up(init, v),
                  or_(le(N, zero()), up(inst(body, l, zero()), v)),
                  or_(le(N, zero()),
                      up(inst(body, l, sub(N, t.one())), v))]
            return case(v, eq(v, init), *fs) and \
                case(v, lt(j, N), eq(v, inst(body, l, j)), *fs)
        if x.op == "lastw":
            N, l, cond, val, init = x.a
            j = t.fresh("j", "i")
            t.NONNEG.add(j)
            T = self.trips.get(N)
            fs = [lt(j, N), inst(cond, l, j)]
            if T is not None:
                fs.append(inst(T.a[1], T.a[0], j))
            return case(inst(val, l, j), *fs) and \
                case(init, *self.none(N, l, cond))
        raise Out()

    trips = {}

    def none(self, N, l, cond):
        """no element below N satisfies the condition"""
        def at(z, c):
            return or_(lt(z, zero()), le(N, z), not_(inst(c, l, z)))
        # records: none was above the start, so no element is
        b = t.bv(l)
        for f in t.subterms(cond):
            if f.op in ("foldmax", "foldmin") and f.a[0] is b:
                e = inst(f.a[2], f.a[1], b)
                rec = lt(f, e) if f.op == "foldmax" else lt(e, f)
                if rec is cond:
                    return [at(z, lt(f.a[3], e) if f.op == "foldmax"
                               else lt(e, f.a[3]))
                            for z in (zero(), sub(N, t.one()))]
        out = [at(z, cond) for z in (zero(), sub(N, t.one()))]
        for c in (cond.a if cond.op == "and" else (cond,)):
            if c.op == "eq":
                for z in solutions(c.a[0], b):
                    out.append(at(z, cond))
        return out


def solutions(p, b):
    """values of b for which p could be 0"""
    out, st, n = [], [p], 0
    while st and n < 64:
        n += 1
        x = st.pop()
        g = [y for y in t.subterms(x) if y.op in ("ite", "max", "min") and
             t.mentions(y, b)]
        if g:
            y = max(g, key=lambda z: z.id)
            vs = y.a[1:] if y.op == "ite" else y.a
            st.extend(t.subst(x, {y: v}) for v in vs)
            continue
        k, d = t.parts(x)
        c = d.get(b)
        if c in (1, -1):
            rest = sub(x, b if c == 1 else t.neg(b))
            if not t.mentions(rest, b):
                z = t.neg(rest) if c == 1 else rest
                if z not in out:
                    out.append(z)
    return out
