"""C32: the chosen matching has the greatest total similarity.

The step of the score table, extracted by the interpretation of the whole
matching (as in C24), is compared with the recurrence of the optimal matching:
the best total of patches up to p with patch p at column x is its similarity
there plus the best earlier total at an earlier column, or the best earlier
total at the same column when the patch is lost. Then the extracted result is
compared with the best of all matchings of small instances."""
from common import *
import os

import c24
import sample
from c24 import IDX, P, R, SEL, Scene, n, nb, nc

TECHNIQUE = "abstract interpretation of the whole matching to value graphs; " \
    "its table recurrence compared with the recurrence of the optimum under " \
    "random interpretation, and its result with the best of all matchings " \
    "of small instances"
EXPLANATION = "FindMostOptimalDegPatches is interpreted with everything it " \
    "calls but the comparator. The extracted step of its score table is " \
    "evaluated for random tables, positions and similarities and compared " \
    "with the recurrence of the best total; the extracted result is compared " \
    "with the greatest total over every in-order matching inside the windows " \
    "for generated small instances (patches that share the column of the one " \
    "before are lost and count nothing). Assumed: finite similarities and " \
    "increasing positions."

STEP = "each table entry is the best total that ends there"
BEST = "the reported matching has the greatest total similarity"


def instances(count):
    """generated shapes, positions and similarities"""
    for i in range(count):
        def h(what, m):
            return sample.h("c32", i, what) % m
        width, radius = 1 + h("w", 3), h("r", 4)
        m = 1 + h("n", 4)
        idx, x = [], h("i", 3)
        for j in range(m):
            idx.append(x)
            x += 1 + h(("d", j), width + 1)
        cols = idx[-1] + 1 + h("c", 4)
        lo, hi = ((0, 1), (-1, 1), (0.5, 1), (-1, 0))[h("s", 4)]
        sims = c24.hashed(lo, hi, ("c32", i))
        if h("lost", 3) == 0:
            q, g = h("q", m), sims
            sims = (lambda q, g: lambda p, s: -2.0 if p == q else g(p, s))(
                q, g)
        yield (1, width, cols, radius), idx, sims


def columns(shape, p):
    _rows, width, cols, radius = shape[0]
    w = width * radius
    return range(max(0, shape[1][p] - w), min(cols, shape[1][p] + w + 1))


def optimum(inst):
    """greatest total of all in-order matchings, by the definition"""
    sims = inst[2]
    m = len(inst[1])

    def go(p, last, total):
        if p == m:
            yield total
            return
        for s in columns(inst, p):
            if s > last:
                yield from go(p + 1, s, total + sims(p, s))
            elif s == last and p:
                yield from go(p + 1, s, total)
    return max(go(0, -1, 0.0), default=None)


def describe(inst):
    (_r, width, cols, radius), idx, _s = inst
    return "%d columns, patches of %d at %s, radius %d" % (
        cols, width, idx, radius)


def results(c, s, r, w):
    done = 0
    for inst in instances(60):
        shape, idx, sims = inst
        env = Scene(s.I, shape, idx, sims)
        try:
            v = env.solid(env.ev(r.ret, {}))
            if not (isinstance(v, sample.Tag) and v.op in ("sor", "soe")):
                continue
            best = optimum(inst)
            if best is None:
                continue
            if v.op == "soe":
                done += 1
                c.violated(BEST, w, describe(inst) + ": an error, the best "
                           "total is %.3f" % best)
                return done
            total = 0.0
            for p, x in enumerate(v.a[0]):
                x = dict(x.f)
                a, z = x["deg_patch_start_time"], x["deg_patch_end_time"]
                if not a == z == 0:
                    total += sims(p, int(round(a)))
            done += 1
            if len(v.a[0]) != len(idx) or total < best - 1e-9:
                c.violated(BEST, w, "%s: %d patches, total %.3f, the best is "
                           "%.3f" % (describe(inst), len(v.a[0]), total, best))
                return done
        except (sample.Invalid, KeyError, IndexError, AttributeError,
                RecursionError, ZeroDivisionError, TypeError):
            if os.environ.get("VERIF_DEBUG") == "2":
                raise
            continue
    if done >= 30:
        c.held(BEST, w)
    else:
        c.undecided(BEST, w, "%d instances evaluated" % done)
    return done


class Step(Scene):
    """a random table of earlier totals"""
    table = None

    def o_cell(self, x, b):
        if x.a[0] is sym("D"):
            return self.table(self.evi(x.a[1], b), self.evi(x.a[2], b))
        return super().o_cell(x, b)


def steps(c, s, w):
    D = [(k, phi, x0, x1) for k, phi, x0, x1 in s.I.recur.values()
         if phi.ty != "i" and x0.op == "map"]
    if len(D) != 1:
        c.undecided(STEP, w, "the table is not of a known form")
        return 0
    k, phi, x0, x1 = D[0]
    x = num("x", "i", True)
    i, j = fresh("i", "i"), fresh("j", "i")
    got = get(get(t.subst(x1, {phi: smap(n, i, smap(nc, j, mk(
        "cell", sym("D"), i, j, ty="f")))}), k), x)
    low = -1.7976931348623157e308
    done = 0
    for q, inst in enumerate(instances(40)):
        shape, idx, sims = inst
        env = Step(s.I, shape, idx, sims)
        f = c24.hashed(-3, 3, ("D", q))
        env.table = lambda p, y: f(p, y) if y in columns(inst, p) else low
        for p in range(len(idx)):
            for y in columns(inst, p):
                env.fix[k], env.fix[x] = p, y
                env.vals, env.memo, env.steps = {}, {}, 0
                want = sims(p, y)
                if p:
                    want += max([env.table(p - 1, z) for z in
                                 columns(inst, p - 1) if z < y], default=low)
                    want = max(want, env.table(p - 1, y))
                try:
                    v = env.evn(got, {})
                except (sample.Invalid, KeyError, IndexError, AttributeError,
                        RecursionError, ZeroDivisionError, TypeError):
                    if os.environ.get("VERIF_DEBUG") == "2":
                        raise
                    continue
                done += 1
                if abs(v - want) > 1e-9 * max(1, abs(v), abs(want)):
                    c.violated(STEP, w, "%s: entry of patch %d at column %d "
                               "is %s, should be %s" % (
                                   describe(inst), p, y, v, want))
                    return done
    if done >= 50:
        c.held(STEP, w)
    else:
        c.undecided(STEP, w, "%d entries evaluated" % done)
    return done


def check(c):
    w = SEL.replace("Visqol::", "")

    @c.rule("optimal matching", w, 600)
    def _():
        s, r = c24.run(c)
        c.samples += steps(c, s, w) + results(c, s, r, w)
