"""C34: every match reports its own time span, content and similarity."""
import os

import c24
import sample
from c24 import SEL, Scene, SCENES
from common import *

TECHNIQUE = "abstract interpretation of the whole matching to value graphs; " \
    "the extracted patches compared and the extracted results evaluated for " \
    "small instances against the frames they stand for"
EXPLANATION = "FindMostOptimalDegPatches is interpreted with everything it " \
    "calls but the comparator. For instances of every shape listed in C24 the " \
    "extracted values are evaluated: each degraded patch handed to the " \
    "comparator has the columns from its start on, silence outside of the " \
    "spectrogram; each result has the times of its reference frames, the " \
    "times of the frames it was matched with and the similarity and band " \
    "means of exactly that comparison; a lost patch has zero times, zero " \
    "similarity and zero band means. In CalculateSimilarity the duration of " \
    "a frame given to the matching is the hop in samples over the rate."

REFT = "a patch reports the times of its reference frames"
DEGT = "a match reports the times of the frames it was matched with"
SIM = "a match reports the similarity of the patches matched"
MEANS = "a match reports the band means of the patches matched"
GONE = "a lost patch contributes nothing"
CONTENT = "the degraded patch compared is the frames from its start on"
FRAME = "the frame duration is the hop over the sample rate"
DT = 0.25
NOT = (sample.Invalid, KeyError, IndexError, AttributeError, RecursionError,
       ZeroDivisionError, TypeError)


class Timed(Scene):
    """a frame lasts DT, band means are known by the patches compared"""

    def __init__(self, I, shape, idx, sims):
        super().__init__(I, shape, idx, sims)
        self.fix[sym("p:frame", "f")] = DT
        self.rows = shape[0]

    def field(self, o, nm, ty, x=None):
        if isinstance(o, sample.Obj) and o.key[0] == "sim" and \
                len(o.key) == 3:
            (p, _z), (_q, s) = o.key[1:]
            if nm in ("freq_band_means", "freq_band_stddevs",
                      "freq_band_deg_energy"):
                return sample.Rec("Visqol::AMatrix", {
                    "matrix_": sample.Mat(self.rows, 1, lambda i, j: mean(
                        nm, p, s, i))})
        return super().field(o, nm, ty, x)


class Fields:
    """fields of a result, also those it shares with another"""

    def __init__(self, env, x):
        self.env, self.x = env, x

    def __getitem__(self, nm):
        x = self.x
        while isinstance(x, sample.Rec):
            if nm in x.f:
                return x.f[nm]
            x = x.base
        return self.env.field(x, nm, "f")


def mean(nm, p, s, i):
    return 1.0 + sample.h("mean", nm, p, s, i) % 1000


def same(a, b):
    return abs(a - b) < 1e-9


def cells(m):
    if isinstance(m, sample.Rec):
        m = m.f["matrix_"]
    return [[m.at(i, j) for j in range(m.c)] for i in range(m.r)]


def scenes(c, s, r, w):
    bad, done = {}, {}

    def tell(rule, ok, note, loc=None):
        done[rule] = done.get(rule, 0) + 1
        if not ok:
            bad.setdefault(rule, (note, loc))
    for shape, idx, sims in SCENES:
        env = Timed(s.I, shape, idx, sims)
        rows, width, cols, radius = shape
        at = "%d columns, patches of %d at %s, radius %d: " % (
            cols, width, idx, radius)
        for e in r.ev("call"):
            if not e.name.endswith("::MeasurePatchSimilarity"):
                continue
            try:
                for a in env.each(e):
                    (_p, _z), (q, x) = env.patch(a[0]), env.patch(a[1])
                    if q != -1 or not 0 <= x < cols:
                        continue        # the rules of C24
                    want = [[float(i * 1000 + x + j + 1) if x + j < cols else
                             0.0 for j in range(width)] for i in range(rows)]
                    tell(CONTENT, cells(a[1]) == want, at + "compared from "
                         "column %d on" % x, e.loc)
            except NOT:
                if os.environ.get("VERIF_DEBUG") == "2":
                    raise
                continue
        try:
            v = env.solid(env.ev(r.ret, {}))
            if not (isinstance(v, sample.Tag) and v.op == "sor"):
                continue
            out = [Fields(env, x) for x in v.a[0]]
        except NOT:
            if os.environ.get("VERIF_DEBUG") == "2":
                raise
            continue
        for p, x in enumerate(out):
            try:
                a, z = x["ref_patch_start_time"], x["ref_patch_end_time"]
                tell(REFT, same(a, idx[p] * DT) and
                     same(z, (idx[p] + width) * DT),
                     at + "patch %d from %s to %s in frames of %s" % (
                         p, a, z, DT))
                a, z = x["deg_patch_start_time"], x["deg_patch_end_time"]
                sim = x["similarity"]
                if a == z == 0:
                    tell(GONE, sim == 0, at + "patch %d has similarity %s" % (
                        p, sim))
                    ms = cells(x["freq_band_means"])
                    tell(GONE, all(y == 0 for l in ms for y in l),
                         at + "patch %d has band means %s" % (p, ms))
                    continue
                tell(DEGT, same(z - a, width * DT) and
                     same(a / DT, round(a / DT)),
                     at + "patch %d matched from %s to %s in frames of %s" % (
                         p, a, z, DT))
                q = int(round(a / DT))
                tell(SIM, same(sim, sims(p, q)), at + "patch %d matched at "
                     "column %d has similarity %s" % (p, q, sim))
                for f in ("freq_band_means", "freq_band_stddevs",
                          "freq_band_deg_energy"):
                    tell(MEANS, cells(x[f]) == [[mean(f, p, q, i)] for i in
                                                range(rows)],
                         at + "%s of patch %d matched at column %d" % (
                             f, p, q))
            except NOT:
                if os.environ.get("VERIF_DEBUG") == "2":
                    raise
                continue
    for rule in (REFT, DEGT, SIM, MEANS, GONE, CONTENT):
        if rule in bad:
            c.violated(rule, w, *bad[rule])
        elif done.get(rule, 0) >= 4:
            c.held(rule, w)
        else:
            c.undecided(rule, w, "%d values evaluated" % done.get(rule, 0))
        c.samples += done.get(rule, 0)


def check(c):
    w = SEL.replace("Visqol::", "")

    @c.rule("matches", w, 600)
    def _():
        s, r = c24.run(c)
        scenes(c, s, r, w)

    for noreal in (False, True):
        n = "CalculateSimilarity" + (" without realignment" if noreal else "")

        @c.rule(FRAME, n)
        def _():
            k = Similarity(c, noreal)
            for e in k.coarse:
                got = [a for a in e.args if a.ty == "f"]
                if len(got) != 1:
                    c.undecided(FRAME, n, "%d durations" % len(got), e.loc)
                    continue
                c.eq(FRAME, n, got[0], k.frame, [k.ok], loc=e.loc,
                     what="the duration of a frame")
