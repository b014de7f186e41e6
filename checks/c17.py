from common import *
import lib

TECHNIQUE = "abstract interpretation to value graphs over a model of a binary " \
    "stream: header bytes are symbols, acceptance is a formula over them"
EXPLANATION = "The reader's constructor is interpreted on a stream of unknown " \
    "bytes and on streams whose chunks are laid out in the possible ways with " \
    "symbolic fields (loops over chunks and extension bytes are unrolled " \
    "there). The acceptance condition must imply every requirement; reads are " \
    "bounded by the caller's count and by the data chunk; loops must not get " \
    "stuck: every seek in one moves forward, none repeats its own state."

READER = "Visqol::WavReader::"
W = "WavReader"


def numb(n):
    return num(n, "i", True)


CH, RATE, BITS, SIZE, REST = [numb(x) for x in (
    "channels", "rate", "bits", "data size", "bytes after the header")]
RIFF, WAVE, FMT = sym("p:riff id"), sym("p:wave id"), sym("p:format id")


def header(tag=1, fsize=16, ext=(), chunks=(), bits=16, riff=None,
           wave=None, fmt=None):
    return [(riff or t.s("RIFF"), 4), (numb("riff size"), 4),
            (wave or t.s("WAVE"), 4), (fmt or t.s("fmt "), 4),
            (C(fsize), 4), (C(tag), 2),
            (CH, 2), (RATE, 4), (numb("bytes a second"), 4),
            (numb("block"), 2), (bits if isinstance(bits, t.T) else C(bits),
                                 2)] + list(ext) + list(chunks) + [
                (t.s("data"), 4), (SIZE, 4)]


def filler(n):
    return [(C(0), 1)] * n


LAYOUTS = {
    "plain": dict(),
    "empty extension": dict(fsize=18, ext=[(C(0), 2)]),
    "extension of 3 bytes": dict(fsize=21, ext=[(C(3), 2)] + filler(3)),
    "a chunk before the data": dict(chunks=[(t.s("LIST"), 4), (C(6), 4)] +
                                    filler(6)),
    "an empty chunk before the data": dict(chunks=[(t.s("LIST"), 4),
                                                   (C(0), 4)]),
    "two chunks before the data": dict(
        chunks=[(t.s("LIST"), 4), (C(2), 4)] + filler(2) +
        [(t.s("cue "), 4), (C(4), 4)] + filler(4)),
    "extensible": dict(tag=0xfffe, fsize=40, ext=[(C(22), 2)] + filler(22),
                       chunks=[(t.s("fact"), 4), (C(4), 4)] + filler(4)),
    "extensible with another chunk": dict(
        tag=0xfffe, fsize=40, ext=[(C(22), 2)] + filler(22),
        chunks=[(t.s("fact"), 4), (C(4), 4)] + filler(4) +
        [(t.s("LIST"), 4), (C(2), 4)] + filler(2)),
}
TAGS = (0, 2, 3, 6, 7, 0x11, 0x50, 0x55, 0x101, 0x8001, 0xfffd, 0xffff)


class Opened:
    """a WavReader constructed on a stream"""

    def __init__(self, c, content, unroll=0):
        f = [f for f in c.find(READER + "WavReader")
             if len(f["params"]) == 1 and "stream" in f["params"][0]["t"]]
        if not f:
            raise Skip("no constructor from a stream")
        self.c = c
        self.s = s = c.session("Visqol::WavReader", obligations=True)
        s.I.unroll = unroll
        st = s.I.root("v", "stream")
        s.I.st.store[st] = lib.binary_stream(content)
        s.set_this(s.I.undef_of("Visqol::WavReader"))
        s.call(f[0], [s.I.ptr(st)])
        if s.I.st is None:
            raise Skip("the constructor does not come to an end")
        self.events = list(s.I.events)
        self.stream = s.I.ptr(st)

    def get(self, name, args=()):
        r = self.s.call(READER + name, list(args))
        if r.ret is None or r.ret.unk:
            raise Skip("%s has no closed form" % name)
        return r.ret


WRONG = [("sample size", dict(bits=n))
         for n in (0, 1, 7, 8, 12, 15, 17, 20, 23, 24, 32, 64, 65535)] + [
    ("RIFF identifier", dict(riff=x)) for x in ("RIFX", "riff", "RIFf")] + [
    ("WAVE identifier", dict(wave=x)) for x in ("WAVe", "AVI ", "wave")] + [
    ("fmt identifier", dict(fmt=x)) for x in ("fmt_", "LIST", "FMT ")]


def check(c):
    unknown(c)
    shaped(c)
    stuck(c)
    reading(c)


def conj(v):
    return list(v.a) if v.op == "and" else [v]


IDS = dict(riff=RIFF, wave=WAVE, fmt=FMT, bits=BITS)


def requirements():
    """what the acceptance of a header must imply"""
    return [
        ("the RIFF identifier is required", eq(RIFF, t.s("RIFF"))),
        ("the WAVE identifier is required", eq(WAVE, t.s("WAVE"))),
        ("the fmt identifier is required", eq(FMT, t.s("fmt "))),
        ("samples have 16 bits", eq(BITS, C(16))),
        ("there is at least one channel", not_(eq(CH, zero()))),
        ("there is at least one sample", le(one(), t.idiv(SIZE, C(2)))),
        ("the data are whole samples", eq(t.imod(SIZE, C(2)), zero())),
    ]


FIELDS = (("chars", 0, 4, RIFF), ("chars", 8, 4, WAVE), ("chars", 12, 4, FMT),
          ("bytes", 16, 4, numb("format size")), ("bytes", 20, 2, numb("tag")),
          ("bytes", 22, 2, CH), ("bytes", 24, 4, RATE), ("bytes", 34, 2, BITS))


def unknown(c):
    """any stream: the fixed part of the header has the right content"""
    @c.rule("header", W)
    def _():
        B = sym("p:stream bytes")
        o = Opened(c, B)
        v = o.s.call(READER + "IsHeaderValid").ret
        if v is None:
            raise Skip("no result")
        v = named(and_(v, *o.s.I.exitfacts), B)
        tag = numb("tag")
        for rule, g in requirements()[:5] + [
                ("the format is PCM or extensible",
                 or_(eq(tag, one()), eq(tag, C(0xfffe)))),
                ("the format chunk has its fixed fields",
                 le(C(16), numb("format size")))]:
            if forced(v, g):
                c.held(rule, W + ", any stream")
            else:
                c.undecided(rule, W + ", any stream",
                            "not among the conditions of acceptance")


def named(v, B):
    mp = {}
    for x in t.subterms(v):
        if x.op in ("chars", "bytes") and x.a[0] is B and x.a[1].op == "c":
            for op, off, n, name in FIELDS:
                if x.op == op and x.a[1] is C(off) and x.a[2] is C(n):
                    mp[x] = name
    v = t.subst(v, mp)
    # a header that was read has been read whole
    left = length(B)
    big = numb("more bytes")
    return t.subst(v, {left: add(big, C(36))})


def forced(v, g):
    """v implies g by the propositional structure of both alone: their
    comparisons are atoms of any truth value"""
    return not satisfiable([v, not_(g)], {}, [20000])


def shaped(c):
    for name, kw in LAYOUTS.items():
        w = W + ", " + name

        @c.rule("acceptance", w)
        def _():
            o = Opened(c, lib.stream_layout(header(**kw, **IDS), REST), 60)
            ends(c, o, w)
            v = o.get("IsHeaderValid")
            for rule, g in requirements()[:5]:
                c.implies(rule, w, [v], g, note="IsHeaderValid")
            o = Opened(c, lib.stream_layout(header(**kw), REST), 60)
            v = o.get("IsHeaderValid")
            for rule, g in requirements()[4:]:
                c.implies(rule, w, [v], g, note="IsHeaderValid")
            c.eq("a well-formed stream is accepted", w, v, TRUE,
                 [g for _, g in requirements()[4:]], what="IsHeaderValid")
            c.eq("the samples are those of the data chunk", w,
                 o.get("GetNumTotalSamples"), t.idiv(SIZE, C(2)), conj(v),
                 what="number of samples")
            c.eq("the channels are the header's", w, o.get("GetNumChannels"),
                 CH, conj(v), what="number of channels")
            c.eq("the rate is the header's", w, o.get("GetSampleRateHz"),
                 RATE, conj(v) + [le(RATE, C(1 << 30))], what="sample rate")
    for what, kw in WRONG:
        w = W + ", %s %s" % (what, list(kw.values())[0])

        @c.rule("acceptance", w)
        def _():
            o = Opened(c, lib.stream_layout(header(**{
                k: t.s(x) if isinstance(x, str) else x
                for k, x in kw.items()}), REST), 60)
            c.eq("the %s is checked" % what, w, o.get("IsHeaderValid"),
                 FALSE, what="IsHeaderValid")
    for tag in TAGS:
        w = W + ", format %#x" % tag

        @c.rule("acceptance", w)
        def _():
            o = Opened(c, lib.stream_layout(header(tag=tag), REST), 60)
            c.eq("only PCM and extensible formats are accepted", w,
                 o.get("IsHeaderValid"), FALSE, what="IsHeaderValid")
    for fs in (0, 14, 15):
        w = W + ", format chunk of %d bytes" % fs

        @c.rule("acceptance", w)
        def _():
            o = Opened(c, lib.stream_layout(header(
                fsize=fs, ext=[(C(0), 2)]), REST), 60)
            c.eq("the format chunk has its fixed fields", w,
                 o.get("IsHeaderValid"), FALSE, what="IsHeaderValid")


# streams that end early or lie about their sizes: total bytes, header
def broken():
    LIST = (t.s("LIST"), 4)
    out = {}
    for n in (0, 1, 12, 35, 36, 37, 43):
        out["cut to %d bytes" % n] = (header(), n)
    for size in (0, 1, 7, 1000, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1):
        out["no data chunk, chunk size %d" % size] = (
            header()[:-2] + [LIST, (C(size), 4)], 44)
        out["no data chunk, more bytes, chunk size %d" % size] = (
            header()[:-2] + [LIST, (C(size), 4)] + filler(4), 48)
    for size in (2 ** 32 - 8, 2 ** 32 - 16, 2 ** 32 - 1):
        out["chunk size %d before the data" % size] = (
            header(chunks=[LIST, (C(size), 4)]), 52)
    out["extension of 3 bytes missing"] = (
        header(fsize=21, ext=[(C(3), 2)])[:12], 38)
    out["fact chunk missing"] = (header(tag=0xfffe)[:11], 36)
    out["fact data missing"] = (
        header(tag=0xfffe)[:11] + [(t.s("fact"), 4), (C(4), 4)], 44)
    return out


def cut(parts, total):
    out, at = [], 0
    for v, n in parts:
        if at + n > total:
            break
        out.append((v, n))
        at += n
    return lib.stream_layout(out, C(total - at))


def ends(c, o, w):
    for e in o.events:
        if e.kind == "endless":
            n = c.implies("parsing ends", w, [e.cond], FALSE, loc=e.loc,
                          note="the loop repeats without changing anything")


def stuck(c):
    for name, (parts, total) in broken().items():
        w = W + ", " + name

        @c.rule("parsing ends", w)
        def _():
            f = [f for f in c.find(READER + "WavReader")
                 if len(f["params"]) == 1]
            s = c.session("Visqol::WavReader", obligations=True)
            s.I.unroll = 80
            st = s.I.root("v", "stream")
            s.I.st.store[st] = lib.binary_stream(cut(parts, total))
            s.set_this(s.I.undef_of("Visqol::WavReader"))
            s.call(f[0], [s.I.ptr(st)])
            bad = [e for e in s.I.events if e.kind == "endless"]
            if bad:
                for e in bad:
                    c.implies("parsing ends", w, [e.cond], FALSE, loc=e.loc,
                              note="the loop repeats for ever")
                if s.I.st is None:
                    return
            else:
                c.held("parsing ends", w)
            r = s.call(READER + "IsHeaderValid").ret
            if r is None or r.unk:
                raise Skip("IsHeaderValid has no closed form")
            c.eq("broken streams are refused", w, r, FALSE,
                 what="IsHeaderValid")

    @c.rule("parsing ends", W)
    def _():
        o = Opened(c, sym("p:stream bytes"))
        for e in o.events:
            if e.kind == "seek" and e.loops:
                pos, to, bad = e.args
                mp = {}
                vs = [x for v in (pos, to, bad, e.cond)
                      for x in t.subterms(v) if x.op == "unk"]
                for i, x in enumerate(vs):
                    if x not in mp:
                        y = sym("p:u%d" % i, x.ty)
                        if x in t.NONNEG:
                            t.NONNEG.add(y)
                        mp[x] = y
                d = t.subst(sub(to, pos), mp)
                if t.nonneg(d):
                    c.held("chunks are skipped forwards", W, loc=e.loc)
                else:
                    c.implies("chunks are skipped forwards", W, [
                        t.subst(x, mp) for x in conj(e.cond)] +
                        [not_(t.subst(bad, mp))], le(zero(), d), loc=e.loc,
                        note="seek distance")


def reading(c):
    w = "WavReader::ReadSamples"

    @c.rule("reading", w)
    def _():
        o = Opened(c, lib.stream_layout(header(), REST), 60)
        ok = o.get("IsHeaderValid")
        s = o.s
        n1, n2 = numb("asked first"), numb("asked next")
        buf = sym("p:buffer")
        left = t.idiv(SIZE, C(2))
        got = zero()
        for i, n in enumerate((n1, n2)):
            r = s.call(READER + "ReadSamples", [n, buf])
            if r.ret is None or r.ret.unk:
                raise Skip("ReadSamples has no closed form")
            wi = w + (" again" if i else "")
            facts = conj(ok)
            for e in r.events:
                if e.kind == "usub":
                    c.implies("counts of samples do not wrap", wi,
                              facts + conj(e.cond), le(e.args[1], e.args[0]),
                              loc=e.loc, note="difference")
            reads = [e for e in r.events if e.kind == "binread"]
            if not reads:
                raise Skip("no read")
            for e in reads:
                p, size = e.args[:2]
                x = s.I.idx_of(p)
                first = p is buf or x is not None and x[2] is zero()
                if not first:
                    c.undecided("the caller's buffer is filled", wi,
                                "reads into %s" % t.show(p, 3), e.loc)
                    continue
                c.implies("no more bytes than the caller's buffer holds", wi,
                          facts + conj(e.cond), le(size, mul(C(2), n)),
                          loc=e.loc, note="bytes read")
                c.implies("no more bytes than remain in the data chunk", wi,
                          facts + conj(e.cond),
                          le(size, sub(SIZE, mul(C(2), got))), loc=e.loc,
                          note="bytes read")
            c.implies("no more samples than asked for", wi, facts,
                      le(r.ret, n), note="result")
            c.implies("no more samples than remain in the data chunk", wi,
                      facts, le(r.ret, sub(left, got)), note="result")
            have = t.mnx("min", n, left)
            full = facts + [le(SIZE, REST)]
            if not i:
                c.eq("a complete file gives all samples", wi, r.ret, have,
                     full, what="result")
            got = add(got, r.ret)

    @c.rule("reading", w)
    def _():
        for name, (parts, total) in list(broken().items())[:6]:
            o = Opened(c, cut(parts, total), 60)
            r = o.s.call(READER + "ReadSamples", [numb("asked"),
                                                  sym("p:buffer")])
            c.eq("a refused stream gives no samples", w + ", " + name,
                 r.ret, zero(), what="result")
