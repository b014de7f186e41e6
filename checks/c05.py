import os

import program
from common import *
from modelfiles import tflite_signatures, libsvm_model

TECHNIQUE = "abstract interpretation of Init, Run and the components they " \
    "build to value graphs per mode; static reading of the model files"
EXPLANATION = "For all 8 configurations the components VisqolManager::Init " \
    "builds are interpreted symbolically at the comparison call: arguments " \
    "of the filter design, shape of the spectrogram, patch positions, size " \
    "and content, use of voice activity, model loaded. The tensor names the " \
    "lattice mapper requests (all bands and features enumerated) and the " \
    "length of the SVR observation are compared with the signature of the " \
    "shipped .tflite file and the indices in the shipped libsvm model."

ERB = "Visqol::EquivalentRectangularBandwidth::MakeFilters"
VADF = "Visqol::VadPatchCreator::GetVoiceActivity"


def check(c):
    for cfg in configs():
        n = "VisqolManager (%s)" % cname(*cfg)
        sp, un, la = cfg

        @c.rule("pipeline", n, 200)
        def _():
            s, i = init_manager(c, *cfg, opaque=opq(
                "MakeFilters", "ApplyFilter", VADF, *STAGES))
            r = s.call(run_overload(c, False), names=["ref", "deg"])
            ks = comparisons(c, s, r)
            if len(ks) != 1:
                raise Skip("%d comparison calls" % len(ks))
            k = ks[0]
            part(c, bands, n, k, sp)
            part(c, patches, n, k, sp)
            part(c, activity, n, k, sp)
            models(c, n, k, i, sp, la)
            if sp and la:
                part(c, tensors, n, k)
    files(c)


def part(c, f, n, *a):
    try:
        f(c, n, *a)
    except Skip as e:
        c.undecided(f.__name__, n, str(e))


def bands(c, n, k, sp):
    b = k.method(k.builder, "Build", names=["sig", "win"])
    nb = C(21 if sp else 32)
    e = one_ev(b, "call", ERB)
    rate = sig_rate(sym("p:sig"))
    want = [rate, nb, C(50), C(8000) if sp else div(rate, C(2))]
    if len(e.args) != 4:
        raise Skip("arguments of MakeFilters")
    for a, w, x in zip(e.args, want, ("sample rate", "number of bands",
                                      "lowest frequency",
                                      "highest frequency")):
        c.eq("filter design: " + x, n, a, w, loc=e.loc, what=x)
    ok = result_ok(b.ret)
    v = t.assume1(sorv(t.assume1(b.ret, ok, True)), ok, True)
    m = getfield(getfield(v, "data_"), "matrix_")
    c.eq("one spectrogram row per band", n, t.rows(m), nb, [ok],
         what="the number of rows")
    f = mk("call", e.name, *e.args)
    cf = getfield(f, "centerFreqs")
    got = getfield(v, "center_freq_bands_")
    i = num("i", "i", True)
    c.eq("one centre frequency per filter", n, length(got), length(cf), [ok],
         what="the number of frequencies")
    c.eq("centre frequencies from lowest to highest", n, get(got, i, "f"),
         get(cf, sub(sub(length(cf), one()), i), "f"),
         [ok, lt(i, length(cf))], what="frequency i")


def patches(c, n, k, sp):
    size = 20 if sp else 30
    q = k.method(k.creator, "CreatePatchesFromIndices", names=["sg", "idx"])
    sg = getfield(sym("p:sg"), "matrix_")
    idx = sym("p:idx")
    c.eq("one patch per position", n, length(q.ret), length(idx),
         what="the number of patches")
    i, j, b = [num(x, "i", True) for x in "ijb"]
    inside = [lt(i, length(idx)), le(zero(), get(idx, i, "i"))]
    p = getfield(t.assume1(get(q.ret, i), inside[0], True), "matrix_")
    c.eq("frames of a patch", n, t.cols(p), C(size), inside,
         what="the number of frames")
    c.eq("bands of a patch", n, t.rows(p), t.rows(sg), inside,
         what="the number of bands")
    c.eq("content of a patch", n, t.at(p, b, j),
         t.at(sg, b, add(get(idx, i, "i"), j)),
         inside + [lt(b, t.rows(sg)), lt(j, C(size))], what="cell (b, j)")


def activity(c, n, k, sp):
    q = k.method(k.creator, "CreateRefPatchIndices",
                 names=["sg", "sig", "win"], nparams=3)
    es = q.ev("call", VADF)
    ok = result_ok(q.ret)
    got = t.assume1(sorv(t.assume1(q.ret, ok, True)), ok, True)
    cols = t.cols(getfield(sym("p:sg"), "matrix_"))
    if sp:
        if not es:
            if c.P.byq.get(VADF):
                c.violated("patches are selected by voice activity", n,
                           "voice activity is never determined")
            return
        for e in es:
            c.implies("patches are selected by voice activity", n,
                      [k.cond, ok],
                      e.cond, loc=e.loc, note="voice activity not determined")
        vad = mk("call", es[0].name, *(
            ((es[0].kw["obj"],) if es[0].kw.get("obj") is not None else ())
            + es[0].args))
        i, j = t.fresh("i", "i"), t.fresh("j", "i")
        cnt = t.idiv(sub(cols, C(9)), C(20))
        act = t.ssum(C(20), j, get(vad, add(mul(C(20), i), j), "f"))
        want = t.flat(cnt, i, ite(le(one(), act),
                                  seq(add(mul(C(20), i), C(9))), seq()))
        c.eq("exactly the voice-active patches are compared", n, got, want,
             [ok, le(C(29), cols)], loc=es[0].loc,
             what="the list of positions")
        return
    c.ok(not es, "no voice activity detection in audio mode", n,
         "voice activity is determined", es[0].loc if es else None)
    i = num("i", "i", True)
    c.eq("patches follow one another", n, get(got, i, "i"),
         add(mul(C(30), i), C(14)), [ok, lt(i, length(got))],
         what="position i")
    last = add(mul(C(30), sub(length(got), one())), C(14))
    c.implies("patches lie inside the spectrogram", n,
              [ok, lt(zero(), length(got))], le(add(last, C(30)), cols),
              note="last patch")
    c.implies("there is a patch", n, [ok], lt(zero(), length(got)),
              note="no patch")


def models(c, n, k, i, sp, la):
    ms = loaded_models(i.events)
    want = {"BuildFromFile"} if sp and la else set() if sp else \
        {"svm_load_model"}
    got = {m[2] for m in ms}
    c.ok(got == want, "the mode's own kind of model is loaded", n,
         "loaded by %s" % ", ".join(sorted(got)) if got else "none loaded")
    for e, p, kind in ms:
        c.eq("the model given is the one loaded", n, p, sym("p:model"),
             loc=e.loc, what="the path")


def assignments(e, limit=4000):
    """substitutions of the loop variables of an event, all trip counts being
    constant"""
    out = [{}]
    for v, n in e.loops:
        nxt = []
        for m in out:
            x = t.subst(n, m) if m else n
            if x.op != "c":
                raise Skip("loop of unknown length")
            for i in range(int(x.a[0])):
                d = dict(m)
                d[v] = C(i)
                nxt.append(d)
        out = nxt
        if len(out) > limit:
            raise Skip("too many iterations")
    return out


def fed(b):
    """{tensor name: value stored} of a lattice prediction"""
    out = {}
    last = -1
    for n, e in enumerate(b.events):
        if e.kind != "xstore" or e.args[0].op != "ptr" or \
                e.args[0].a[1]:
            continue
        loc = e.args[0].a[0][1]
        names = [x for x in t.subterms(loc) if x.op == "call" and
                 str(x.a[0]).endswith("::input_tensor")]
        if not names or loc.op != "deref" or loc.a[0].op == "call":
            continue
        nm = names[0] if len(names) == 1 else max(names, key=lambda x: x.id)
        for m in assignments(e):
            x = t.subst(nm.a[-1], m) if m else nm.a[-1]
            if x.op != "str":
                raise Skip("tensor name %s" % t.show(x, 5))
            v = t.subst(e.args[1], m) if m else e.args[1]
            out.setdefault(x.a[0], []).append((v, e))
        last = n
    return out, last


def tensors(c, n, k):
    b = k.method(k.mapper, "PredictQuality", names="a b c d".split())
    got, last = fed(b)
    if not got:
        raise Skip("no store into an input tensor is found")
    sigs = [e.args[0].a[0] for e in b.ev("call", "GetSignatureRunner")
            if e.args and e.args[0].op == "str"]
    outs = [e.args[-1].a[0] for e in b.ev("call", "output_tensor")
            if e.args and e.args[-1].op == "str"]
    path = os.path.join(program.REPO, SP_MODEL[1:])
    try:
        sig = tflite_signatures(path)
    except (OSError, ValueError, IndexError) as e:
        c.violated("the shipped model can be read", n, str(e))
        return
    for x in sigs:
        c.ok(x in sig, "signature exists in the shipped model", n,
             "the model has no signature %s" % x)
    ins, outputs = sig.get(sigs[0] if sigs else "predict", ((), ()))
    c.ok(set(got) == set(ins), "input tensors are those of the shipped model",
         n, "missing %s, unknown %s" % (sorted(set(ins) - set(got))[:8],
                                        sorted(set(got) - set(ins))[:8]))
    for x in outs:
        c.ok(x in outputs, "output tensor exists in the shipped model", n,
             "the model has no output %s" % x)
    base = {"fvnsim": "a", "fvnsim10_": "b", "fstdnsim": "c",
            "fvdegenergy": "d"}
    for nm, vs in sorted(got.items()):
        c.ok(len(vs) == 1, "each tensor is fed once", n + " " + nm,
             "%d stores" % len(vs))
        v, e = vs[-1]
        for p, a in base.items():
            if nm.startswith(p) and nm[len(p):].isdigit():
                i = int(nm[len(p):])
                want = get(sym("p:" + a), C(i), "f")
                v2 = v.a[0] if v.op == "f32" else v
                c.eq("each feature goes to its own tensor", n + " " + nm, v2,
                     want, loc=e.loc, what="the value")
        if nm == "tau":
            c.eq("the median is asked for", n, v, div(one(), C(2)), loc=e.loc,
                 what="tau")
    inv = [i for i, e in enumerate(b.events)
           if e.kind == "call" and e.name.endswith("::Invoke")]
    c.ok(len(inv) == 1 and inv[0] > last, "inputs are set before the model "
         "runs", n, "the model runs %d times, an input is stored after it"
         % len(inv))


def files(c):
    n = "default models"

    @c.rule("model files", n)
    def _():
        names = set()
        for g in c.P.globals.values():
            v = g.get("init") or {}
            for x in program.walk(v):
                if x.get("k") == "Str" and x.get("v", "").startswith(
                        "/model/"):
                    names.add(x["v"])
        if not names:
            raise Skip("no default model paths")
        for x in sorted(names):
            p = os.path.join(program.REPO, x[1:])
            if not c.ok(os.path.isfile(p), "default model exists", x,
                        "the repository has no such file"):
                continue
            try:
                if x.endswith(".tflite"):
                    sig = tflite_signatures(p)
                    c.ok(bool(sig), "default model has a signature", x,
                         "none")
                else:
                    h, lo, hi, dense = libsvm_model(p)
                    c.ok(h.get("svm_type") == ["nu_svr"] and
                         h.get("kernel_type") == ["rbf"],
                         "default SVR model is a nu-SVR with RBF kernel", x,
                         "%s %s" % (h.get("svm_type"), h.get("kernel_type")))
                    c.ok(lo == 1 and hi == 32 and dense,
                         "default SVR model has one feature per audio band",
                         x, "feature indices %d to %d" % (lo, hi))
            except (OSError, ValueError, IndexError) as e:
                c.violated("default model can be read", x, str(e))
