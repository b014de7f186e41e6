from common import *
from c25 import training, At, sized8, MODEL

TECHNIQUE = "abstract interpretation to value graphs: the rows read as a " \
    "closed form of the file's text, the arguments of svm_train read from " \
    "the interpreted memory"
EXPLANATION = "TrainingDataFileReader::Read is interpreted over a symbolic " \
    "file and compared with the row-per-line specification; the two-argument " \
    "Init of the SVR model is interpreted down to svm_train with symbolic " \
    "observations and targets, and problem and parameters are compared with " \
    "the documented ones."

READ = "Visqol::TrainingDataFileReader::Read"


def check(c):
    w = "TrainingDataFileReader::Read"

    @c.rule("rows of training data", w)
    def _():
        r = c.run(READ, names=["path", "delim"])
        path = getfield(sym("p:path"), "path_")
        d = num("delim", "i")
        ps = r.f["params"]
        dd = sym("p:delim", "i") if len(ps) > 1 else C(44)
        lines = mk("split", mk("filetext", path), C(10))
        n = length(lines)

        def row(k):
            items = mk("split", get(lines, k), dd)

            def item(j):
                x = get(items, j)
                return t.ite(mk("atod_ok", x, ty="b"),
                             t.seq(mk("atod", x, ty="f")), t.seq())
            j = t.fresh("j", "i")
            return t.flat(length(items), j, item(j))
        k = t.fresh("k", "i")
        want = t.smap(n, k, row(k))
        rule = "one row per line holding its values in order"
        c.eq(rule, w, r.ret, want, what="data read")
        # shape first, for reports that are to the point
        c.eq("as many rows as lines", w, length(r.ret), n, what="rows")
        k = num("line", "i", True)
        c.eq("a row holds the values of its line only", w,
             get(r.ret, k), row(k), [lt(k, n)], what="row of a line")
        es = r.ev("open")
        c.ok(len(es) == 1 and es[0].args and t.same(es[0].args[0], path, 5),
             "the file named is read", w, "opens %s" % [
                 t.show(e.args[0], 4) for e in es if e.args])

    @c.rule("rows of a file of four lines", w)
    def _():
        path = getfield(sym("p:path"), "path_")
        d = sym("p:delim", "i")
        shape = (2, 1, 0, 3)
        items = [[sym("item:%d:%d" % (a, b)) for b in range(n)]
                 for a, n in enumerate(shape)]

        def setup(I):
            I.unroll = 8
            I.files = {path: mk("text", C(10), *[
                mk("text", d, *x) for x in items])}
        f = c.fn(READ)
        if len(f["params"]) < 2:
            raise Skip("delimiter is not given")
        s = c.session(f.get("cls"), setup=setup)
        r = s.call(f, names=["path", "delim"])

        def row(xs):
            return t.cat(seq(), *[
                ite(mk("atod_ok", x, ty="b"),
                    seq(mk("atod", x, ty="f")), seq()) for x in xs])
        c.eq("nothing is carried over between lines", w, r.ret,
             seq(*[row(x) for x in items]), what="data read")

    w2 = "SupportVectorRegressionModel::Init(observations, targets)"

    @c.rule("training", w2)
    def _():
        s, r, e, problem, param = training(c)
        at = At(s, e)
        obs, tg = sym("p:observations"), sym("p:targets")
        n = length(obs)
        same = [eq(length(tg), n), lt(zero(), n)]
        c.eq("every observation is trained on", w2,
             sized8(getfield(problem, "l", "i")), n, same, e.loc,
             what="number of observations")
        k = num("row", "i", True)
        y = getfield(problem, "y")
        if y.op == "ptr":
            c.eq("the targets are those given", w2,
                 at.element(y, k, "f"), get(tg, k, "f"), same + [lt(k, n)],
                 e.loc, what="target k")
        else:
            c.undecided("the targets are those given", w2, t.show(y, 5))
        x = getfield(problem, "x")
        j = num("feature", "i", True)
        if x.op == "ptr":
            row = t.assume1(sized8(at.element(x, k)), lt(k, n), True)
            if row.op == "ptr":
                nf = length(get(obs, k))
                f = same + [lt(k, n), lt(j, nf),
                            eq(length(get(obs, zero())), nf)]
                c.eq("the observations are those given", w2,
                     sized8(getfield(at.element(row, j), "value", "f")),
                     get(get(obs, k), j, "f"), f, e.loc,
                     what="value j of observation k")
        nf = length(get(obs, zero()))
        want = dict(
            svm_type=C(4), kernel_type=C(2), C=C(0.4), nu=C(0.6),
            gamma=t.div(one(), nf), eps=C(0.001), p=C(0.1),
            shrinking=C(1), probability=zero(), nr_weight=zero(),
            coef0=zero(), degree=C(3))
        means = dict(svm_type="kind of machine (nu-SVR)",
                     kernel_type="kernel (radial)", C="cost",
                     gamma="width of the kernel")
        for name in sorted(want):
            # degree and coef0 play no part in a radial kernel
            if name in ("coef0", "degree", "p"):
                continue
            got = getfield(param, name, "i" if name in (
                "svm_type", "kernel_type", "shrinking", "probability",
                "nr_weight") else "f")
            c.eq("documented training parameters", w2 + " " + name, got,
                 want[name], same + [lt(zero(), nf)], e.loc,
                 what=means.get(name, name))
        # the machine trained is the one that predicts
        m = getfield(r.obj(), "model_", "o") if r.obj().op == "rec" else None
        fs = [x["name"] for x in c.P.all_fields(MODEL)
              if "svm_model" in x["t"]]
        if fs:
            m = getfield(r.obj(), fs[0])
            c.ok(m.op == "call" and m.a[0].split("::")[-1] == "svm_train" or
                 t.mentions(m, mk("call", e.name, *e.args)) or m.unk or
                 any(x.op == "call" and "svm_train" in str(x.a[0])
                     for x in t.subterms(m)),
                 "the machine trained is kept", w2,
                 "keeps %s" % t.show(m, 5), e.loc)
