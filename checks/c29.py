from common import *

TECHNIQUE = "abstract interpretation to value graphs: every operation of the " \
    "matrix class on matrices of symbolic size compared with its definition"
EXPLANATION = "Every public operation of AMatrix (both instantiations) is " \
    "interpreted on matrices of symbolic size and elements and the resulting " \
    "size and element at a symbolic position are compared with the " \
    "mathematical definition; armadillo operations are modelled by their " \
    "documented meaning."

CLS = "Visqol::AMatrix"


def check(c):
    for inst in sorted({f["cls"] for f in c.P.fns.values()
                        if (f.get("cls") or "").startswith(CLS + "<")}):
        Ops(c, inst).all()


class Ops:
    def __init__(self, c, cls):
        self.c, self.cls = c, cls
        self.cplx = "complex" in cls
        self.ty = "o" if self.cplx else "f"
        self.tag = "AMatrix<%s>::" % ("complex" if self.cplx else "double")
        self.n, self.m = num("rows", "i", True), num("cols", "i", True)
        self.i, self.j = num("i", "i", True), num("j", "i", True)
        self.field = [x["name"] for x in c.P.all_fields(cls)
                      if "arma::" in x["t"]]
        # matrices have at least one row and column
        self.size = [lt(zero(), self.n), lt(zero(), self.m)]

    def el(self, name, i, j):
        if self.cplx:
            return rec("complex", {"re": mk("call", name + ".re", i, j, ty="f"),
                                "im": mk("call", name + ".im", i, j, ty="f")})
        return mk("call", name, i, j, ty="f")

    def a(self, i, j):
        return self.el("A", i, j)

    def b(self, i, j):
        return self.el("B", i, j)

    def matrix(self, n, m, f):
        if len(self.field) != 1:
            raise Skip("a matrix is not one armadillo matrix")
        i, j = t.fresh("i", "i"), t.fresh("j", "i")
        return rec(self.cls, {self.field[0]: t.mat(n, m, i, j, f(i, j))})

    def A(self):
        return self.matrix(self.n, self.m, self.a)

    def fns(self, name, *pts):
        """overloads with parameters of these kinds"""
        out = []
        for f in self.c.P.fns.values():
            if f.get("cls") != self.cls or f["q"].split("::")[-1] != name:
                continue
            ps = [self.kind(p["t"]) for p in f["params"]]
            if ps == list(pts):
                out.append(f)
        return sorted(out, key=lambda f: f["l"])

    def kind(self, ty):
        b = ty.replace("const ", "").replace("&", "").strip()
        if b in ("unsigned long", "int", "unsigned int", "long"):
            return "n"
        if b == "Visqol::kDimension":
            return "d"
        if b.startswith("Visqol::AMatrix"):
            return "M"
        if b.startswith("arma::Mat"):
            return "R"
        if b.startswith("std::vector<std::vector"):
            return "VV"
        if b.startswith(("std::vector", "std::valarray", "absl::Span")):
            return "V"
        if b in ("double", "std::complex<double>"):
            return "x"
        return b

    def run(self, f, args, this="A"):
        if f.get("static") or f.get("ctor") and this is None:
            s = self.c.session(self.cls)
        else:
            s = self.c.session(self.cls)
            s.set_this(self.A())
        r = s.call(f, list(args))
        return s, r

    def want(self, rule, w, v, n, m, f, facts=(), loc=None):
        """v is the matrix of n x m elements f"""
        c = self.c
        if v is None:
            raise Skip("no result")
        x = getfield(v, self.field[0])
        facts = list(self.size) + list(facts)
        c.eq(rule, w, t.rows(x), n, facts, loc, what="number of rows")
        c.eq(rule, w, t.cols(x), m, facts, loc, what="number of columns")
        i, j = self.i, self.j
        c.eq(rule, w, self.flatc(t.at(x, i, j, self.ty)), f(i, j),
             facts + [lt(i, n), lt(j, m)], loc, what="element (i, j)")

    def flatc(self, v):
        return v

    def vec(self, rule, w, v, n, f, facts=(), loc=None):
        c = self.c
        if v is None:
            raise Skip("no result")
        facts = list(self.size) + list(facts)
        c.eq(rule, w, length(v), n, facts, loc, what="length")
        i = self.i
        c.eq(rule, w, get(v, i, self.ty), f(i), facts + [lt(i, n)], loc,
             what="element i")

    def each(self, name, *pts):
        """decorator: f(fn, where) for every overload"""
        def deco(g):
            for f in self.fns(name, *pts):
                w = self.tag + name + "(%s)" % ", ".join(
                    p["t"].replace("std::", "")[:30] for p in f["params"])
                self.c.rule("matrix operation", w)(lambda: g(f, w))
            return g
        return deco

    # --------------------------------------------------------------
    def all(self):
        self.queries()
        self.equality()
        self.building()
        self.parts()
        self.setting()
        self.arithmetic()
        self.shapes()
        self.statistics()

    def queries(self):
        c, n, m, a = self.c, self.n, self.m, self.a
        for name, v in (("NumRows", n), ("NumCols", m),
                        ("NumElements", mul(n, m)),
                        ("LongestDimensionLength", t.mnx("max", n, m))):
            @self.each(name)
            def _(f, w):
                c.eq("sizes are those of the matrix", w,
                     self.run(f, [])[1].ret, v, what="result")

        @self.each("operator()", "n", "n")
        def _(f, w):
            r = self.run(f, [self.i, self.j])[1]
            c.eq("rows are rows and columns are columns", w, r.ret,
                 a(self.i, self.j), [lt(self.i, n), lt(self.j, m)],
                 what="element (i, j)")

        @self.each("operator()", "n")
        def _(f, w):
            # stored by columns
            r = self.run(f, [add(self.i, mul(self.j, n))])[1]
            c.eq("elements are numbered by columns", w, r.ret,
                 a(self.i, self.j), self.size + [lt(self.i, n),
                                                 lt(self.j, m)],
                 what="element i + j * rows")

    def equality(self):
        c, n, m = self.c, self.n, self.m

        @self.each("operator==", "M")
        def _(f, w):
            rule = "equal means same size and same elements"
            n2, m2 = num("rows2", "i", True), num("cols2", "i", True)
            r = self.run(f, [self.matrix(n2, m2, self.b)])[1]
            ret = r.ret
            c.implies(rule, w, self.size + [ret], eq(n, n2), note="rows")
            c.implies(rule, w, self.size + [ret], eq(m, m2), note="columns")
            # equal to itself
            r = self.run(f, [self.A()])[1]
            c.eq(rule, w, r.ret, TRUE, self.size, what="A == A")
            # other shapes with the same elements
            v = self.a(zero(), zero())
            for p, q, x, y in ((1, 2, 2, 1), (2, 3, 3, 2), (1, 2, 1, 3),
                               (2, 1, 3, 1), (1, 3, 1, 2), (3, 1, 2, 1),
                               (2, 2, 4, 1), (2, 2, 1, 4)):
                s = c.session(self.cls)
                s.set_this(self.matrix(C(p), C(q), lambda i, j: v))
                r = s.call(f, [self.matrix(C(x), C(y), lambda i, j: v)])
                c.eq(rule, w + " %d x %d and %d x %d" % (p, q, x, y),
                     r.ret, FALSE, what="result")
            # small matrices, all elements
            for p, q in ((1, 1), (2, 2), (1, 3), (3, 1)):
                # elements that differ by one unless said to be the same
                def same(i, j):
                    return mk("call", "same", i, j, ty="b")

                for part in ("re", "im") if self.cplx else (None,):
                    def b(i, j):
                        d = ite(same(i, j), zero(), one())
                        x = self.a(i, j)
                        if part:
                            return setfield(x, part, add(getfield(
                                x, part, "f"), d))
                        return add(x, d)
                    s = c.session(self.cls)
                    s.set_this(self.matrix(C(p), C(q), self.a))
                    r = s.call(f, [self.matrix(C(p), C(q), b)])
                    all_same = and_(*[same(C(i), C(j)) for i in range(p)
                                      for j in range(q)])
                    c.eq(rule, w + " %d x %d %s" % (p, q, part or ""),
                         r.ret, all_same, what="result")

    def vecof(self, n, f):
        k = t.fresh("k", "i")
        return t.smap(n, k, f(k))

    def ctors(self, *pts):
        return self.each("AMatrix", *pts)

    def built(self, f, args):
        """the object a constructor leaves"""
        s = self.c.session(self.cls)
        s.set_this(s.I.liblib.default_value(s.I, self.cls))
        r = s.call(f, list(args))
        return r.obj()

    def building(self):
        c, n, m, a = self.c, self.n, self.m, self.a
        rule = "a matrix holds what it is built from"

        @self.ctors("M")
        def _(f, w):
            self.want(rule, w, self.built(f, [self.A()]), n, m, a)

        @self.ctors("R")
        def _(f, w):
            A = getfield(self.A(), self.field[0])
            self.want(rule, w, self.built(f, [A]), n, m, a)

        @self.ctors("V")
        def _(f, w):
            col = self.vecof(n, lambda k: self.a(k, zero()))
            self.want(rule, w, self.built(f, [col]), n, one(),
                      lambda i, j: self.a(i, zero()))

        @self.ctors("VV")
        def _(f, w):
            k = t.fresh("k", "i")
            cols_ = t.smap(m, k, self.vecof(n, lambda i: self.a(i, k)))
            self.want(rule, w, self.built(f, [cols_]), n, m, a)

        @self.ctors("n", "n", "V")
        def _(f, w):
            data = self.vecof(mul(n, m), lambda k: self.el1("D", k))
            self.want(rule, w, self.built(f, [n, m, data]), n, m,
                      lambda i, j: self.el1("D", add(i, mul(j, n))))

        @self.ctors("n", "n")
        def _(f, w):
            v = getfield(self.built(f, [n, m]), self.field[0])
            c.eq(rule, w, t.rows(v), n, what="number of rows")
            c.eq(rule, w, t.cols(v), m, what="number of columns")

        @self.each("Filled", "n", "n", "x")
        def _(f, w):
            v = self.x()
            self.want(rule, w, self.run(f, [n, m, v])[1].ret, n, m,
                      lambda i, j: v)

        @self.each("operator=", "M")
        def _(f, w):
            n2, m2 = num("rows2", "i", True), num("cols2", "i", True)
            s, r = self.run(f, [self.matrix(n2, m2, self.b)])
            self.want(rule, w, r.obj(), n2, m2, self.b)

    def x(self):
        if self.cplx:
            return rec("complex", {"re": num("x.re"), "im": num("x.im")})
        return num("x")

    def el1(self, name, k):
        if self.cplx:
            return rec("complex", {"re": mk("call", name + ".re", k, ty="f"),
                                   "im": mk("call", name + ".im", k, ty="f")})
        return mk("call", name, k, ty="f")

    def parts(self):
        c, n, m, a = self.c, self.n, self.m, self.a
        rule = "a part holds the elements of that part"
        p, q, u, v = [num(x, "i", True) for x in "pquv"]
        rr = [le(p, q), lt(q, n)]
        cc = [le(u, v), lt(v, m)]
        h, wd = add(sub(q, p), one()), add(sub(v, u), one())

        @self.each("GetSpan", "n", "n", "n", "n")
        def _(f, w):
            self.want(rule, w, self.run(f, [p, q, u, v])[1].ret, h, wd,
                      lambda i, j: a(add(i, p), add(j, u)), rr + cc)

        @self.each("GetRows", "n", "n")
        def _(f, w):
            self.want(rule, w, self.run(f, [p, q])[1].ret, h, m,
                      lambda i, j: a(add(i, p), j), rr)

        @self.each("GetColumns", "n", "n")
        def _(f, w):
            self.want(rule, w, self.run(f, [u, v])[1].ret, n, wd,
                      lambda i, j: a(i, add(j, u)), cc)

        @self.each("GetColumn", "n")
        def _(f, w):
            self.want(rule, w, self.run(f, [u])[1].ret, n, one(),
                      lambda i, j: a(i, u), [lt(u, m)])

        @self.each("GetRow", "n")
        def _(f, w):
            self.vec(rule, w, self.run(f, [p])[1].ret, m,
                     lambda j: a(p, j), [lt(p, n)])

        @self.each("RowSubset", "n", "n", "n")
        def _(f, w):
            self.vec(rule, w, self.run(f, [p, u, v])[1].ret, wd,
                     lambda j: a(p, add(j, u)), [lt(p, n)] + cc)

        for name in ("ToVector", "ToValArray"):
            @self.each(name)
            def _(f, w):
                self.vec("the vector is the first column", w,
                         self.run(f, [])[1].ret, n, lambda i: a(i, zero()))

    def setting(self):
        n, m, a = self.n, self.m, self.a
        rule = "setting a part changes that part only"
        p, u = num("p", "i", True), num("u", "i", True)
        row = self.vecof(m, lambda k: self.el1("D", k))
        col = self.vecof(n, lambda k: self.el1("D", k))

        def setcol(f, w, v):
            s, r = self.run(f, [u, v])
            self.want(rule, w, r.obj(), n, m, lambda i, j: self.ite(
                eq(j, u), self.el1("D", i), a(i, j)), [lt(u, m)])

        @self.each("SetColumn", "n", "V")
        def _(f, w):
            setcol(f, w, col)

        @self.each("SetColumn", "n", "M")
        def _(f, w):
            setcol(f, w, self.matrix(n, one(),
                                     lambda i, j: self.el1("D", i)))

        @self.each("SetRow", "n", "V")
        def _(f, w):
            s, r = self.run(f, [p, row])
            self.want(rule, w, r.obj(), n, m, lambda i, j: self.ite(
                eq(i, p), self.el1("D", j), a(i, j)), [lt(p, n)])

    def ite(self, g, x, y):
        if self.cplx:
            return rec("complex", {k: ite(g, getfield(x, k), getfield(y, k))
                                   for k in ("re", "im")})
        return ite(g, x, y)

    def op2(self, name, x, y):
        if not self.cplx:
            return {"+": add, "-": sub, "*": mul, "/": t.div}[name](x, y)
        xr, xi = getfield(x, "re", "f"), getfield(x, "im", "f")
        yr, yi = getfield(y, "re", "f"), getfield(y, "im", "f")
        if name == "+":
            v = add(xr, yr), add(xi, yi)
        elif name == "-":
            v = sub(xr, yr), sub(xi, yi)
        elif name == "*":
            v = sub(mul(xr, yr), mul(xi, yi)), add(mul(xr, yi), mul(xi, yr))
        else:
            return None
        return rec("complex", {"re": v[0], "im": v[1]})

    def arithmetic(self):
        n, m, a, b = self.n, self.m, self.a, self.b
        rule = "arithmetic works element by element"
        for name, o in (("operator+", "+"), ("operator-", "-"),
                        ("PointWiseProduct", "*"), ("PointWiseDivide", "/")):
            if o == "/" and self.cplx:
                continue

            @self.each(name, "M")
            def _(f, w):
                r = self.run(f, [self.matrix(n, m, b)])[1]
                self.want(rule, w, r.ret, n, m,
                          lambda i, j: self.op2(o, a(i, j), b(i, j)))
        for o in "+-*/":
            if o == "/" and self.cplx:
                continue

            @self.each("operator" + o, "x")
            def _(f, w):
                x = self.x()
                r = self.run(f, [x])[1]
                self.want(rule, w, r.ret, n, m,
                          lambda i, j: self.op2(o, a(i, j), x))

        @self.each("Abs")
        def _(f, w):
            r = self.run(f, [])[1]

            def el(i, j):
                if self.cplx:
                    x = a(i, j)
                    re, im = getfield(x, "re", "f"), getfield(x, "im", "f")
                    return t.fn("sqrt", add(mul(re, re), mul(im, im)))
                return t.abs_(a(i, j)) if hasattr(t, "abs_") else \
                    t.fn("abs", a(i, j))
            keep = self.ty
            self.ty = "f"
            try:
                self.want(rule, w, r.ret, n, m, el)
            finally:
                self.ty = keep

    def shapes(self):
        n, m, a, b = self.n, self.m, self.a, self.b
        rule = "rows stay rows and columns stay columns"

        @self.each("Transpose")
        def _(f, w):
            def el(i, j):
                x = a(j, i)
                if self.cplx:
                    return None
                return x
            if self.cplx:
                return
            self.want(rule, w, self.run(f, [])[1].ret, m, n, el)

        @self.each("FlipUpDown")
        def _(f, w):
            self.want(rule, w, self.run(f, [])[1].ret, n, m,
                      lambda i, j: a(sub(sub(n, one()), i), j))

        @self.each("JoinVertically", "M")
        def _(f, w):
            n2 = num("rows2", "i", True)
            r = self.run(f, [self.matrix(n2, m, b)])[1]
            self.want(rule, w, r.ret, add(n, n2), m, lambda i, j: self.ite(
                lt(i, n), a(i, j), b(sub(i, n), j)), [lt(zero(), n2)])

        @self.each("Resize", "n", "n")
        def _(f, w):
            p, q = num("p", "i", True), num("q", "i", True)
            r = self.run(f, [p, q])[1]
            self.want(rule, w, r.obj(), p, q, a,
                      [lt(self.i, n), lt(self.j, m)])

    def statistics(self):
        if self.cplx:
            return
        n, m, a = self.n, self.m, self.a
        rule = "statistics run along the dimension asked for"

        def mean(dim, i, j):
            k = t.fresh("k", "i")
            if dim == 0:
                return t.div(t.ssum(n, k, a(k, j)), n)
            return t.div(t.ssum(m, k, a(i, k)), m)

        def dev(dim, i, j):
            k = t.fresh("k", "i")
            mu = mean(dim, i, j)
            x, z = (a(k, j), n) if dim == 0 else (a(i, k), m)
            d = sub(x, mu)
            v = t.div(t.ssum(z, k, mul(d, d)), sub(z, one()))
            return t.fn("sqrt", v)
        for name, el in (("Mean", mean), ("StdDev", dev)):
            for dim in (0, 1):
                @self.each(name, "d")
                def _(f, w):
                    w += " %s" % ("columns", "rows")[dim]
                    r = self.run(f, [C(dim)])[1]
                    h, wd = (one(), m) if dim == 0 else (n, one())
                    self.want(rule, w, r.ret, h, wd,
                              lambda i, j: el(dim, i, j),
                              [lt(one(), n), lt(one(), m)])
