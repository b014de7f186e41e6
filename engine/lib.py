"""Models of the library functions the analysed program calls.

A handler (I, n, obj, args) gets the interpreter, the call node, the object
expression and the argument expressions; it returns a value, a Ref (object), or
None when it does not apply.
"""
import math

from program import base_type, is_ref, kind, strip_targs
import terms as t
from terms import (C, T, TRUE, FALSE, NULL, VOID, UNDEF, mk, add, sub, mul, div,
                   ite, and_, or_, not_, lt, le, eq, truth, sym, fresh, unk,
                   seq, cat, get, length, subst, rec, zero, one, mentions)

MODELS = {}
NORETURN = {"abort", "exit", "std::abort", "std::exit", "std::terminate",
            "_exit", "__assert_fail"}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def R(p):
    import interp
    return interp.Ref(p)


def isref(x):
    return not isinstance(x, T) and x is not None


def targs(ty):
    """template arguments of a type name"""
    i = ty.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for c in ty[i:]:
        if c == "<":
            d += 1
            if d == 1:
                continue
        elif c == ">":
            d -= 1
            if d == 0:
                break
        if c == "," and d == 1:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


# ---------------------------------------------------------------- StatusOr etc.

def sor(v):
    return mk("sor", v)


def soe(s):
    return mk("soe", s)


def okp(v):
    if v.op == "sor":
        return TRUE
    if v.op == "soe":
        return FALSE
    if v.op == "ite":
        return ite(v.a[0], okp(v.a[1]), okp(v.a[2]))
    if v.op == "status":
        return eq(v.a[0], zero())
    return mk("okp", v, ty="b")


def sorv(v, ty="o"):
    if v.op == "sor":
        return v.a[0]
    if v.op == "soe":
        return mk("novalue", v)
    if v.op == "ite":
        a, b = sorv(v.a[1], ty), sorv(v.a[2], ty)
        # the value of the successful side is the only one
        if v.a[1].op == "soe":
            return b
        if v.a[2].op == "soe":
            return a
        return ite(v.a[0], a, b)
    return mk("sorv", v, ty=ty)


def sorst(v):
    if v.op == "soe":
        return v.a[0]
    if v.op == "sor":
        return status(zero(), t.s(""))
    if v.op == "ite":
        return ite(v.a[0], sorst(v.a[1]), sorst(v.a[2]))
    return mk("sorst", v)


def status(code, msg=None):
    return mk("status", code, msg if msg is not None else t.s(""))


def st_code(v):
    if v.op == "status":
        return v.a[0]
    if v.op == "ite":
        return ite(v.a[0], st_code(v.a[1]), st_code(v.a[2]))
    return mk("stcode", v, ty="i")


def st_ok(v):
    if v.op == "status":
        return eq(v.a[0], zero())
    if v.op == "ite":
        return ite(v.a[0], st_ok(v.a[1]), st_ok(v.a[2]))
    if v.op == "sorst":
        return okp(v.a[0])
    return mk("okp", v, ty="b")


t.EXTRA["sor"] = lambda a: sor(*a)
t.EXTRA["soe"] = lambda a: soe(*a)
t.EXTRA["okp"] = lambda a: st_ok(a[0]) if a[0].op in ("status", "sorst") \
    else okp(a[0])
t.EXTRA["sorst"] = lambda a: sorst(*a)
t.EXTRA["stcode"] = lambda a: st_code(*a)
t.REBUILD_TY["sorv"] = lambda a, ty: sorv(a[0], ty)

CODES = {"Ok": 0, "Cancelled": 1, "Unknown": 2, "InvalidArgument": 3,
         "DeadlineExceeded": 4, "NotFound": 5, "AlreadyExists": 6,
         "PermissionDenied": 7, "ResourceExhausted": 8,
         "FailedPrecondition": 9, "Aborted": 10, "OutOfRange": 11,
         "Unimplemented": 12, "Internal": 13, "Unavailable": 14, "DataLoss": 15,
         "Unauthenticated": 16}
for _n, _c in CODES.items():
    def _mkerr(c):
        def h(I, n, obj, args):
            return status(C(c), strv(I.rv(args[0])) if args else t.s(""))
        return h
    if _n != "Ok":
        MODELS["absl::%sError" % _n] = _mkerr(_c)
MODELS["absl::OkStatus"] = lambda I, n, o, a: status(zero())


@model("absl::Status::Status")
def _status_ctor(I, n, obj, args):
    if n.get("copy") or n.get("move"):
        return I.read(I.lval(args[0]))
    if not args:
        return status(zero())
    c = I.rv(args[0])
    m = strv(I.rv(args[1])) if len(args) > 1 else t.s("")
    return status(c, m)


@model("absl::Status::ok", "google::protobuf::util::status_internal::Status::ok")
def _st_ok(I, n, obj, args):
    return st_ok(objv(I, n, obj))


MODELS["absl::Status::code"] = lambda I, n, o, a: st_code(objv(I, n, o))
MODELS["absl::Status::message"] = lambda I, n, o, a: mk("stmsg", objv(I, n, o))
MODELS["absl::Status::ToString"] = lambda I, n, o, a: mk("ststr", objv(I, n, o))
MODELS["absl::Status::Update"] = None
del MODELS["absl::Status::Update"]


def _is_status(ty):
    return strip_targs(base_type(ty)) == "absl::Status"


@model("absl::StatusOr::StatusOr")
def _sor_ctor(I, n, obj, args):
    if not args:
        return soe(status(C(2)))
    if n.get("copy") or n.get("move"):
        return I.read(I.lval(args[0]))
    a = args[0]
    at = a.get("t", "")
    v = I.rv(a)
    if strip_targs(base_type(at)) == "absl::StatusOr":
        return v
    if _is_status(at) or v.op in ("status", "sorst", "soe_status"):
        ok = st_ok(v)
        if ok is TRUE:
            return mk("soe", v)
        return soe(v)
    return sor(v)


@model("absl::StatusOr::ok")
def _sor_ok(I, n, obj, args):
    return okp(objv(I, n, obj))


@model("absl::StatusOr::status")
def _sor_status(I, n, obj, args):
    return sorst(objv(I, n, obj))


@model("absl::StatusOr::value", "absl::StatusOr::operator*",
       "absl::StatusOr::operator->", "absl::StatusOr::ValueOrDie")
def _sor_value(I, n, obj, args):
    p = objp(I, n, obj)
    v = I.read(p)
    I.emit("sorvalue", "value", (v,), n)
    q = I.addpath(p, ("val",))
    if strip_targs(n["fn"]["q"]).endswith("operator->"):
        return q
    return R(q)


# ---------------------------------------------------------------- objects

def objv(I, n, obj):
    if n.get("arrow") and n.get("op") is None:
        return I.read(I.rv(obj))
    return I.rv(obj)


def objp(I, n, obj):
    if n.get("arrow") and n.get("op") is None:
        return I.rv(obj)
    return I.lval(obj)


def argp(I, a):
    return I.lval(a)


STRV = {}


def strv(v):
    """content of a string-like value"""
    return v


def default_value(I, b):
    q = strip_targs(b)
    k = kind(b, I.enums)
    if k in ("i", "f", "b") or b.endswith("*"):
        return UNDEF
    if q in ("std::vector", "std::valarray", "std::basic_string",
             "absl::string_view", "std::basic_string_view", "std::deque",
             "std::list", "absl::Span", "std::initializer_list", "absl::InlinedVector"):
        return seq() if "string" not in q else t.s("")
    if q.startswith("arma::"):
        return emptymat()
    if q == "std::unique_ptr" or q == "std::shared_ptr":
        return NULL
    if q in ("absl::optional", "std::optional"):
        return rec("opt", {"has": FALSE, "val": UNDEF})
    if q == "absl::Status":
        return status(zero())
    if q == "absl::StatusOr":
        return soe(status(C(2)))
    if q == "std::complex":
        return cplx(zero(), zero())
    if q in ("std::map", "std::unordered_map", "std::set",
             "absl::flat_hash_map"):
        return mk("container", q)
    if q.startswith("std::basic_") or q.endswith("stream"):
        return new_stream()
    if b.endswith("]"):
        return mk("carr", b)
    if b in I.P.records:
        return I.undef_of(b)
    if q in ("svm_parameter", "svm_problem", "svm_node", "svm_model"):
        return UNDEF
    if q in ("std::pair", "std::tuple"):
        return mkpair(*[default_value(I, x) for x in targs(b)])
    if is_msg(I, b):
        return rec("msg:" + b, {})
    return t.unk("dflt:" + b)


def emptymat():
    k1, k2 = fresh("r", "i"), fresh("c", "i")
    return t.mat(zero(), zero(), k1, k2, zero())


MSG = ("SimilarityResultMsg", "VisqolConfig")


def is_msg(I, b):
    return any(m in b for m in MSG) and "<" not in b


def mkpair(*xs):
    return rec("tuple", {str(i): x for i, x in enumerate(xs)})


def generic_construct(I, n, args):
    """objects of types without a model"""
    cls = base_type(n["fn"].get("cls") or n.get("t", ""))
    q = strip_targs(cls)
    if n.get("copy") or n.get("move"):
        return I.read(I.lval(args[0]))
    if is_msg(I, cls):
        if not args:
            return rec("msg:" + cls, {})
        return I.rv(args[0])
    if not args:
        if q in ("svm_parameter", "svm_problem"):
            return UNDEF
        return default_value(I, cls)
    vals = [I.rv(a) for a in args]
    if q in ("std::allocator",):
        return VOID
    return mk("obj", q, *vals)


@model("std::allocator::allocator", "std::function::function",
       "std::default_delete::default_delete")
def _alloc(I, n, obj, args):
    if strip_targs(n["fn"]["q"]).startswith("std::function") and args:
        return I.rv(args[0])
    return VOID


def seq_eq(a, b):
    """equality of two values"""
    if a.op == "undef" or b.op == "undef":
        return unk("uninitialised", "b")
    if a.unk or b.unk:
        if not (t.is_num(a) and t.is_num(b)):
            return mk("eqv", *sorted((a, b)), ty="b")
    if a.op == "rec" and b.op == "rec" and a.a[0] == b.a[0]:
        da, db = dict(a.a[1]), dict(b.a[1])
        return and_(*[seq_eq(da[k], db[k]) for k in da if k in db])
    for x, y in ((a, b), (b, a)):
        if x.op == "str" and x.a[0] == "" and y.op not in ("str", "ite"):
            return eq(length(y), zero())
        if x.op == "seq" and not x.a and y.op != "ite":
            return eq(length(y), zero())
    if {a.op, b.op} == {"null", "ptr"}:
        return FALSE
    return eq(a, b)


# ---------------------------------------------------------------- numbers

def _fn1(name):
    def h(I, n, obj, args):
        x = I.rv(args[0])
        if x.op == "rec" and x.a[0] == "complex":
            return cfun(name, x)
        if is_seq(x):
            k = fresh("k", "i")
            return t.smap(length(x), k, t.fn(name, get(x, k, "f")))
        if I.obl:
            I.emit("math", name, (x,), n)
        return t.fn(name, x)
    return h


for _x in ("sqrt", "log", "log10", "log2", "exp", "sin", "cos", "tan", "floor",
           "ceil", "round", "atan", "tanh", "log1p", "expm1", "cbrt",
           "nearbyint", "rint", "trunc"):
    MODELS[_x] = MODELS["std::" + _x] = _fn1("ftrunc" if _x == "trunc" else _x)
for _x in ("lround", "llround", "lrint"):
    MODELS[_x] = MODELS["std::" + _x] = \
        lambda I, n, o, a: t.trunc(t.fn("round", I.rv(a[0])))


@model("std::abs", "fabs", "abs", "std::fabs", "labs")
def _abs(I, n, obj, args):
    x = I.rv(args[0])
    if x.op == "rec" and x.a[0] == "complex":
        re, im = cparts(x)
        return t.fn("sqrt", add(mul(re, re), mul(im, im)))
    if base_type(args[0].get("t", "")).startswith("std::complex"):
        return mk("cabs", x, ty="f")
    if is_seq(x):
        k = fresh("k", "i")
        return t.smap(length(x), k, t.fn("abs", get(x, k, "f")))
    return t.fn("abs", x)


@model("pow", "std::pow")
def _pow(I, n, obj, args):
    a, b = I.rv(args[0]), I.rv(args[1])
    if a.op == "rec" or b.op == "rec":
        return mk("cpow", a, b)
    if a.op == "c" and b.op == "c":
        try:
            return C(float(a.a[0]) ** float(b.a[0])) if \
                b.a[0].denominator != 1 or abs(b.a[0]) > 200 else \
                C(a.a[0] ** int(b.a[0]))
        except (OverflowError, ZeroDivisionError):
            pass
    if b.op == "c" and b.a[0].denominator == 1 and 0 < b.a[0] <= 4:
        r = a
        for _ in range(int(b.a[0]) - 1):
            r = mul(r, a)
        return r
    return t.fn("pow", a, b)


@model("std::fmod", "fmod")
def _fmod(I, n, obj, args):
    return t.fn("fmod", I.rv(args[0]), I.rv(args[1]))


def fmin(a, b):
    """std::min(a, b): b < a ? b : a"""
    a, b = t.num(a), t.num(b)
    if not t.Mode.nan_blind and "f" in (a.ty, b.ty):
        return ite(lt(b, a), b, a)
    if t._special(a, b):
        return ite(lt(b, a), b, a)
    return t.mnx("min", a, b)


def fmax(a, b):
    a, b = t.num(a), t.num(b)
    if not t.Mode.nan_blind and "f" in (a.ty, b.ty):
        return ite(lt(a, b), b, a)
    if t._special(a, b):
        return ite(lt(a, b), b, a)
    return t.mnx("max", a, b)


def _minmax(f):
    def h(I, n, obj, args):
        if len(args) == 1:
            v = I.rv(args[0])
            if v.op == "seq" and v.a:
                r = v.a[0]
                for x in v.a[1:]:
                    r = f(r, x)
                return r
            return None
        a, b = I.rv(args[0]), I.rv(args[1])
        if len(args) == 3:
            return I.unknown("min/max with comparator", n, kind(n["fn"]["rt"]))
        return f(a, b)
    return h


MODELS["std::min"] = _minmax(fmin)
MODELS["std::max"] = _minmax(fmax)


@model("std::fmin", "fmin")
def _fmin2(I, n, o, args):
    a, b = I.rv(args[0]), I.rv(args[1])
    if t.Mode.nan_blind:
        return fmin(a, b)
    return ite(isnan(a), b, ite(isnan(b), a, fmin(a, b)))


@model("std::fmax", "fmax")
def _fmax2(I, n, o, args):
    a, b = I.rv(args[0]), I.rv(args[1])
    if t.Mode.nan_blind:
        return fmax(a, b)
    return ite(isnan(a), b, ite(isnan(b), a, fmax(a, b)))


@model("std::clamp")
def _clamp(I, n, o, args):
    v, lo, hi = [I.rv(a) for a in args[:3]]
    if not t.Mode.nan_blind:
        return ite(lt(v, lo), lo, ite(lt(hi, v), hi, v))
    return fmin(hi, fmax(lo, v))


def isnan(x):
    if x.op == "nan":
        return TRUE
    if x.ty == "i" or x.op == "c":
        return FALSE
    return mk("isnan", x, ty="b")


t.EXTRA["isnan"] = lambda a: isnan(a[0])


@model("std::isnan", "isnan", "__builtin_isnan")
def _isnan(I, n, o, args):
    return isnan(I.rv(args[0]))


@model("std::isfinite", "isfinite", "__builtin_isfinite")
def _isfin(I, n, o, args):
    x = I.rv(args[0])
    if x.ty == "i" or x.op == "c":
        return TRUE
    return mk("isfinite", x, ty="b")


@model("std::isinf", "isinf")
def _isinf(I, n, o, args):
    x = I.rv(args[0])
    if x.ty == "i" or x.op == "c":
        return FALSE
    return mk("isinf", x, ty="b")


@model("std::frexp", "frexp")
def _frexp(I, n, o, args):
    x = I.rv(args[0])
    p = I.rv(args[1])
    if x.op == "c":
        m, k = math.frexp(float(x.a[0]))
        I.write(p, C(k))
        return C(m)
    e = mk("frexp_e", x, ty="i")
    I.write(p, e)
    return mk("frexp_m", x, ty="f")


@model("std::swap")
def _swap(I, n, o, args):
    a, b = I.lval(args[0]), I.lval(args[1])
    x, y = I.read(a), I.read(b)
    I.write(a, y)
    I.write(b, x)
    return VOID


@model("std::move", "std::forward", "std::as_const", "std::addressof",
       "std::__addressof", "std::ref", "std::cref", "absl::implicit_cast")
def _move(I, n, o, args):
    if strip_targs(n["fn"]["q"]).endswith("addressof"):
        return I.lval(args[0])
    if len(args) == 3:
        return _copy(I, n, o, args)
    a = args[0]
    if a["k"] == "Val":
        return I.rv(a)
    return R(I.lval(a))


@model("std::exchange")
def _exch(I, n, o, args):
    p = I.lval(args[0])
    v = I.read(p)
    I.write(p, I.rv(args[1]))
    return v


# ---------------------------------------------------------------- complex

def cplx(re, im):
    return rec("complex", {"im": im, "re": re})


def cparts(v):
    if v.op == "rec":
        d = dict(v.a[1])
        return d["re"], d["im"]
    if v.op == "ite":
        a, b = cparts(v.a[1]), cparts(v.a[2])
        return ite(v.a[0], a[0], b[0]), ite(v.a[0], a[1], b[1])
    if v.ty in ("i", "f") or v.op == "c":
        return v, zero()
    return t.field(v, "re", "f"), t.field(v, "im", "f")


def cfun(name, x):
    return mk("c" + name, x)


@model("std::complex::complex")
def _cctor(I, n, obj, args):
    if n.get("copy") or n.get("move"):
        return I.read(I.lval(args[0]))
    if args and len(args) == 1:
        v = I.rv(args[0])
        if v.ty in ("i", "f"):
            return cplx(v, zero())
        return v
    re = I.rv(args[0]) if args else zero()
    im = I.rv(args[1]) if len(args) > 1 else zero()
    return cplx(re, im)


def _cget(i):
    def h(I, n, obj, args):
        if obj is None:
            return cparts(I.rv(args[0]))[i]
        if args:
            p = objp(I, n, obj)
            v = list(cparts(I.read(p)))
            v[i] = I.rv(args[0])
            I.write(p, cplx(*v))
            return VOID
        return cparts(objv(I, n, obj))[i]
    return h


MODELS["std::complex::real"] = MODELS["std::real"] = _cget(0)
MODELS["std::complex::imag"] = MODELS["std::imag"] = _cget(1)


@model("std::conj")
def _conj(I, n, o, args):
    re, im = cparts(I.rv(args[0]))
    return cplx(re, t.neg(im))


@model("std::norm")
def _norm(I, n, o, args):
    re, im = cparts(I.rv(args[0]))
    return add(mul(re, re), mul(im, im))


def carith(op, x, y):
    a, b = cparts(x)
    c, d = cparts(y)
    if op == "+":
        return cplx(add(a, c), add(b, d))
    if op == "-":
        return cplx(sub(a, c), sub(b, d))
    if op == "*":
        return cplx(sub(mul(a, c), mul(b, d)), add(mul(a, d), mul(b, c)))
    q = add(mul(c, c), mul(d, d))
    if d is zero():
        return cplx(div(a, c), div(b, c))
    return cplx(div(add(mul(a, c), mul(b, d)), q),
                div(sub(mul(b, c), mul(a, d)), q))


# ---------------------------------------------------------------- sequences

SEQOPS = ("seq", "map", "flat", "cat", "upd", "slice", "sorted", "split")


def is_seq(v):
    return v.op in SEQOPS


def seqtype(ty):
    q = strip_targs(base_type(ty))
    return q in ("std::vector", "std::valarray", "std::slice_array",
                 "std::_Expr", "absl::Span", "std::deque")


def elemtype(ty):
    a = targs(base_type(ty))
    return a[0] if a else ""


def container(it):
    """(container location, step, index) of an iterator"""
    return None


def rng(I, b, e):
    """(container pointer, step, low, count) of an iterator range"""
    rev = False
    if b.op == "rit" and e.op == "rit":
        x, y = I.idx_of(e.a[0]), I.idx_of(b.a[0])
        rev = True
    else:
        x, y = I.idx_of(b), I.idx_of(e)
    if x is None or y is None or x[0] is not y[0] or x[1] != y[1]:
        return None
    return x[0], x[1], x[2], sub(y[2], x[2]), rev


def rseq(I, r, ty="o"):
    """the values of an iterator range as a sequence"""
    p, st, lo, n, rev = r
    v = I.read(p)
    k = fresh("k", "i")
    if st == "i" and not rev:
        return t.sslice(v, lo, n) if not (lo is zero() and n is length(v)) \
            else v
    i = add(lo, k) if not rev else sub(add(lo, n), add(k, one()))
    return t.smap(n, k, I.step(v, (st, i), ty))


def range_len(I, v):
    if is_mat(v):
        return t.nelem(v)
    if v.op == "ite":
        return ite(v.a[0], range_len(I, v.a[1]), range_len(I, v.a[2]))
    if v.op == "rec" and len(v.a[1]) == 1 and v.a[1][0][0] == "matrix_":
        return t.nelem(v.a[1][0][1])
    return length(v)


def range_step(v):
    if is_mat(v):
        return "lin"
    return "i"


def is_mat(v):
    return v.op in ("mat", "mupd", "lupd", "elem")


def conv_elem(I, ty, v, n=None):
    """value v stored as an element of type ty"""
    q = strip_targs(base_type(ty))
    if q == "std::complex" and v.ty in ("i", "f"):
        return cplx(v, zero())
    if kind(ty) == "i" and v.ty == "f":
        if I.obl:
            I.emit("f2i", "store", (v,), n, to=base_type(ty))
        return t.trunc(v)
    if base_type(ty) == "float" and v.ty == "f":
        return t.f32(v)
    return v


def conv_range(I, ty, s, src, n=None):
    """sequence s of elements of kind src as elements of type ty"""
    if kind(ty) != "i" or src != "f":
        return s
    k = fresh("k", "i")
    x = get(s, k, "f")
    if I.obl:
        keep = I.loopctx
        I.loopctx = keep + [(k, length(s))]
        I.emit("f2i", "store", (x,), n, to=base_type(ty))
        I.loopctx = keep
    return t.smap(length(s), k, t.trunc(x))


def count(I, a):
    """an element count: a negative one throws"""
    v = I.rv(a)
    if not t.nonneg(v):
        I.assume(I.decide(t.le(t.zero(), v)))
        if I.st is None:
            import interp
            raise interp.Dead()
    return v


@model("std::vector::vector", "std::valarray::valarray", "std::deque::deque",
       "absl::InlinedVector::InlinedVector")
def _vec_ctor(I, n, obj, args):
    f = n["fn"]
    cls = base_type(f.get("cls") or n.get("t", ""))
    isval = "valarray" in cls
    if n.get("copy") or n.get("move"):
        return I.read(I.lval(args[0]))
    args = [a for a in args
            if not base_type(a.get("t", "")).startswith("std::allocator")]
    et = elemtype(cls)
    if not args:
        return seq()
    pts = f.get("pt") or [""] * len(args)
    if len(args) == 1:
        if kind(pts[0]) == "i":
            v = count(I, args[0])
            return t.fill(v, zero_elem(I, et))
        a = args[0]
        v = I.rv(a)
        if "initializer_list" in pts[0]:
            return convseq(I, et, v)
        return v
    a, b = args[0], args[1]
    va, vb = I.rv(a), I.rv(b)
    if "iterator" in pts[0].lower() or va.op in ("ptr", "rit") and \
            vb.op in ("ptr", "rit") and not isval:
        r = rng(I, va, vb)
        if r is None:
            return unk("range")
        taken(I, n, r)
        return conv_range(I, et, rseq(I, r, etype(args)), etype(args), n)
    if isval:
        # (value, n) or (pointer, n)
        if base_type(pts[0].replace("__restrict", "").strip()).endswith("*") \
                or va.op == "ptr":
            x = I.idx_of(va)
            if x is None:
                return unk("valarray data")
            taken(I, n, (x[0], x[1], x[2], vb))
            return rseq(I, (x[0], x[1], x[2], vb, False), kind(et))
        return t.fill(vb, conv_elem(I, et, va))
    if va.ty == "i" or kind(pts[0]) == "i":
        va = count(I, {"k": "Val", "v": va, "t": ""})
        return t.fill(va, conv_elem(I, et, vb))
    r = rng(I, va, vb)
    if r is not None:
        return conv_range(I, et, rseq(I, r, etype(args)), etype(args), n)
    return unk("vector ctor")


def convseq(I, et, v):
    if v.op == "seq":
        return seq(*[conv_elem(I, et, x) for x in v.a])
    return v


def zero_elem(I, et):
    k = kind(et)
    if k == "b":
        return FALSE
    if k in ("i", "f"):
        return zero()
    if et.endswith("*"):
        return NULL
    b = base_type(et)
    if b in I.P.records:
        return I.make(b, [])
    if strip_targs(b) in ("std::valarray", "std::vector"):
        return seq()
    return default_value(I, b)


@model("absl::Span::Span", "absl::MakeSpan", "absl::MakeConstSpan")
def _span(I, n, obj, args):
    if n.get("copy") or n.get("move"):
        return I.read(I.lval(args[0]))
    if len(args) == 1:
        return I.rv(args[0])
    if len(args) == 2:
        a, b = I.rv(args[0]), I.rv(args[1])
        x = I.idx_of(a)
        if x and b.ty == "i":
            return rseq(I, (x[0], x[1], x[2], b, False))
        r = rng(I, a, b)
        if r:
            return rseq(I, r)
    return None


VEC = ("std::vector", "std::valarray", "std::basic_string", "absl::Span",
       "absl::string_view", "std::basic_string_view", "std::deque",
       "std::array")


def vec(*names):
    def d(f):
        for v in VEC:
            for n in names:
                MODELS[v + "::" + n] = f
        return f
    return d


@vec("size", "length")
def _size(I, n, obj, args):
    r = length(objv(I, n, obj))
    return r


@vec("empty")
def _empty(I, n, obj, args):
    return eq(length(objv(I, n, obj)), zero())


@vec("reserve", "shrink_to_fit")
def _noop(I, n, obj, args):
    for a in args:
        I.rv(a)
    return VOID


@vec("clear")
def _clear(I, n, obj, args):
    p = objp(I, n, obj)
    I.write(p, t.s("") if "string" in n["fn"]["q"] else seq())
    return VOID


@vec("push_back")
def _push(I, n, obj, args):
    v = I.rv(args[0])
    p = objp(I, n, obj)
    I.write(p, cat(I.read(p), seq(v)))
    return VOID


@vec("emplace_back")
def _emplace(I, n, obj, args):
    et = elemtype(base_type(n["fn"].get("cls") or ""))
    vals = [I.rv(a) for a in args]
    p = objp(I, n, obj)
    if not vals:
        v = zero_elem(I, et)
    elif len(vals) == 1 and (kind(et) in ("i", "f", "b") or
                             strip_targs(base_type(args[0].get("t", ""))) ==
                             strip_targs(base_type(et))):
        v = conv_elem(I, et, vals[0], n)
    else:
        v = I.make(et, vals, n) if et in I.P.records else (
            vals[0] if len(vals) == 1 else unk("emplace"))
    cur = I.read(p)
    I.write(p, cat(cur, seq(v)))
    return R(I.addpath(p, ("i", length(cur))))


@vec("pop_back")
def _pop(I, n, obj, args):
    p = objp(I, n, obj)
    v = I.read(p)
    I.emit("index", "pop_back", (v, zero(), length(v)), n)
    I.write(p, t.sslice(v, zero(), sub(length(v), one())))
    return VOID


def index_event(I, n, v, i, N):
    if I.obl:
        I.emit("index", "[]", (v, i, N), n)


@vec("operator[]", "at")
def _idx(I, n, obj, args):
    p = objp(I, n, obj)
    a0 = I.rv(args[0])
    if a0.op == "obj" and a0.a[0] == "std::slice" or (
            a0.op == "rec" and a0.a[0] == "slice"):
        d = dict(a0.a[1])
        s = I.read(p)
        st, sz, sd = d["start"], d["size"], d["stride"]
        k = fresh("k", "i")
        if I.obl:
            I.emit("index", "slice", (s, add(st, mul(sub(sz, one()), sd)),
                                      length(s)), n)
        if sd is one():
            return t.sslice(s, st, sz)
        return t.smap(sz, k, get(s, add(st, mul(k, sd)), "f"))
    if I.obl:
        s = I.read(p)
        I.emit("index", "[]", (s, a0, length(s)), n)
    return R(I.addpath(p, ("i", a0)))


@vec("front")
def _front(I, n, obj, args):
    p = objp(I, n, obj)
    if I.obl:
        s = I.read(p)
        I.emit("index", "front", (s, zero(), length(s)), n)
    return R(I.addpath(p, ("i", zero())))


@vec("back")
def _back(I, n, obj, args):
    p = objp(I, n, obj)
    v = I.read(p)
    if I.obl:
        I.emit("index", "back", (v, sub(length(v), one()), length(v)), n)
    return R(I.addpath(p, ("i", sub(length(v), one()))))


@vec("begin", "cbegin", "data", "c_str")
def _begin(I, n, obj, args):
    q = n["fn"]["q"]
    if "string" in q and q.endswith(("c_str", "data")):
        return objv(I, n, obj)
    p = objp(I, n, obj)
    return I.addpath(p, ("i", zero()))


@vec("end", "cend")
def _end(I, n, obj, args):
    p = objp(I, n, obj)
    return I.addpath(p, ("i", length(I.read(p))))


@vec("rbegin", "crbegin")
def _rbegin(I, n, obj, args):
    p = objp(I, n, obj)
    return mk("rit", I.addpath(p, ("i", length(I.read(p)))))


@vec("rend", "crend")
def _rend(I, n, obj, args):
    p = objp(I, n, obj)
    return mk("rit", I.addpath(p, ("i", zero())))


def _mem_range(end):
    def h(I, n, obj, args):
        a = args[0]
        p = I.lval(a)
        v = I.read(p)
        if v.op == "rec" and dict(v.a[1]).get("matrix_") is not None:
            p = I.addpath(p, ("f", "matrix_"))
            v = I.read(p)
            return I.addpath(p, ("lin", t.nelem(v) if end else zero()))
        return I.addpath(p, ("i", length(v) if end else zero()))
    return h


MODELS["std::begin"] = MODELS["std::cbegin"] = _mem_range(False)
MODELS["std::end"] = MODELS["std::cend"] = _mem_range(True)


@vec("resize")
def _resize(I, n, obj, args):
    p = objp(I, n, obj)
    v = I.read(p)
    N = I.rv(args[0])
    et = elemtype(base_type(n["fn"].get("cls") or ""))
    x = I.rv(args[1]) if len(args) > 1 else zero_elem(I, et)
    if "valarray" in n["fn"]["q"]:
        r = t.fill(N, x)
    else:
        L = length(v)
        if L is zero():
            r = t.fill(N, x)
        elif L is N:
            r = v
        else:
            k = fresh("k", "i")
            r = t.smap(N, k, ite(lt(k, L), get(v, k, kind(et)), x))
    I.write(p, r)
    return VOID


@vec("assign")
def _assign(I, n, obj, args):
    p = objp(I, n, obj)
    pts = n["fn"]["pt"]
    et = elemtype(base_type(n["fn"].get("cls") or ""))
    if len(args) == 2:
        a, b = I.rv(args[0]), I.rv(args[1])
        r = rng(I, a, b) if a.ty == "o" else None
        if r is not None:
            I.write(p, conv_range(I, et, rseq(I, r, etype(args)),
                                  etype(args), n))
        elif a.ty == "i":
            I.write(p, t.fill(a, conv_elem(I, et, b)))
        else:
            I.write(p, unk("assign"))
    else:
        I.write(p, I.rv(args[0]))
    return VOID


@vec("insert")
def _insert(I, n, obj, args):
    p = objp(I, n, obj)
    vals = [I.rv(a) for a in args]
    pos = I.idx_of(vals[0]) if vals and vals[0].op == "ptr" else None
    v = I.read(p)
    if pos is None:
        I.write(p, unk("insert"))
        return unk("insert")
    i = pos[2]
    if len(vals) == 2:
        new = seq(vals[1]) if vals[1].op != "seq" or \
            "initializer_list" not in n["fn"]["pt"][1] else vals[1]
    elif vals[1].ty == "i" and kind(n["fn"]["pt"][1]) == "i":
        new = t.fill(vals[1], vals[2])
    else:
        r = rng(I, vals[1], vals[2])
        if r is None:
            I.write(p, unk("insert"))
            return unk("insert")
        new = conv_range(I, elemtype(base_type(n["fn"].get("cls") or "")),
                         rseq(I, r, etype(args, 1)), etype(args, 1), n)
    L = length(v)
    I.write(p, cat(t.sslice(v, zero(), i), new, t.sslice(v, i, sub(L, i))))
    return I.addpath(p, ("i", i))


@vec("erase")
def _erase(I, n, obj, args):
    p = objp(I, n, obj)
    vals = [I.rv(a) for a in args]
    v = I.read(p)
    xs = [I.idx_of(x) if x.op == "ptr" else None for x in vals]
    if any(x is None for x in xs):
        if vals and vals[0].ty == "i":     # string::erase(pos, n)
            lo = vals[0]
            if len(vals) == 1 or vals[1].op == "c" and \
                    vals[1].a[0] in (-1, 2 ** 64 - 1):
                I.write(p, t.sslice(v, zero(), lo))
                return R(p)
        I.write(p, unk("erase"))
        return R(p) if vals and vals[0].ty == "i" else unk("erase")
    lo = xs[0][2]
    hi = xs[1][2] if len(xs) > 1 else add(lo, one())
    L = length(v)
    I.write(p, cat(t.sslice(v, zero(), lo), t.sslice(v, hi, sub(L, hi))))
    return I.addpath(p, ("i", lo))


@vec("swap")
def _vswap(I, n, obj, args):
    p, q = objp(I, n, obj), I.lval(args[0])
    a, b = I.read(p), I.read(q)
    I.write(p, b)
    I.write(q, a)
    return VOID


@vec("subspan", "substr")
def _subspan(I, n, obj, args):
    v = objv(I, n, obj)
    lo = I.rv(args[0]) if args else zero()
    rest = sub(length(v), lo)
    if len(args) > 1:
        c = I.rv(args[1])
        if c.op == "c" and c.a[0] > 2 ** 62:
            c = rest
        else:
            c = t.mnx("min", c, rest)
    else:
        c = rest
    return t.sslice(v, lo, c)


@vec("operator=")
def _vassign(I, n, obj, args):
    if "initializer_list" in (n["fn"]["pt"] or [""])[0] or True:
        v = I.rv(args[0])
    p = objp(I, n, obj)
    cls = base_type(n["fn"].get("cls") or "")
    if "valarray" in cls and not seqlike(v) and v.ty in ("i", "f"):
        v = t.fill(length(I.read(p)), v)
    elif v.op == "seq":
        v = convseq(I, elemtype(cls), v)
    I.write(p, v)
    return R(p)


def seqlike(v):
    return v.op in SEQOPS or v.ty == "o"


@model("std::valarray::sum")
def _vsum(I, n, obj, args):
    v = objv(I, n, obj)
    k = fresh("k", "i")
    return t.ssum(length(v), k, get(v, k, "f"))


@model("std::slice::slice")
def _slice(I, n, obj, args):
    if not args:
        return None
    a = [I.rv(x) for x in args]
    return rec("slice", {"start": a[0], "size": a[1], "stride": a[2]})


@model("std::valarray::apply")
def _vapply(I, n, obj, args):
    f = I.rv(args[0])
    v = objv(I, n, obj)
    k = fresh("k", "i")
    return t.smap(length(v), k, I.apply(f, [get(v, k, "f")], n))


# operators of std:: (valarray, complex, string, iterators)

def _binop(op):
    def h(I, n, obj, args):
        if obj is not None:
            ns = [obj] + list(args)
        else:
            ns = list(args)
        if len(ns) == 1:
            x = I.rv(ns[0])
            if op == "-":
                if x.op == "rec" and x.a[0] == "complex":
                    a, b = cparts(x)
                    return cplx(t.neg(a), t.neg(b))
                if is_seq(x):
                    k = fresh("k", "i")
                    return t.smap(length(x), k, t.neg(get(x, k, "f")))
                return None if x.ty == "o" else t.neg(x)
            return None
        ty = [base_type(a.get("t", "")) for a in ns]
        qs = [strip_targs(x) for x in ty]
        if any("basic_string" in q for q in qs) and op == "+":
            return strcat(I, ns)
        if any("arma::" in q for q in qs):
            return None
        a, b = I.rv(ns[0]), I.rv(ns[1])
        vs = [q in ("std::valarray", "std::_Expr", "std::slice_array",
                    "Visqol::ComplexValArray") for q in qs]
        if any(vs):
            k = fresh("k", "i")
            L = length(a) if vs[0] else length(b)
            x = get(a, k, "f") if vs[0] else a
            y = get(b, k, "f") if vs[1] else b
            cx = "complex" in ty[0] or "complex" in ty[1]
            return t.smap(L, k, elop(op, x, y, cx))
        if any(q == "std::complex" for q in qs):
            return carith(op, a, b)
        if any("iterator" in q for q in qs) or a.op in ("ptr", "rit"):
            if op == "+":
                return I.padd(a, b) if b.ty == "i" else I.padd(b, a)
            if op == "-":
                d = I.pdiff(a, b)
                if d is not None:
                    return d
                if b.ty == "i":
                    return I.padd(a, t.neg(b))
            return unk("iterator arithmetic", kind(n["fn"]["rt"]))
        return None
    return h


def elop(op, x, y, cx=False):
    if cx:
        return carith(op, x, y)
    return {"+": add, "-": sub, "*": mul, "/": div}[op](x, y)


for _o in "+-*/":
    MODELS["std::operator" + _o] = _binop(_o)
    MODELS["__gnu_cxx::operator" + _o] = _binop(_o)
    MODELS["__gnu_cxx::__normal_iterator::operator" + _o] = _binop(_o)
    MODELS["std::reverse_iterator::operator" + _o] = _binop(_o)


def _assignop(op):
    def h(I, n, obj, args):
        p = I.lval(obj)
        cls = strip_targs(base_type(obj.get("t", "")))
        v = I.rv(args[0])
        old = I.read(p)
        if "basic_string" in cls:
            if op != "+":
                return None
            I.write(p, cat(old, strarg(I, args[0], v)))
            return R(p)
        if cls == "std::complex":
            I.write(p, carith(op, old, v))
            return R(p)
        if cls == "std::valarray":
            k = fresh("k", "i")
            y = get(v, k, "f") if seqtype(args[0].get("t", "")) or \
                is_seq(v) else v
            I.write(p, t.smap(length(old), k, elop(
                op, get(old, k, "f"), y,
                "complex" in obj.get("t", ""))))
            return R(p)
        if old.op in ("ptr", "rit"):
            I.write(p, I.padd(old, v if op == "+" else t.neg(v)))
            return R(p)
        return None
    return h


for _o in "+-*/":
    for _c in ("std::basic_string", "std::complex", "std::valarray",
               "__gnu_cxx::__normal_iterator", "std::reverse_iterator"):
        MODELS["%s::operator%s=" % (_c, _o)] = _assignop(_o)


def _it_deref(I, n, obj, args):
    v = I.rv(obj)
    if v.op == "rit":
        p = I.padd(v.a[0], C(-1))
    else:
        p = v
    if I.obl:
        x = I.idx_of(p)
        if x:
            c = I.read(x[0])
            I.emit("index", "*", (c, x[2], t.nelem(c) if x[1] == "lin"
                                  else length(c)), n)
    if n["fn"]["q"].endswith("operator->"):
        return p
    return R(I.deref(p) if p.op != "ptr" else p)


for _c in ("__gnu_cxx::__normal_iterator", "std::reverse_iterator"):
    MODELS[_c + "::operator*"] = _it_deref
    MODELS[_c + "::operator->"] = _it_deref

    def _it_idx(I, n, obj, args):
        return R(I.padd(I.rv(obj), I.rv(args[0])))
    MODELS[_c + "::operator[]"] = _it_idx

    def _mkinc(d):
        def h(I, n, obj, args):
            p = I.lval(obj)
            old = I.read(p)
            I.write(p, I.padd(old, C(d)))
            return old if args else R(p)
        return h
    MODELS[_c + "::operator++"] = _mkinc(1)
    MODELS[_c + "::operator--"] = _mkinc(-1)

    def _it_ctor(I, n, obj, args):
        if n.get("copy") or n.get("move"):
            return I.read(I.lval(args[0]))
        return I.rv(args[0])
    MODELS[_c + "::" + _c.split("::")[-1]] = _it_ctor


def _cmpop(op):
    def h(I, n, obj, args):
        ns = ([obj] if obj is not None else []) + list(args)
        if len(ns) != 2:
            return None
        ty = [strip_targs(base_type(a.get("t", ""))) for a in ns]
        a, b = I.rv(ns[0]), I.rv(ns[1])
        if any(x in ("std::complex",) for x in ty):
            x, y = cparts(a), cparts(b)
            e = and_(eq(x[0], y[0]), eq(x[1], y[1]))
            return e if op == "==" else not_(e)
        if any("filesystem" in x for x in ty):
            return mk("fscmp" + op, a, b, ty="b")
        return I.compare(op, a, b)
    return h


for _o in ("==", "!=", "<", "<=", ">", ">="):
    for _c in ("std", "__gnu_cxx", "absl", "__gnu_cxx::__normal_iterator"):
        MODELS["%s::operator%s" % (_c, _o)] = _cmpop(_o)


# ---------------------------------------------------------------- algorithms

def algo_loop(I, n, count, step):
    """runs step(i) for i = 0 .. count-1"""
    import loops
    r = I.root("v", "algo")
    I.st.store[r] = zero()
    p = I.ptr(r)

    def condf():
        return I.decide(lt(I.read(p, "i"), count))

    def bodyf():
        step(I.read(p, "i"))

    def incf():
        I.write(p, add(I.read(p, "i"), one()))
    loops.core(I, n, condf, bodyf, incf)
    if I.st is None:
        import interp
        raise interp.Dead()


def iter_at(I, it, i):
    """location it + i"""
    if it.op == "rit":
        return I.padd(it.a[0], t.neg(add(i, one())))
    return I.padd(it, i)


def count_of(I, b, e):
    if b.op == "rit" and e.op == "rit":
        return I.pdiff(b.a[0], e.a[0])
    return I.pdiff(e, b)


def store_out(I, out, i, v):
    """writes v at output iterator + i"""
    if out.op == "inserter":
        p = out.a[0]
        I.write(p, cat(I.read(p), seq(v)))
        return
    I.write(iter_at(I, out, i), v)


def out_end(I, out, n):
    if out.op == "inserter":
        return out
    return I.padd(out, n)


@model("std::back_inserter")
def _backins(I, n, o, args):
    return mk("inserter", I.lval(args[0]))


def read_at(I, it, i, ty="f"):
    return I.read(iter_at(I, it, i), ty)


def etype(args, i=0):
    """scalar kind of what an iterator argument denotes"""
    ty = args[i].get("t", "")
    b = base_type(ty)
    if b.endswith("*"):
        return kind(b[:-1].strip())
    a = targs(b)
    if a and a[0].rstrip().endswith("*"):
        return kind(a[0].rstrip()[:-1].strip())
    return "o"


def bad(I, n, why, outs=()):
    for o in outs:
        if o.op == "inserter":
            I.write(o.a[0], unk(why))
        else:
            x = I.idx_of(o)
            if x:
                I.write(x[0], unk(why))
    return I.unknown(why, n, kind(n["fn"].get("rt", "")) if "fn" in n else "o")


@model("std::for_each")
def _foreach(I, n, o, args):
    b, e, f = [I.rv(a) for a in args[:3]]
    c = count_of(I, b, e)
    if c is None:
        return bad(I, n, "for_each")
    algo_loop(I, n, c, lambda i: I.apply(f, [R(iter_at(I, b, i))], n))
    return f


@model("std::transform")
def _transform(I, n, o, args):
    v = [I.rv(a) for a in args]
    k = etype(args)
    c = count_of(I, v[0], v[1])
    if len(v) == 4:
        b, e, out, f = v
        if c is None:
            return bad(I, n, "transform", [out])

        def step(i):
            r = I.apply(f, [R(iter_at(I, b, i))], n)
            store_out(I, out, i, outconv(args, 2, r, I, n))
    else:
        b, e, b2, out, f = v
        if c is None:
            return bad(I, n, "transform", [out])

        def step(i):
            r = I.apply(f, [R(iter_at(I, b, i)), R(iter_at(I, b2, i))], n)
            store_out(I, out, i, outconv(args, 3, r, I, n))
    if I.obl:
        outidx(I, n, out, c)
    algo_loop(I, n, c, step)
    return out_end(I, out, c)


def outidx(I, n, out, c, arg=None):
    x = I.idx_of(out) if out.op != "inserter" else None
    if x and x[0].op == "ptr" and x[0].a[0][0] == "h" and not x[0].a[1] and \
            x[0].a[0][:3] in I.hsize:
        I.emit("blockrange", elements(arg) if arg else "?",
               (x[2], c, I.hsize[x[0].a[0][:3]]), n)
    elif x:
        s = I.read(x[0])
        I.emit("range", n["fn"]["q"], (s, add(x[2], c), t.nelem(s)
               if x[1] == "lin" else length(s)), n)


def elements(a):
    """the type of the elements an iterator argument walks over"""
    y = base_type(a.get("t", ""))
    if y.endswith("*"):
        return y[:-1].strip()
    return "?"


def taken(I, n, r):
    """a range of elements is read"""
    if I.obl and r is not None:
        s = I.read(r[0])
        I.emit("slice", n["fn"]["q"], (
            s, r[2], r[3], t.nelem(s) if r[1] == "lin" else length(s)), n)


def outconv(args, i, r, I=None, n=None):
    k = etype(args, i)
    if k == "i" and r.ty == "f":
        if I is not None and I.obl:
            I.emit("f2i", "store", (r,), n, to="")
        return t.trunc(r)
    b = base_type(args[i].get("t", ""))
    if b.startswith("float *") or "<float *" in b:
        return t.f32(r) if r.ty == "f" else r
    return r


@model("std::copy")
def _copy(I, n, o, args):
    b, e, out = [I.rv(a) for a in args[:3]]
    c = count_of(I, b, e)
    if c is None:
        return bad(I, n, "copy", [out])
    return do_copy(I, n, args, b, c, out, 2)


@model("std::copy_n")
def _copyn(I, n, o, args):
    b, c, out = [I.rv(a) for a in args[:3]]
    return do_copy(I, n, args, b, c, out, 2)


def do_copy(I, n, args, b, c, out, oi):
    if I.obl:
        outidx(I, n, out, c, args[oi] if oi < len(args) else None)
        outidx(I, n, b, c, args[0])
    k = etype(args)
    algo_loop(I, n, c, lambda i: store_out(
        I, out, i, outconv(args, oi, read_at(I, b, i, k), I, n)))
    return out_end(I, out, c)


@model("std::fill")
def _fill(I, n, o, args):
    b, e, v = [I.rv(a) for a in args[:3]]
    c = count_of(I, b, e)
    if c is None:
        return bad(I, n, "fill", [b])
    algo_loop(I, n, c, lambda i: store_out(I, b, i, outconv(args, 0, v, I, n)))
    return VOID


@model("std::fill_n")
def _filln(I, n, o, args):
    b, c, v = [I.rv(a) for a in args[:3]]
    if I.obl:
        outidx(I, n, b, c)
    algo_loop(I, n, c, lambda i: store_out(I, b, i, outconv(args, 0, v, I, n)))
    return out_end(I, b, c)


@model("std::iota")
def _iota(I, n, o, args):
    b, e, v = [I.rv(a) for a in args[:3]]
    c = count_of(I, b, e)
    if c is None:
        return bad(I, n, "iota", [b])
    algo_loop(I, n, c, lambda i: store_out(I, b, i, add(v, i)))
    return VOID


@model("std::accumulate", "std::reduce")
def _accum(I, n, o, args):
    b, e = I.rv(args[0]), I.rv(args[1])
    init = I.rv(args[2]) if len(args) > 2 else zero()
    c = count_of(I, b, e)
    k = etype(args)
    it = base_type(args[2].get("t", "")) if len(args) > 2 else "double"
    if c is None:
        return bad(I, n, "accumulate")
    if len(args) > 3:
        f = I.rv(args[3])
        r = I.root("v", "acc")
        I.st.store[r] = init
        p = I.ptr(r)
        algo_loop(I, n, c, lambda i: I.write(
            p, accconv(it, I.apply(f, [I.read(p), R(iter_at(I, b, i))], n))))
        return I.read(p)
    r = I.root("v", "acc")
    I.st.store[r] = init
    p = I.ptr(r)
    algo_loop(I, n, c, lambda i: I.write(
        p, accconv(it, add(I.read(p), read_at(I, b, i,
                                              k if k != "o" else "f")))))
    return I.read(p)


def accconv(ty, v):
    if kind(ty) == "i" and v.ty == "f":
        return t.trunc(v)
    return v


@model("std::inner_product")
def _inner(I, n, o, args):
    b, e, b2, init = [I.rv(a) for a in args[:4]]
    c = count_of(I, b, e)
    if c is None or len(args) > 4:
        return bad(I, n, "inner_product")
    k = fresh("k", "i")
    kd = etype(args)
    kd = kd if kd != "o" else "f"
    return add(init, t.ssum(c, k, mul(read_at(I, b, k, kd),
                                      read_at(I, b2, k, kd))))


def _quant(which):
    def h(I, n, o, args):
        b, e, f = [I.rv(a) for a in args[:3]]
        c = count_of(I, b, e)
        if c is None:
            return bad(I, n, which)
        k = fresh("u:k", "i")
        I.loopctx.append((k, c))
        try:
            v = truth(I.apply(f, [R(iter_at(I, b, k))], n))
        finally:
            I.loopctx.pop()
        if which == "any":
            return t.sany(c, k, v)
        if which == "none":
            return not_(t.sany(c, k, v))
        if which == "all":
            return not_(t.sany(c, k, not_(v)))
        return t.ssum(c, k, ite(v, one(), zero()))
    return h


for _q in ("any", "all", "none"):
    MODELS["std::%s_of" % _q] = _quant(_q)
MODELS["std::count_if"] = _quant("count")


@model("std::equal")
def _equal(I, n, o, args):
    v = [I.rv(a) for a in args]
    if len(v) not in (3, 4):
        return bad(I, n, "equal")
    c = count_of(I, v[0], v[1])
    if c is None:
        return bad(I, n, "equal")
    k = fresh("u:k", "i")
    kd = etype(args)
    comp = "complex<" in args[0].get("t", "")
    if comp:
        kd = "o"
    x, y = read_at(I, v[0], k, kd), read_at(I, v[2], k, kd)
    if comp:
        x, y = cparts(x), cparts(y)
        same = and_(eq(x[0], y[0]), eq(x[1], y[1]))
    else:
        same = seq_eq(x, y)
    e = not_(t.sany(c, k, not_(same)))
    if len(v) == 4:
        c2 = count_of(I, v[2], v[3])
        if c2 is None:
            return bad(I, n, "equal")
        e = and_(eq(c, c2), e)
    return e


def _extelem(which):
    def h(I, n, o, args):
        b, e = I.rv(args[0]), I.rv(args[1])
        c = count_of(I, b, e)
        if c is None or len(args) > 2:
            return bad(I, n, which)
        x = I.idx_of(b)
        k = etype(args)
        s = rseq(I, (x[0], x[1], x[2], c, False), k if k != "o" else "f")
        if I.obl:
            I.emit("nonempty", which, (s, c), n)
        i = mk("arg" + which, s, ty="i")
        t.NONNEG.add(i)
        return I.padd(b, i)
    return h


MODELS["std::min_element"] = _extelem("min")
MODELS["std::max_element"] = _extelem("max")


def _argfacts(m, out):
    import linear
    linear._lin(out, t.add(t.sub(m, length(m.a[0])), one()))


import linear as _linear  # noqa
_linear.HOOK["argmin"] = _argfacts
_linear.HOOK["argmax"] = _argfacts


@model("std::distance")
def _distance(I, n, o, args):
    a, b = I.rv(args[0]), I.rv(args[1])
    d = count_of(I, a, b)
    if d is None:
        return I.unknown("distance", n, "i")
    return d


@model("std::advance")
def _advance(I, n, o, args):
    p = I.lval(args[0])
    I.write(p, I.padd(I.read(p), I.rv(args[1])))
    return VOID


@model("std::next", "std::prev")
def _next(I, n, o, args):
    d = I.rv(args[1]) if len(args) > 1 else one()
    if n["fn"]["q"].startswith("std::prev"):
        d = t.neg(d)
    return I.padd(I.rv(args[0]), d)


def _sort(I, n, o, args):
    b, e = I.rv(args[0]), I.rv(args[1])
    c = count_of(I, b, e)
    x = I.idx_of(b)
    if c is None or x is None or len(args) > 2:
        return bad(I, n, "sort", [b])
    v = I.read(x[0])
    if x[1] == "i" and x[2] is zero() and length(v) is c:
        I.write(x[0], mk("sorted", v))
        return VOID
    return bad(I, n, "sort", [b])


MODELS["std::sort"] = MODELS["std::stable_sort"] = _sort
t.LEN["sorted"] = lambda s: length(s.a[0])


def _unmod_write(why, k=0):
    def h(I, n, o, args):
        vs = [I.rv(a) for a in args]
        return bad(I, n, why, [v for v in vs if v.op in ("ptr", "inserter")])
    return h


for _x in ("nth_element", "partial_sort", "reverse", "unique", "remove_if",
           "remove", "copy_if", "partition", "rotate", "generate", "replace",
           "replace_if", "partial_sum", "adjacent_difference", "shuffle",
           "copy_backward", "swap_ranges"):
    MODELS["std::" + _x] = _unmod_write(_x)


@model("std::copy_if")
def _copyif(I, n, o, args):
    b, e, out, f = [I.rv(a) for a in args[:4]]
    c = count_of(I, b, e)
    if c is None or out.op != "inserter":
        return bad(I, n, "copy_if", [out])

    def step(i):
        cnd = I.decide(truth(I.apply(f, [R(iter_at(I, b, i))], n)))
        p = out.a[0]
        cur = I.read(p)
        I.write(p, ite(cnd, cat(cur, seq(read_at(I, b, i, etype(args)))), cur))
    algo_loop(I, n, c, step)
    return out


@model("std::reverse")
def _reverse(I, n, o, args):
    b, e = I.rv(args[0]), I.rv(args[1])
    c = count_of(I, b, e)
    x = I.idx_of(b)
    if c is None or x is None:
        return bad(I, n, "reverse", [b])
    v = I.read(x[0])
    if x[1] == "i" and x[2] is zero() and length(v) is c:
        k = fresh("k", "i")
        kd = etype(args)
        I.write(x[0], t.smap(c, k, get(v, sub(sub(c, one()), k), kd)))
        return VOID
    return bad(I, n, "reverse", [b])


# functors of <functional>
for _nm, _o in (("plus", "+"), ("minus", "-"), ("multiplies", "*"),
                ("divides", "/")):
    def _mkf(o_):
        def h(I, n, obj, args):
            a, b = I.rv(args[0]), I.rv(args[1])
            if a.op == "rec" or b.op == "rec":
                return carith(o_, a, b)
            return elop(o_, a, b)
        return h
    MODELS["std::%s::operator()" % _nm] = _mkf(_o)


# ---------------------------------------------------------------- pointers

UP = ("std::unique_ptr", "std::shared_ptr")
for _c in UP:
    def _up_ctor(I, n, obj, args):
        if n.get("copy") or n.get("move"):
            p = I.lval(args[0])
            v = I.read(p)
            return v
        if not args:
            return NULL
        v = I.rv(args[0])
        if "_ptr" not in str(args[0].get("t")) and v.op != "null":
            d = I.rv(args[1]) if len(args) > 1 else NULL
            I.emit("own", str(n.get("t")), (v, d), n)
        return v
    MODELS[_c + "::" + _c.split("::")[-1]] = _up_ctor
    MODELS[_c + "::get"] = lambda I, n, o, a: objv(I, n, o)

    def _up_deref(I, n, obj, args):
        v = I.rv(obj)
        if v.op == "null":
            I.emit("nullderef", "*", (), n)
        return R(I.deref(v))
    MODELS[_c + "::operator*"] = _up_deref

    def _up_arrow(I, n, obj, args):
        return I.rv(obj)
    MODELS[_c + "::operator->"] = _up_arrow

    def _up_assign(I, n, obj, args):
        v = I.rv(args[0])
        p = I.lval(obj)
        I.write(p, v)
        return R(p)
    MODELS[_c + "::operator="] = _up_assign

    def _up_reset(I, n, obj, args):
        v = I.rv(args[0]) if args else NULL
        if v.op != "null":
            I.emit("own", "reset", (v, NULL), n)
        I.write(objp(I, n, obj), v)
        return VOID
    MODELS[_c + "::reset"] = _up_reset

    def _up_release(I, n, obj, args):
        p = objp(I, n, obj)
        v = I.read(p)
        if v.op != "null":
            I.emit("disown", "release", (v,), n)
        I.write(p, NULL)
        return v
    MODELS[_c + "::release"] = _up_release
    MODELS[_c + "::operator bool"] = lambda I, n, o, a: truth(objv(I, n, o))

    def _up_idx(I, n, obj, args):
        return R(I.padd(I.rv(obj), I.rv(args[0])))
    MODELS[_c + "::operator[]"] = _up_idx


@model("std::make_unique", "absl::make_unique", "std::make_shared")
def _mkunique(I, n, obj, args):
    ty = targs(base_type(n["fn"]["rt"]))[0]
    vals = [I.rv(a) for a in args]
    r = hroot(I, "obj")
    if ty.endswith("[]"):
        I.st.store[r] = t.fill(vals[0], zero_elem(I, ty[:-2]))
        return I.ptr(r, (("i", zero()),))
    if "allow" in ty:
        pass
    I.st.store[r] = I.make(ty, vals, n)
    return I.ptr(r)


def hroot(I, name):
    I.nroot += 1
    return ("h", name, I.nroot, tuple(k for k, _ in I.loopctx))


# ---------------------------------------------------------------- tuple, pair

@model("std::make_tuple", "std::make_pair", "std::forward_as_tuple")
def _mktuple(I, n, obj, args):
    return mkpair(*[I.rv(a) for a in args])


@model("std::tuple::tuple", "std::pair::pair")
def _tuple_ctor(I, n, obj, args):
    if n.get("copy") or n.get("move"):
        return I.read(I.lval(args[0]))
    cls = n["fn"].get("cls") or n.get("t", "")
    if len(args) == 1 and len(targs(base_type(cls))) != 1:
        return I.rv(args[0])
    if not args:
        return mkpair(*[zero_elem(I, x) for x in targs(base_type(cls))])
    return mkpair(*[I.rv(a) for a in args])


@model("std::tuple::operator=", "std::pair::operator=")
def _tuple_assign(I, n, obj, args):
    v = I.rv(args[0])
    p = I.lval(obj)
    tv = I.read(p)
    if tv.op == "tie":
        for i, q in enumerate(tv.a):
            I.write(q, t.getfield(v, str(i)))
        return R(p)
    I.write(p, v)
    return R(p)


@model("std::tie")
def _tie(I, n, obj, args):
    return mk("tie", *[I.lval(a) for a in args])


@model("std::get")
def _get(I, n, obj, args):
    ta = n["fn"].get("ta") or targs(n["fn"]["q"])
    try:
        i = int(ta[0].rstrip("UL"))
    except (ValueError, IndexError):
        return None
    p = I.lval(args[0])
    return R(I.addpath(p, ("f", str(i), kind(n.get("t", "")))))


# ---------------------------------------------------------------- optional

for _c in ("absl::optional", "std::optional"):
    def _opt_ctor(I, n, obj, args):
        if n.get("copy") or n.get("move"):
            return I.read(I.lval(args[0]))
        if not args or "nullopt" in args[0].get("t", ""):
            return rec("opt", {"has": FALSE, "val": UNDEF})
        v = I.rv(args[0])
        return rec("opt", {"has": TRUE, "val": v})
    MODELS[_c + "::optional"] = _opt_ctor

    def _opt_has(I, n, obj, args):
        return t.getfield(objv(I, n, obj), "has", "b")
    MODELS[_c + "::has_value"] = MODELS[_c + "::operator bool"] = _opt_has

    def _opt_val(I, n, obj, args):
        p = objp(I, n, obj) if not n["fn"]["q"].endswith("->") else \
            I.lval(obj)
        q = I.addpath(p, ("f", "val"))
        if n["fn"]["q"].endswith("operator->"):
            return q
        return R(q)
    MODELS[_c + "::operator->"] = MODELS[_c + "::operator*"] = \
        MODELS[_c + "::value"] = _opt_val

    def _opt_or(I, n, obj, args):
        o = objv(I, n, obj)
        return ite(t.getfield(o, "has", "b"), t.getfield(o, "val"),
                   I.rv(args[0]))
    MODELS[_c + "::value_or"] = _opt_or

    def _opt_assign(I, n, obj, args):
        p = I.lval(obj)
        v = I.rv(args[0])
        if v.op != "rec" or v.a[0] != "opt":
            v = rec("opt", {"has": TRUE, "val": v})
        I.write(p, v)
        return R(p)
    MODELS[_c + "::operator="] = _opt_assign


# ---------------------------------------------------------------- strings

def tostr(v):
    if v.op in ("str", "strcat") or v.ty == "o":
        return v
    if v.op == "c" and v.ty == "i":
        return t.s(str(int(v.a[0])))
    return mk("tostr", v)


t.EXTRA["tostr"] = lambda a: tostr(*a)


def cstr(I, v):
    """the text a pointer to the start of a constant array denotes"""
    if v.op == "ptr" and len(v.a[1]) == 1 and v.a[1][0][0] in ("i", "lin") \
            and v.a[1][0][1] is zero():
        w = I.read(I.ptr(v.a[0]))
        if w.op == "str":
            return w
    if v.op == "ite":
        return ite(v.a[0], cstr(I, v.a[1]), cstr(I, v.a[2]))
    return v


def strarg(I, node, v):
    if v.op in ("ptr", "ite") and "*" in node.get("t", ""):
        return cstr(I, v)
    if kind(node.get("t", "")) == "i" and v.ty == "i":
        # a character
        if v.op == "c" and base_type(node["t"]) == "char":
            return t.s(chr(int(v.a[0]) & 255))
        return seq(v)
    return v


def strjoin(xs):
    out = []
    for x in xs:
        ys = x.a if x.op == "strcat" else (x,)
        for y in ys:
            if y.op == "str":
                if y.a[0] == "":
                    continue
                if out and out[-1].op == "str":
                    out[-1] = t.s(out[-1].a[0] + y.a[0])
                    continue
            out.append(y)
    if not out:
        return t.s("")
    if len(out) == 1:
        return out[0]
    return mk("strcat", *out)


t.EXTRA["strcat"] = lambda a: strjoin(a)


def strcat(I, ns):
    return strjoin([strarg(I, a, I.rv(a)) for a in ns])


@model("absl::StrCat")
def _strcat(I, n, obj, args):
    return strjoin([cstr(I, I.rv(a)) for a in args])


@model("absl::StrAppend")
def _strapp(I, n, obj, args):
    p = I.rv(args[0])
    I.write(p, strjoin([I.read(p)] + [I.rv(a) for a in args[1:]]))
    return VOID


@model("absl::AlphaNum::AlphaNum")
def _alnum(I, n, obj, args):
    a = args[0]
    v = I.rv(a)
    if kind(a.get("t", "")) in ("i", "f", "b") and v.op != "str":
        return tostr(v)
    return cstr(I, v)


@model("std::to_string")
def _to_string(I, n, obj, args):
    return tostr(I.rv(args[0]))


@model("std::basic_string::basic_string", "absl::string_view::string_view",
       "std::basic_string_view::basic_string_view",
       "absl::string_view::operator basic_string", "std::string::string")
def _str_ctor(I, n, obj, args):
    if n["k"] == "Call":
        return objv(I, n, obj)
    if n.get("copy") or n.get("move"):
        return I.read(I.lval(args[0]))
    args = [a for a in args
            if not base_type(a.get("t", "")).startswith("std::allocator")]
    if not args:
        return t.s("")
    v = I.rv(args[0])
    if len(args) == 1:
        return cstr(I, v)
    b = I.rv(args[1])
    pt = n["fn"]["pt"]
    if v.op in ("ptr", "rit") and b.op in ("ptr", "rit"):
        r = rng(I, v, b)
        if r:
            return rseq(I, r)
    if v.op == "str" and b.op == "c":
        return t.s(v.a[0][:int(b.a[0])])
    if v.op == "ptr" and b.op == "c":
        x = chars(I, v, int(b.a[0]))
        if x is not None:
            return x
    return mk("substr", v, b)


for _x in ("basic_string", "string"):
    def _str_assign(I, n, obj, args):
        v = I.rv(args[0])
        p = I.lval(obj)
        I.write(p, strarg(I, args[0], v))
        return R(p)
    MODELS["std::%s::operator=" % _x] = _str_assign


@model("std::basic_string::append")
def _strappend(I, n, obj, args):
    if len(args) != 1:
        return None
    p = objp(I, n, obj)
    I.write(p, strjoin([I.read(p), cstr(I, I.rv(args[0]))]))
    return R(p)


@model("std::basic_string::find", "std::basic_string::rfind",
       "std::basic_string::find_last_of", "std::basic_string::find_first_of",
       "std::basic_string::find_last_not_of",
       "std::basic_string::find_first_not_of", "std::basic_string::compare",
       "absl::string_view::find", "absl::string_view::rfind",
       "absl::string_view::compare")
def _strfind(I, n, obj, args):
    v = objv(I, n, obj)
    xs = [I.rv(a) for a in args]
    q = n["fn"]["q"].split("::")[-1]
    if q in ("find", "rfind", "find_first_of", "find_last_of") and xs and \
            (v.op == "str" or v is seq()):
        # a single character in a known text
        x = cstr(I, xs[0])
        x = chr(int(x.a[0])) if x.op == "c" else x.a[0] if x.op == "str" \
            else ""
        k = xs[1] if len(xs) > 1 else zero() if "r" not in q[:1] and \
            "last" not in q else C(-1)
        if len(x) == 1 and k.op == "c" and len(xs) < 3:
            k = int(k.a[0])
            text = v.a[0] if v.op == "str" else ""
            if q in ("find", "find_first_of"):
                at = text.find(x, k) if k >= 0 else -1
            else:
                at = text.rfind(x) if k < 0 or k >= len(text) else \
                    text.rfind(x, 0, k + 1)
            return C(at if at >= 0 else 2 ** 64 - 1)
    return unk("string search", "i", tuple([v] + xs))


@model("absl::SimpleAtod", "absl::SimpleAtof")
def _atod(I, n, obj, args):
    v = I.rv(args[0])
    p = I.rv(args[1])
    I.write(p, mk("atod", v, ty="f"))
    return mk("atod_ok", v, ty="b")


@model("absl::SimpleAtoi")
def _atoi(I, n, obj, args):
    v = I.rv(args[0])
    p = I.rv(args[1])
    I.write(p, mk("atoi", v, ty="i"))
    return mk("atoi_ok", v, ty="b")


@model("std::stod", "atof", "std::atof", "std::stof")
def _stod(I, n, obj, args):
    return mk("atod", I.rv(args[0]), ty="f")


@model("absl::EndsWith", "absl::StartsWith", "absl::StrContains",
       "absl::EndsWithIgnoreCase")
def _endswith(I, n, obj, args):
    a, b = I.rv(args[0]), I.rv(args[1])
    q = n["fn"]["q"].split("::")[-1]
    if b.op == "str" and len(b.a[0]) == 1 and q in ("EndsWith", "StartsWith"):
        c = C(ord(b.a[0]))
        L = length(a)
        i = sub(L, one()) if q == "EndsWith" else zero()
        return and_(lt(zero(), L), eq(get(a, i, "i"), c))
    return unk(q, "b", (a, b))


@model("absl::StrSplit")
def _strsplit(I, n, obj, args):
    a, b = I.rv(args[0]), I.rv(args[1])
    if a.op == "obj" and len(a.a) > 1 and \
            str(a.a[0]).endswith("ConvertibleToStringView"):
        a = a.a[1]
    d = cstr(I, b)
    if d.op == "c":
        d = t.s(chr(int(d.a[0])))
    if len(args) == 2 and d.op == "str" and len(d.a[0]) == 1:
        if a.op == "str":
            return seq(*[t.s(p) for p in a.a[0].split(d.a[0])])
        if a is seq():
            return seq(t.s(""))
    return unk("StrSplit", "o", (a, b))


@model("absl::strings_internal::Splitter::operator vector")
def _splitvec(I, n, obj, args):
    return objv(I, n, obj)


# ---------------------------------------------------------------- streams
# output: rec ostream{data: token sequence, path, mode}; input: stm(text, pos)

def new_stream(**kw):
    d = {"data": seq(), "path": NULL, "mode": zero(), "in": NULL,
         "prec": zero()}
    d.update(kw)
    return rec("stream", d)


@model("std::basic_ofstream::basic_ofstream",
       "std::basic_fstream::basic_fstream")
def _ofs(I, n, obj, args):
    if not args:
        return new_stream()
    v = [I.rv(a) for a in args]
    m = v[1] if len(v) > 1 else C(16)
    I.emit("open", "ofstream", (v[0], m), n)
    return new_stream(path=v[0], mode=m)


@model("std::basic_ofstream::open", "std::basic_fstream::open")
def _ofs_open(I, n, obj, args):
    v = [I.rv(a) for a in args]
    m = v[1] if len(v) > 1 else C(16)
    p = objp(I, n, obj)
    I.emit("open", "ofstream", (v[0], m), n)
    s = I.read(p)
    s = t.setfield(s, "path", v[0])
    s = t.setfield(s, "mode", m)
    I.write(p, s)
    return VOID


@model("std::basic_ofstream::close", "std::basic_ifstream::close",
       "std::basic_fstream::close", "std::basic_ostream::flush")
def _close(I, n, obj, args):
    p = objp(I, n, obj)
    if "ofstream" in n["fn"]["q"] or "basic_fstream" in n["fn"]["q"]:
        s = I.read(p)
        flush_file(I, s, n)
        if s.op == "rec":
            s = t.setfield(s, "data", seq())
            I.write(p, s)
    return VOID


def flush_file(I, s, n):
    """what a stream wrote goes to its file"""
    if s.op == "ite":
        return
    I.emit("wrote", "file", (t.getfield(s, "path"), t.getfield(s, "mode"),
                             t.getfield(s, "data")), n)


@model("std::basic_ifstream::basic_ifstream")
def _ifs(I, n, obj, args):
    if not args:
        return new_stream()
    v = I.rv(args[0])
    I.emit("open", "ifstream", (v,), n)
    return new_stream(**{"in": mk("stm", I.files.get(v) or mk("filetext", v), zero()),
                         "path": v})


@model("std::basic_ifstream::is_open", "std::basic_ofstream::is_open")
def _isopen(I, n, obj, args):
    s = objv(I, n, obj)
    return mk("streamok", t.getfield(s, "path"), ty="b")


@model("std::basic_istringstream::basic_istringstream",
       "std::basic_stringstream::basic_stringstream",
       "std::basic_ostringstream::basic_ostringstream")
def _iss(I, n, obj, args):
    args = [a for a in args if "openmode" not in a.get("t", "").lower()]
    if not args or "cv" in args[0]:
        return new_stream()
    v = I.rv(args[0])
    return new_stream(**{"in": mk("stm", v, zero()), "data": seq(v)})


@model("std::basic_stringstream::str", "std::basic_ostringstream::str",
       "std::basic_istringstream::str")
def _ss_str(I, n, obj, args):
    if args:
        p = objp(I, n, obj)
        I.write(p, new_stream(**{"in": mk("stm", I.rv(args[0]), zero())}))
        return VOID
    return mk("tokens", t.getfield(objv(I, n, obj), "data"))


# A binary input stream known by its content: bytes(content, pos, n) are n
# bytes of it, little endian where they are a number.

def binary_stream(content, pos=None):
    return t.rec("bstream", {"bytes": content, "pos": pos or zero(),
                           "bad": FALSE, "got": zero()})


def is_bstream(v):
    return v.op == "rec" and v.a[0] == "bstream" or \
        v.op == "ite" and is_bstream(v.a[1]) and is_bstream(v.a[2])


SCALARS = {"char": 1, "signed char": 1, "unsigned char": 1, "bool": 1,
           "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4,
           "long": 8, "unsigned long": 8, "long long": 8,
           "unsigned long long": 8, "float": 4, "double": 8}


def layout(I, ty):
    """(size, alignment, [(path, offset, type)]) of a plain type, or None"""
    b = base_type(ty)
    if b in SCALARS:
        return SCALARS[b], SCALARS[b], [((), 0, b)]
    if b.startswith("char[") and b.endswith("]"):
        return int(b[5:-1]), 1, [((), 0, b)]
    if b not in I.P.records:
        return None
    size, al, out = 0, 1, []
    for f in I.P.all_fields(b):
        x = layout(I, f["t"])
        if x is None:
            return None
        n, a, parts = x
        size = (size + a - 1) // a * a
        al = max(al, a)
        for p, o, ft in parts:
            out.append(((("f", f["name"]),) + p, size + o, ft))
        size += n
    return (size + al - 1) // al * al, al, out


def pointee(I, p):
    """type of the object p points to, when it is a known local"""
    if p.op != "ptr" or p.a[0] not in I.vtype:
        return None
    ty = I.vtype[p.a[0]]
    for s in p.a[1]:
        if s[0] != "f":
            return None
        fs = [f for f in I.P.all_fields(base_type(ty)) if f["name"] == s[1]]
        if not fs:
            return None
        ty = fs[0]["t"]
    return ty


def stream_layout(parts, rest):
    """content of a stream: (value, size) parts one after the other, then
    rest more bytes"""
    out, at = [], 0
    for v, n in parts:
        out += [C(at), C(n), v]
        at += n
    return mk("layout", add(C(at), rest), *out)


def raw(content, pos, n, ty):
    import interp
    b = base_type(ty)
    if content.op == "layout" and pos.op == "c":
        for i in range(1, len(content.a), 3):
            if content.a[i] is pos and content.a[i + 1] is C(n):
                v = content.a[i + 2]
                if v.op == "c" and b in interp.WIDTH:
                    return interp.wrapped(v, b)
                return v
    if b.startswith("char["):
        return mk("chars", content, pos, C(n))
    if b in ("float", "double"):
        return mk("bytes", content, pos, C(n), t.s(b), ty="f")
    x = mk("bytes", content, pos, C(n), t.s(b if b in UNSIGNED else ""),
           ty="i")
    if b in UNSIGNED:
        t.NONNEG.add(x)
    return x


UNSIGNED = ("unsigned char", "unsigned short", "unsigned int",
            "unsigned long", "unsigned long long")


@model("std::basic_istream::read")
def _istream_read(I, n, obj, args):
    s = objv(I, n, obj)
    if not is_bstream(s):
        return None
    sp = objp(I, n, obj)
    p, size = I.rv(args[0]), I.rv(args[1])
    content, pos = t.getfield(s, "bytes"), t.getfield(s, "pos", "i")
    bad = t.getfield(s, "bad", "b")
    left = t.mnx("max", zero(), sub(length(content), pos))
    got = ite(bad, zero(), t.mnx("min", size, left))
    I.emit("binread", "", (p, size, got, pos), n)
    ty = pointee(I, p)
    lay = layout(I, ty) if ty else None
    if lay and size.op == "c":
        k = int(size.a[0])
        for path, off, ft in lay[2]:
            fn_ = layout(I, ft)[0]
            if off + fn_ > k:
                continue
            q = p
            for x in path:
                q = I.addpath(q, x)
            v = raw(content, add(pos, C(off)), fn_, ft)
            # what a read cut short leaves behind is not looked into
            have = le(C(off + fn_), got)
            I.write(q, v if have is TRUE else ite(have, v, mk(
                "old", v, ty=v.ty)))
    elif p.op == "ptr" and p.a[0][0] in ("v", "h"):
        I.write(p, unk("bytes read"))
    short = lt(got, size)
    I.write(sp, t.rec("bstream", {"bytes": content, "pos": add(pos, got),
                                "bad": or_(bad, short), "got": got}))
    return R(sp)


@model("std::basic_istream::gcount")
def _gcount(I, n, obj, args):
    s = objv(I, n, obj)
    return t.getfield(s, "got", "i") if is_bstream(s) else None


@model("std::basic_istream::tellg")
def _tellg(I, n, obj, args):
    s = objv(I, n, obj)
    if not is_bstream(s):
        return None
    return ite(t.getfield(s, "bad", "b"), C(-1), t.getfield(s, "pos", "i"))


@model("std::basic_istream::seekg")
def _seekg(I, n, obj, args):
    s = objv(I, n, obj)
    if not is_bstream(s):
        return None
    sp = objp(I, n, obj)
    off = I.rv(args[0])
    d = I.rv(args[1]) if len(args) > 1 else zero()
    content, pos = t.getfield(s, "bytes"), t.getfield(s, "pos", "i")
    if d.op == "enum" or not d.op == "c":
        to = I.unknown("seek direction", n, "i")
    else:
        to = add({0: zero(), 1: pos, 2: length(content)}[int(d.a[0])], off)
    # seeking first clears the end-of-file state, a failed stream stays put
    bad = t.getfield(s, "bad", "b")
    out = or_(lt(to, zero()), lt(length(content), to))
    I.emit("seek", "", (pos, to, bad), n)
    I.write(sp, t.rec("bstream", {
        "bytes": content, "pos": ite(or_(bad, out), pos, to),
        "bad": or_(bad, out), "got": t.getfield(s, "got", "i")}))
    return R(sp)


@model("std::basic_istream::ignore")
def _ignore(I, n, obj, args):
    s = objv(I, n, obj)
    if not is_bstream(s) or len(args) > 1 and "cv" not in args[1]:
        return None
    sp = objp(I, n, obj)
    size = I.rv(args[0]) if args else one()
    content, pos = t.getfield(s, "bytes"), t.getfield(s, "pos", "i")
    bad = t.getfield(s, "bad", "b")
    left = t.mnx("max", zero(), sub(length(content), pos))
    got = ite(bad, zero(), t.mnx("min", size, left))
    I.write(sp, t.rec("bstream", {"bytes": content, "pos": add(pos, got),
                                "bad": or_(bad, lt(got, size)), "got": got}))
    return R(sp)


@model("std::basic_istream::clear", "std::basic_ios::clear")
def _iosclear(I, n, obj, args):
    s = objv(I, n, obj)
    if not is_bstream(s):
        return None
    I.write(I.addpath(objp(I, n, obj), ("f", "bad")), FALSE)
    return VOID


@model("std::fpos::operator long")
def _fpos(I, n, obj, args):
    v = objv(I, n, obj)
    return v if v.ty == "i" else None


@model("memcmp", "std::memcmp", "strncmp", "std::strncmp")
def _memcmp(I, n, obj, args):
    if len(args) != 3:
        return None
    k = I.rv(args[2])
    if k.op != "c":
        return None
    a = [chars(I, I.rv(x), int(k.a[0])) for x in args[:2]]
    if None in a:
        return None
    return ite(seq_eq(*a), zero(), I.unknown("memcmp", n, "i"))


def chars(I, p, k):
    """the k characters p points to"""
    if p.op == "str":
        return t.s(p.a[0][:k])
    x = I.idx_of(p)
    if x is None:
        x = (p, "i", zero())
    if x[0].op != "ptr":
        return None
    return charpart(I.read(x[0]), x[2], k)


def charpart(v, off, k):
    if v.op == "ite":
        a, b = charpart(v.a[1], off, k), charpart(v.a[2], off, k)
        return None if a is None or b is None else ite(v.a[0], a, b)
    if (v.op == "sym" and v.ty == "o" or v.op == "str") and \
            off is zero() and k == 4:
        return v
    if v.op == "str" and off.op == "c" and off.a[0] + k <= len(v.a[0]):
        return t.s(v.a[0][int(off.a[0]):int(off.a[0]) + k])
    if v.op == "chars" and off.op == "c" and off.a[0] + k <= v.a[2].a[0]:
        return mk("chars", v.a[0], add(v.a[1], off), C(k))
    if v.op == "old":
        x = charpart(v.a[0], off, k)
        return mk("old", x) if x is not None else None
    return None


@model("std::basic_ios::operator bool", "std::basic_ios::good",
       "std::basic_istream::operator bool")
def _ios_bool(I, n, obj, args):
    s = objv(I, n, obj)
    if is_bstream(s):
        return not_(t.getfield(s, "bad", "b"))
    if s.op == "lineok":
        return s.a[0]
    if s.op != "rec":
        return mk("streamgood", s, ty="b")
    i = t.getfield(s, "in")
    if i.op == "lineok":
        return i.a[0]
    if i.op == "stm":
        if i.a[1] is zero():
            return mk("streamok", t.getfield(s, "path"), ty="b") if \
                t.getfield(s, "path").op != "null" else TRUE
    if i.op == "null" and t.getfield(s, "path").op != "null":
        return mk("streamok", t.getfield(s, "path"), ty="b")
    return mk("streamgood", s, ty="b")


@model("std::basic_ios::operator!", "std::basic_ios::fail")
def _ios_not(I, n, obj, args):
    return not_(_ios_bool(I, n, obj, args))


MODELS["std::basic_ios::eof"] = lambda I, n, o, a: unk("eof", "b")


def split_text(x, d):
    """parts of a text; a text given by its parts carries its delimiter"""
    if x.op == "text" and x.a[0] is d:
        return seq(*x.a[1:])
    if x.op == "str" and d.op == "c":
        parts = x.a[0].split(chr(int(d.a[0])))
        if not parts[-1]:
            parts.pop()
        return seq(*[t.s(p) for p in parts])
    return mk("split", x, d)


@model("std::getline")
def _getline(I, n, obj, args):
    p = I.lval(args[0])
    sp = I.lval(args[1])
    d = I.rv(args[2]) if len(args) > 2 else C(10)
    s = I.read(p)
    i = t.getfield(s, "in")
    if i.op != "stm":
        I.write(sp, unk("getline"))
        return R(I.temp(mk("lineok", unk("getline", "b"))))
    items = split_text(i.a[0], d)
    pos = i.a[1]
    ok = lt(pos, length(items))
    I.write(sp, ite(ok, get(items, pos), t.s("")))
    I.write(I.addpath(p, ("f", "in")),
            mk("stm", i.a[0], add(pos, ite(ok, one(), zero()))))
    return R(I.temp(mk("lineok", ok)))


def _manip(a, v):
    ty = a.get("t", "")
    return ty


@model("std::operator<<", "std::basic_ostream::operator<<")
def _shl(I, n, obj, args):
    ns = ([obj] if obj is not None else []) + list(args)
    p = I.lval(ns[0])
    a = ns[1]
    v = I.rv(a)
    s = I.read(p)
    q = None
    if v.op == "fnptr":
        q = v.a[0]
        if q.endswith("endl"):
            v = t.s("\n")
        else:
            return R(p)          # fixed, right, ...
    ty = strip_targs(base_type(a.get("t", "")))
    if ty in ("std::_Setw", "std::_Setfill", "std::_Setbase"):
        return R(p)
    if ty == "std::_Setprecision":
        if s.op == "rec":
            I.write(I.addpath(p, ("f", "prec")), v.a[-1] if v.op == "obj"
                    and v.a else v)
        return R(p)
    if v.op == "c" and base_type(a.get("t", "")) == "char":
        v = t.s(chr(int(v.a[0])))
    if v.op == "tokens":
        toks = v.a[0]
    else:
        prec = t.getfield(s, "prec") if s.op == "rec" else zero()
        if v.ty == "f" or kind(a.get("t", "")) == "f":
            v = mk("num", v, prec)
        toks = seq(v)
    if s.op == "rec":
        I.write(I.addpath(p, ("f", "data")), cat(t.getfield(s, "data"), toks))
    elif s.op in ("with",):
        d = t.getfield(s, "data")
        I.write(I.addpath(p, ("f", "data")), cat(d, toks))
    else:
        I.emit("print", "<<", (v,), n)
    return R(p)


@model("std::setprecision", "std::setw", "std::setfill")
def _setprec(I, n, obj, args):
    return mk("obj", "manip", I.rv(args[0]))


MODELS["std::basic_ifstream::rdbuf"] = lambda I, n, o, a: mk(
    "rdbuf", t.getfield(objv(I, n, o), "path"))
MODELS["std::basic_ios::rdbuf"] = MODELS["std::basic_ifstream::rdbuf"]


def _ignore(I, n, obj, args):
    for a in args:
        try:
            I.rv(a)
        except Exception:
            raise
    return VOID


@model("absl::raw_logging_internal::RawLog", "printf", "fprintf", "puts",
       "absl::raw_logging_internal::Basename", "fflush", "std::fflush",
       "std::printf", "arma::Base::print")
def _log(I, n, obj, args):
    if n["fn"]["q"].endswith("RawLog"):
        # FATAL ends the program
        sev = args[0]
        I.silent += 1
        try:
            for a in args[1:]:
                I.rv(a)
        finally:
            I.silent -= 1
        if str(sev.get("cv")) == "3":
            I.die()
        I.emit("log", "RawLog", (), n)
        return VOID
    for a in args:
        I.rv(a)
    return t.s("") if n["fn"]["q"].endswith("Basename") else VOID


@model("absl::MutexLock::MutexLock", "std::lock_guard::lock_guard",
       "std::unique_lock::unique_lock", "std::scoped_lock::scoped_lock",
       "absl::Mutex::Lock", "absl::Mutex::Unlock", "std::mutex::lock",
       "std::mutex::unlock")
def _lock(I, n, obj, args):
    return VOID


# ---------------------------------------------------------------- filesystem

@model("std::filesystem::path::path")
def _path(I, n, obj, args):
    if not args:
        return t.s("")
    return I.rv(args[0])


MODELS["std::filesystem::path::string"] = lambda I, n, o, a: objv(I, n, o)
MODELS["std::filesystem::path::c_str"] = MODELS["std::filesystem::path::string"]
MODELS["std::filesystem::path::native"] = MODELS["std::filesystem::path::string"]


@model("std::filesystem::exists", "std::filesystem::is_regular_file")
def _exists(I, n, obj, args):
    p = I.rv(args[0])
    r = mk("exists", p, ty="b")
    for e in I.events:
        # opening a file for writing creates it
        if e.kind == "open" and e.name == "ofstream" and e.args[0] is p:
            r = or_(r, e.cond)
    return r


MODELS["std::filesystem::current_path"] = lambda I, n, o, a: sym("cwd")


@model("absl::GetFlag")
def _getflag(I, n, obj, args):
    a = args[0]
    name = None
    for x in _walk(a):
        if x.get("k") == "Ref" and str(x.get("q", x.get("name", ""))
                                       ).split("::")[-1].startswith("FLAGS_"):
            name = str(x.get("q", x.get("name"))).split("::")[-1][6:]
    if name is None:
        return unk("flag", kind(n["fn"]["rt"]))
    h = getattr(I, "flags", {}).get(name)
    if h is not None:
        return h
    return sym("flag:" + name, kind(n["fn"]["rt"]))


def _walk(n):
    from program import walk
    return walk(n)


MODELS["absl::ParseCommandLine"] = lambda I, n, o, a: sym("positional")
MODELS["absl::SetProgramUsageMessage"] = lambda I, n, o, a: VOID


# ---------------------------------------------------------------- C memory

@model("malloc", "std::malloc", "calloc")
def _malloc(I, n, obj, args):
    vs = [I.rv(a) for a in args]
    sz = vs[0] if len(vs) == 1 else mul(vs[0], vs[1])
    r = hroot(I, "malloc")
    I.st.store[r] = mk("heaparr", "malloc", sz, mk("hid", r[2], r[3]))
    I.emit("malloc", "malloc", (I.ptr(r), sz), n)
    I.hsize[r[:3]] = sz
    return I.ptr(r, (("i", zero()),))


@model("pffft_aligned_malloc")
def _amalloc(I, n, obj, args):
    sz = I.rv(args[0])
    r = hroot(I, "pffft_aligned_malloc")
    I.st.store[r] = mk("heaparr", "malloc", sz, mk("hid", r[2], r[3]))
    I.emit("malloc", "pffft_aligned_malloc", (I.ptr(r), sz), n)
    I.hsize[r[:3]] = sz
    return I.ptr(r, (("i", zero()),))


@model("svm_free_and_destroy_model")
def _svm_destroy(I, n, obj, args):
    p = I.rv(args[0])
    I.emit("call", "svm_free_and_destroy_model", (p,), n)
    if p.op == "ptr":
        I.write(p, NULL)
    return VOID


@model("free", "std::free", "pffft_aligned_free")
def _free(I, n, obj, args):
    v = I.rv(args[0])
    I.emit("free", n["fn"]["q"].split("::")[-1], (v,), n)
    return VOID


@model("memset", "std::memset")
def _memset(I, n, obj, args):
    p, v, sz = [I.rv(a) for a in args[:3]]
    I.emit("memset", "memset", (p, v, sz), n)
    x = I.idx_of(p) if p.op == "ptr" else None
    if x:
        I.write(x[0], mk("memset", I.read(x[0]), v, sz))
    elif p.op == "ptr":
        I.write(p, mk("memset", I.read(p), v, sz))
    return p


@model("memcpy", "std::memcpy", "memmove")
def _memcpy(I, n, obj, args):
    p, q, sz = [I.rv(a) for a in args[:3]]
    I.emit("memcpy", "memcpy", (p, q, sz), n)
    x = I.idx_of(p) if p.op == "ptr" else None
    if x:
        I.write(x[0], unk("memcpy"))
    elif p.op == "ptr":
        I.write(p, unk("memcpy"))
    return p


# ---------------------------------------------------------------- protobuf

def _msg_default(ty):
    k = kind(ty)
    if k == "b":
        return FALSE
    if k in ("i", "f"):
        return zero()
    if "basic_string" in ty:
        return t.s("")
    return None


def pb(q):
    """handler for a generated accessor"""
    cls, m = q.rsplit("::", 1)
    if not any(x in cls for x in MSG) or "::" not in cls:
        return None

    def getf(I, o, name, ty):
        v = t.getfield(o, name, kind(ty))
        if v.op == "undef":
            d = _msg_default(ty)
            v = d if d is not None else rec("msg:?", {})
        return v

    def rep(I, o, name):
        v = t.getfield(o, name)
        return seq() if v.op == "undef" else v

    def setter(I, n, obj, args):
        v = I.rv(args[0])
        p = objp(I, n, obj)
        if base_type(n["fn"]["pt"][0]) == "float":
            v = t.f32(v)
        I.write(I.addpath(p, ("f", m[4:])), v)
        return VOID

    def adder(I, n, obj, args):
        p = objp(I, n, obj)
        f = I.addpath(p, ("f", m[4:]))
        cur = rep(I, I.read(p), m[4:])
        if args:
            v = I.rv(args[0])
            if base_type(n["fn"]["pt"][0]) == "float":
                v = t.f32(v)
            I.write(f, cat(cur, seq(v)))
            return VOID
        I.write(f, cat(cur, seq(rec("msg:?", {}))))
        return I.addpath(f, ("i", length(cur)))

    def mut(I, n, obj, args):
        p = objp(I, n, obj)
        f = I.addpath(p, ("f", m[8:]))
        if args:
            return I.addpath(f, ("i", I.rv(args[0])))
        o = I.read(p)
        if t.getfield(o, m[8:]).op == "undef":
            if base_type(n["fn"]["rt"]).startswith(
                    "google::protobuf::Repeated"):
                I.write(f, seq())
            else:
                I.write(f, rec("msg:?", {}))
        return f

    def size(I, n, obj, args):
        return length(rep(I, objv(I, n, obj), m[:-5]))

    def has(I, n, obj, args):
        o = objv(I, n, obj)
        v = t.getfield(o, m, "b")
        if v.op == "undef":
            return FALSE if t.getfield(o, m[4:]).op == "undef" else TRUE
        return v

    def assign(I, n, obj, args):
        v = I.rv(args[0])
        p = I.lval(obj)
        I.write(p, v)
        return R(p)

    def clear(I, n, obj, args):
        p = objp(I, n, obj)
        if m == "Clear":
            I.write(p, rec("msg:?", {}))
        else:
            I.write(I.addpath(p, ("f", m[6:])), UNDEF)
        return VOID

    def getter(I, n, obj, args):
        o = objv(I, n, obj)
        if args:
            p = objp(I, n, obj)
            s = rep(I, o, m)
            i = I.rv(args[0])
            if I.obl:
                I.emit("index", m, (s, i, length(s)), n)
            return get(s, i, kind(n["fn"]["rt"]))
        if "Repeated" in n["fn"]["rt"]:
            return rep(I, o, m)
        return getf(I, o, m, base_type(n["fn"]["rt"]))

    if m.startswith("operator="):
        return assign
    if m == cls.split("::")[-1]:
        return None
    if m.startswith("set_"):
        return setter
    if m.startswith("add_"):
        return adder
    if m.startswith("mutable_"):
        return mut
    if m.endswith("_size"):
        return size
    if m.startswith("has_"):
        return has
    if m == "Clear" or m.startswith("clear_"):
        return clear
    if m in ("CopyFrom", "MergeFrom", "Swap", "ShortDebugString",
             "DebugString"):
        return None
    if m.startswith("~"):
        return None
    return getter


class _ByLast(dict):
    pass


BY_LAST = {}


def lookup(q):
    h = MODELS.get(q)
    if h is not None:
        return h
    if q.startswith("Visqol::SimilarityResultMsg") or \
            q.startswith("Visqol::VisqolConfig"):
        return pb(q)
    return None


@model("google::protobuf::util::MessageToJsonString")
def _json(I, n, obj, args):
    v = I.rv(args[0])
    p = I.rv(args[1])
    I.write(p, mk("json", v))
    return status(ite(mk("jsonok", v, ty="b"), zero(), C(3)))


# ---------------------------------------------------------------- arma

def msym(v):
    return v


@model("arma::Mat::Mat", "arma::Col::Col", "arma::Row::Row")
def _mat_ctor(I, n, obj, args):
    f = n["fn"]
    cls = strip_targs(base_type(f.get("cls") or n.get("t", "")))
    if n.get("copy") or n.get("move"):
        return I.read(I.lval(args[0]))
    kind_ = cls.split("::")[-1]
    if not args:
        return emptymat()
    pts = f["pt"]
    if kind(pts[0]) == "i" and len(args) >= 2 and kind(pts[1]) == "i":
        r, c = I.rv(args[0]), I.rv(args[1])
        k1, k2 = fresh("r", "i"), fresh("c", "i")
        cx = "complex" in (f.get("cls") or n.get("t", ""))
        return t.mat(r, c, k1, k2, cplx(zero(), zero()) if cx else zero())
    if base_type(pts[0]).endswith("*") and len(args) >= 3:
        p, r, c = [I.rv(a) for a in args[:3]]
        if len(args) >= 4 and args[3].get("cv") in ("0", 0):
            I.emit("borrow", "arma::Mat", (p,), n)
        x = I.idx_of(p)
        if x is None:
            return unk("matrix data")
        k = fresh("k", "i")
        src = I.read(x[0])
        if I.obl:
            I.emit("range", "arma::Mat", (src, add(x[2], mul(r, c)),
                   t.nelem(src) if x[1] == "lin" else length(src)), n)
        et = kind(base_type(pts[0])[:-1].strip())
        return t.elem(r, c, k, I.step(src, (x[1], add(x[2], k)), et))
    if base_type(pts[0]).endswith("*") and len(args) == 2:
        p, r = [I.rv(a) for a in args[:2]]
        x = I.idx_of(p)
        k = fresh("k", "i")
        if x is None:
            return unk("matrix data")
        src = I.read(x[0])
        return t.elem(r, one(), k, I.step(src, (x[1], add(x[2], k)), "f"))
    v = I.rv(args[0])
    if len(args) == 1 and kind(pts[0]) == "i":
        k1, k2 = fresh("r", "i"), fresh("c", "i")
        r, c = (v, one()) if kind_ == "Col" else (one(), v)
        return t.mat(r, c, k1, k2, zero())
    at = strip_targs(base_type(args[0].get("t", "")))
    if at in ("std::vector", "std::valarray", "std::initializer_list"):
        et = kind(elemtype(args[0].get("t", "")))
        k1, k2 = fresh("r", "i"), fresh("c", "i")
        L = length(v)
        if kind_ == "Row":
            return t.mat(one(), L, k1, k2, get(v, k2, et))
        return t.mat(L, one(), k1, k2, get(v, k1, et))
    return v


def mobj(I, n, obj):
    return objp(I, n, obj)


def _mat_call(I, n, obj, args):
    p = mobj(I, n, obj)
    a = [I.rv(x) for x in args]
    if I.obl:
        v = I.read(p)
        if len(a) == 2:
            I.emit("matindex", "(,)", (v, a[0], a[1]), n)
        else:
            I.emit("index", "()", (v, a[0], t.nelem(v)), n)
    if len(a) == 2:
        return R(I.addpath(p, ("at", a[0], a[1])))
    return R(I.addpath(p, ("lin", a[0])))


for _m in ("operator()", "at", "operator[]"):
    for _c in ("arma::Mat", "arma::Col", "arma::Row"):
        MODELS[_c + "::" + _m] = _mat_call
MODELS["arma::Mat::begin"] = MODELS["arma::Mat::cbegin"] = \
    MODELS["arma::Mat::memptr"] = \
    lambda I, n, o, a: I.addpath(mobj(I, n, o), ("lin", zero()))


@model("arma::Mat::end", "arma::Mat::cend")
def _mat_end(I, n, obj, args):
    p = mobj(I, n, obj)
    return I.addpath(p, ("lin", t.nelem(I.read(p))))


@model("arma::Mat::operator=")
def _mat_assign(I, n, obj, args):
    v = I.rv(args[0])
    p = I.lval(obj)
    I.write(p, v)
    return R(p)


@model("arma::subview_col::operator=", "arma::subview_row::operator=",
       "arma::subview::operator=")
def _sub_assign(I, n, obj, args):
    v = I.rv(args[0])
    p = I.lval(obj)
    I.write(p, v)
    return R(p)


MODELS["arma::Mat::col"] = lambda I, n, o, a: R(
    I.addpath(mobj(I, n, o), ("col", I.rv(a[0]))))
MODELS["arma::Mat::row"] = lambda I, n, o, a: R(
    I.addpath(mobj(I, n, o), ("row", I.rv(a[0]))))
MODELS["arma::Mat::unsafe_col"] = MODELS["arma::Mat::col"]


def submat(m, r0, c0, r1, c1):
    k1, k2 = fresh("r", "i"), fresh("c", "i")
    return t.mat(add(sub(r1, r0), one()), add(sub(c1, c0), one()), k1, k2,
                 t.at(m, add(r0, k1), add(c0, k2)))


def subidx(I, n, m, r0, c0, r1, c1):
    if I.obl:
        I.emit("submat", n["fn"]["q"], (m, r0, c0, r1, c1), n)


@model("arma::Mat::submat")
def _submat(I, n, obj, args):
    m = I.read(mobj(I, n, obj))
    a = [I.rv(x) for x in args]
    if len(a) != 4:
        return None
    subidx(I, n, m, a[0], a[1], a[2], a[3])
    return submat(m, a[0], a[1], a[2], a[3])


@model("arma::Mat::rows")
def _rows(I, n, obj, args):
    m = I.read(mobj(I, n, obj))
    a = [I.rv(x) for x in args]
    c1 = sub(t.cols(m), one())
    subidx(I, n, m, a[0], zero(), a[1], c1)
    return submat(m, a[0], zero(), a[1], c1)


@model("arma::Mat::cols")
def _cols(I, n, obj, args):
    m = I.read(mobj(I, n, obj))
    a = [I.rv(x) for x in args]
    r1 = sub(t.rows(m), one())
    subidx(I, n, m, zero(), a[0], r1, a[1])
    return submat(m, zero(), a[0], r1, a[1])


@model("arma::subview_row::subvec", "arma::subview_col::subvec",
       "arma::Row::subvec", "arma::Col::subvec")
def _subvec(I, n, obj, args):
    m = I.rv(obj)
    a = [I.rv(x) for x in args]
    if "row" in n["fn"]["q"].lower():
        subidx(I, n, m, zero(), a[0], zero(), a[1])
        return submat(m, zero(), a[0], zero(), a[1])
    subidx(I, n, m, a[0], zero(), a[1], zero())
    return submat(m, a[0], zero(), a[1], zero())


@model("arma::conv_to::from")
def _conv(I, n, obj, args):
    m = I.rv(args[0])
    if is_seq(m):
        return m
    k = fresh("k", "i")
    if strip_targs(base_type(n["fn"]["rt"])).startswith("std::"):
        return t.smap(t.nelem(m), k, t.lin(m, k))
    return m


@model("arma::Mat::fill")
def _mfill(I, n, obj, args):
    p = mobj(I, n, obj)
    m = I.read(p)
    v = I.rv(args[0])
    k1, k2 = fresh("r", "i"), fresh("c", "i")
    I.write(p, t.mat(t.rows(m), t.cols(m), k1, k2, v))
    return R(p)


@model("arma::Mat::zeros", "arma::Mat::ones")
def _mzeros(I, n, obj, args):
    p = mobj(I, n, obj)
    m = I.read(p)
    a = [I.rv(x) for x in args]
    r, c = (a[0], a[1]) if len(a) == 2 else (t.rows(m), t.cols(m))
    k1, k2 = fresh("r", "i"), fresh("c", "i")
    I.write(p, t.mat(r, c, k1, k2, zero() if "zeros" in n["fn"]["q"]
                     else one()))
    return R(p)


@model("arma::Mat::set_size")
def _set_size(I, n, obj, args):
    p = mobj(I, n, obj)
    a = [I.rv(x) for x in args]
    k1, k2 = fresh("r", "i"), fresh("c", "i")
    g = fresh("garbage")
    I.write(p, t.mat(a[0], a[1], k1, k2, mk("at", g, k1, k2, ty="f")))
    return R(p)


@model("arma::Mat::reshape")
def _reshape(I, n, obj, args):
    if len(args) != 2:
        return None
    p = I.lval(obj)
    m = I.read(p)
    r, c = I.rv(args[0]), I.rv(args[1])
    k1, k2 = fresh("r", "i"), fresh("c", "i")
    at = add(k1, mul(k2, r))
    I.write(p, t.mat(r, c, k1, k2, ite(lt(at, t.nelem(m)), t.lin(m, at),
                                       zero())))
    return VOID


@model("arma::Mat::resize")
def _mresize(I, n, obj, args):
    p = mobj(I, n, obj)
    m = I.read(p)
    r, c = [I.rv(x) for x in args]
    k1, k2 = fresh("r", "i"), fresh("c", "i")
    I.write(p, t.mat(r, c, k1, k2, ite(
        and_(lt(k1, t.rows(m)), lt(k2, t.cols(m))), t.at(m, k1, k2), zero())))
    return VOID


def ismatty(a):
    q = strip_targs(base_type(a.get("t", "")))
    return q.startswith("arma::") or q == "Visqol::AMatrix"


def _arma_bin(op):
    def h(I, n, obj, args):
        ns = ([obj] if obj is not None else []) + list(args)
        if len(ns) != 2:
            return None
        a, b = I.rv(ns[0]), I.rv(ns[1])
        ma, mb = ismatty(ns[0]), ismatty(ns[1])
        k1, k2 = fresh("r", "i"), fresh("c", "i")
        cx = "complex" in ns[0].get("t", "") + ns[1].get("t", "")
        if ma and mb:
            if op == "matmul":
                if cx:
                    return I.unknown("matrix product", n)
                k = fresh("k", "i")
                return t.mat(t.rows(a), t.cols(b), k1, k2, t.ssum(
                    t.cols(a), k, mul(t.at(a, k1, k), t.at(b, k, k2))))
            x = t.at(a, k1, k2)
            y = t.at(b, k1, k2)
            R_, C_ = t.rows(a), t.cols(a)
        elif ma:
            x, y = t.at(a, k1, k2), b
            R_, C_ = t.rows(a), t.cols(a)
        else:
            x, y = a, t.at(b, k1, k2)
            R_, C_ = t.rows(b), t.cols(b)
        o = {"matmul": "*", "%": "*"}.get(op, op)
        return t.mat(R_, C_, k1, k2, elop(o, x, y, cx))
    return h


for _o in ("+", "-", "/", "%"):
    MODELS["arma::operator" + _o] = _arma_bin(_o)
MODELS["arma::operator*"] = _arma_bin("matmul")


@model("arma::trans", "arma::Mat::t", "arma::strans")
def _trans(I, n, obj, args):
    m = I.rv(args[0] if args else obj)
    k1, k2 = fresh("r", "i"), fresh("c", "i")
    return t.mat(t.cols(m), t.rows(m), k1, k2, t.at(m, k2, k1))


@model("arma::flipud", "arma::fliplr")
def _flip(I, n, obj, args):
    m = I.rv(args[0])
    k1, k2 = fresh("r", "i"), fresh("c", "i")
    if n["fn"]["q"].startswith("arma::flipud"):
        return t.mat(t.rows(m), t.cols(m), k1, k2,
                     t.at(m, sub(sub(t.rows(m), one()), k1), k2))
    return t.mat(t.rows(m), t.cols(m), k1, k2,
                 t.at(m, k1, sub(sub(t.cols(m), one()), k2)))


@model("arma::join_vert", "arma::join_cols")
def _joinv(I, n, obj, args):
    a, b = I.rv(args[0]), I.rv(args[1])
    return join_vert(a, b)


def join_vert(a, b):
    # an empty operand leaves the other as it is
    if a.op == "mat" and t.rows(a) is zero() and t.cols(a) is zero():
        return b
    if b.op == "mat" and t.rows(b) is zero() and t.cols(b) is zero():
        return a
    k1, k2 = fresh("r", "i"), fresh("c", "i")
    ra = t.rows(a)
    ca = t.cols(a)
    # operands agree in columns (arma refuses others)
    return t.mat(add(ra, t.rows(b)), ca if ca.op == "c" or
                 t.cols(b).op != "c" else t.cols(b), k1, k2,
                 ite(lt(k1, ra), t.at(a, k1, k2),
                     t.at(b, sub(k1, ra), k2)))


@model("arma::join_horiz", "arma::join_rows")
def _joinh(I, n, obj, args):
    a, b = I.rv(args[0]), I.rv(args[1])
    k1, k2 = fresh("r", "i"), fresh("c", "i")
    ca = t.cols(a)
    return t.mat(t.rows(a), add(ca, t.cols(b)), k1, k2,
                 ite(lt(k2, ca), t.at(a, k1, k2), t.at(b, k1, sub(k2, ca))))


def mean_dim(m, dim):
    k1, k2, k = fresh("r", "i"), fresh("c", "i"), fresh("k", "i")
    if dim is zero():
        n = t.rows(m)
        return t.mat(one(), t.cols(m), k1, k2,
                     div(t.ssum(n, k, t.at(m, k, k2)), n))
    if dim is one():
        n = t.cols(m)
        return t.mat(t.rows(m), one(), k1, k2,
                     div(t.ssum(n, k, t.at(m, k1, k)), n))
    return None


def sd_dim(m, dim, norm):
    k1, k2, k = fresh("r", "i"), fresh("c", "i"), fresh("k", "i")
    if dim is zero():
        n = t.rows(m)

        def el(i):
            return t.at(m, i, k2)
    elif dim is one():
        n = t.cols(m)

        def el(i):
            return t.at(m, k1, i)
    else:
        return None
    mu = div(t.ssum(n, k, el(k)), n)
    d = sub(el(k), mu)
    den = sub(n, one()) if norm is zero() else n
    v = t.fn("sqrt", div(t.ssum(n, k, mul(d, d)), den))
    if dim is zero():
        return t.mat(one(), t.cols(m), k1, k2, v)
    return t.mat(t.rows(m), one(), k1, k2, v)


@model("arma::mean")
def _mean(I, n, obj, args):
    m = I.rv(args[0])
    d = I.rv(args[1]) if len(args) > 1 else zero()
    if d.op == "ite":
        a, b = mean_dim(m, d.a[1]), mean_dim(m, d.a[2])
        if a is not None and b is not None:
            return ite(d.a[0], a, b)
    r = mean_dim(m, d)
    return r if r is not None else mk("mean", m, d)


@model("arma::stddev", "arma::var")
def _stddev(I, n, obj, args):
    m = I.rv(args[0])
    norm = I.rv(args[1]) if len(args) > 1 else zero()
    d = I.rv(args[2]) if len(args) > 2 else zero()
    if n["fn"]["q"].startswith("arma::var"):
        return I.unknown("var", n)
    r = sd_dim(m, d, norm)
    return r if r is not None else mk("stddev", m, norm, d)


@model("arma::accu")
def _accu(I, n, obj, args):
    m = I.rv(args[0])
    k1, k2 = fresh("r", "i"), fresh("c", "i")
    return t.ssum(t.cols(m), k2, t.ssum(t.rows(m), k1, t.at(m, k1, k2)))


def mstep(I, v, s, ty):
    """column / row of a matrix"""
    k1, k2 = fresh("r", "i"), fresh("c", "i")
    if s[0] == "col":
        return t.mat(t.rows(v), one(), k1, k2, t.at(v, k1, s[1]))
    return t.mat(one(), t.cols(v), k1, k2, t.at(v, s[1], k2))


def mset(I, v, s, x):
    k1, k2 = fresh("r", "i"), fresh("c", "i")
    if is_seq(x):
        def el(i):
            return get(x, i, "f")
    else:
        def el(i):
            return t.lin(x, i)
    if s[0] == "col":
        e = el(k1) if is_seq(x) or t.cols(x) is not one() else t.at(
            x, k1, zero())
        return t.mat(t.rows(v), t.cols(v), k1, k2,
                     ite(eq(k2, s[1]), e, t.at(v, k1, k2)))
    e = el(k2) if is_seq(x) or t.rows(x) is not one() else t.at(
        x, zero(), k2)
    return t.mat(t.rows(v), t.cols(v), k1, k2,
                 ite(eq(k1, s[1]), e, t.at(v, k1, k2)))


MATFIELDS = {"n_rows": t.rows, "n_cols": t.cols, "n_elem": t.nelem}


# library functions that are pure and whose result is kept symbolic
UNINTERPRETED = {"svm_load_model", "svm_predict", "svm_train",
                 "svm_free_model_content",
                 "pffft_new_setup", "pffft_destroy_setup",
                 "pffft_transform", "pffft_transform_ordered",
                 "pffft_zreorder",
                 "tflite::FlatBufferModel::BuildFromFile",
                 "tflite::Interpreter::AllocateTensors",
                 "tflite::Interpreter::GetSignatureRunner",
                 "tflite::Interpreter::ModifyGraphWithDelegate",
                 "tflite::InterpreterBuilder::SetNumThreads",
                 "tflite::InterpreterBuilder::operator()",
                 "tflite::SignatureRunner::Invoke",
                 "tflite::SignatureRunner::input_tensor",
                 "tflite::SignatureRunner::output_tensor",
                 "TfLiteXNNPackDelegateCreate",
                 "TfLiteXNNPackDelegateDelete",
                 "TfLiteXNNPackDelegateOptionsDefault",
                 "google::protobuf::Message::ShortDebugString",
                 "std::numeric_limits::epsilon",
                 "std::basic_istream::read", "std::basic_istream::gcount",
                 "std::basic_istream::seekg", "std::basic_istream::tellg",
                 "std::fpos::operator long"}
