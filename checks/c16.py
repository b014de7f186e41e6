import re

from common import *
from program import walk, base_type, is_ref

TECHNIQUE = "abstract interpretation to value graphs (the caller's buffers at " \
    "the end compared with the start), a provenance (escape) analysis of " \
    "every returned, stored or bound reference over the typed syntax tree, " \
    "and ownership rules over the field types"
EXPLANATION = "The measuring entry points and every constructor taking a view " \
    "are interpreted: what the caller's reference signal and sample buffers " \
    "hold at the end must be what they held before. Over every function: " \
    "const is not cast away from data that is then writable, matrices are " \
    "not built on memory they do not own and then kept, no returned, stored " \
    "or locally bound reference, pointer, view or by-reference lambda refers " \
    "to a local, a by-value parameter or a temporary. Over every record: the " \
    "value types contain no reference, pointer, view or shared owner; " \
    "classes that keep a caller's reference are only used as locals."

VALUES = ("Visqol::AMatrix<double>", "Visqol::AMatrix<std::complex<double>>",
          "Visqol::AudioSignal", "Visqol::Spectrogram", "Visqol::ImagePatch",
          "Visqol::PatchSimilarityResult", "Visqol::SimilarityResult")
VIEWS = re.compile(r"^(const )?(volatile )?(absl::|std::|gsl::)?"
                   r"(__1::|__cxx11::)?(string_view|basic_string_view|Span|"
                   r"span|initializer_list|reference_wrapper)\b|"
                   r"__normal_iterator|^(const )?arma::(subview|diagview|"
                   r"eOp|eGlue|Op|Glue)\b")
SHARED = re.compile(r"\b(shared_ptr|weak_ptr|__shared_ptr)\b")
HEAP = ("malloc", "calloc", "pffft_aligned_malloc", "pffft_new_setup",
        "svm_load_model", "svm_train", "TfLiteXNNPackDelegateCreate")


def pointer(ty):
    return str(ty).strip().rstrip("const").strip().endswith("*")


def view(ty):
    return bool(VIEWS.search(str(ty).strip()))


def refers(ty):
    ty = str(ty)
    return is_ref(ty) or pointer(ty) or view(ty)


def plain(ty):
    return base_type(str(ty).replace("*", "")).strip()


def everything(f):
    yield from walk(f.get("body") or {})
    for i in f.get("inits") or []:
        yield from walk(i.get("e") or {})


class Function:
    """where the references a function handles come from"""

    def __init__(self, W, f):
        self.W, self.f = W, f
        self.params = {p["id"]: (i, p) for i, p in enumerate(f["params"])}
        self.vars, self.lambdas, self.inner = {}, [], set()
        self.assigned = {}
        for n in everything(f):
            k = n.get("k")
            if k == "Decl":
                for v in n["vars"]:
                    self.vars[v["id"]] = v
            if k in ("If", "While") and isinstance(n.get("var"), dict):
                self.vars[n["var"]["id"]] = n["var"]
            if k == "RangeFor" and isinstance(n.get("v"), dict):
                v = dict(n["v"])
                v["over"] = n["range"]
                self.vars[v["id"]] = v
            if k == "Assign" and n["a"].get("k") == "Ref":
                self.assigned.setdefault(n["a"].get("id"), []).append(n["b"])
            if k == "Call" and n.get("op") == "=" and n.get("args"):
                a = n["args"][0] if n.get("obj") is None else n["obj"]
                if a.get("k") == "Ref":
                    self.assigned.setdefault(a.get("id"), []).append(
                        n["args"][-1])
            if k == "Lambda":
                self.lambdas.append(n)
                for x in walk(n.get("body") or {}):
                    self.inner.add(id(x))
                for p in n.get("params") or []:
                    self.vars[p["id"]] = dict(p, lam=True)

    # the object an lvalue (or view, or pointer when `deref`) expression means
    def object(self, e, depth=0):
        if depth > 40 or not isinstance(e, dict):
            return {("?",)}
        k = e.get("k")
        go = lambda x: self.object(x, depth + 1)
        to = lambda x: self.target(x, depth + 1)
        if k == "This":
            return {("this",)}
        if k == "Ref":
            dk, i = e.get("dk"), e.get("id")
            if dk in ("global", "slocal", "func", "enum"):
                return {("static",)}
            if i in self.params:
                n, p = self.params[i]
                if is_ref(p["t"]):
                    return {("param", n)}
                return {("local", p["name"])}
            v = self.vars.get(i)
            if v is None:
                return {("?",)}
            if v.get("static"):
                return {("static",)}
            if is_ref(v["t"]):
                if v.get("lam"):
                    return {("?",)}
                if v.get("over") is not None:
                    return self.inside(v["over"], depth + 1)
                if v.get("init"):
                    return self.extended(v["init"], depth + 1)
                return {("?",)}
            return {("local", v["name"])}
        if k == "Member":
            return to(e["base"]) if e.get("arrow") else go(e["base"])
        if k == "Index":
            a = e["a"]
            return to(a) if pointer(a.get("t")) else go(a)
        if k == "Un" and e.get("op") == "*":
            return to(e["e"])
        if k in ("Un", "Assign") and e.get("lv"):
            return go(e.get("e") or e.get("a"))
        if k == "Bin" and e.get("op") == ",":
            return go(e["b"])
        if k == "Cond":
            return go(e["a"]) | go(e["b"])
        if k == "Cast":
            return go(e["e"]) if e["e"].get("lv") or e["e"].get("xv") or \
                e.get("ck") in ("NoOp", "DerivedToBase",
                                "UncheckedDerivedToBase",
                                "ConstructorConversion",
                                "UserDefinedConversion") \
                else {("temp", e.get("l"))}
        if k == "Str":
            return {("static",)}
        if k == "Call":
            rt = str((e.get("fn") or {}).get("rt") or e.get("t"))
            if is_ref(rt):
                return self.called(e, depth + 1)
            return {("temp", e.get("l"))}
        if k in ("Construct", "InitList", "Int", "Float", "Zero", "Bin", "Un",
                 "Lambda", "StdInit"):
            return {("temp", e.get("l"))}
        return {("?",)}

    def extended(self, e, depth):
        """what a reference bound to e means (a temporary bound directly, or a
        part of one, lives as long as the reference)"""
        x = e
        while isinstance(x, dict) and (
                x.get("k") == "Cast" or
                x.get("k") == "Member" and not x.get("arrow")):
            x = x.get("e") if x["k"] == "Cast" else x.get("base")
        if x.get("k") == "Cond":
            return self.extended(x["a"], depth) | self.extended(x["b"], depth)
        r = self.object(x, depth)
        if all(o[0] == "temp" for o in r) and not (
                x.get("k") == "Call" and is_ref(str(
                    (x.get("fn") or {}).get("rt") or ""))):
            return {("local", "")}
        return r

    def inside(self, e, depth):
        """what the elements of the sequence e belong to"""
        if view(plain_ty(e)) or pointer(plain_ty(e)):
            return self.target(e, depth)
        return self.extended(e, depth)

    # what a pointer, view or iterator value refers into
    def target(self, e, depth=0):
        if depth > 40 or not isinstance(e, dict):
            return {("?",)}
        k = e.get("k")
        go = lambda x: self.object(x, depth + 1)
        to = lambda x: self.target(x, depth + 1)
        if k == "This":
            return {("this",)}
        if k in ("Null", "Str", "Int", "Zero"):
            return {("static",)}
        if k in ("New",):
            return {("heap",)}
        if k == "Cast":
            if e.get("ck") == "ArrayToPointerDecay":
                return go(e["e"])
            return to(e["e"])
        if k == "Un" and e.get("op") == "&":
            return go(e["e"])
        if k == "Un":
            return to(e["e"]) if e.get("op") in ("++", "--", "+") else {("?",)}
        if k == "Bin":
            if e.get("op") == ",":
                return to(e["b"])
            r = set()
            for x in (e["a"], e["b"]):
                if pointer(x.get("t")) or "*" in str(x.get("t")) or view(
                        x.get("t")):
                    r |= to(x)
            return r or {("?",)}
        if k == "Cond":
            return to(e["a"]) | to(e["b"])
        if k == "Assign":
            return to(e["a"])
        if k == "Ref":
            i = e.get("id")
            if e.get("dk") in ("global", "slocal", "func"):
                return {("?",)}
            if i in self.params:
                n, p = self.params[i]
                if view(plain(p["t"])) or "*" in p["t"]:
                    return {("of", n)}
                return {("?",)}
            v = self.vars.get(i)
            if v is None or v.get("lam"):
                return {("?",)}
            r = set()
            if v.get("over") is not None:
                return {("?",)}
            if v.get("init"):
                r |= to(v["init"])
            for x in self.assigned.get(i, []):
                if depth < 8:
                    r |= to(x)
            return r or {("?",)}
        if k == "Member":
            b = self.target(e["base"], depth + 1) if e.get("arrow") else go(
                e["base"])
            if str(e.get("cls")).startswith("arma::"):
                return b  # the elements are the matrix's own
            return {("held", x) for x in b}
        if k == "Construct":
            if view(e.get("t")):
                a = [x for x in e.get("args") or []]
                if not a:
                    return {("static",)}
                if view(plain_ty(a[0])) or pointer(plain_ty(a[0])) or \
                        "[" in str(a[0].get("t")):
                    return to(a[0])
                return go(a[0])
            return {("?",)}
        if k == "Call":
            if is_ref(str((e.get("fn") or {}).get("rt"))):
                # the pointer or view found there
                return self.handed(e, depth + 1)
            return self.called(e, depth + 1)
        return {("?",)}

    def handed(self, e, depth):
        fn = e.get("fn") or {}
        args = list(e.get("args") or [])
        g = self.W.P.fns.get(fn.get("u"))
        r = set()
        if g is not None:
            for o in self.W.gives(g):
                if o[0] == "param" and o[1] < len(args):
                    r |= self.target(args[o[1]], depth)
        elif str(fn.get("q")).split("::")[-1] in ("move", "forward",
                                                  "as_const") and args:
            r |= self.target(args[0], depth)
        return r or {("?",)}

    def called(self, e, depth):
        """what the reference, pointer or view a call gives refers to"""
        fn = e.get("fn") or {}
        q = str(fn.get("q"))
        short = q.split("::")[-1]
        args = list(e.get("args") or [])
        obj = e.get("obj")
        if short in HEAP:
            return {("heap",)}
        g = self.W.P.fns.get(fn.get("u"))
        if g is not None:
            r = set()
            for o in self.W.gives(g):
                if o == ("this",):
                    r |= self.receiver(e, depth)
                elif o[0] == "param" and o[1] < len(args):
                    r |= self.object(args[o[1]], depth)
                elif o[0] == "of" and o[1] < len(args):
                    a = args[o[1]]
                    r |= self.target(a, depth)
                elif o[0] in ("static", "heap"):
                    r.add(o)
                else:
                    r.add(("?",))
            return r
        if short in ("move", "forward", "as_const", "addressof", "data",
                     "begin", "end", "cbegin", "cend", "get", "front", "back",
                     "next", "prev", "CheckNotNull") and obj is None and args:
            a = args[0]
            if short in ("next", "prev"):
                return self.target(a, depth)
            if view(plain_ty(a)) and short not in ("move", "forward",
                                                   "as_const", "addressof"):
                return self.target(a, depth)
            return self.object(a, depth)
        if short in ("min", "max", "clamp", "minmax", "exchange") and \
                obj is None:
            r = set()
            for a in args[:3]:
                r |= self.object(a, depth)
            return r
        if obj is not None or e.get("op") in ("[]", "()", "*", "->", "=",
                                              "+=", "++", "--", "+", "-"):
            if obj is None and not args:
                return {("?",)}
            o = obj if obj is not None else args[0]
            ty = plain_ty(o)
            if e.get("arrow") and obj is not None:
                return self.target(o, depth)
            if view(ty) or pointer(ty):
                return self.target(o, depth)
            if re.search(r"_ptr\b", ty) and short in ("operator*",
                                                      "operator->", "get"):
                return {("?",)}
            return self.object(o, depth)
        if e.get("op") in ("<<", ">>") and args:
            return self.object(args[0], depth)
        return {("?",)}

    def receiver(self, e, depth):
        o = e.get("obj")
        if o is None:
            o = (e.get("args") or [{}])[0]
        if e.get("arrow") or pointer(o.get("t")):
            return self.target(o, depth)
        return self.object(o, depth)

    def returned(self):
        for n in everything(self.f):
            if n.get("k") == "Return" and n.get("e") and \
                    id(n) not in self.inner:
                yield n


def plain_ty(e):
    return str(e.get("t") or "").replace("&", "").strip()


class World:
    def __init__(self, P):
        self.P, self.memo, self.fs, self.busy = P, {}, {}, set()

    def of(self, f):
        u = f["u"]
        if u not in self.fs:
            self.fs[u] = Function(self, f)
        return self.fs[u]

    def gives(self, f):
        u = f["u"]
        if u in self.memo:
            return self.memo[u]
        if u in self.busy:
            return {("?",)}
        self.busy.add(u)
        F, rt = self.of(f), str(f.get("ret") or "")
        r = set()
        for n in F.returned():
            r |= F.object(n["e"]) if is_ref(rt) else F.target(n["e"])
        self.busy.discard(u)
        self.memo[u] = r
        return r


def gone(o):
    return o[0] in ("local", "temp")


def said(o):
    return {"local": "a local object", "temp": "a temporary"}[o[0]] + (
        " (%s)" % o[1] if o[0] == "local" and o[1] else "")


def owned_type(c, ty, seen):
    """the first part of a value type that refers to other memory"""
    ty = str(ty).strip()
    if refers(ty) or SHARED.search(ty):
        return ty
    m = re.search(r"<(.*)>", ty)
    q = re.sub(r"^const ", "", ty)
    r = c.P.records.get(q) or c.P.records.get("Visqol::" + q)
    if r is not None:
        if q in seen:
            return None
        seen.add(q)
        for b in r.get("bases") or []:
            x = owned_type(c, b if isinstance(b, str) else b.get("t", ""), seen)
            if x:
                return x
        for f in r["fields"]:
            if f.get("static"):
                continue
            x = owned_type(c, f["t"], seen)
            if x:
                return "%s::%s, a %s" % (q, f["name"], x)
        return None
    if m and re.match(r"(const )?(std|absl)::", ty):
        depth, cur = 0, ""
        parts = []
        for ch in m.group(1):
            depth += ch == "<"
            depth -= ch == ">"
            if ch == "," and not depth:
                parts.append(cur)
                cur = ""
            else:
                cur += ch
        parts.append(cur)
        for p in parts[:2]:
            p = p.strip()
            if pointer(p) or view(p) or SHARED.search(p):
                return p
            if p in c.P.records:
                x = owned_type(c, p, seen)
                if x:
                    return x
    return None


def const_pointee(ty):
    ty = str(ty).strip()
    if ty.endswith("const") and "*" in ty:
        ty = ty[:-5].strip()
    if ty.endswith("*") or ty.endswith("&"):
        return re.match(r"const\b", ty) is not None or \
            ty.rstrip("*& ").endswith("const")
    return None


def check(c):
    W = World(c.P)
    views = {}

    # ---- the caller's data at the end of the entry points
    @c.rule("caller", "VisqolApi::Measure")
    def _():
        w = "VisqolApi::Measure"
        f = c.fn(API + "::Measure")
        names = [p["name"] or "p%d" % i for i, p in enumerate(f["params"])]
        r = c.run(f, names=names, opaque=opq(MGR + "::Run"))
        for i, p in enumerate(f["params"]):
            if not refers(p["t"]):
                c.held("the caller's samples are unchanged", w,
                       "%s is passed by value" % names[i])
                continue
            c.eq("the caller's samples are unchanged", w, r.arg(i),
                 sym("p:" + names[i]), what="the %s buffer at the end" % (
                     "reference", "degraded")[min(i, 1)])

    for by_path, mode in itertools.product((False, True), MODES):
        w = "VisqolManager::Run(%s), %s" % (
            "paths" if by_path else "signals", mode)

        @c.rule("caller", w)
        def _():
            s, _r = init_manager(c, *MODES[mode])
            f = run_overload(c, by_path)
            r = s.call(f, names=["ref", "deg"])
            for i in range(2 if by_path else 1):
                c.eq("the caller's reference is unchanged", w, r.arg(i),
                     sym(("p:ref", "p:deg")[i]), what="%s at the end" % (
                         "the reference", "the degraded path")[i])

    @c.rule("caller", "Visqol::CalculateSimilarity")
    def _():
        w = "Visqol::CalculateSimilarity"
        f = c.fn("Visqol::Visqol::CalculateSimilarity")
        p = f["params"][0]
        if is_ref(p["t"]) and const_pointee(p["t"]):
            c.held("the caller's reference is unchanged", w,
                   "the reference signal is read through a const reference")
        elif not is_ref(p["t"]) and not pointer(p["t"]):
            c.held("the caller's reference is unchanged", w, "a copy")
        else:
            c.undecided("the caller's reference is unchanged", w,
                        "not passed as const", f["l"])

    seen = set()
    for f in c.P.fns.values():
        if not f.get("ctor") or f.get("cls") not in VALUES:
            continue
        for i, p in enumerate(f["params"]):
            ty = str(p["t"])
            if ty.endswith("&&") or not refers(ty) or \
                    const_pointee(ty) and not view(plain(ty)):
                continue
            w = "%s(%s)" % (f["cls"].replace("Visqol::", ""),
                            plain(ty))
            if w in seen:
                continue
            seen.add(w)

            @c.rule("caller", w)
            def _(f=f, i=i, w=w):
                r = built(c, f)
                c.eq("building from a view leaves the data unchanged", w,
                     r.arg(i), sym("p:a%d" % i), what="the data at the end")

    # ---- every function
    sites = {"const": 0, "aux": 0, "ret": 0, "bind": 0, "store": 0, "lam": 0,
             "hole": 0}

    def bad(rule, f, note, n):
        c.violated(rule, f["q"], note,
                   "%s:%s" % (f["file"], n.get("l") or f["l"]))

    holes = {}
    R = {"const": "const is not cast away to write",
         "aux": "matrices own their elements",
         "ret": "nothing returned refers to a dead object",
         "bind": "no local reference outlives what it refers to",
         "store": "nothing kept refers to a dead object",
         "lam": "no lambda outlives what it captures"}

    def callers(f):
        """const member functions that hand out their data for writing"""
        if not holes:
            return
        for n in everything(f):
            if n.get("k") != "Call" or \
                    (n.get("fn") or {}).get("u") not in holes:
                continue
            sites["hole"] += 1
            o = n.get("obj")
            ty = str((o or {}).get("t"))
            con = re.match(r"const\b", ty) is not None
            if o is not None and (o.get("k") == "This" or n.get("arrow")):
                con = const_pointee(ty) or f.get("const") and \
                    o.get("k") == "This"
            if con and not reading(f, n):
                bad(R["const"], f, "%s of a const object" % (
                    n["fn"]["q"].split("::")[-1]), n)

    def aux(f, n):
        a = n.get("args") or []
        pt = (n.get("fn") or {}).get("pt") or []
        if not a or not pt or not pointer(pt[0]):
            return
        sites["aux"] += 1
        flag = None
        for x, ty in list(zip(a, pt))[2:]:
            if str(ty).replace("const ", "") in ("bool", "_Bool"):
                flag = x
                break
        if flag is None:
            return
        v = flag.get("cv")
        y = flag
        while v is None and y.get("k") == "Cast":
            y = y["e"]
            v = y.get("cv")
        if str(v) in ("1", "true"):
            return
        kept = keeps(f, n)
        if kept and str(v) in ("0", "false"):
            bad(R["aux"], f, "built on memory it does not own, then %s" % kept,
                n)
        elif kept:
            c.undecided(R["aux"], f["q"], "whether the memory is copied",
                        "%s:%s" % (f["file"], n.get("l")))

    @c.rule("provenance", "all functions")
    def _():
        for f in c.P.fns.values():
            for n in everything(f):
                if n.get("k") == "Cast":
                    a, b = str(n.get("t")), str(n["e"].get("t"))
                    if "*" in a:
                        drop = const_pointee(b) and const_pointee(a) is False
                    else:
                        drop = n.get("lv") and n["e"].get("lv") and re.match(
                            r"const\b", b) and not re.match(r"const\b", a)
                    if drop and n.get("ck") in (
                                "NoOp", "BitCast", "ConstCast",
                                "LValueBitCast", "Dependent"):
                        sites["const"] += 1
                        constness(c, W, f, n, holes, R["const"])
                if n.get("k") == "Call" and str(
                        (n.get("fn") or {}).get("q")).startswith("arma::") \
                        and str(n["fn"]["q"]).split("::")[-1] == "rw":
                    sites["const"] += 1
                    bad(R["const"], f, "arma::access::rw", n)
                if n.get("k") == "Construct" and "arma::" in str(n.get("t")):
                    aux(f, n)
        for f in c.P.fns.values():
            callers(f)
        c.held(R["const"], "all functions", "%d functions, %d casts from "
               "const to non-const, %d calls of accessors that drop const" % (
                   len(c.P.fns), sites["const"], sites["hole"]))
        c.held(R["aux"], "all functions",
               "%d constructions of matrices from memory" % sites["aux"])

    @c.rule("provenance", "returned references")
    def _():
        for f in c.P.fns.values():
            rt = str(f.get("ret") or "")
            F = W.of(f)
            if refers(rt):
                for n in F.returned():
                    sites["ret"] += 1
                    r = F.object(n["e"]) if is_ref(rt) else F.target(n["e"])
                    for o in r:
                        if gone(o):
                            bad(R["ret"], f, "returns a reference to " +
                                said(o), n)
                            break
            for n in F.returned():
                e = n["e"]
                for lam in walk(e):
                    if lam.get("k") == "Lambda":
                        sites["lam"] += 1
                        for cap in lam.get("caps") or []:
                            if cap.get("byref") and not cap.get("this") and \
                                    result_of(e, lam):
                                bad(R["lam"], f, "returns a lambda that holds "
                                    "%s by reference" % cap.get("name"), n)
                                break
        c.held(R["ret"], "all functions",
               "%d return statements" % sites["ret"])
        c.held(R["lam"], "all functions",
               "%d lambdas in return statements" % sites["lam"])

    @c.rule("provenance", "local references")
    def _():
        for f in c.P.fns.values():
            F = W.of(f)
            for n in everything(f):
                if n.get("k") == "RangeFor":
                    sites["bind"] += 1
                    e = n["range"]
                    if view(plain_ty(e)):
                        r = F.target(e)
                    else:
                        r = F.extended(e, 0)
                    if any(o[0] == "temp" for o in r):
                        bad(R["bind"], f, "iterates over part of a temporary",
                            n)
                if n.get("k") != "Decl":
                    continue
                for v in n["vars"]:
                    ty = str(v["t"])
                    if not v.get("init") or not refers(ty):
                        continue
                    sites["bind"] += 1
                    if is_ref(ty):
                        r = F.extended(v["init"], 0)
                    else:
                        r = F.target(v["init"])
                    dead = [o for o in r if o[0] == "temp"]
                    if dead:
                        bad(R["bind"], f, "%s refers to a temporary" %
                            v["name"], n)
                    if v.get("static") and any(o[0] in ("local", "param", "of")
                                               for o in r):
                        bad(R["store"], f, "static %s refers to the caller's "
                            "or a local object" % v["name"], n)
        c.held(R["bind"], "all functions",
               "%d references, pointers and views bound" % sites["bind"])

    @c.rule("provenance", "kept references")
    def _():
        for f in c.P.fns.values():
            F = W.of(f)
            for field, ty, e, n, how in stores(c, F):
                if not refers(ty):
                    if any(x.get("k") == "Lambda" and any(
                            y.get("byref") and not y.get("this")
                            for y in x.get("caps") or []) and result_of(e, x)
                            for x in walk(e)):
                        bad(R["lam"], f, "%s keeps a lambda that captures "
                            "locals by reference" % field, n)
                    continue
                sites["store"] += 1
                r = F.object(e) if is_ref(ty) else F.target(e)
                for o in r:
                    if gone(o):
                        bad(R["store"], f, "%s refers to %s" % (
                            field, said(o)), n)
                        break
                for o in r:
                    if o[0] in ("param", "of"):
                        if how == "static":
                            bad(R["store"], f, "%s refers to the caller's "
                                "object" % field, n)
                        elif f.get("cls"):
                            views.setdefault(f["cls"], (field, f, n))
        c.held(R["store"], "all functions",
               "%d stores of references" % sites["store"])

    # ---- types
    @c.rule("types", "value types")
    def _():
        for q in VALUES:
            if q not in c.P.records:
                continue
            x = owned_type(c, q, set())
            if x:
                c.violated("value types own what they hold", q,
                           "holds %s" % x, c.P.records[q].get("file"))
            else:
                c.held("value types own what they hold", q,
                       "%d fields" % len(c.P.records[q]["fields"]))

    @c.rule("types", "views")
    def _():
        rule = "a class that keeps a caller's reference is only a local"
        for q, (field, g, n) in sorted(views.items()):
            if q in VALUES:
                c.violated(rule, q, "%s refers to the caller's memory" % field,
                           "%s:%s" % (g["file"], n.get("l") or g["l"]))
                continue
            found = False
            name = re.compile(r"(?<![\w:])(Visqol::)?" +
                              re.escape(q.replace("Visqol::", "")) +
                              r"(?![\w:])")
            for rq, r in c.P.records.items():
                if rq == q:
                    continue
                for fl in r["fields"]:
                    if name.search(str(fl["t"])):
                        c.violated(rule, q, "%s::%s keeps one" % (
                            rq, fl["name"]), r.get("file"))
                        found = True
            for f in c.P.fns.values():
                if name.search(str(f.get("ret") or "")) and f.get("cls") != q:
                    c.violated(rule, q, "%s returns one" % f["q"],
                               "%s:%s" % (f["file"], f["l"]))
                    found = True
                for x in everything(f):
                    if x.get("k") == "New" and name.search(
                            str(x.get("t"))) or x.get("k") == "Call" and \
                            str(x["fn"].get("q")).split("::")[-1] in (
                                "make_unique", "make_shared") and \
                            name.search(str(x.get("t"))):
                        c.violated(rule, q, "allocated by %s" % f["q"],
                                   "%s:%s" % (f["file"], x.get("l")))
                        found = True
            if not found:
                c.held(rule, q, "keeps %s; only used as a local" % field)


def built(c, f):
    s = c.session(f["cls"], {})
    names = ["a%d" % k for k in range(len(f["params"]))]
    return s.call(f, names=names)


def reading(f, n):
    """whether the data handed out is only read, on the spot"""
    for x in everything(f):
        if x.get("k") == "Cast" and x.get("ck") == "LValueToRValue":
            y = x["e"]
            while isinstance(y, dict) and y.get("k") in ("Index", "Un", "Cast",
                                                         "Bin"):
                y = y.get("a") or y.get("e")
            if y is n:
                return True
        if x.get("k") == "Decl":
            for v in x["vars"]:
                if v.get("init") and const_pointee(v["t"]):
                    y = v["init"]
                    while y.get("k") == "Cast":
                        y = y["e"]
                    if y is n:
                        return True
    return False


def result_of(e, part):
    """whether part can be (inside) the value of e, not just used by it"""
    k = e.get("k") if isinstance(e, dict) else None
    if e is part:
        return True
    if k in ("Cast",):
        return result_of(e["e"], part)
    if k == "Cond":
        return result_of(e["a"], part) or result_of(e["b"], part)
    if k == "Construct" and ("function<" in str(e.get("t")) or
                             "lambda" in str(e.get("t"))):
        return any(result_of(a, part) for a in e.get("args") or [])
    if k == "Call" and str((e.get("fn") or {}).get("q")).split("::")[-1] in (
            "move", "forward", "bind"):
        return any(result_of(a, part) for a in e.get("args") or [])
    return False


def parents(f):
    up = {}
    for r in [f.get("body") or {}] + [i.get("e") or {}
                                      for i in f.get("inits") or []]:
        for n in walk(r):
            for v in n.values():
                for x in v if isinstance(v, list) else [v]:
                    if isinstance(x, dict):
                        up[id(x)] = n
                        if "k" not in x:
                            for y in x.values():
                                if isinstance(y, dict):
                                    up[id(y)] = n
    return up


def keeps(f, n):
    """how the matrix constructed by n outlives the expression, if it does"""
    up = parents(f)
    for i in f.get("inits") or []:
        e = i.get("e")
        while isinstance(e, dict) and e.get("k") in ("Cast",):
            e = e["e"]
        if e is n and i.get("field"):
            return "kept by " + i["field"]
    x = n
    while True:
        p = up.get(id(x))
        if p is None:
            return None
        k = p.get("k")
        if k == "Cast" or k == "Construct" and (p.get("move") or
                                                p.get("copy")):
            x = p
            continue
        if k == "Return":
            return "returned"
        if k == "Call" and p.get("op") == "=":
            pt = (p.get("fn") or {}).get("pt") or [""]
            return "moved into another" if str(pt[-1]).endswith("&&") else None
        if k == "Call" and str((p.get("fn") or {}).get("q")).split(
                "::")[-1] in ("move", "forward"):
            x = p
            continue
        if k in ("Call", "Construct"):
            a = list(p.get("args") or [])
            pt = (p.get("fn") or {}).get("pt") or []
            for y, ty in zip(a[-len(pt):] if pt else [], pt):
                if y is x and str(ty).endswith("&&") and "arma::" in str(ty):
                    return "moved into another"
            return None
        if k == "Decl":
            for v in p["vars"]:
                if v.get("init") is x or v.get("init") is n:
                    if v.get("static"):
                        return "kept by " + v["name"]
                    return passed_on(f, v, up)
            return None
        return None


def passed_on(f, v, up):
    for n in everything(f):
        if n.get("k") != "Ref" or n.get("id") != v["id"]:
            continue
        x = n
        while True:
            p = up.get(id(x))
            if p is None:
                break
            k = p.get("k")
            q = str((p.get("fn") or {}).get("q")).split("::")[-1]
            if k == "Return":
                return "returned"
            if k == "Call" and q in ("move", "forward"):
                return "moved into another"
            if k == "Cast" or k == "Construct" and (p.get("move") or
                                                    p.get("copy")):
                x = p
                continue
            break
    return None


def constness(c, W, f, n, holes, rule):
    """n casts const away: fine if only read, or handed on to a reader"""
    up = parents(f)
    x = n
    loc = "%s:%s" % (f["file"], n.get("l") or f["l"])
    while True:
        p = up.get(id(x))
        if p is None:
            break
        k = p.get("k")
        if k == "Cast":
            if p.get("ck") == "LValueToRValue" or const_pointee(p.get("t")):
                return
            x = p
            continue
        if k == "Return":
            if refers(f.get("ret")) and not const_pointee(f["ret"]):
                if f.get("const") and f.get("cls"):
                    holes[f["u"]] = f
                    return
                c.violated(rule, f["q"], "hands out const data for writing",
                           loc)
            return
        if k == "Index" and p.get("a") is x or k == "Un" and \
                p.get("op") == "*":
            x = p
            continue
        if k == "Member":
            x = p
            continue
        if k == "Decl":
            for v in p["vars"]:
                if v.get("init") is x or v.get("init") is n:
                    return local_use(c, W, f, v, rule, loc, up)
            return
        if k == "Assign":
            if p.get("a") is x:
                c.violated(rule, f["q"], "writes through a cast from const",
                           loc)
                return
            return stored_use(c, f, p["a"], rule, loc)
        if k == "Un" and p.get("op") in ("++", "--"):
            c.violated(rule, f["q"], "writes through a cast from const", loc)
            return
        if k in ("Call", "Construct"):
            return argument(c, f, p, x, rule, loc)
        return


READERS = ("svm_train", "svm_predict", "svm_check_parameter", "pffft_transform",
           "memcpy", "fwrite")


def argument(c, f, p, x, rule, loc):
    q = str((p.get("fn") or {}).get("q"))
    pt = (p.get("fn") or {}).get("pt") or []
    a = list(p.get("args") or [])
    if p.get("obj") is x:
        if (p.get("fn") or {}).get("const"):
            return
        c.violated(rule, f["q"], "%s on a cast from const" % q, loc)
        return
    for y, ty in zip(a[len(a) - len(pt):], pt):
        if y is x:
            if not refers(ty) or const_pointee(ty):
                return
    if q.split("::")[-1] in READERS:
        return
    c.violated(rule, f["q"], "%s may write through a cast from const" % q, loc)


def local_use(c, W, f, v, rule, loc, up):
    if const_pointee(v["t"]):
        return
    for n in everything(f):
        if n.get("k") != "Ref" or n.get("id") != v["id"]:
            continue
        x = n
        while True:
            p = up.get(id(x))
            if p is None:
                break
            k = p.get("k")
            if k == "Cast" and p.get("ck") == "LValueToRValue" and \
                    not pointer(p.get("t")):
                break
            if k == "Cast" or k == "Index" and p.get("a") is x or \
                    k == "Un" and p.get("op") == "*" or k == "Member":
                x = p
                continue
            if k == "Assign" and p.get("a") is x and x is not n and \
                    x.get("k") != "Cast":
                c.violated(rule, f["q"], "writes through a cast from const",
                           loc)
                return
            if k == "Assign" and p.get("b") is x:
                stored_use(c, f, p["a"], rule, loc)
                break
            if k == "Un" and p.get("op") in ("++", "--") and x is not n:
                c.violated(rule, f["q"], "writes through a cast from const",
                           loc)
                return
            if k in ("Call", "Construct"):
                argument(c, f, p, x, rule, loc)
            break


def stored_use(c, f, a, rule, loc):
    """kept in a record of libsvm's that svm_train only reads"""
    if a.get("k") == "Member" and str(a.get("cls", "")).split("::")[-1] in (
            "svm_problem",):
        return
    if a.get("k") == "Ref":
        return
    c.violated(rule, f["q"], "keeps a pointer cast from const", loc)


def stores(c, F):
    """(field, type, value, node, how) of what F's function keeps"""
    f = F.f
    rec = c.P.records.get(f.get("cls")) or {"fields": []}
    ft = {x["name"]: x["t"] for x in rec["fields"]}
    for i in f.get("inits") or []:
        if i.get("field") in ft and i.get("e"):
            yield i["field"], ft[i["field"]], i["e"], i["e"], "member"
    for n in everything(f):
        k = n.get("k")
        a = b = None
        if k == "Assign" and n.get("op", "=") == "=":
            a, b = n["a"], n["b"]
        if k == "Call" and n.get("op") == "=" and n.get("args"):
            a = n.get("obj") if n.get("obj") is not None else n["args"][0]
            b = n["args"][-1]
        if a is None:
            continue
        while a.get("k") == "Cast":
            a = a["e"]
        if a.get("k") == "Member":
            base = a.get("base") or {}
            if base.get("k") == "This":
                yield a.get("name"), str(a.get("t")), b, n, "member"
        if a.get("k") == "Ref" and a.get("dk") in ("global", "slocal"):
            yield a.get("name", "a global"), str(a.get("t")), b, n, "static"
