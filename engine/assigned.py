"""Definite assignment on the syntax tree.

Locals and members of a type without initial value are followed through every
function: which may still be without a value, which may have one. A read of one
that may lack a value is reported as certain (no path to the read assigns it)
or as possible (some do).
"""
from program import base_type, strip_targs, is_ref, is_const_ref, walk

NORETURN = {"exit", "abort", "_exit", "std::exit", "std::abort",
            "std::terminate", "std::quick_exit", "quick_exit", "__assert_fail"}


def strip_cv(ty):
    return ty.replace("const ", "").strip()


def scalar(ty):
    b = base_type(ty)
    return ty.rstrip().endswith("*") or b in (
        "bool", "char", "signed char", "unsigned char", "short",
        "unsigned short", "int", "unsigned int", "long", "unsigned long",
        "long long", "unsigned long long", "float", "double", "long double",
        "wchar_t")


class Types:
    def __init__(self, P):
        self.P = P
        self.ctors = {}
        for f in P.fns.values():
            if f.get("ctor") and f.get("cls"):
                self.ctors.setdefault(f["cls"], []).append(f)

    def user_ctor(self, cls):
        r = self.P.records.get(cls)
        return bool([f for f in self.ctors.get(cls, ())
                     if not f.get("copyctor") and not f.get("movector")
                     and not f.get("defaulted")]) or \
            r is not None and r.get("ctors_unseen")

    def leaves(self, ty, depth=0):
        """paths of the members default initialisation leaves without value"""
        ty = strip_cv(ty)
        if scalar(ty):
            return [()]
        if "[" in ty:
            e = ty[:ty.index("[")].strip()
            return [()] if scalar(e) or self.leaves(e, depth + 1) else []
        b = base_type(ty)
        r = self.P.records.get(b)
        if r is None or depth > 4 or self.user_ctor(b):
            return []
        out = []
        for f in r["fields"]:
            if f.get("hasinit") or is_ref(f["t"]):
                continue
            for p in self.leaves(f["t"], depth + 1):
                out.append((f["name"],) + p)
        return out


class Report:
    def __init__(self, kind, var, f, line, sure, through=None):
        self.kind, self.var, self.f, self.line = kind, var, f, line
        self.sure, self.through = sure, through


class State:
    """un: may have no value; has: may have one"""
    __slots__ = ("un", "has")

    def __init__(self, un=frozenset(), has=frozenset()):
        self.un, self.has = un, has

    def start(self, ks):
        ks = frozenset(ks)
        return State(self.un | ks, self.has - ks)

    def give(self, ks):
        ks = frozenset(ks)
        return State(self.un - ks, self.has | ks)

    def __eq__(self, o):
        return o is not None and self.un == o.un and self.has == o.has


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return State(a.un | b.un, a.has | b.has)


class Flow:
    """one function (and, in a constructor, the members it calls)"""

    def __init__(self, T, f, reports, track=None, depth=0, seen=None):
        self.T, self.P, self.f = T, T.P, f
        self.reports = reports
        self.cls = track             # class whose members are followed
        self.depth = depth
        self.seen = seen if seen is not None else set()
        self.rets = None
        self.brk, self.cont = [], []
        self.names = {}
        self.reads = 0
        self.vars = 0

    # ------------------------------------------------------------- functions
    def run(self, st=None):
        st = st or State()
        st = self.stmt(self.f.get("body"), st)
        return join(st, self.rets)

    def construct(self, fields):
        """state at the end of a constructor"""
        st = State().start(fields)
        for i in self.f.get("inits") or ():
            if i.get("delegate"):
                return None
            if i.get("e"):
                st = self.expr(i["e"], st)
            if i.get("field"):
                ks = [k for k in fields if k[1] == i["field"]]
                e = i.get("e") or {}
                bare = [k for k in ks if len(k) > 2]
                if e.get("k") == "Construct" and not e.get("args") and \
                        e.get("default", True) and not i.get("written") and \
                        bare:
                    continue
                st = st.give(ks)
        # members of class type have been constructed
        st = st.give([k for k in fields if len(k) == 2 and k not in
                      self.scalars])
        st = self.stmt(self.f.get("body"), st)
        return join(st, self.rets)

    # ------------------------------------------------------------- statements
    def stmt(self, s, st):
        if s is None or st is None:
            return st
        if isinstance(s, list):
            for x in s:
                st = self.stmt(x, st)
                if st is None:
                    # a label may follow
                    continue
            return st
        k = s["k"]
        if k == "Block":
            for x in s["s"]:
                st = self.stmt(x, st)
            return st
        if k == "Decl":
            for v in s["vars"]:
                st = self.decl(v, st)
            return st
        if k == "Expr":
            return self.expr(s.get("e"), st)
        if k == "If":
            st = self.stmt(s.get("init"), st)
            st = self.stmt(s.get("var"), st)
            a, b = self.cond(s.get("c"), st)
            a = self.stmt(s.get("a"), a)
            b = self.stmt(s.get("b"), b) if s.get("b") else b
            return join(a, b)
        if k in ("While", "For", "Do", "RangeFor"):
            return self.loop(s, st)
        if k == "Return":
            st = self.expr(s.get("e"), st, "read" if not is_ref(
                self.f.get("ret") or "") else "addr")
            self.rets = join(self.rets, st)
            return None
        if k == "Break":
            self.brk[-1] = join(self.brk[-1], st)
            return None
        if k == "Continue":
            self.cont[-1] = join(self.cont[-1], st)
            return None
        if k == "Switch":
            return self.switch(s, st)
        if k in ("Case", "Default", "Label"):
            return self.stmt(s.get("body") or s.get("s") or s.get("a"), st)
        if k == "Try":
            out = self.stmt(s.get("body"), st)
            for h in s.get("handlers") or ():
                hs = State(st.un, st.has | (out.has if out else frozenset()))
                out = join(out, self.stmt(
                    h.get("body") if isinstance(h, dict) and "body" in h
                    else h, hs))
            return out
        if k == "Goto":
            return None
        if k == "OtherStmt":
            return st
        return self.expr(s, st)

    def decl(self, v, st):
        if v.get("static"):
            return self.expr(v.get("init"), st)
        ty = v.get("t", "")
        if v.get("init") is not None and not v.get("noinit"):
            mode = "read"
            if is_ref(ty) and not is_const_ref(ty) or \
                    ty.rstrip().endswith("&"):
                mode = "addr"
            e = v["init"]
            st = self.expr(e, st, mode)
            if not (e.get("k") == "Construct" and not e.get("args") and
                    e.get("default", True) and not e.get("zero")):
                return st
        if is_ref(ty):
            return st
        ks = [("v", v["id"]) + p for p in self.T.leaves(ty)]
        for x in ks:
            self.names[x] = ".".join((v.get("name") or "?",) + x[2:])
        self.vars += len(ks)
        return st.start(ks) if st is not None else None

    def loop(self, s, st):
        if s.get("init"):
            st = self.stmt(s["init"], st)
        if st is None:
            return None
        do = s["k"] == "Do"
        if s["k"] == "RangeFor":
            st = self.expr(s.get("range"), st, "use")
        head, out = st, None
        n = len(self.reports)
        for _ in range(4):
            del self.reports[n:]
            self.brk.append(None)
            self.cont.append(None)
            if do:
                a, b = head, None
            elif s["k"] == "RangeFor":
                a, b = head, head
                if s.get("v"):
                    pass
            else:
                x = self.stmt(s.get("var"), head) if s.get("var") else head
                a, b = self.cond(s.get("c"), x) if s.get("c") else (x, None)
            e = self.stmt(s.get("body") or s.get("a"), a)
            e = join(e, self.cont.pop())
            if s.get("inc") and e is not None:
                e = self.expr(s["inc"], e)
            if do and e is not None:
                e, b = self.cond(s.get("c"), e)
            out = join(b, self.brk.pop())
            new = join(head, e)
            if new == head:
                break
            head = new
        return out

    def switch(self, s, st):
        st = self.stmt(s.get("init"), st)
        st = self.stmt(s.get("var"), st)
        st = self.expr(s.get("c"), st)
        if st is None:
            return None
        self.brk.append(None)
        cur, deflt = None, False

        def go(x, cur):
            nonlocal deflt
            while x is not None and x["k"] in ("Case", "Default"):
                deflt |= x["k"] == "Default"
                cur = join(cur, st)
                x = x.get("body") or x.get("s") or x.get("a")
                if isinstance(x, list):
                    for y in x:
                        cur = go(y, cur)
                    return cur
            return self.stmt(x, cur) if x is not None else cur
        b = s.get("body") or s.get("a")
        for x in (b["s"] if b and b["k"] == "Block" else [b]):
            cur = go(x, cur)
        out = join(cur, self.brk.pop())
        if not deflt:
            out = join(out, st)
        return out

    # ------------------------------------------------------------ expressions
    def cond(self, e, st):
        """states where e is true and where it is false"""
        if st is None or e is None:
            return st, st
        if "cv" in e:
            x = self.expr(e, st)
            return (x, None) if int(e["cv"]) else (None, x)
        k = e["k"]
        if k == "Cast":
            return self.cond(e.get("e"), st) if e.get("ck") in (
                "NoOp", "IntegralToBoolean") else (self.expr(e, st),) * 2
        if k == "Un" and e.get("op") == "!":
            a, b = self.cond(e.get("e"), st)
            return b, a
        if k == "Bin" and e.get("op") in ("&&", "||"):
            a, b = self.cond(e["a"], st)
            if e["op"] == "&&":
                t, f = self.cond(e["b"], a)
                return t, join(b, f)
            t, f = self.cond(e["b"], b)
            return join(a, t), f
        x = self.expr(e, st)
        return x, x

    def key(self, e):
        """the variable or member an lvalue expression denotes"""
        path = []
        while e is not None:
            k = e["k"]
            if k == "Ref" and e.get("dk") == "var":
                return ("v", e["id"]) + tuple(reversed(path))
            if k == "Member" and "fn" not in e:
                b = e.get("base")
                if e.get("arrow"):
                    if b and self.is_this(b) and self.cls:
                        return ("f", e["name"]) + tuple(reversed(path))
                    return None
                path.append(e["name"])
                e = b
                continue
            if k == "Cast" and e.get("ck") in ("NoOp", "ArrayToPointerDecay"):
                e = e.get("e")
                continue
            if k == "Index":
                b = e.get("a") if isinstance(e.get("a"), dict) and \
                    e["a"].get("ck") == "ArrayToPointerDecay" else e.get("base")
                e = b
                continue
            return None

    def is_this(self, e):
        while e and e["k"] == "Cast":
            e = e.get("e")
        return e is not None and e["k"] == "This"

    def under(self, key, ks):
        return [k for k in ks if k[:len(key)] == key or key[:len(k)] == k]

    def read(self, e, st):
        k = self.key(e)
        if k is None or st is None:
            return st
        hit = self.under(k, st.un)
        self.reads += 1
        for x in hit:
            self.reports.append(Report(
                "member" if x[0] == "f" else "local",
                self.names.get(x, ".".join(x[1:])), self.f, e.get("l"),
                x not in st.has))
        return st

    def lv(self, e, st, mode):
        """lvalue e used in a mode: write, read, addr"""
        k = self.key(e)
        # index expressions and bases are evaluated
        x = e
        while x is not None and x["k"] in ("Member", "Index", "Cast"):
            if x["k"] == "Index":
                i = x.get("b")
                st = self.expr(i, st) if isinstance(i, dict) else st
                x = x.get("a") or x.get("base")
            elif x["k"] == "Member":
                if x.get("arrow") and not self.is_this(x.get("base")):
                    return self.expr(x.get("base"), st)
                x = x.get("base")
            else:
                if x.get("ck") == "LValueToRValue":
                    return self.expr(x, st)
                x = x.get("e")
        if x is not None and x["k"] not in ("Ref", "This", "Member"):
            st = self.expr(x, st, "use")
        if k is None or st is None:
            return st
        if mode == "read":
            return self.read(e, st)
        if mode in ("write", "addr"):
            ks = self.under(k, st.un | st.has)
            if mode == "addr":
                ks = [y for y in ks if y[0] == "v" or y in self.scalars
                      or len(y) > 2]
            return st.give(ks)
        return st

    def expr(self, e, st, mode="use"):
        if e is None or st is None:
            return st
        if isinstance(e, list):
            for x in e:
                st = self.expr(x, st)
            return st
        k = e["k"]
        if k in ("Ref", "Index") or k == "Member" and "fn" not in e:
            if mode == "use":
                mode = "read" if self.cls and self.classmember(e) else "use"
            return self.lv(e, st, mode)
        if k == "Cast":
            ck = e.get("ck")
            if ck == "LValueToRValue":
                x = e.get("e")
                y = x
                while y is not None and y["k"] == "Cast" and \
                        y.get("ck") == "NoOp":
                    y = y.get("e")
                if y is not None and y["k"] in ("Ref", "Member", "Index") \
                        and "fn" not in y:
                    return self.lv(y, st, "read")
                return self.expr(x, st, "use")
            return self.expr(e.get("e"), st, mode)
        if k == "Assign":
            op = e.get("op", "=")
            st = self.expr(e["b"], st)
            if op != "=":
                st = self.lv2(e["a"], st, "read")
            return self.lv2(e["a"], st, "write")
        if k == "Un":
            op = e.get("op", "")
            x = e.get("e")
            if op in ("++", "--", "post++", "post--", "pre++", "pre--"):
                st = self.lv2(x, st, "read")
                return self.lv2(x, st, "write")
            if op == "&":
                return self.lv2(x, st, mode if mode in ("read", "addr")
                                else "addr")
            return self.expr(x, st)
        if k == "Bin" and e.get("op") in ("&&", "||"):
            a, b = self.cond(e, st)
            return join(a, b)
        if k == "Bin":
            return self.expr(e.get("b"), self.expr(e.get("a"), st))
        if k == "Cond":
            a, b = self.cond(e.get("c"), st)
            return join(self.expr(e.get("a"), a, mode),
                        self.expr(e.get("b"), b, mode))
        if k == "Lambda":
            # what it refers to gets out of sight
            ks = []
            for c in e.get("caps") or ():
                if c.get("id"):
                    ks += self.under(("v", c["id"]), st.un)
            return st.give(ks)
        if k in ("Call", "Construct"):
            return self.call(e, st)
        if k in ("SizeOf",):
            return st
        if k == "Throw":
            self.expr(e.get("e"), st)
            return None
        for x in ("c", "e", "base", "a", "b", "size", "obj", "args", "inits",
                  "init"):
            v = e.get(x)
            if isinstance(v, (dict, list)):
                st = self.expr(v, st)
        return st

    def lv2(self, e, st, mode):
        y = e
        while y is not None and y["k"] == "Cast" and y.get("ck") != \
                "LValueToRValue":
            y = y.get("e")
        if y is not None and y["k"] in ("Ref", "Member", "Index") and \
                "fn" not in y:
            return self.lv(y, st, mode)
        return self.expr(e, st)

    def classmember(self, e):
        k = self.key(e)
        return k is not None and k[0] == "f"

    def call(self, e, st):
        fn = e.get("fn") or {}
        if e.get("ce"):
            st = self.expr(e["ce"], st)
        o = e.get("obj")
        if o is not None:
            if not self.is_this(o):
                st = self.expr(o, st, "use")
        pts = fn.get("pt") or []
        for i, a in enumerate(e.get("args") or ()):
            mode = "use"
            pt = pts[i] if i < len(pts) else None
            if pt is not None:
                p = pt.rstrip()
                if p.endswith("*") or p.endswith("&"):
                    mode = "read" if p.startswith("const ") else "addr"
                    if p.endswith("&&"):
                        mode = "addr"
            else:
                mode = "addr"
            st = self.expr(a, st, mode)
            if st is None:
                return None
        q = strip_targs(fn.get("q", ""))
        if q in NORETURN or fn.get("noreturn"):
            return None
        g = self.P.fns.get(fn.get("u"))
        if self.cls and g is not None and g.get("cls") == self.cls and \
                not g.get("static") and not g.get("ctor") and \
                o is not None and self.is_this(o) and self.depth < 6 and \
                g["u"] not in self.seen:
            sub = Flow(self.T, g, self.reports, self.cls, self.depth + 1,
                       self.seen | {g["u"]})
            sub.scalars = self.scalars
            sub.names = dict(self.names)
            out = sub.run(State(
                frozenset(x for x in st.un if x[0] == "f"),
                frozenset(x for x in st.has if x[0] == "f")))
            self.reads += sub.reads
            if out is None:
                return None
            st = State(frozenset(x for x in st.un if x[0] == "v") |
                       frozenset(x for x in out.un if x[0] == "f"),
                       frozenset(x for x in st.has if x[0] == "v") |
                       frozenset(x for x in out.has if x[0] == "f"))
        return st

    scalars = frozenset()


def locals_of(T, f):
    """reports on the locals of f; number of variables and reads followed"""
    out = []
    fl = Flow(T, f, out)
    fl.run()
    seen, rep = set(), []
    for r in out:
        k = (r.var, r.line)
        if k not in seen:
            seen.add(k)
            rep.append(r)
    return rep, fl.vars, fl.reads


def constructor(T, f):
    """(reads before the value, members without value at the end: name ->
    certain, names of the members followed)"""
    cls = f["cls"]
    r = T.P.records.get(cls)
    fields, scal = [], set()
    for x in (r or {}).get("fields", ()):
        if is_ref(x["t"]):
            fields.append(("f", x["name"]))
            continue
        ls = T.leaves(x["t"])
        if x.get("hasinit"):
            fields.append(("f", x["name"]))
        elif ls == [()]:
            fields.append(("f", x["name"]))
            scal.add(("f", x["name"]))
        elif ls:
            fields += [("f", x["name"]) + p for p in ls]
            scal |= {("f", x["name"]) + p for p in ls}
        else:
            fields.append(("f", x["name"]))
    out = []
    fl = Flow(T, f, out, cls)
    fl.scalars = frozenset(scal)
    for k in fields:
        fl.names[k] = ".".join(k[1:])
    st = fl.construct(fields)
    left = {}
    if st is not None:
        for k in st.un:
            if k in scal:
                left[".".join(k[1:])] = k not in st.has
    return out, left, [".".join(k[1:]) for k in fields], fl.reads
