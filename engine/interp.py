"""Abstract interpreter that builds the value graph of /repo's functions.

Statements are followed in structured order. Branches are joined by gates, loops
by comprehensions, sums and folds (closed forms of their recurrences); what has
no closed form becomes an unknown (`unk`) that never supports a report. Calls of
functions of the analysed program are inlined unless the client keeps them
opaque. The client gets the result and the events: calls of interest with their
arguments, path conditions and the loops around them.
"""
import sys

from program import (AnalysisError, base_type, is_ref, is_const_ref, kind,
                     strip_targs, UNS, INTS, FLOATS)
import terms as t
from terms import (C, T, TRUE, FALSE, NULL, VOID, UNDEF, mk, add, sub, mul, div,
                   idiv, imod, trunc, ite, and_, or_, not_, lt, le, eq, truth,
                   sym, fresh, unk, seq, cat, get, length, subst, field,
                   getfield, setfield, rec, zero, one)

sys.setrecursionlimit(20000)


class Ref:
    """result of a call that denotes an object"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class State:
    __slots__ = ("store", "pc")

    def __init__(self, store=None, pc=()):
        self.store = store or {}
        self.pc = pc

    def copy(self):
        return State(dict(self.store), self.pc)


class Frame:
    def __init__(self, fn, this=None):
        self.fn = fn
        self.vars = {}
        self.this = this
        self.rets = []
        self.loops = []
        self.lost = False
        self.base = ()
        self.retref = False


class Event:
    def __init__(self, kind, name, args, pc, loops, line, file, fn, **kw):
        self.kind, self.name, self.args = kind, name, args
        self.pc, self.loops = pc, loops
        self.line, self.file, self.fn = line, file, fn
        self.kw = kw

    @property
    def loc(self):
        return "%s:%s" % (self.file, self.line)

    @property
    def cond(self):
        return and_(*self.pc)

    def __repr__(self):
        return "%s %s(%s) @%s in %s if %s%s" % (
            self.kind, self.name, ", ".join(map(t.show, self.args)), self.loc,
            self.fn, t.show(self.cond),
            "".join(" for %s<%s" % (t.show(k), t.show(n))
                    for k, n in self.loops))


WIDTH = {"signed char": 8, "unsigned char": -8, "short": 16,
         "unsigned short": -16, "int": 32, "unsigned int": -32, "long": 64,
         "unsigned long": -64, "long long": 64, "unsigned long long": -64}


def wrapped(v, ty):
    """constant v as a value of integer type ty"""
    w = WIDTH[ty]
    m = 1 << abs(w)
    x = int(v.a[0]) % m
    if w > 0 and x >= m // 2:
        x -= m
    return C(x)


def unset(v):
    """condition under which v is without value"""
    if v.op == "undef":
        return TRUE
    if v.op == "ite":
        return ite(v.a[0], unset(v.a[1]), unset(v.a[2]))
    if v.op == "lastw" and len(v.a) == 5 and v.a[4].op == "undef":
        k = t.fresh("k", "i")
        return not_(t.sany(v.a[0], k, t.subst(v.a[2], {t.bv(v.a[1]): k})))
    return FALSE


class Dead(Exception):
    pass


MAXDEPTH = 40


def _boolish(x):
    """a truth value, promoted to int or not"""
    if x.ty == "b":
        return True
    if x.op == "c":
        return x.a[0] in (0, 1)
    return x.op == "ite" and _boolish(x.a[1]) and _boolish(x.a[2])


class Interp:
    def __init__(self, prog, opaque=None, watch=None, linear=True,
                 obligations=False, dispatch=None):
        self.P = prog
        self.opaque = opaque or (lambda q, f: False)
        self.watch = watch or (lambda q: False)
        self.obl = obligations
        self.dispatch = dispatch
        self.st = State()
        self.frames = []
        self.nroot = 0
        self.hsize = {}          # allocated memory: bytes
        self.recur = {}          # loop values without closed form: their step
        self.events = []
        self.silent = 0
        # decided loops of up to that many iterations are unrolled
        self.unroll = 0
        self.exitfacts = []  # what holds where loops were left
        self.vtype = {}      # declared types of local variables
        self.files = {}
        self.loopctx = []
        self.lams = {}
        self.enums = set()
        self.ginit = {}
        self.unmodelled = {}
        self.inlined = {}
        self.steps = 0
        self.impure = 0
        self.facts_extra = []
        import lib
        self.lib = lib.MODELS
        self.given = {}          # results of opaque functions
        self.pure = ()      # opaque methods taken not to change the object
        self.liblib = lib

    # ------------------------------------------------------------ utilities
    def root(self, k="v", name=""):
        self.nroot += 1
        return (k, "%s%d" % (name, self.nroot), self.nroot)

    def ptr(self, root, path=()):
        return mk("ptr", root, path)

    def initial(self, r):
        if r[0] == "d":          # pointee of an unknown pointer
            return r[1]
        if r[0] == "g":
            return self.global_init(r)
        if r[0] == "s":
            return r[1]
        return UNDEF

    def rootval(self, r):
        v = self.st.store.get(r)
        if v is None and r[0] == "h" and len(r) > 3 and r[3]:
            f = self.st.store.get(("hf", r[1], r[2], r[3][:-1]))
            if f is not None:
                v = subst(f.a[1], {t.bv(f.a[0]): r[3][-1]})
        if v is None:
            v = self.initial(r)
        return v

    def global_init(self, r):
        u = r[1]
        if u in self.ginit:
            return self.ginit[u]
        g = self.P.globals.get(u)
        v = None
        if g is not None and g["const"] and "init" in g:
            self.ginit[u] = sym("global:" + g["q"], kind(g["t"]))
            fr = Frame(None)
            self.frames.append(fr)
            self.silent += 1
            try:
                v = self.rv(g["init"])
            finally:
                self.silent -= 1
                self.frames.pop()
        if v is None:
            v = sym("global:" + (g["q"] if g else u),
                    kind(g["t"]) if g else "o")
        self.ginit[u] = v
        return v

    snap = ()

    def emit(self, kind_, name, args, node=None, **kw):
        if self.silent:
            return None
        f = self.cur_fn()
        ev = Event(kind_, name, args, self.st.pc if self.st else (),
                   tuple(self.loopctx), node.get("l") if node else None,
                   f["file"] if f else "?", f["q"] if f else "?", **kw)
        if self.snap and kind_ == "call" and name in self.snap:
            ev.kw["store"] = dict(self.st.store)
        self.events.append(ev)
        return ev

    def cur_fn(self):
        for fr in reversed(self.frames):
            if fr.fn is not None:
                return fr.fn
        return None

    def loc(self, node):
        f = self.cur_fn()
        return "%s:%s" % (f["file"] if f else "?", node.get("l", "?"))

    def unknown(self, why, node=None, ty="o", deps=()):
        if node is not None and not self.silent:
            k = (why, self.loc(node))
            self.unmodelled[k] = self.unmodelled.get(k, 0) + 1
        return unk(why, ty, deps)

    # ------------------------------------------------------------ memory
    def read(self, p, ty="o"):
        if p.op == "ptr":
            v = self.rootval(p.a[0])
            last = len(p.a[1]) - 1
            for n, s in enumerate(p.a[1]):
                v = self.step(v, s, ty if n == last else "o")
            if last < 0 and v.op == "deref" and v.ty != ty and ty in "fib":
                v = mk("deref", *v.a, ty=ty)
            return v
        if p.op == "ite":
            return ite(p.a[0], self.read(p.a[1], ty), self.read(p.a[2], ty))
        if p.op == "null":
            return unk("nullderef", ty)
        if p.op in ("unk", "undef"):
            return unk("deref", ty, (p,))
        return self.read(self.deref(p), ty)

    def deref(self, p):
        """location an unknown pointer points to"""
        if p.op in ("ptr", "ite", "null", "unk", "undef"):
            return p
        return self.ptr(("d", mk("deref", p)))

    def step(self, v, s, ty="o"):
        k = s[0]
        if k == "f":
            h = self.liblib.MATFIELDS.get(s[1])
            if h is not None:
                return h(v)
            return getfield(v, s[1], s[2] if len(s) > 2 else ty)
        if k in ("col", "row"):
            return self.liblib.mstep(self, v, s, ty)
        if k == "i":
            return get(v, s[1], ty)
        if k == "lin":
            return t.lin(v, s[1], ty if ty != "o" else "f")
        if k == "at":
            return t.at(v, s[1], s[2], ty if ty != "o" else "f")
        if k == "val":
            return self.liblib.sorv(v)
        raise AssertionError(s)

    def write(self, p, v):
        if p.op == "ptr":
            r = p.a[0]
            if r[0] == "d":
                self.emit("xstore", "", (p, v))
            if not p.a[1]:
                self.st.store[r] = v
            else:
                self.st.store[r] = self.upath(self.rootval(r), p.a[1], v)
            return
        if p.op == "ite":
            for q, c in ((p.a[1], p.a[0]), (p.a[2], not_(p.a[0]))):
                q = self.deref(q)
                if q.op in ("ptr", "ite"):
                    old = self.read(q)
                    self.write(q, ite(c, v, old))
            return
        if p.op in ("null", "unk", "undef"):
            self.emit("lostwrite", p.op, (p, v))
            return
        self.write(self.deref(p), v)

    def upath(self, val, path, v):
        if not path:
            return v
        s = path[0]
        if len(path) > 1:
            v = self.upath(self.step(val, s), path[1:], v)
        k = s[0]
        if k == "f":
            if val.op == "undef":
                val = rec("?", {})
            return setfield(val, s[1], v)
        if k == "i":
            return t.upd(val, s[1], v)
        if k == "lin":
            return t.lupd(val, s[1], v)
        if k == "at":
            return t.mupd(val, s[1], s[2], v)
        if k in ("col", "row"):
            return self.liblib.mset(self, val, s, v)
        if k == "val":
            return self.liblib.sor(v)
        raise AssertionError(s)

    def addpath(self, p, *steps):
        if p.op == "ptr":
            return self.ptr(p.a[0], p.a[1] + tuple(steps))
        if p.op == "ite":
            return ite(p.a[0], self.addpath(p.a[1], *steps),
                       self.addpath(p.a[2], *steps))
        if p.op in ("null", "unk", "undef"):
            return p if p.op != "null" else unk("nullderef")
        return self.addpath(self.deref(p), *steps)

    def padd(self, p, n):
        """pointer / iterator arithmetic"""
        if p.op == "ptr":
            path = p.a[1]
            if path and path[-1][0] in ("i", "lin"):
                return self.ptr(p.a[0], path[:-1] + (
                    (path[-1][0], add(path[-1][1], n)),))
            if n is zero():
                return p
            return unk("ptrarith", "o", (p,))
        if p.op == "ite":
            return ite(p.a[0], self.padd(p.a[1], n), self.padd(p.a[2], n))
        if p.op == "rit":        # reverse iterator: its base moves back
            return mk("rit", self.padd(p.a[0], t.neg(n)))
        if p.op in ("unk", "undef", "null"):
            return unk("ptrarith", "o", (p,))
        return self.ptr(("d", mk("derefarr", p)), (("i", n),)) \
            if p.op in ("sym", "field", "call", "get") else unk("ptrarith")

    def idx_of(self, p):
        """(container pointer, step kind, index) of an element pointer"""
        if p.op == "ptr" and p.a[1] and p.a[1][-1][0] in ("i", "lin"):
            return (self.ptr(p.a[0], p.a[1][:-1]), p.a[1][-1][0],
                    p.a[1][-1][1])
        if p.op in ("sym", "field", "call", "get"):
            q = self.ptr(("d", mk("derefarr", p)))
            return (q, "i", zero())
        return None

    def pdiff(self, a, b):
        x, y = self.idx_of(a), self.idx_of(b)
        if x and y and x[0] is y[0]:
            return sub(x[2], y[2])
        return None

    # ------------------------------------------------------------ expressions
    def ty(self, node):
        return kind(node.get("t", ""), self.enums) if "cv" not in node \
            else "i"

    def rv(self, n):
        """value of an expression"""
        if n is None:
            return VOID
        if "cv" in n and n["k"] != "Call":
            v = C(int(n["cv"]))
            if base_type(n.get("t", "")) == "bool":
                return FALSE if v is zero() else TRUE
            return v
        if "cf" in n and n["k"] in ("Float", "Cast", "Bin", "Un", "Ref",
                                    "Call"):
            return C(float(n["cf"]))
        if n["k"] == "Call" and "cv" in n and not self.side(n):
            return C(int(n["cv"]))
        m = getattr(self, "e_" + n["k"], None)
        if m is None:
            return self.unknown("expr " + n["k"], n)
        r = m(n)
        if isinstance(r, Ref):
            return self.read(r.p, kind(n.get("t", ""), self.enums))
        return r

    def side(self, n):
        return False

    def lval(self, n):
        """location an expression denotes (a temporary for a value)"""
        k = n["k"]
        m = getattr(self, "l_" + k, None)
        if m is not None:
            r = m(n)
            if r is not None:
                return r
        if k in ("Call", "Cond", "Cast", "Other", "Construct"):
            r = getattr(self, "e_" + k)(n)
            if isinstance(r, Ref):
                return r.p
            return self.temp(r)
        return self.temp(self.rv(n))

    def temp(self, v):
        r = self.root("v", "tmp")
        self.st.store[r] = v
        return self.ptr(r)

    def e_Int(self, n):
        return C(int(n["cv"]))

    def e_Float(self, n):
        return C(float(n["cf"]))

    def e_Str(self, n):
        return t.s(n.get("v", ""))

    def e_Null(self, n):
        return NULL

    def e_This(self, n):
        return self.this()

    def this(self):
        for fr in reversed(self.frames):
            if fr.this is not None:
                return fr.this
        raise AnalysisError("this outside of a member function")

    def binding(self, vid):
        # frames of lambdas see their definition context
        fr = self.frames[-1]
        b = fr.vars.get(vid)
        return b

    def l_Ref(self, n):
        dk = n["dk"]
        if dk in ("var", "param", "binding"):
            b = self.binding(n["id"])
            if b is None:
                r = ("v", n["id"], 0)
                b = self.ptr(r)
                if r not in self.st.store:
                    self.st.store[r] = sym("var:" + n.get("name", "?"),
                                           self.ty(n))
                self.frames[-1].vars[n["id"]] = b
            return b
        if dk in ("global", "slocal"):
            if "sv" in n and n.get("const"):
                return self.temp(t.s(n["sv"]))
            if not n.get("const"):
                self.emit("global", n["q"], (), n, usr=n["u"])
            return self.ptr(("g", n["u"]))
        if dk == "func":
            return self.temp(mk("fnptr", n["fn"]["q"], n["fn"]["u"]))
        return self.temp(unk("ref " + n.get("name", n.get("q", "?"))))

    def e_Ref(self, n):
        if n["dk"] == "func":
            return mk("fnptr", n["fn"]["q"], n["fn"]["u"])
        if n["dk"] == "enum" and "cv" in n:
            return C(int(n["cv"]))
        p = self.l_Ref(n)
        v = self.read(p, self.ty(n))
        return self.reading(v, n, n.get("name"))

    def reading(self, v, n, name):
        if v.op == "undef" and kind(n.get("t", "")) in ("i", "f", "b"):
            self.emit("undef", name or "?", (), n)
            return unk("uninitialised", kind(n["t"]))
        if self.obl and v.op == "ite" and kind(n.get("t", "")) in (
                "i", "f", "b"):
            w = unset(v)
            if w is not FALSE:
                self.emit("maybeundef", name or "?", (w,), n)
        return v

    def l_Member(self, n):
        if "fn" in n:
            return None
        b = n["base"]
        p = self.rv(b) if n["arrow"] else self.lval(b)
        if n["name"] == "mem" and strip_targs(base_type(
                b.get("t", "")).rstrip("*").strip()).startswith("arma::"):
            return self.temp(self.addpath(p, ("lin", zero())))
        if n["arrow"] and p.op == "null":
            self.emit("nullderef", n["name"], (), n)
        if n["arrow"]:
            self.touch(p, n, b.get("t", "").rstrip(" const").rstrip("* "))
        f = self.addpath(p, ("f", n["name"], kind(n["t"], self.enums)))
        if n.get("ref"):
            return self.read(f)
        return f

    def e_Member(self, n):
        p = self.l_Member(n)
        if p is None:
            return self.unknown("member", n)
        v = self.read(p, self.ty(n))
        if base_type(n["t"]) in UNS:
            t.NONNEG.add(v)
        return self.reading(v, n, n["name"])

    def l_Index(self, n):
        p = self.rv(n["a"])
        i = self.rv(n["b"])
        q = self.padd(p, i)
        self.touch(q, n)
        if "__vector_size__" in n.get("t", ""):
            # several elements at once: what they are is not followed
            x = self.idx_of(q) if isinstance(q, T) else None
            if x:
                self.write(x[0], unk("vector"))
            return self.temp(unk("vector"))
        return q

    def touch(self, q, n, ty=None):
        """an element of allocated memory is about to be accessed"""
        if self.obl and isinstance(q, T) and q.op == "ptr" and \
                q.a[0][0] == "h" and q.a[1] and q.a[1][-1][0] == "i":
            sz = self.hsize.get(q.a[0][:3])
            if sz is not None:
                self.emit("block", ty or n.get("t", "?"),
                          (q.a[1][-1][1], sz), n)

    def e_Index(self, n):
        if "__vector_size__" in n.get("t", ""):
            self.touch(self.padd(self.rv(n["a"]), self.rv(n["b"])), n)
            return unk("vector")
        return self.read(self.l_Index(n), self.ty(n))

    def l_Cast(self, n):
        ck = n["ck"]
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase",
                  "BaseToDerived", "LValueBitCast", "Dynamic") and \
                (n["e"].get("lv") or n["e"].get("xv") or
                 n["e"]["k"] in ("Ref", "Member")):
            return self.lval(n["e"])
        if ck in ("UserDefinedConversion", "ConstructorConversion", "NoOp"):
            return self.lval(n["e"]) if n["e"]["k"] in (
                "Call", "Construct") else None
        return None

    def e_Cast(self, n):
        ck, e = n["ck"], n["e"]
        if ck == "LValueToRValue":
            return self.rv(e)
        if ck == "ArrayToPointerDecay":
            if e["k"] == "Str":
                return self.rv(e)
            if e["k"] == "Ref" and e.get("sv") is not None and e.get("const"):
                return t.s(e["sv"])
            p = self.lval(e)
            return self.addpath(p, ("i", zero()))
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.rv(e)
        if ck == "NullToPointer":
            return NULL
        if ck == "ToVoid":
            self.rv(e) if not (e.get("lv")) else self.lval(e)
            return VOID
        v = self.rv(e)
        if ck == "IntegralCast":
            if v.ty == "b":
                v = t.num(v)
            return self.intcast(v, n, e)
        if ck == "FloatingToIntegral":
            if self.obl:
                self.emit("f2i", "cast", (v,), n, to=base_type(n["t"]))
            r = trunc(v)
            if base_type(n["t"]) in UNS:
                t.NONNEG.add(r)
            return r
        if ck == "IntegralToFloating":
            return t.num(v)
        if ck == "FloatingCast":
            if base_type(n["t"]) == "float":
                return t.f32(v)
            return v
        if ck in ("IntegralToBoolean", "FloatingToBoolean",
                  "PointerToBoolean"):
            return self.truthy(v)
        return v

    def intcast(self, v, n, e):
        d, s = base_type(n["t"]), base_type(e.get("t", ""))
        if self.obl and d in INTS and s in INTS and d != s:
            self.emit("i2i", "cast", (v,), n, src=s, to=d)
        if v.op == "c" and d in WIDTH and v.ty == "i":
            return wrapped(v, d)
        return v

    def truthy(self, v):
        if v.op == "undef":
            return unk("uninitialised", "b")
        return truth(v)

    def cond(self, n):
        v = self.rv(n)
        v = self.truthy(v)
        return self.decide(v)

    # -- path facts
    def under(self, v, pc=None):
        pc = self.st.pc if pc is None else pc
        if not pc:
            return v
        m = {}
        for c in pc:
            for x in (c.a if c.op == "and" else (c,)):
                if t.mentions(v, x):
                    m[x] = TRUE
                nx = not_(x)
                if t.mentions(v, nx):
                    m[nx] = FALSE
                # under x, the disjunctions that contain it
        if m:
            v = subst(v, m)
        return v

    def decide(self, c):
        """c simplified under the path condition"""
        if c.op in ("true", "false"):
            return c
        c = self.under(c)
        if c.op in ("true", "false"):
            return c
        if c.unk:
            return c
        r = self.entails(c)
        if r:
            return TRUE
        if self.entails(not_(c)):
            return FALSE
        return c

    def entails(self, c):
        import linear
        return linear.implied(self.st.pc, c)

    def assume(self, c):
        """restricts the current state; None when that is impossible"""
        if c is TRUE:
            return
        if c is FALSE:
            self.st = None
            return
        if c.op == "and":
            for x in c.a:
                if x not in self.st.pc:
                    self.st.pc = self.st.pc + (x,)
        elif c not in self.st.pc:
            self.st.pc = self.st.pc + (c,)

    def branch(self, c, then, els):
        """runs then/els on the two restrictions of the state and joins"""
        if c is TRUE:
            return then()
        if c is FALSE:
            return els()
        s0 = self.st
        n0 = len(s0.pc)
        self.st = s0.copy()
        self.assume(c)
        a = then() if self.st is not None else None
        s1 = self.st
        self.st = s0.copy()
        self.assume(not_(c))
        b = els() if self.st is not None else None
        s2 = self.st
        if s1 is None:
            self.st = s2
            return b
        if s2 is None:
            self.st = s1
            return a
        self.st = self.join(s1, s2, c, s0.pc)
        if isinstance(a, Ref) or isinstance(b, Ref):
            pa = a.p if isinstance(a, Ref) else None
            pb = b.p if isinstance(b, Ref) else None
            if pa is None:
                pa = self.temp(a)
            if pb is None:
                pb = self.temp(b)
            return Ref(ite(c, pa, pb))
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        return a

    def join(self, s1, s2, c, base):
        """joins two states; c holds in s1 and not in s2"""
        n = len(base)
        x1, x2 = s1.pc[n:], s2.pc[n:]
        lost = not (self.justc(x1, c) and self.justc(x2, not_(c)))
        pc = base
        if lost:
            d = or_(and_(*x1), and_(*x2))
            if d is not TRUE:
                pc = base + ((d,) if d.op != "and" else
                             tuple(y for y in d.a if y not in base))
        st = {}
        a, b = s1.store, s2.store
        for r, v in a.items():
            w = b.get(r)
            if w is v:
                st[r] = v
            elif w is None:
                if r[0] in ("d", "g", "s"):
                    st[r] = ite(c, v, self.initial(r))
                else:
                    st[r] = v        # only exists on that side
            else:
                st[r] = ite(c, v, w)
        for r, w in b.items():
            if r not in a:
                if r[0] in ("d", "g", "s"):
                    st[r] = ite(c, self.initial(r), w)
                else:
                    st[r] = w
        return State(st, pc)

    @staticmethod
    def justc(x, c):
        cs = set(c.a) if c.op == "and" else {c}
        return set(x) <= cs

    def e_Un(self, n):
        op = n["op"]
        e = n["e"]
        if op == "&":
            if e["k"] == "Ref" and e["dk"] == "func":
                return self.rv(e)
            return self.lval(e)
        if op == "*":
            r = self.l_Un(n)
            return self.read(r, self.ty(n))
        if op in ("++", "--", "++post", "--post"):
            p = self.lval(e)
            old = self.read(p, self.ty(e))
            old = self.reading(old, e, e.get("name"))
            d = one() if op.startswith("++") else C(-1)
            if old.ty in ("i", "f") or kind(e.get("t", "")) in ("i", "f"):
                new = add(old, d)
            else:
                new = self.padd(old, d)
            self.write(p, new)
            if op.endswith("post"):
                return old
            return Ref(p)
        v = self.rv(e)
        if op == "!":
            return not_(self.truthy(v))
        if op == "-":
            return t.neg(t.num(v))
        if op == "+":
            return t.num(v)
        if op == "~":
            return mk("bitnot", v, ty="i")
        return self.unknown("unary " + op, n)

    def l_Un(self, n):
        if n["op"] == "*":
            p = self.rv(n["e"])
            if p.op == "null":
                self.emit("nullderef", "*", (), n)
            self.touch(p, n)
            return self.deref(p)
        if n["op"] in ("++", "--"):
            r = self.e_Un(n)
            return r.p
        return None

    def e_Bin(self, n):
        op = n["op"]
        if op in ("&&", "||"):
            c = self.truthy(self.rv(n["a"]))
            cd = self.decide(c)
            if op == "&&":
                return self.branch(cd, lambda: self.truthy(self.rv(n["b"])),
                                   lambda: FALSE)
            return self.branch(cd, lambda: TRUE,
                               lambda: self.truthy(self.rv(n["b"])))
        if op == ",":
            self.rv(n["a"]) if not n["a"].get("lv") else self.lval(n["a"])
            if n.get("lv"):
                return Ref(self.lval(n["b"]))
            return self.rv(n["b"])
        a = self.rv(n["a"])
        b = self.rv(n["b"])
        return self.arith(op, a, b, n)

    def arith(self, op, a, b, n, rt=None):
        rt = rt or n.get("t", "")
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return self.compare(op, a, b)
        ptr = a.op in ("ptr", "rit") or b.op in ("ptr", "rit") or \
            base_type(rt).endswith("*")
        if ptr:
            if op == "+":
                return self.padd(a, b) if a.ty != "i" else self.padd(b, a)
            if op == "-":
                d = self.pdiff(a, b)
                if d is not None:
                    return d
                if b.ty == "i":
                    return self.padd(a, t.neg(b))
                return unk("ptrdiff", "i", (a, b))
        if a.ty == "o" and a.op not in ("undef",) or \
                b.ty == "o" and b.op not in ("undef",):
            if a.op != "unk" and b.op != "unk":
                pass
        k = kind(rt, self.enums)
        if a.op == "undef":
            a = unk("uninitialised", k)
        if b.op == "undef":
            b = unk("uninitialised", k)
        if op == "+":
            r = add(a, b)
        elif op == "-":
            r = sub(a, b)
            if base_type(rt) in UNS:
                if self.obl:
                    self.emit("usub", "-", (a, b), n)
                r = self.usub(r)
        elif op == "*":
            r = mul(a, b)
        elif op == "/":
            if self.obl:
                self.emit("div", "/", (a, b), n, float=(k == "f"))
            r = div(a, b) if k == "f" else idiv(a, b)
        elif op == "%":
            if self.obl:
                self.emit("div", "%", (a, b), n, float=False)
            r = imod(a, b)
        elif op in ("<<", ">>", "&", "|", "^"):
            if a.op == "c" and b.op == "c":
                x, y = int(a.a[0]), int(b.a[0])
                r = C({"<<": x << y, ">>": x >> y, "&": x & y, "|": x | y,
                       "^": x ^ y}[op])
            elif op in "&|" and _boolish(a) and _boolish(b):
                x, y = t.truth(a), t.truth(b)
                r = t.ite(t.and_(x, y) if op == "&" else t.or_(x, y),
                          t.one(), t.zero())
            elif op == "<<" and b.op == "c":
                r = t.scale(a, 2 ** int(b.a[0]))
            elif op == ">>" and b.op == "c":
                r = idiv(a, C(2 ** int(b.a[0])))
            else:
                r = mk("bit" + op, a, b, ty="i")
        else:
            return self.unknown("binary " + op, n)
        return r

    def usub(self, r):
        """unsigned difference: taken as the mathematical one"""
        return r

    def compare(self, op, a, b):
        if a.op == "rit" and b.op == "rit":
            a, b = b.a[0], a.a[0]
            if op in ("==", "!="):
                pass
        d = self.pdiff(a, b) if (a.op == "ptr" or b.op == "ptr") else None
        if d is not None:
            a, b = d, zero()
        if op == "==":
            return self.liblib.seq_eq(a, b)
        if op == "!=":
            return not_(self.liblib.seq_eq(a, b))
        if not (t.is_num(a) or a.ty == "b") or not (t.is_num(b) or b.ty == "b"):
            if a.op == "undef" or b.op == "undef":
                return unk("uninitialised", "b")
            if a.ty == "o" and a.op not in ("unk",) and b.op not in ("unk",):
                return mk("ordered", op, a, b, ty="b")
            return unk("compare", "b", (a, b))
        if op == "<":
            return lt(a, b)
        if op == "<=":
            return le(a, b)
        if op == ">":
            return lt(b, a)
        return le(b, a)

    def e_Assign(self, n):
        p = self.l_Assign(n)
        return Ref(p)

    def l_Assign(self, n):
        if n["op"] == "=":
            v = self.rv(n["b"])
            p = self.lval(n["a"])
            self.write(p, v)
            return p
        b = self.rv(n["b"])
        p = self.lval(n["a"])
        old = self.read(p, self.ty(n["a"]))
        old = self.reading(old, n["a"], n["a"].get("name"))
        rt = n.get("ct") or n.get("t")
        r = self.arith(n["op"][:-1], old, b, n, rt)
        tk = kind(n["a"].get("t", ""))
        if tk == "i" and r.ty == "f":
            r = trunc(r)
        if base_type(n["a"].get("t", "")) == "float":
            r = t.f32(r) if r.ty == "f" else r
        self.write(p, r)
        return p

    def e_Cond(self, n):
        c = self.cond(n["c"])
        if n.get("lv"):
            return self.branch(c, lambda: Ref(self.lval(n["a"])),
                               lambda: Ref(self.lval(n["b"])))
        return self.branch(c, lambda: self.rv(n["a"]), lambda: self.rv(n["b"]))

    def e_Zero(self, n):
        return self.zeroval(n["t"])

    def zeroval(self, ty):
        b = base_type(ty)
        k = kind(b, self.enums)
        if k == "b":
            return FALSE
        if k in ("i", "f"):
            return zero()
        if b.endswith("*") or b == "std::nullptr_t":
            return NULL
        if b in self.P.records:
            return rec(b, {f["name"]: self.zeroval(f["t"])
                           for f in self.P.all_fields(b)})
        if b.startswith("enum") or b not in ("",):
            if "::" in b and "<" not in b:
                return zero()
        return unk("zero " + b)

    def e_InitList(self, n):
        b = base_type(n["t"])
        if len(n["args"]) == 1 and base_type(n["args"][0].get("t", "")) == b \
                and b in self.P.records:
            # T{x} with x of type T
            v = self.rv_or_read(n["args"][0])
            if isinstance(v, T):
                return v
        if "fields" in n and b in self.P.records:
            fs = {}
            vals = n["args"]
            names = n["fields"]
            for nm, e in zip(names, vals):
                if nm.startswith("(base)"):
                    v = self.rv(e)
                    if v.op == "rec":
                        fs.update(dict(v.a[1]))
                else:
                    fs[nm] = self.rv(e)
            for f in self.P.all_fields(b):
                fs.setdefault(f["name"], UNDEF)
            return rec(b, fs)
        if "fields" in n:
            return rec(b, {nm: self.rv(e) for nm, e in
                           zip(n["fields"], n["args"])})
        if kind(b, self.enums) in ("i", "f", "b") or b.endswith("*"):
            return self.rv(n["args"][0]) if n["args"] else self.zeroval(b)
        return seq(*[self.rv(e) for e in n["args"]])

    def e_StdInit(self, n):
        return self.rv(n["e"])

    def e_SizeOf(self, n):
        return mk("sizeof", n.get("at", "?"), ty="i")

    def e_New(self, n):
        r = self.liblib.hroot(self, "new")
        self.emit("new", n["at"], (self.ptr(r),), n)
        if n.get("array"):
            self.st.store[r] = mk("heaparr", r[1])
            return self.ptr(r, (("i", zero()),))
        init = n.get("init")
        self.st.store[r] = self.rv(init) if init else self.undef_of(n["at"])
        return self.ptr(r)

    def e_Delete(self, n):
        v = self.rv(n["e"])
        self.emit("delete", "delete[]" if n["array"] else "delete", (v,), n)
        return VOID

    def e_Throw(self, n):
        self.emit("throw", "throw", (), n)
        self.die()
        return VOID

    def die(self):
        for fr in self.frames:
            fr.lost = True
        raise Dead()

    def e_Lambda(self, n):
        cap = {}
        fr = self.frames[-1]
        for c in n["caps"]:
            if c.get("this"):
                continue
            b = fr.vars.get(c["id"])
            if c.get("init"):
                v = self.rv(c["init"])
                cap[c["id"]] = ("val", v)
            elif b is not None:
                if c["byref"]:
                    cap[c["id"]] = ("ref", b)
                else:
                    cap[c["id"]] = ("val", self.read(b))
        l = len(self.lams)
        this = None
        for f in reversed(self.frames):
            if f.this is not None:
                this = f.this
                break
        self.lams[l] = (n, cap, this, self.cur_fn())
        return mk("lam", l)

    def e_Other(self, n):
        for a in n.get("args", ()):
            if isinstance(a, dict) and a.get("k") not in ("Block",):
                try:
                    self.rv(a)
                except AnalysisError:
                    pass
        return self.unknown("expr " + n.get("cls", "?"), n,
                            kind(n.get("t", "")))

    # ------------------------------------------------------------ objects
    def undef_of(self, ty):
        b = base_type(ty)
        if b in self.P.records:
            fs = {}
            for f in self.P.all_fields(b):
                fs[f["name"]] = self.undef_of(f["t"]) if not f["scalar"] \
                    else UNDEF
            return rec(b, fs)
        return self.liblib.default_value(self, b)

    def e_Construct(self, n):
        return self.construct(n["fn"], n["args"], n)

    def construct(self, f, args, n):
        cls = f["cls"]
        q = strip_targs(f["q"])
        if n.get("copy") or n.get("move"):
            body = self.P.fns.get(f["u"])
            if body is None or body.get("defaulted") or q in self.lib:
                p = self.lval(args[0])
                return self.read(p)
            if self.opaque(q, f):
                return self.read(self.lval(args[0]))
        h = self.lib.get(q)
        if h is not None:
            r = h(self, n, None, args)
            if r is not None:
                return r
        body = self.P.fns.get(f["u"])
        if body is None:
            if base_type(cls) in self.P.records:
                # implicit constructor
                if n.get("copy") or n.get("move"):
                    return self.read(self.lval(args[0]))
                return self.default_construct(base_type(cls),
                                              n.get("zero", False))
            return self.liblib.generic_construct(self, n, args)
        if self.opaque(q, f):
            vals = [self.argval(a, pt) for a, pt in zip(args, f["pt"])]
            self.emit("call", q, tuple(vals), n, usr=f["u"])
            return mk("call", q, *vals)
        r = self.root("v", "obj")
        self.st.store[r] = self.undef_of(cls)
        self.run_ctor(body, self.ptr(r), args, n)
        if self.st is None:
            raise Dead()
        return self.rootval(r)

    def default_construct(self, cls, zero_=False):
        fs = {}
        for b in self.P.records[cls]["bases"]:
            if b in self.P.records:
                c = self.default_ctor(b)
                v = self.make(b, []) if c else self.default_construct(b)
                if v.op == "rec":
                    fs.update(dict(v.a[1]))
        for f in self.P.records[cls]["fields"]:
            if f.get("hasinit"):
                fs[f["name"]] = self.rv(f["init"])
            elif f["scalar"]:
                fs[f["name"]] = self.zeroval(f["t"]) if zero_ else UNDEF
            elif f.get("rec") in self.P.records:
                fs[f["name"]] = self.make(f["rec"], [])
            else:
                fs[f["name"]] = self.liblib.default_value(self, base_type(
                    f["t"]))
        return rec(cls, fs)

    def default_ctor(self, cls):
        for f in self.P.fns.values():
            if f.get("cls") == cls and f.get("ctor") and not f["params"] and \
                    not f.get("defaulted"):
                return f
        return None

    def make(self, cls, vals, node=None):
        """object of class cls constructed from values (make_unique etc.)"""
        cls = base_type(cls)
        if not vals:
            q = cls + "::" + strip_targs(cls).split("::")[-1]
            h = self.lib.get(strip_targs(q))
            if h is not None:
                r = h(self, {"k": "Construct", "t": cls, "args": [],
                             "fn": {"q": q, "pt": [], "cls": cls, "u": ""}},
                      None, [])
                if r is not None:
                    return r
        best = None
        for f in self.P.fns.values():
            if f.get("cls") == cls and f.get("ctor") and \
                    len(f["params"]) >= len(vals) and \
                    not f.get("copyctor") and not f.get("movector"):
                if best is None or len(f["params"]) < len(best["params"]):
                    best = f
        if best is None:
            if cls in self.P.records and not vals:
                return self.default_construct(cls)
            if vals and len(vals) == 1:
                return vals[0]
            return mk("obj", cls, *vals)
        q = strip_targs(best["q"])
        if self.opaque(q, best):
            self.emit("call", q, tuple(vals), node, usr=best["u"])
            return mk("call", q, *vals)
        r = self.root("v", "obj")
        self.st.store[r] = self.undef_of(cls)
        self.run_ctor(best, self.ptr(r), [("val", v) for v in vals], node or {})
        return self.rootval(r)

    def run_ctor(self, body, this, args, n):
        q = strip_targs(body["q"])
        self.inlined[q] = self.inlined.get(q, 0) + 1
        fr = Frame(body, this)
        binds = self.bind_args(body, args)
        fr.vars.update(binds)
        fr.base = self.st.pc
        self.frames.append(fr)
        try:
            done = set()
            for i in body.get("inits", ()):
                if i.get("base"):
                    b = base_type(i["base"])
                    e = i["e"]
                    if b in self.P.records:
                        v = self.rv(e)
                        if v.op == "rec":
                            for k, x in v.a[1]:
                                self.write(self.addpath(this, ("f", k)), x)
                elif i.get("delegate"):
                    v = self.rv(i["e"])
                    self.write(this, v)
                else:
                    done.add(i["field"])
                    e = i["e"]
                    rf = [f for f in self.P.all_fields(body["cls"])
                          if f["name"] == i["field"]]
                    if rf and is_ref(rf[0]["t"]):
                        v = self.lval(e)
                    else:
                        v = self.rv(e)
                    self.write(self.addpath(this, ("f", i["field"])), v)
            self.exec_body(body["body"])
            self.finish(fr)
        except Dead:
            self.st = None
        finally:
            self.frames.pop()
        if self.st is None:
            raise Dead()

    # ------------------------------------------------------------ calls
    def argval(self, a, pt):
        """value passed for a parameter (of reference: the object's value)"""
        if isinstance(a, tuple):
            return a[1]
        if is_ref(pt):
            return self.read(self.lval(a), kind(pt))
        return self.rv(a)

    def bind_args(self, body, args):
        binds = {}
        for p, a in zip(body["params"], args):
            if isinstance(a, tuple):
                v = a[1]
                if a[0] == "ref":
                    binds[p["id"]] = v
                    continue
                r = self.root("v", p["name"])
                self.st.store[r] = v
                binds[p["id"]] = self.ptr(r)
                continue
            if is_ref(p["t"]):
                binds[p["id"]] = self.lval(a)
            else:
                v = self.rv(a)
                r = self.root("v", p["name"])
                self.st.store[r] = v
                binds[p["id"]] = self.ptr(r)
        # missing arguments (make_unique with defaults)
        for p in body["params"][len(args):]:
            r = self.root("v", p["name"])
            self.st.store[r] = unk("defaultarg", kind(p["t"]))
            binds[p["id"]] = self.ptr(r)
        return binds

    def e_Call(self, n):
        f = n.get("fn")
        if f is None:
            return self.call_value(n)
        q = strip_targs(f["q"])
        h = self.liblib.lookup(q)
        if h is not None and not (f.get("repo") and self.override(q)):
            r = h(self, n, n.get("obj"), n["args"])
            if r is not None:
                if isinstance(r, T) and base_type(f["rt"]) in UNS:
                    t.NONNEG.add(r)
                return r
        # closures
        if q.endswith("operator()") and "obj" in n:
            ov = self.rv(n["obj"])
            if ov.op == "lam":
                return self.call_lam(ov, n["args"], n)
            if ov.op == "fnptr":
                return self.call_fnptr(ov, n["args"], n)
        body = self.P.fns.get(f["u"])
        this = None
        if "obj" in n:
            this = self.rv(n["obj"]) if n.get("arrow") and \
                n.get("op") is None else self.lval(n["obj"])
            if this.op == "null":
                self.emit("nullderef", q, (), n)
            if f.get("copyassign") or f.get("moveassign"):
                if body is None or body.get("defaulted"):
                    v = self.rv_or_read(n["args"][0])
                    self.write(this, v)
                    return Ref(this)
            if f.get("virt") and not n.get("qual"):
                b2 = self.virtual(f, this)
                if b2 is not None:
                    body = b2
                    q = strip_targs(body["q"])
                    f = dict(f)
                    f["q"], f["u"] = body["q"], body["u"]
        if body is not None and not self.opaque(q, f) and \
                len(self.frames) < MAXDEPTH and \
                sum(1 for fr in self.frames if fr.fn is body) < 2 and \
                not (f.get("virt") and body is not None and
                     body["body"] is None):
            if self.watch(q):
                vals = []
                # arguments are evaluated by inline(); record them after
            return self.inline(body, this, n["args"], n)
        if body is None and not f.get("repo") and \
                q not in self.liblib.UNINTERPRETED:
            return self.external(q, f, this, n)
        return self.opaque_call(q, f, this, n)

    def external(self, q, f, this, n):
        """a library function without a model: anything may happen"""
        vals = []
        outs = []
        pts = f["pt"]
        for i, a in enumerate(n["args"]):
            pt = pts[i] if i < len(pts) else ""
            if is_ref(pt):
                p = self.lval(a)
                vals.append(self.read(p, kind(pt)))
                if not is_const_ref(pt):
                    outs.append(p)
            else:
                v = self.rv(a)
                vals.append(v)
                if v.op in ("ptr",):
                    x = self.idx_of(v)
                    if not base_type(pt).startswith("const "):
                        outs.append(x[0] if x else v)
        self.emit("call", q, tuple(vals), n, usr=f["u"], this=this,
                  obj=self.read(this) if this is not None else None)
        if q in self.liblib.NORETURN:
            self.die()
        self.unknown("call " + q, n)
        for p in outs:
            self.write(p, unk("by " + q, self.read(p).ty, vals))
        if this is not None and not f.get("const"):
            self.write(this, unk("by " + q, "o", vals))
        if is_ref(f["rt"]) and n.get("lv"):
            return Ref(self.temp(unk(q, kind(f["rt"]), vals)))
        return unk(q, kind(f["rt"], self.enums), vals)

    def override(self, q):
        return False

    def rv_or_read(self, a):
        return self.rv(a)

    def virtual(self, f, this):
        """overrider for the dynamic class of *this, when it is known"""
        v = None
        try:
            v = self.read(this)
        except Exception:
            return None
        cls = None
        if v.op == "rec":
            cls = v.a[0]
        elif v.op == "with":
            b = v
            while b.op == "with":
                b = b.a[0]
            if b.op == "rec":
                cls = b.a[0]
        if cls is None and self.dispatch:
            cls = self.dispatch(f, v)
        if cls is None:
            return None
        return self.P.resolve(f["u"], cls)

    def inline(self, body, this, args, n):
        q = strip_targs(body["q"])
        self.inlined[q] = self.inlined.get(q, 0) + 1
        binds = self.bind_args(body, args)
        if self.watch(q):
            self.emit("enter", q, tuple(
                self.read(binds[p["id"]], kind(p["t"])) for p in
                body["params"]), n, usr=body["u"],
                this=self.read(this) if this is not None else None)
        fr = Frame(body, this)
        fr.vars.update(binds)
        fr.base = self.st.pc
        fr.retref = is_ref(body["ret"])
        self.frames.append(fr)
        try:
            self.exec_body(body["body"])
            r = self.finish(fr)
        finally:
            self.frames.pop()
        if self.st is None:
            raise Dead()
        return r

    def exec_body(self, b):
        try:
            self.exec(b)
        except Dead:
            self.st = None
            self.frames[-1].lost = True

    def finish(self, fr):
        """joins the exits of a function; its result"""
        outs = list(fr.rets)
        if self.st is not None:
            outs.append((self.st, VOID))
        if not outs:
            self.st = None
            return VOID
        st, val = outs[-1]
        nb = len(fr.base)
        acc = [and_(*st.pc[nb:])]
        for s, v in reversed(outs[:-1]):
            c = and_(*s.pc[nb:])
            acc.append(c)
            st = self.join2(s, st, c, fr.base)
            if isinstance(v, Ref) or isinstance(val, Ref):
                if isinstance(v, Ref) and isinstance(val, Ref):
                    val = Ref(ite(c, v.p, val.p))
            elif v is VOID and val is VOID:
                pass
            else:
                val = ite(c, v, val)
        pc = fr.base
        if fr.lost:
            d = or_(*acc)
            if d is not TRUE:
                pc = pc + ((d,) if d.op != "and" else d.a)
        self.st = State(st.store, pc)
        return val

    def join2(self, s1, s2, c, base):
        """joins states where c holds exactly in s1 (of the two)"""
        st = {}
        a, b = s1.store, s2.store
        for r, v in a.items():
            w = b.get(r)
            if w is v:
                st[r] = v
            elif w is None:
                st[r] = ite(c, v, self.initial(r)) if r[0] in ("d", "g", "s") \
                    else v
            else:
                st[r] = ite(c, v, w)
        for r, w in b.items():
            if r not in a:
                st[r] = ite(c, self.initial(r), w) if r[0] in ("d", "g", "s") \
                    else w
        return State(st, base)

    def call_lam(self, lam, args, n):
        node, cap, this, fn = self.lams[lam.a[0]]
        fr = Frame(fn, this)
        for vid, (k, v) in cap.items():
            if k == "ref":
                fr.vars[vid] = v
            else:
                fr.vars[vid] = self.temp(v)
        fr.vars.update(self.bind_args(node, args))
        fr.base = self.st.pc
        fr.retref = is_ref(node["ret"])
        self.frames.append(fr)
        try:
            self.exec_body(node["body"])
            r = self.finish(fr)
        finally:
            self.frames.pop()
        if self.st is None:
            raise Dead()
        return r

    def apply(self, f, vals, n=None):
        """calls a function object with values; the result's value"""
        args = [("val", v) if not isinstance(v, Ref) else ("ref", v.p)
                for v in vals]
        if f.op == "lam":
            r = self.call_lam(f, args, n or {})
        elif f.op == "fnptr":
            r = self.call_fnptr(f, args, n or {})
        else:
            return unk("functor", "o", (f,))
        if isinstance(r, Ref):
            r = self.read(r.p)
        return r

    def call_fnptr(self, f, args, n):
        q = strip_targs(f.a[0])
        h = self.liblib.lookup(q)
        if h is not None:
            nodes = [a if not isinstance(a, tuple) else
                     {"k": "Val", "v": a[1], "t": ""} if a[0] == "val" else
                     {"k": "PtrVal", "v": a[1], "t": "", "lv": 1}
                     for a in args]
            r = h(self, {"k": "Call", "t": "", "fn": {"q": q, "pt": [],
                                                      "rt": ""},
                         "args": nodes}, None, nodes)
            if r is not None:
                return r
        body = self.P.fns.get(f.a[1])
        if body is not None and not self.opaque(q, body):
            return self.inline(body, None, args, n)
        vals = [a[1] if isinstance(a, tuple) else self.rv(a) for a in args]
        self.emit("call", q, tuple(vals), n)
        return mk("call", q, *vals)

    def e_Val(self, n):
        return n["v"]

    def e_PtrVal(self, n):
        return self.read(n["v"], "f")

    def l_PtrVal(self, n):
        return n["v"]

    def call_value(self, n):
        f = self.rv(n["ce"]) if n.get("ce") else unk("callee")
        if f.op == "lam":
            return self.call_lam(f, n["args"], n)
        if f.op == "fnptr":
            return self.call_fnptr(f, n["args"], n)
        for a in n["args"]:
            self.rv(a)
        return self.unknown("indirect call", n, kind(n.get("t", "")))

    def opaque_call(self, q, f, this, n):
        vals = []
        outs = []
        obj = None
        if this is not None:
            obj = self.read(this)
        for i, (a, pt) in enumerate(zip(n["args"], f["pt"])):
            if is_ref(pt):
                p = self.lval(a)
                vals.append(self.read(p, kind(pt)))
                if not is_const_ref(pt):
                    outs.append((i, p))
            else:
                v = self.rv(a)
                b = base_type(pt)
                if b.endswith("*"):
                    vals.append(v)
                    if not b.startswith("const ") and v.op in ("ptr",):
                        outs.append((i, v))
                else:
                    vals.append(v)
        for a in n["args"][len(f["pt"]):]:
            vals.append(self.rv(a))
        self.emit("call", q, tuple(vals), n, usr=f["u"], obj=obj, this=this)
        if q in self.liblib.NORETURN:
            self.die()
        given = self.given.get(q)
        if given is not None:
            return given(*vals)
        rk = kind(f["rt"], self.enums)
        key = tuple(vals) if obj is None else (obj,) + tuple(vals)
        r = mk("call", q, *key, ty=rk)
        if base_type(f["rt"]) in UNS:
            t.NONNEG.add(r)
        for i, p in outs:
            # content behind the parameter may change
            if p.op == "ptr" and p.a[1] and p.a[1][-1][0] in ("i", "lin"):
                q2 = self.ptr(p.a[0], p.a[1][:-1])
                self.write(q2, mk("out", i, mk("call", q, *key),
                                  self.read(q2)))
            else:
                old = self.read(p)
                self.write(p, mk("out", i, mk("call", q, *key), ty=old.ty))
        if this is not None and not f.get("const") and \
                "absl::" not in q and not f.get("static") and \
                q.split("::")[-1] not in self.pure:
            base = self.read(this)
            self.write(this, self.after(q, base, key))
        if is_ref(f["rt"]) and n.get("lv"):
            return Ref(self.ptr(("d", mk("retref", r))))
        return r

    def after(self, q, obj, key):
        return mk("after", q, obj, *key[1:])

    # ------------------------------------------------------------ statements
    def exec(self, s):
        if s is None or self.st is None:
            return
        self.steps += 1
        if self.steps > 400000:
            raise AnalysisError("analysis budget exceeded")
        k = s["k"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            self.unknown("stmt " + k + " " + s.get("cls", ""), s)
            return
        m(s)

    def guarded(self, f):
        """runs f; a dead path empties the state"""
        try:
            return f()
        except Dead:
            self.st = None

    def x_Expr(self, s):
        def go():
            e = s["e"]
            if e.get("lv") and e["k"] in ("Assign", "Un", "Call", "Cast"):
                self.lval(e)
            else:
                self.rv(e)
        self.guarded(go)

    def x_Block(self, s):
        for x in s["s"]:
            if self.st is None:
                return
            self.exec(x)

    def x_Decl(self, s):
        for v in s["vars"]:
            if self.st is None:
                return
            self.guarded(lambda: self.declare(v))

    def declare(self, v):
        fr = self.frames[-1]
        ty = v["t"]
        if v.get("static"):
            fr.vars[v["id"]] = self.ptr(("g", v["u"]))
            if not v.get("const"):
                self.emit("static", v["q"], (), v, usr=v["u"])
            elif "init" in v and ("g", v["u"]) not in self.st.store:
                self.st.store[("g", v["u"])] = self.rv(v["init"])
            return
        if is_ref(ty) and "init" in v:
            p = self.lval(v["init"])
            fr.vars[v["id"]] = p
            self.bind_struct(v, p)
            return
        r = self.root("v", v["name"])
        self.vtype[r] = ty
        if "init" in v:
            val = self.rv(v["init"])
            k = kind(ty)
            if k == "b" and isinstance(val, T) and val.ty != "b":
                val = truth(val)
        else:
            val = self.undef_of(ty)
        self.st.store[r] = val
        p = self.ptr(r)
        fr.vars[v["id"]] = p
        self.bind_struct(v, p)

    def bind_struct(self, v, p):
        fr = self.frames[-1]
        for i, b in enumerate(v.get("bindings", ())):
            e = b["e"]
            if e is None:
                fr.vars[b["id"]] = self.temp(unk("binding"))
                continue
            q = self.lval(e)
            fr.vars[b["id"]] = q
            if b.get("hid"):
                fr.vars[b["hid"]] = q

    def x_If(self, s):
        if s.get("init"):
            self.exec(s["init"])
        if s.get("var"):
            self.exec(s["var"])
        if self.st is None:
            return
        c = self.guarded(lambda: self.cond(s["c"]))
        if self.st is None:
            return
        self.branch_s(c, lambda: self.exec(s["a"]),
                      lambda: self.exec(s["b"]) if s.get("b") else None)

    def branch_s(self, c, a, b):
        def g(f):
            def h():
                self.guarded(f)
                return None
            return h
        self.branch(c, g(a), g(b))

    def x_Return(self, s):
        fr = self.frames[-1]

        def go():
            if s.get("e") is None:
                return VOID
            if fr.retref:
                return Ref(self.lval(s["e"]))
            return self.rv(s["e"])
        v = self.guarded(go)
        if self.st is not None:
            fr.rets.append((self.st, v))
            self.st = None

    def x_Break(self, s):
        self.frames[-1].loops[-1][0].append(self.st)
        self.st = None

    def x_Continue(self, s):
        fr = self.frames[-1]
        for l in reversed(fr.loops):
            if l[2] == "loop":
                l[1].append(self.st)
                break
        self.st = None

    def x_Try(self, s):
        self.exec(s["body"])

    def x_Label(self, s):
        self.exec(s["body"])

    def x_OtherStmt(self, s):
        self.unknown("stmt " + s.get("cls", "?"), s)

    def joinall(self, states, base):
        """joins states with disjoint path conditions"""
        states = [x for x in states if x is not None]
        if not states:
            return None
        st = states[-1]
        n = len(base)
        conds = [and_(*st.pc[n:])]
        for s in reversed(states[:-1]):
            c = and_(*s.pc[n:])
            conds.append(c)
            st = self.join2(s, st, c, base)
        if len(states) == 1:
            return states[0]
        d = or_(*conds)
        pc = base
        if d is not TRUE:
            pc = pc + ((d,) if d.op != "and" else d.a)
        return State(st.store, pc)

    def x_Switch(self, s):
        if s.get("init"):
            self.exec(s["init"])
        if s.get("var"):
            self.exec(s["var"])
        v = self.guarded(lambda: self.rv(s["c"]))
        if self.st is None:
            return
        # flatten into (labels, statement)
        items = []

        def flat(x):
            if x is None:
                return
            if x["k"] == "Block":
                for y in x["s"]:
                    flat(y)
            elif x["k"] == "Case":
                items.append(("case", x["v"], x.get("hi")))
                flat(x["body"])
            elif x["k"] == "Default":
                items.append(("default",))
                flat(x["body"])
            else:
                items.append(("stmt", x))
        flat(s["body"])
        fr = self.frames[-1]
        base = self.st.pc
        s0 = self.st
        brk = []
        fr.loops.append((brk, [], "switch"))
        notc = []
        outs = []
        labels = [(i, it) for i, it in enumerate(items) if it[0] == "case"]
        dflt = [i for i, it in enumerate(items) if it[0] == "default"]
        groups = []
        for i, it in labels:
            c = self.liblib.seq_eq(v, self.rv(it[1]))
            groups.append((i, c))
        none = and_(*[not_(c) for _, c in groups])
        runs = groups + [(dflt[0] if dflt else None, none)]
        for start, c in runs:
            self.st = s0.copy()
            c = self.decide(c)
            if c is FALSE:
                continue
            self.assume(c)
            if self.st is None:
                continue
            if start is None:
                outs.append(self.st)
                continue
            for it in items[start:]:
                if self.st is None:
                    break
                if it[0] == "stmt":
                    self.exec(it[1])
            if self.st is not None:
                outs.append(self.st)
        fr.loops.pop()
        self.st = self.joinall(outs + brk, base)

    # ------------------------------------------------------------ loops
    def x_While(self, s):
        import loops
        loops.run(self, s, s.get("c"), s["body"], None, s.get("var"))

    def x_For(self, s):
        import loops
        if s.get("init"):
            self.exec(s["init"])
        if self.st is None:
            return
        loops.run(self, s, s.get("c"), s["body"], s.get("inc"), s.get("var"))

    def x_Do(self, s):
        import loops
        fr = self.frames[-1]
        brk, cont = [], []
        fr.loops.append((brk, cont, "loop"))
        base = self.st.pc
        self.exec(s["body"])
        fr.loops.pop()
        ss = [x for x in [self.st] + cont if x is not None]
        self.st = self.joinall(ss, base)
        c = s["c"]
        if self.st is not None and not (
                "cv" in c and int(c["cv"]) == 0):
            loops.run(self, s, c, s["body"], None, None)
        if brk:
            self.st = self.joinall(brk + [self.st], base)

    def x_RangeFor(self, s):
        import loops
        if s.get("init"):
            self.exec(s["init"])
        if self.st is None:
            return
        loops.run_range(self, s)

    # ------------------------------------------------------------ entry
    def call_entry(self, body, this=None, args=None):
        """analyses a function with symbolic (or given) arguments

        args: {parameter name: value or Ref}. Returns its result."""
        vals = []
        args = args or {}
        for p in body["params"]:
            a = args.get(p["name"])
            if a is None:
                a = self.param_sym(p)
            if isinstance(a, Ref):
                vals.append(("ref", a.p))
            elif is_ref(p["t"]):
                r = ("v", "arg:" + p["name"], 0)
                self.st.store[r] = a
                vals.append(("ref", self.ptr(r)))
            else:
                vals.append(("val", a))
        try:
            if body.get("ctor") and this is not None:
                self.run_ctor(body, this, vals, {"l": body["l"]})
                return VOID
            return self.inline(body, this, vals, {"l": body["l"]})
        except Dead:
            return None

    def param_sym(self, p, pre="p:"):
        k = kind(p["t"], self.enums)
        v = sym(pre + p["name"], k)
        if base_type(p["t"]) in UNS:
            t.NONNEG.add(v)
        return v

    def this_sym(self, cls, fields=None):
        """a symbolic object of class cls; its location"""
        r = ("v", "this", 0)
        v = sym("this")
        if fields is not None:
            for k, x in fields.items():
                v = setfield(v, k, x)
        self.st.store[r] = v
        return self.ptr(r)

    def arg_value(self, name):
        """final value of a by-reference argument"""
        return self.rootval(("v", "arg:" + name, 0))
