"""Effects of the code reachable from given functions: call graph (virtual
calls resolved to every override, constructors and destructors included), the
locks of static lifetime held at each point, accesses to variables of static
lifetime and to members."""
import re

from program import is_const_ref, strip_targs, walk

GUARDS = {"absl::MutexLock", "absl::WriterMutexLock",
          "absl::ReleasableMutexLock", "std::lock_guard", "std::scoped_lock",
          "std::unique_lock"}
MUTEX = re.compile(r"(absl::Mutex|std::(recursive_|timed_|recursive_timed_|"
                   r"shared_)?mutex)$")
ACQUIRE = {"Lock", "lock", "WriterLock"}
RELEASE = {"Unlock", "unlock", "WriterUnlock", "Release"}


class Access:
    """one access to a variable: mode is "r", "w" or "rw" """

    def __init__(self, var, q, mode, f, l, held, const_init=None):
        self.var, self.q, self.mode = var, q, mode
        self.f, self.l, self.held = f, l, held

    @property
    def loc(self):
        return "%s:%s" % (self.f["file"], self.l)


class CallSite:
    def __init__(self, q, fn, f, l, held, node):
        self.q, self.fn, self.f, self.l, self.held = q, fn, f, l, held
        self.node = node

    @property
    def loc(self):
        return "%s:%s" % (self.f["file"], self.l)


class Effects:
    def __init__(self, P, roots):
        self.P = P
        self.seen = {}           # (usr, held) -> True
        self.via = {}            # usr -> (caller usr, line)
        self.access = []         # Access to static lifetime variables
        self.members = []        # (cls, name, mode, f, line, base)
        self.calls = []          # CallSite of functions outside the program
        self.casts = []          # pointer to integer conversions
        self.statics = []        # (declared static local, f)
        self.types = set()       # classes of objects constructed
        self.funcs = set()
        self.impl = {}
        self.memo = {}
        work = [(f["u"], frozenset()) for f in roots]
        self.work = work
        while work:
            u, held = work.pop()
            if (u, held) in self.seen:
                continue
            # entered with fewer locks already: covers this one
            if any(u == v and h <= held for v, h in self.seen):
                continue
            self.seen[u, held] = True
            f = P.fns.get(u)
            if f is None:
                continue
            self.funcs.add(u)
            self.function(f, held)
            for c in self.type_names(f):
                self.typed(c, f)

    # ------------------------------------------------------------ call graph
    def type_names(self, f):
        out = set()
        if f.get("cls"):
            out.add(f["cls"])
        for n in walk(f.get("body") or {}):
            if n["k"] in ("Construct", "New"):
                out.add(strip_cv(n.get("t", "").rstrip("*& ")))
            elif n["k"] == "Decl":
                for v in n["vars"]:
                    out.add(strip_cv(v.get("t", "")))
        return out

    def typed(self, c, f):
        """the destructors objects of class c run"""
        if c in self.types:
            return
        self.types.add(c)
        r = self.P.records.get(c)
        if not r:
            for a in re.findall(r"Visqol::\w+", c):
                if a != c:
                    self.typed(a, f)
            return
        if r.get("dtor") in self.P.fns:
            self.push(r["dtor"], frozenset(), f, 0)
        for b in r["bases"]:
            self.typed(b, f)
        for x in r["fields"]:
            self.typed(strip_cv(x["t"]), f)
            for a in re.findall(r"Visqol::\w+", x["t"]):
                self.typed(a, f)
                for d in self.P.derived(a):
                    self.typed(d, f)

    def push(self, u, held, f, l):
        self.via.setdefault(u, (f["u"], l))
        self.work.append((u, held))

    def path(self, u, n=6):
        """how the function is reached"""
        out = []
        seen = set()
        while u in self.P.fns and u not in seen and len(out) < n:
            seen.add(u)
            out.append(strip_targs(self.P.fns[u]["q"]).replace("Visqol::", ""))
            if u not in self.via:
                break
            u = self.via[u][0]
        return " < ".join(out)

    def targets(self, fn):
        u = fn["u"]
        if fn.get("virt"):
            if u not in self.impl:
                self.impl[u] = [g["u"] for g in self.P.pure_virtual_impls(u)]
            return self.impl[u]
        return [u] if u in self.P.fns else []

    # ------------------------------------------------------------- statements
    def function(self, f, held):
        self.f = f
        self.locals = {}
        for i in f.get("inits") or ():
            self.expr(i.get("e"), held)
        b = f.get("body")
        if b:
            self.stmt(b, held)

    def stmt(self, s, held):
        """locks held after s (None: s does not end normally)"""
        if s is None or held is None:
            return held
        if isinstance(s, list):
            for x in s:
                held = self.stmt(x, held)
                if held is None:
                    break
            return held
        k = s.get("k")
        if k == "Block":
            here = held
            out = self.stmt(s["s"], held)
            if out is None:
                return None
            raii = set()
            for x in s["s"]:
                if isinstance(x, dict) and x.get("k") == "Decl":
                    for v in x["vars"]:
                        raii |= self.guard(v)
            return out - (raii - here)
        if k == "Decl":
            for v in s["vars"]:
                if v.get("static"):
                    self.statics.append((v, self.f))
                if v.get("init"):
                    self.locals[v.get("id")] = v["init"]
                    self.expr(v["init"], held, bound(v.get("t", "")))
                held = held | self.guard(v)
            return held
        if k == "If":
            held = self.stmt(s.get("init"), held)
            held = self.expr(s.get("c"), held)
            a = self.stmt(s.get("a"), held)
            b = self.stmt(s.get("b"), held) if s.get("b") else held
            return meet(a, b)
        if k in ("While", "For", "RangeFor", "Do"):
            held = self.stmt(s.get("init"), held) if s.get("init") else held
            # a lock released in the body is not held in the next round
            inner = held
            for _ in range(2):
                for x in ("range", "c"):
                    if s.get(x):
                        m = "r"
                        if x == "range":
                            m = bound((s.get("v") or s.get("var") or
                                       {}).get("t", ""))
                        inner = self.expr(s[x], inner, m)
                out = self.stmt(s.get("body") or s.get("a"), inner)
                if s.get("inc") and out is not None:
                    out = self.expr(s["inc"], out)
                new = meet(inner, out)
                if new == inner:
                    break
                inner = new
            return inner
        if k in ("Return", "Throw"):
            self.expr(s.get("e"), held, bound(self.f.get("ret") or "")
                      if k == "Return" else "r")
            return None
        if k in ("Break", "Continue", "Goto"):
            return None if k == "Goto" else held
        if k in ("Case", "Default", "Label", "Switch", "Try", "OtherStmt"):
            for x in ("init", "c", "e"):
                if s.get(x):
                    held = self.expr(s[x], held) or held
            for x in ("a", "s", "body", "b", "handlers"):
                if s.get(x):
                    held = meet(held, self.stmt(s[x], held)) or held
            return held
        if k == "Expr":
            return self.expr(s.get("e"), held)
        return self.expr(s, held)

    def guard(self, v):
        """locks variable v holds while it lives"""
        if strip_targs(strip_cv(v.get("t", ""))) not in GUARDS:
            return frozenset()
        e = v.get("init")
        while e and e.get("k") == "Cast":
            e = e.get("e")
        args = (e or {}).get("args") or []
        if strip_targs(strip_cv(v["t"])) == "std::unique_lock" and \
                len(args) > 1:
            return frozenset()
        out = set()
        for a in args:
            out |= self.mutex(a)
        return frozenset(out)

    def mutex(self, e, depth=0):
        """the static lifetime mutexes expression e denotes"""
        out = set()
        if depth > 4:
            return out
        for n in walk(e):
            if n["k"] == "Ref":
                if n.get("dk") in ("global", "slocal") and \
                        MUTEX.search(strip_cv(n.get("t", ""))):
                    out.add(n["u"])
                elif n.get("dk") == "var" and n.get("id") in self.locals:
                    if "utex" in n.get("t", ""):
                        out |= self.mutex(self.locals[n["id"]], depth + 1)
            elif n["k"] == "Call" and n["fn"]["u"] in self.P.fns:
                g = self.P.fns[n["fn"]["u"]]
                if "utex" in g["ret"]:
                    for m in walk(g.get("body") or {}):
                        if m["k"] == "Return":
                            out |= self.mutex(m.get("e"), depth + 1)
        return out

    # ------------------------------------------------------------ expressions
    def expr(self, e, held, mode="r"):
        """records what evaluating e does; locks held afterwards"""
        if e is None or held is None:
            return held
        if isinstance(e, list):
            for x in e:
                held = self.expr(x, held)
            return held
        k = e.get("k")
        if k == "Ref":
            self.ref(e, held, mode)
            return held
        if k == "Member":
            self.member(e, held, mode)
            return held
        if k == "Cast":
            if e.get("ck") == "PointerToIntegral":
                self.casts.append((self.f, e.get("l")))
            return self.expr(e.get("e"), held,
                             "r" if e.get("ck") == "LValueToRValue" else mode)
        if k == "Assign":
            held = self.expr(e["b"], held)
            return self.expr(e["a"], held, "w" if e.get("op", "=") == "="
                             else "u")
        if k == "Un":
            op = e.get("op")
            m = mode
            if op in ("++", "--"):
                m = "u"
            elif op == "&":
                m = "rw" if "const" not in e.get("t", "") else "r"
            elif op == "*":
                m = "r"
            x = e.get("args") or e.get("e") or e.get("a")
            if isinstance(x, list):
                for y in x:
                    held = self.expr(y, held, m)
                return held
            return self.expr(x, held, m)
        if k == "Index":
            held = self.expr(e.get("b"), held)
            return self.expr(e.get("a") or e.get("base"), held, mode)
        if k == "Lambda":
            self.stmt(e.get("body"), held)
            for c in e.get("caps") or ():
                if isinstance(c, dict):
                    self.expr(c.get("init"), held)
            return held
        if k in ("Call", "Construct"):
            return self.call(e, held)
        if k == "Cond":
            held = self.expr(e.get("c"), held)
            self.expr(e.get("a"), held, mode)
            self.expr(e.get("b"), held, mode)
            return held
        for x in ("c", "e", "base", "a", "b", "size", "obj", "args", "inits",
                  "init"):
            v = e.get(x)
            if isinstance(v, (dict, list)):
                held = self.expr(v, held, "r") or held
        fn = e.get("fn")
        if fn:
            self.target(fn, e, held)
        for x in ("s", "body"):
            if isinstance(e.get(x), (dict, list)):
                self.stmt(e[x], held)
        return held

    def call(self, e, held):
        fn = e.get("fn")
        if e.get("ce"):
            held = self.expr(e["ce"], held)
        pts = (fn or {}).get("pt") or []
        args = e.get("args") or []
        if e.get("obj") is not None:
            o = e["obj"]
            q = strip_targs(fn["q"]) if fn else ""
            name = q.split("::")[-1]
            mx = self.mutex(o) if name in ACQUIRE | RELEASE else ()
            m = "r" if fn and fn.get("const") else "rw"
            if e.get("arrow") and m == "rw":
                m = "d"             # the object the pointer refers to
            held = self.expr(o, held, m)
            if mx:
                held = held | mx if name in ACQUIRE else held - mx
        off = len(args) - len(pts)
        op_member = off == 1 and e.get("op") and fn and fn.get("cls")
        for i, a in enumerate(args):
            if op_member:
                pt = None if i == 0 else pts[i - 1]
                m = ("r" if fn.get("const") else "rw") if i == 0 else None
            else:
                pt = pts[i] if i < len(pts) else None
                m = None
            if m is None:
                m = "r"
                if pt and pt.rstrip().endswith("&") and \
                        not is_const_ref(pt):
                    m = "rw"
            held = self.expr(a, held, m)
        if fn:
            self.target(fn, e, held)
        return held

    def target(self, fn, e, held):
        ts = self.targets(fn)
        for u in ts:
            self.push(u, held, self.f, e.get("l"))
        if not ts or fn["u"] not in self.P.fns:
            self.calls.append(CallSite(strip_targs(fn["q"]), fn, self.f,
                                       e.get("l"), held, e))

    def ref(self, e, held, mode):
        dk = e.get("dk")
        if dk == "func":
            self.target(e["fn"], e, held)
        elif dk in ("global", "slocal") and e.get("repo"):
            self.access.append(Access(e["u"], e.get("q"), mode, self.f,
                                      e.get("l"), held))

    def member(self, e, held, mode):
        base = e.get("base")
        self.members.append((e.get("cls"), e.get("name"), mode, self.f,
                             e.get("l"), base))
        if base is not None and base.get("k") != "This":
            self.expr(base, held, "d" if e.get("arrow") and mode != "r"
                      else mode)


def bound(ty):
    """how a value is used by binding it to a variable of type ty"""
    ty = ty.rstrip()
    return "rw" if ty.endswith("&") and not is_const_ref(ty) else "r"


def meet(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a & b


def strip_cv(t):
    t = t.strip()
    while True:
        for w in ("const ", "volatile ", "struct ", "class "):
            if t.startswith(w):
                t = t[len(w):]
                break
        else:
            break
    return t.rstrip("& ").strip()
