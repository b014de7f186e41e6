"""Loops as comprehensions: closed forms of the recurrences of a loop body.

The body is evaluated on symbols for the values the iterations change; each
changed location gets a closed form in the iteration number where its recurrence
has one of the shapes below, and an unknown otherwise. The body is then
evaluated once more on the closed forms to record its events.
"""
from program import is_ref, kind, base_type
import terms as t
from terms import (C, T, TRUE, FALSE, VOID, UNDEF, NULL, mk, add, sub, mul,
                   ite, and_, or_, not_, lt, le, eq, fresh, unk, seq, cat, get,
                   length, subst, zero, one, sym, mentions)


class Exit:
    """an early way out of the loop"""

    def __init__(self, kind_, st, val=None):
        self.kind, self.st, self.val = kind_, st, val


def run(I, node, cond, body, inc, var):
    def condf():
        if var:
            I.exec(var)
            if I.st is None:
                return FALSE
        if cond is None:
            return TRUE
        return I.cond(cond)

    def bodyf():
        I.exec(body)

    def incf():
        if inc is not None:
            I.x_Expr({"e": inc, "k": "Expr"})
    core(I, node, condf, bodyf, incf)


def run_range(I, s):
    import interp
    n = s["range"]
    try:
        p = I.lval(n)
    except interp.Dead:
        I.st = None
        return
    q = I.liblib.base_type(n.get("t", ""))
    fs = I.P.all_fields(q) if q in I.P.records else ()
    whole = None
    if len(fs) == 1 and "arma::" in fs[0]["t"]:
        # the program's own matrix: its elements in order of storage
        p = I.addpath(p, ("f", fs[0]["name"]))
        whole = "lin"
    v0 = I.read(p)
    n0 = t.nelem(v0) if whole else I.liblib.range_len(I, v0)
    cr = I.root("v", "range")
    I.st.store[cr] = zero()
    cp = I.ptr(cr)
    v = s["v"]
    step = whole or I.liblib.range_step(v0)

    def condf():
        return I.decide(lt(I.read(cp, "i"), n0))

    def bodyf():
        i = I.read(cp, "i")
        q = I.addpath(p, (step, i))
        fr = I.frames[-1]
        if is_ref(v["t"]):
            fr.vars[v["id"]] = q
            I.bind_struct(v, q)
        else:
            r = I.root("v", v["name"])
            I.st.store[r] = I.read(q, kind(v["t"]))
            fr.vars[v["id"]] = I.ptr(r)
            I.bind_struct(v, I.ptr(r))
        I.exec(s["body"])

    def incf():
        I.write(cp, add(I.read(cp, "i"), one()))
    core(I, s, condf, bodyf, incf)


# ------------------------------------------------------------ one iteration

class Pass:
    pass


def one_pass(I, st, condf, bodyf, incf):
    """evaluates condition, body and increment from state st"""
    fr = I.frames[-1]
    r = Pass()
    keep = list(fr.rets)
    lost = [f.lost for f in I.frames]
    fr.rets = []
    brk, cont = [], []
    fr.loops.append((brk, cont, "loop"))
    base = st.pc
    I.st = st
    r.dead = False
    r.g = FALSE
    r.exit = None
    try:
        c = I.guarded(condf)
        if I.st is not None:
            r.gpc = I.st.pc[len(base):]      # facts from evaluating it
            r.g = c
            ex = I.st.copy()
            ex_c = not_(c)
            I.assume(c)
            if c is not TRUE:
                r.exit = ex
                r.exitc = ex_c
            gbase = I.st.pc if I.st is not None else None
            if I.st is not None:
                I.exec(bodyf_block(bodyf)) if False else bodyf_run(I, bodyf)
                ss = [x for x in [I.st] + cont if x is not None]
                I.st = I.joinall(ss, gbase)
                if I.st is not None:
                    incf()
            r.gbase = gbase
        else:
            r.gbase = None
    finally:
        fr.loops.pop()
    r.end = I.st
    r.brk = brk
    r.rets = fr.rets
    fr.rets = keep
    r.lost = any(f.lost and not l for f, l in zip(I.frames, lost))
    for f, l in zip(I.frames, lost):
        f.lost = l
    n = len(r.gbase) if r.gbase is not None else 0
    if r.end is None:
        r.surv = FALSE
    else:
        r.surv = and_(*r.end.pc[n:])
    r.n = n
    return r


def bodyf_run(I, bodyf):
    I.guarded(bodyf)


def bodyf_block(f):
    return None


# ------------------------------------------------------------ variants

def diff(a, b, path, out):
    """leaf paths where value b differs from a"""
    if a is b:
        return
    if a.op == "rec" and b.op == "rec" and a.a[0] == b.a[0]:
        da, db = dict(a.a[1]), dict(b.a[1])
        for n in set(da) | set(db):
            diff(da.get(n, UNDEF), db.get(n, UNDEF), path + (("f", n),), out)
        return
    if b.op == "with" or a.op == "with":
        ba = a.a[0] if a.op == "with" else a
        bb = b.a[0] if b.op == "with" else b
        if ba is bb:
            ns = set()
            for x in (a, b):
                if x.op == "with":
                    ns.update(n for n, _ in x.a[1])
            for n in ns:
                va = t.getfield(a, n)
                vb = t.getfield(b, n)
                if va.ty == "o" and vb.ty != "o":
                    va = t.getfield(a, n, vb.ty)
                diff(va, vb, path + (("f", n),), out)
            return
    if a.op == "ptr" and b.op == "ptr" and a.a[0] == b.a[0]:
        pa, pb = a.a[1], b.a[1]
        if pa and pb and pa[:-1] == pb[:-1] and pa[-1][0] == pb[-1][0] and \
                pa[-1][0] in ("i", "lin"):
            out.append((path + (("pidx",),), a, b))
            return
    if a.op == "rit" and b.op == "rit":
        diff(a.a[0], b.a[0], path + (("rit",),), out)
        return
    if a.op == "stm" and b.op == "stm" and a.a[0] is b.a[0]:
        # input streams: only the position moves
        out.append((path + (("pos",),), a, b))
        return
    out.append((path, a, b))


def getp(I, v, path, ty="o"):
    for s in path:
        if s[0] == "pidx":
            v = v.a[1][-1][1] if v.op == "ptr" else unk("pidx", "i")
        elif s[0] == "pos":
            v = v.a[1] if v.op == "stm" else unk("pos", "i")
        elif s[0] == "rit":
            v = v.a[0] if v.op == "rit" else unk("rit")
        else:
            v = I.step(v, s, ty)
    return v


def setp(I, v, path, x):
    if path and path[-1][0] == "pidx":
        q = getp(I, v, path[:-1])
        x = I.ptr(q.a[0], q.a[1][:-1] + ((q.a[1][-1][0], x),))
        path = path[:-1]
    elif path and path[-1][0] == "pos":
        q = getp(I, v, path[:-1])
        x = mk("stm", q.a[0], x)
        path = path[:-1]
    if path and path[-1][0] == "rit":
        x = mk("rit", x)
        path = path[:-1]
    return I.upath(v, path, x)


def name_of(root, path):
    n = str(root[1]) if not isinstance(root[1], T) else "d"
    for s in path:
        if s[0] == "f":
            n = s[1]
    return n


def unrolled(I, condf, bodyf, incf):
    """a loop whose guard is decided in every iteration, iteration by
    iteration; False (and nothing changed) for other loops"""
    S0 = I.st
    fr = I.frames[-1]
    vars0 = dict(fr.vars)
    ne, nr = len(I.events), I.nroot
    lost = [f.lost for f in I.frames]
    exits, rets, st = [], [], S0.copy()
    node = I.loopnode
    for _ in range(I.unroll + 1):
        fr.vars = dict(vars0)
        before = dict(st.store)
        r = one_pass(I, st, condf, bodyf, incf)
        if r.g not in (TRUE, FALSE):
            break
        if r.exit is not None:
            exits.append(r.exit)
        exits += r.brk
        rets += r.rets
        if r.lost:
            lost = [True] * len(lost)
        if r.end is not None and r.g is TRUE and r.exit is None and \
                r.end.pc is st.pc and all(
                    v is r.end.store.get(k, v) for k, v in before.items()) \
                and all(k in before or k[0] == "v" for k in r.end.store):
            # an iteration that changes nothing: the loop never ends
            I.st = r.end
            I.emit("endless", "loop", (), node)
            r.end = None
        st = r.end
        if st is None:
            for f, x in zip(I.frames, lost):
                f.lost = x
            fr.vars = vars0
            fr.rets += rets
            I.st = I.joinall(exits, S0.pc)
            return True
    del I.events[ne:]
    I.nroot = nr
    fr.vars = vars0
    I.st = S0
    return False


def core(I, node, condf, bodyf, incf):
    I.loopnode = node
    if I.unroll and unrolled(I, condf, bodyf, incf):
        return
    S0 = I.st
    fr = I.frames[-1]
    k = fresh("u:k", "i")
    root0 = top = I.nroot
    I.silent += 1
    vars0 = dict(fr.vars)
    phis = {}       # (root, path) -> phi
    I.loopctx.append((k, None))
    res = None
    vals = {}
    try:
        for it in range(12):
            st = S0.copy()
            for (r, p), phi in phis.items():
                st.store[r] = setp(I, st.store[r] if r in st.store else
                                   I.initial(r), p, phi)
            start = dict(st.store)
            fr.vars = dict(vars0)
            # every pass numbers the objects it creates alike
            top, I.nroot = max(top, I.nroot), root0
            res = one_pass(I, st, condf, bodyf, incf)
            if res.end is None:
                break
            new = False
            vals = {}
            for r in list(res.end.store):
                if r not in S0.store and r[0] not in ("d", "g", "s"):
                    continue
                if r[0] == "d" and any(mentions(r[1], f)
                                       for f in phis.values()):
                    continue
                a = start.get(r)
                if a is None:
                    a = I.initial(r)
                out = []
                diff(a, res.end.store[r], (), out)
                for p, va, vb in out:
                    # an ancestor that is already symbolic keeps its place
                    hit = None
                    for i in range(len(p) + 1):
                        if (r, p[:i]) in phis:
                            hit = (r, p[:i])
                    if hit is None:
                        x0 = getp(I, S0.store.get(r) if r in S0.store
                                  else I.initial(r), p)
                        x1 = getp(I, res.end.store[r], p)
                        ty = phi_ty(x0, x1)
                        # drop finer symbols below
                        for q in [q for q in phis if q[0] == r and
                                  q[1][:len(p)] == p]:
                            del phis[q]
                        phis[(r, p)] = fresh("phi:" + name_of(r, p), ty)
                        new = True
            if new:
                continue
            for (r, p), phi in list(phis.items()):
                x1 = getp(I, res.end.store[r], p, phi.ty)
                x0 = getp(I, S0.store.get(r) if r in S0.store else
                          I.initial(r), p, phi.ty)
                if x1.ty == "f" and phi.ty == "i" or (
                        phi.ty == "o" and x1.ty in ("i", "f", "b") and
                        x1 is not phi):
                    phis[(r, p)] = fresh("phi:" + name_of(r, p), x1.ty)
                    new = True
                vals[(r, p)] = (x0, x1)
            if not new:
                break
        else:
            res = None
    finally:
        I.silent -= 1
        I.loopctx.pop()
        fr.vars = vars0
    I.st = S0
    if res is None:
        havoc(I, S0, phis, node)
        return
    finish_loop(I, node, k, S0, phis, vals, res, condf, bodyf, incf,
                (root0, top))


def phi_ty(x0, x1):
    if x0.op == "undef":
        return x1.ty
    if x0.ty == x1.ty:
        return x0.ty
    if {x0.ty, x1.ty} == {"i", "f"}:
        return "f"
    return x0.ty if x0.ty != "o" else x1.ty


def havoc(I, S0, phis, node):
    I.unknown("loop", node)
    for (r, p), phi in phis.items():
        if p and p[-1][0] in ("pidx", "pos"):
            x = unk("loopvar", "i")
        else:
            x = unk("loopvar", phi.ty)
        S0.store[r] = setp(I, S0.store.get(r) if r in S0.store
                           else I.initial(r), p, x)


# ------------------------------------------------------------ recurrences

class Solver:
    def __init__(self, I, k, phis, vals, surv, g):
        self.I, self.k = I, k
        self.cf = {}         # phi -> function K -> term
        self.names = {}
        self.pending = {}
        for key, phi in phis.items():
            x0, x1 = vals.get(key, (UNDEF, phi))
            self.pending[phi] = (x0, x1)
            self.names[phi] = name_of(*key)
        self.shape = {}      # substitutions for len/rows/cols of phis
        self.surv, self.g = surv, g

    def solve(self):
        # shapes first: lengths and matrix extents are scalars of their own
        self.lens()
        todo = dict(self.pending)
        while todo:
            prog = False
            for phi in list(todo):
                x0, x1 = todo[phi]
                if x1.op != "phi" and x1 is not phi:
                    x1 = self.I.under(x1)
                for c in own_list(self.I.under(self.g)):
                    if mentions(c, phi):
                        x1 = t.assume1(x1, c, True)
                if self.surv is not TRUE:
                    x1 = survived(x1, self.surv)
                x1 = self.apply(x1, self.k)
                deps = [p for p in todo if p is not phi and mentions(x1, p)]
                if deps:
                    continue
                f = self.closed(phi, x0, x1)
                if f is None and self.slices({phi: todo[phi]}):
                    del todo[phi]
                    prog = True
                    continue
                if f is None:
                    f = self.unknown(phi, x0, x1)
                self.cf[phi] = f
                del todo[phi]
                prog = True
            if todo and not prog:
                prog = self.slices(todo)
            if todo and not prog:
                # a cycle: try those that work with the others unknown
                phi = min(todo, key=lambda p: len(
                    [q for q in todo if mentions(todo[p][1], q)]))
                x0, x1 = todo.pop(phi)
                self.cf[phi] = self.unknown(phi, x0, x1)
        return self

    def slices(self, todo):
        """values of which iteration k writes only slice k (a column, a row,
        an element), from the slices k of each other before the loop"""
        k = self.k
        group = {}
        for phi, (x0, x1) in todo.items():
            if phi.ty != "o" or x0.op == "undef":
                continue
            x1 = self.apply(self.I.under(x1), k)
            for c in own_list(self.I.under(self.g)):
                if c is not TRUE and c is not FALSE:
                    x1 = t.assume1(x1, self.apply(c, k), True)
            w = written(x0, x1, phi, k)
            if w is not None:
                group[phi] = (x0,) + w
        while True:
            bad = None
            for phi, (x0, d, new, idx) in group.items():
                v = firstreads(new, group, k)
                if any(mentions(v, p) for p in todo):
                    bad = phi
                    break
            if bad is None:
                break
            del group[bad]
        for phi, (x0, d, new, idx) in group.items():
            v = firstreads(new, group, k)
            self.cf[phi] = sliced(x0, d, v, idx, k)
            del todo[phi]
        return bool(group)

    def unknown(self, phi, x0, x1):
        nm = "loop:" + self.names.get(phi, "?")
        u = fresh(nm).a[0]
        ty = phi.ty
        # inductive bounds
        facts = []
        if ty in ("i", "f"):
            facts = bounds(self, phi, x0, x1)

        def f(K):
            if K is zero():
                return x0
            x = mk("unk", u, (K,) + sh(K), ty=ty)
            if x0.op == "undef" and ty != "o":
                return ite(eq(K, zero()), x0, x)
            return x
        if facts:
            import linear
            linear.UNKFACTS[u] = facts
        self.I.recur[u] = (self.k, phi, x0, self.apply(x1, self.k))
        sh = self.keeps_shape(phi, x0, x1) if ty == "o" else lambda K: ()
        return f

    def keeps_shape(self, phi, x0, x1):
        p = mk("len", phi, ty="i")
        if p not in self.shape:
            return lambda K: ()
        n = self.shape[p]
        i, e = fresh("i", "i"), VOID
        try:
            a, b = length(get(x1, i)), length(get(x0, i))
            if every(a, mk("len", get(phi, i), ty="i"), i):
                e = t.smap(n, i, b)
        except (AttributeError, TypeError, ValueError):
            pass
        return lambda K: (mk("lens", n(K), e),)

    def lens(self):
        """lengths of growing sequences, shapes of matrices"""
        self.lensub = []
        for phi, (x0, x1) in self.pending.items():
            if phi.ty != "o":
                continue
            for op, fn in (("len", length), ("rows", t.rows),
                           ("cols", t.cols)):
                p = mk(op, phi, ty="i")
                try:
                    n1 = fn(x1)
                    n0 = fn(x0)
                except (AttributeError, TypeError, ValueError):
                    continue
                if n1 is p:
                    self.shape[p] = (lambda n: (lambda K: n))(n0)
                elif op == "len" and mentions(n1, p):
                    d = sub(n1, p)
                    self.lensub.append((p, n0, d))
        ch = True
        while ch:
            ch = False
            for e in list(self.lensub):
                p, n0, d = e
                d = self.apply(d, self.k)
                if any(mentions(d, q) for q in self.pending):
                    continue
                self.shape[p] = (lambda n0, d: (
                    lambda K: add(n0, t.ssum(K, self.j(), self.at(d)))))(n0, d)
                self.lensub.remove(e)
                ch = True

    def j(self):
        self._j = fresh("u:j", "i")
        return self._j

    def at(self, d):
        return subst(d, {self.k: self._j})

    def apply(self, x, K):
        """x with the solved symbols replaced by their values at K"""
        m = {}
        for p, f in self.shape.items():
            if mentions(x, p):
                m[p] = f(K)
        for p, f in self.cf.items():
            if mentions(x, p):
                m[p] = f(K)
        if K is not self.k and mentions(x, self.k):
            m[self.k] = K
        return subst(x, m) if m else x

    # -- closed forms
    def closed(self, phi, x0, x1):
        I, k = self.I, self.k
        for c in own_list(I.under(self.g)):
            # the condition holds in every iteration
            if c is not TRUE and c is not FALSE:
                x1 = t.assume1(x1, self.apply(c, k), True)
        f = scalar(x0, phi, x1, k)
        if f is not None:
            return f
        if phi.ty == "o":
            x1 = self.elsewhere(phi, x0, x1)
            f = self.append(phi, x0, x1)
            if f is not None:
                return f
            f = self.single(phi, x0, x1)
            if f is not None:
                return f
            f = self.members(phi, x0, x1)
            if f is not None:
                return f
            f = self.pointwise(phi, x0, x1)
            if f is not None:
                return f
        return None

    def part(self, x0, e, pe):
        """closed form of a part of the value"""
        if mentions(pe, self.k):
            return None
        f = scalar(x0, pe, e, self.k)
        if f is None:
            f = self.append(pe, x0, e)
        if f is None:
            f = self.single(pe, x0, e)
        if f is None:
            f = self.members(pe, x0, e)
        if f is None and pe.ty == "o" and x0.op != "undef":
            f = self.pointwise(pe, x0, e)
        return f

    def single(self, phi, x0, x1):
        """only the element at one fixed position changes"""
        if x1.op != "upd" or x1.a[0] is not phi:
            return None
        i, v = x1.a[1], x1.a[2]
        if mentions(i, phi) or mentions(i, self.k):
            return None
        pe = fresh("phi:e", v.ty)
        e = subst(v, {mk("get", phi, i, ty=y): pe for y in "fiob"})
        if mentions(e, phi) or not mentions(e, pe):
            return None
        f = self.part(get(x0, i, v.ty), e, pe)
        if f is None:
            return None
        return lambda K: x0 if K is zero() else t.upd(x0, i, f(K))

    def members(self, phi, x0, x1):
        """only some members change, each on its own"""
        if x1.op != "with" or x1.a[0] is not phi:
            return None
        fs = []
        for n, v in x1.a[1]:
            g = {mk("field", phi, n, ty=y): y for y in "fiob"}
            ty = v.ty
            pe = fresh("phi:m", ty)
            e = subst(v, {y: pe for y in g})
            if mentions(e, phi):
                return None
            f = self.part(t.getfield(x0, n, ty), e, pe)
            if f is None:
                return None
            fs.append((n, f))

        def r(K):
            if K is zero():
                return x0
            v = x0
            for n, f in fs:
                v = t.setfield(v, n, f(K))
            return v
        return r

    def append(self, phi, x0, x1):
        a = appended(self.settled(phi, x0, x1), phi)
        if a is None or mentions(a, phi):
            return None
        k = self.k

        def f(K):
            j = fresh("u:j", "i")
            return cat(x0 if x0.op != "undef" else seq(),
                       t.flat(K, j, subst(a, {k: j})))
        return f

    def elsewhere(self, phi, x0, x1):
        """x1 where reads of elements at other positions than the fixed ones
        written are reads of the value before the loop"""
        at, todo = [], [x1]
        while todo:
            y = todo.pop()
            if y is phi:
                continue
            if y.op == "ite":
                todo += y.a[1:]
            elif y.op == "upd":
                at.append(y.a[1])
                todo.append(y.a[0])
            else:
                return x1
        if not at or x0.op == "undef" or any(
                mentions(i, self.k) or mentions(i, phi) for i in at):
            return x1
        m = {}
        for y in t.subterms(x1):
            if y.op == "get" and y.a[0] is phi and all(
                    (lambda d: d.op == "c" and d.a[0] != 0)(sub(y.a[1], i))
                    for i in at):
                m[y] = get(x0, y.a[1], y.ty)
        return subst(x1, m) if m else x1

    def settled(self, phi, x0, x1):
        """x1 where reads of elements the loop does not append are reads of
        the value before it"""
        if x0.op == "undef":
            return x1
        ys = [y for y in t.subterms(x1) if y.op == "get" and y.a[0] is phi
              and not mentions(y.a[1], phi)]
        if not ys:
            return x1
        import linear
        g = self.apply(self.I.under(self.g), self.k)
        facts = list(own_list(g)) + [le(zero(), self.k)]
        n0, m = length(x0), {}
        for y in ys:
            i = self.apply(y.a[1], self.k)
            if not t.freebv(i) and linear.implied(tuple(facts), lt(i, n0)) and \
                    linear.implied(tuple(facts), le(zero(), i)):
                m[y] = get(x0, i, y.ty)
        return subst(x1, m) if m else x1

    def pointwise(self, phi, x0, x1):
        k = self.k
        ismat = x1.op in ("mupd", "mat", "lupd", "elem") or \
            x0.op in ("mat", "mupd", "lupd", "elem") or any(
                y.op in ("mupd", "lupd", "at", "mlin") and y.a[0] is phi
                for y in t.subterms(x1))
        if x1.op == "ite":
            ys = list(t.subterms(x1))
            if any(y.op in ("mupd", "lupd") for y in ys):
                ismat = True
        if ismat:
            if t.rows(x1) is not t.rows(phi) and \
                    t.rows(x1) is not t.rows(x0):
                return None
            if t.cols(x1) is not t.cols(phi) and \
                    t.cols(x1) is not t.cols(x0):
                return None
            R, Cc = t.rows(x0), t.cols(x0)
            shp = {mk("rows", phi, ty="i"): R, mk("cols", phi, ty="i"): Cc}
            x1 = subst(x1, shp)
            uses_lin = any(y.op == "lupd" or (y.op == "mlin" and y.a[0] is phi)
                           for y in t.subterms(x1))
            if uses_lin:
                i = fresh("u:i", "i")
                e = t.lin(x1, i)
                pe = fresh("phi:e", "f")
                e = subst(e, {mk("mlin", phi, i, ty="f"): pe})
                if mentions(e, phi):
                    e = congr(e, phi, "mlin", (i,), (None,), pe)
                if mentions(e, phi):
                    return None
                f = scalar(t.lin(x0, i), pe, e, k)
                if f is None:
                    return None
                return lambda K: t.elem(R, Cc, i, f(K))
            i, c = fresh("u:i", "i"), fresh("u:c", "i")
            e = t.at(x1, i, c)
            pe = fresh("phi:e", "f")
            e = subst(e, {mk("at", phi, i, c, ty="f"): pe})
            if mentions(e, phi):
                e = congr(e, phi, "at", (i, c), (R, Cc), pe)
            if mentions(e, phi):
                return None
            f = scalar(t.at(x0, i, c), pe, e, k)
            if f is None:
                return None
            return lambda K: t.mat(R, Cc, i, c, f(K))
        n1 = length(x1)
        if n1 is not length(phi) and n1 is not length(x0):
            return None
        n0 = length(x0)
        if x0.op in ("undef",):
            return None
        x1 = subst(x1, {mk("len", phi, ty="i"): n0})
        i = fresh("u:i", "i")
        found = None
        for ty in ("f", "i", "o", "b"):
            g = mk("get", phi, i, ty=ty)
            e = get(x1, i, ty)
            if mentions(e, g):
                found = (ty, g, e)
                break
        if found is None:
            e = get(x1, i, "o")
            if mentions(e, phi):
                return None
            ty, g = "o", None
            pe = fresh("phi:e", "o")
        else:
            ty, g, e = found
            # the same element may be read with several types
            pe = fresh("phi:e", ty)
            m = {}
            for tt in ("f", "i", "o", "b"):
                m[mk("get", phi, i, ty=tt)] = pe
            e = subst(e, m)
        if mentions(e, phi):
            e = congr(e, phi, "get", (i,), (n0,), pe)
        if mentions(e, phi):
            return self.ahead(phi, x0, x1, n0)
        f = scalar(get(x0, i, ty), pe, e, k)
        if f is None:
            f = self.inner(get(x0, i, ty), pe, e)
        if f is None:
            return None
        return lambda K: t.smap(n0, i, f(K))

    def ahead(self, phi, x0, x1, n0):
        """s[k] = e(s[k + c], ...): elements not written before"""
        k = self.k
        if x1.op != "upd" or x1.a[0] is not phi or x1.a[1] is not k:
            return None
        m = {}
        for y in t.subterms(x1.a[2]):
            if y.op == "get" and y.a[0] is phi:
                d = sub(y.a[1], k)
                if d.op != "c" or d.a[0] < 0:
                    return None
                m[y] = get(x0, y.a[1], y.ty)
        e = subst(x1.a[2], m)
        if mentions(e, phi):
            return None
        i = fresh("u:i", "i")

        def f(K):
            return t.smap(n0, i, ite(lt(i, K), subst(e, {k: i}),
                                     get(x0, i, e.ty)))
        return f

    def inner(self, x0, pe, e):
        """elements that are sequences or records themselves"""
        s = Solver(self.I, self.k, {}, {}, TRUE, TRUE)
        s.pending = {pe: (x0, e)}
        f = s.append(pe, x0, e)
        if f is None:
            f = s.pointwise(pe, x0, e)
        return f


def written(x0, x1, phi, k):
    """the slice k that x1 writes into phi: (dimension, value, indices)"""
    if mentions(k, phi):
        return None
    if x1.op in ("mat", "elem", "mupd") or x1.op == "ite" and any(
            y.op in ("mat", "mupd") for y in (x1.a[1], x1.a[2])):
        if t.rows(x1) not in (t.rows(phi), t.rows(x0)) or \
                t.cols(x1) not in (t.cols(phi), t.cols(x0)):
            return None
        i, c = fresh("u:i", "i"), fresh("u:c", "i")
        e = t.at(x1, i, c)
        keep = mk("at", phi, i, c, ty="f")
        for d, v in ((1, c), (0, i)):
            new = t.assume1(e, eq(v, k), True)
            old = t.assume1(e, not_(eq(v, k)), True)
            if old is keep:
                return d, new, (i, c)
        return None
    n1 = length(x1)
    if n1 is not mk("len", phi, ty="i") and n1 is not length(x0):
        return None
    i = fresh("u:i", "i")
    for ty in "fio":
        e = get(x1, i, ty)
        old = t.assume1(e, not_(eq(i, k)), True)
        if old is mk("get", phi, i, ty=ty):
            return None, t.assume1(e, eq(i, k), True), (i,)
    return None


def firstreads(v, group, k):
    """v with the reads of slice k of the group's values taken from before
    the loop"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        r = None
        if x.op in ("at", "get") and x.a[0] in group:
            x0, d, _new, idx = group[x.a[0]]
            j = x.a[1:]
            s = j[0] if d is None else j[d]
            if (x.op == "at") == (d is not None) and \
                    (s is k or s is (idx[0] if d is None else idx[d])):
                j = [go(y) for y in j]
                r = t.at(x0, *j) if x.op == "at" else get(x0, j[0], x.ty)
        elif x.op in ("rows", "cols", "len") and x.a[0] in group:
            x0 = group[x.a[0]][0]
            r = {"rows": t.rows, "cols": t.cols, "len": length}[x.op](x0)
        if r is None:
            r = t.rebuild(x, go) if x.a else x
        memo[x] = r
        return r
    return go(v)


def sliced(x0, d, v, idx, k):
    def f(K):
        if K is zero():
            return x0
        s = idx[0] if d is None else idx[d]
        e = subst(v, {k: s})
        done = and_(le(zero(), s), lt(s, K))
        if d is None:
            return t.smap(length(x0), s, ite(done, e, get(x0, s, e.ty)))
        return t.mat(t.rows(x0), t.cols(x0), idx[0], idx[1],
                     ite(done, e, t.at(x0, *idx)))
    return f


def congr(e, phi, op, idx, ext, pe):
    """reads of the written element itself, under the gate that selects it"""
    def same(a, i, n, conj):
        if a is i:
            return True
        q = eq(i, a)
        return q is TRUE or q in conj or (n is one() and a is zero())

    def go(x, conj):
        if not mentions(x, phi):
            return x
        if x.op == "ite" and x.ty != "b":
            c = x.a[0]
            if mentions(c, phi):
                c = subst(c, rew(c, conj))
            return ite(c, go(x.a[1], conj | set(own_list(c))),
                       go(x.a[2], conj | set(own_list(not_(c)))))
        return subst(x, rew(x, conj))

    def rew(x, conj):
        m = {}
        for y in t.subterms(x):
            if y.op == op and y.a[0] is phi and len(y.a) == len(idx) + 1 and \
                    all(same(a, i, n, conj)
                        for a, i, n in zip(y.a[1:], idx, ext)):
                m[y] = pe
        return m
    return go(e, frozenset())


def appended(x, phi):
    if x is phi:
        return seq()
    if x.op == "cat" and x.a[0] is phi:
        r = cat(*x.a[1:])
        return None if mentions(r, phi) else r
    if x.op == "ite":
        if mentions(x.a[0], phi):
            return None
        a, b = appended(x.a[1], phi), appended(x.a[2], phi)
        if a is None or b is None:
            return None
        return ite(x.a[0], a, b)
    return None


def minus(x, phi):
    """x - phi, pushed into gates, when free of phi; else None"""
    if not mentions(x, phi):
        return None
    d = sub(x, phi) if x.ty in ("i", "f") or phi.ty in ("i", "f") else None
    if d is not None and not mentions(d, phi):
        return d
    if x.op == "ite" and not mentions(x.a[0], phi):
        a = minus(x.a[1], phi)
        b = minus(x.a[2], phi)
        if a is None or b is None:
            return None
        return ite(x.a[0], a, b)
    return None


def kconds(x, k, phi):
    """conditions d(k) = 0 with d linear in k, free of phi"""
    out = []
    for y in t.subterms(x):
        if y.op == "eq" and mentions(y, k) and not mentions(y, phi):
            c, d = t.parts(y.a[0])
            if k in d and abs(d[k]) == 1:
                rest = sub(y.a[0], t.scale(k, d[k]))
                if not mentions(rest, k):
                    out.append((y, t.scale(rest, -1 / d[k])))
    return out


def either(v):
    """(a, b) when v is max(a, b), also plus a constant"""
    if v.op == "max" and len(v.a) == 2:
        return v.a
    c, d = t.parts(v)
    if len(d) == 1:
        (m, n), = d.items()
        r = sub(v, C(c))
        if n == 1 and r.op == "max" and len(r.a) == 2:
            return tuple(add(x, C(c)) for x in r.a)
    return None


def writes(x, phi):
    """(condition, value) when x is phi unless the condition holds"""
    if x is phi:
        return FALSE, None
    if not mentions(x, phi):
        return TRUE, x
    if x.op != "ite" or mentions(x.a[0], phi):
        return None
    a, b = writes(x.a[1], phi), writes(x.a[2], phi)
    if a is None or b is None:
        return None
    q = x.a[0]
    v = a[1] if b[1] is None else b[1] if a[1] is None else \
        ite(q, a[1], b[1])
    return or_(and_(q, a[0]), and_(not_(q), b[0])), v


def survived(x, surv):
    """x where the iteration came to its end"""
    m = {}
    for y in t.subterms(x):
        if y.op != "and" or t.freebv(y):
            continue
        keep = list(y.a)
        for b in y.a:
            rest = [z for z in keep if z is not b]
            r = surv
            for z in rest:
                r = t.assume1(r, z, True)
            if t.assume1(r, not_(b), True) is FALSE or \
                    t.assume1(r, b, False) is FALSE:
                keep = rest
        if len(keep) < len(y.a):
            m[y] = and_(*keep)
    return subst(x, m) if m else x


def scalar(x0, phi, x1, k):
    """closed form of x(0) = x0, x(k+1) = x1(k, x(k))"""
    if x1 is phi:
        return lambda K: x0
    if not mentions(x1, phi):
        if not mentions(x1, k):
            def f(K):
                return ite(lt(zero(), K), x1, x0) if K is not zero() else x0
            return f

        def f(K):
            if K is zero():
                return x0
            return ite(lt(zero(), K), subst(x1, {k: sub(K, one())}), x0)
        return f
    # one iteration only: k = g
    for e, g in kconds(x1, k, phi):
        if t.assume1(x1, e, False) is phi:
            v = subst(t.assume1(x1, e, True), {phi: x0})
            v = subst(v, {k: g})

            def f(K, v=v, g=g):
                return ite(and_(le(zero(), g), lt(g, K)), v, x0)
            return f
    if phi.ty in ("i", "f") or t.is_num(x1):
        d = minus(x1, phi)
        if d is not None:
            def f(K):
                j = fresh("u:j", "i")
                return add(x0 if x0.op != "undef" else unk("uninitialised",
                                                           phi.ty),
                           t.ssum(K, j, subst(d, {k: j})))
            return f
        if x1.op in ("min", "max") and phi in x1.a:
            rest = [y for y in x1.a if y is not phi]
            if not any(mentions(y, phi) for y in rest):
                r = rest[0]
                for y in rest[1:]:
                    r = t.mnx(x1.op, r, y)

                def f(K):
                    j = fresh("u:j", "i")
                    return t.fold(x1.op, K, j, subst(r, {k: j}), x0)
                return f
        q = t.div(x1, phi) if x1.op in ("m", "p") else None
        if q is not None and not mentions(q, phi):
            def f(K):
                j = fresh("u:j", "i")
                if not mentions(q, k):
                    if K.op == "c" and 0 <= K.a[0] <= 4:
                        r = x0
                        for _ in range(int(K.a[0])):
                            r = mul(r, q)
                        return r
                    return mul(x0, t.fn("pow", q, K))
                return mul(x0, t.fold("prod", K, j, subst(q, {k: j}), one()))
            return f
    if phi.ty == "b":
        on = subst(x1, {phi: TRUE})
        off = subst(x1, {phi: FALSE})
        if on is TRUE:
            def f(K):
                j = fresh("u:j", "i")
                return or_(x0, t.sany(K, j, subst(off, {k: j})))
            return f
        if off is FALSE:
            def f(K):
                j = fresh("u:j", "i")
                return and_(x0, not_(t.sany(K, j, not_(subst(on, {k: j})))))
            return f
    if x1.op == "ite" and not mentions(x1.a[0], phi):
        c, a, b = x1.a
        if b is phi and not mentions(a, phi) and not mentions(a, k):
            def f(K):
                j = fresh("u:j", "i")
                return ite(t.sany(K, j, subst(c, {k: j})), a, x0)
            return f
        if a is phi and not mentions(b, phi) and not mentions(b, k):
            def f(K):
                j = fresh("u:j", "i")
                return ite(t.sany(K, j, subst(not_(c), {k: j})), b, x0)
            return f
        # written in the last iteration for which c holds
        if b is phi and not mentions(a, phi):
            def f(K):
                j = fresh("u:j", "i")
                return t.lastw(K, j, subst(c, {k: j}), subst(a, {k: j}), x0)
            return f
        if a is phi and not mentions(b, phi):
            def f(K):
                j = fresh("u:j", "i")
                return t.lastw(K, j, subst(not_(c), {k: j}),
                               subst(b, {k: j}), x0)
            return f
    if x1.op == "ite":
        cv = writes(x1, phi)
        if cv is not None and cv[1] is not None:
            def f(K):
                j = fresh("u:j", "i")
                return t.lastw(K, j, subst(cv[0], {k: j}),
                               subst(cv[1], {k: j}), x0)
            return f
    if x1.op == "idiv" and x1.a[0] is phi and not mentions(x1.a[1], phi):
        return None
    two = either(x1) if phi.ty == "i" and x0.op != "undef" and \
        not mentions(x1, k) else None
    if two is not None:
        # x = max(x + a, b): grows by a, from b on where x + a falls below
        for y, b in (two, two[::-1]):
            a = minus(y, phi)
            if a is not None and a.op == "c" and a.a[0] >= 0 and \
                    not mentions(b, phi):
                def f(K, a=a, b=b):
                    if K is zero():
                        return x0
                    up = add(x0, mul(a, K))
                    low = add(b, mul(a, sub(K, one())))
                    return ite(lt(zero(), K), t.mnx("max", up, low), x0)
                return f
    return None


def every(a, want, i):
    """a is the value wanted on each of its branches"""
    if a is want:
        return True
    if a.op == "ite":
        b, w = a.a[1], want
        for c in own_list(a.a[0]):
            if b is w or c.op != "eq":
                continue
            for j in t.subterms(c):
                if j is not i and j.ty == "i" and eq(j, i) is c:
                    b, w = t.subst(b, {i: j}), t.subst(w, {i: j})
                    break
        return (b is w or every(b, want, i)) and every(a.a[2], want, i)
    return False


def bounds(S, phi, x0, x1):
    """inductive bounds of a numeric value without closed form"""
    import linear
    pc = S.I.st.pc
    g = [c for c in (S.g, S.surv) if c is not TRUE and c is not FALSE]
    out = []
    cands = [(le(x0, phi), lambda u: le(x0, u))]
    cands.append((le(phi, x0), lambda u: le(u, x0)))
    for c in (0, -1, 1):
        cands.append((le(C(c), phi), (lambda c: lambda u: le(C(c), u))(c)))
    for h, mkf in cands:
        if h in (TRUE, FALSE):
            continue
        if not linear.implied(pc, subst(h, {phi: x0})) and \
                subst(h, {phi: x0}) is not TRUE:
            continue
        if linear.implied(tuple(pc) + tuple(g) + (h,),
                          subst(h, {phi: x1})):
            out.append(mkf)
    return out


# ------------------------------------------------------------ trip count

CUR = [None]


def posn(n):
    """max(n, 0) under the current path condition"""
    if t.nonneg(n):
        return n
    I = CUR[0]
    if I is not None and I.st is not None and I.decide(
            le(zero(), n)) is TRUE:
        return n
    return t.mnx("max", n, zero())


def trip_count(g, k):
    """number of leading k for which g holds; None when not linear"""
    if g is TRUE:
        return None
    if g is FALSE:
        return zero()
    if not mentions(g, k):
        return None
    if g.op == "and":
        ns = []
        inv = []
        for x in g.a:
            if not mentions(x, k):
                inv.append(x)
                continue
            n = trip_count(x, k)
            if n is None:
                return None
            ns.append(n)
        if not ns:
            return None
        r = ns[0]
        for n in ns[1:]:
            r = t.mnx("min", r, n)
        if inv:
            r = ite(and_(*inv), r, zero())
        return r
    neg = False
    if g.op == "not" and g.a[0].op == "eq":
        neg, g = True, g.a[0]
    if g.op in ("le", "lt"):
        c, d = t.parts(g.a[0])
        if k not in d or any(m is not k and mentions(m, k) for m in d):
            return None
        a = d[k]
        if a <= 0:
            return None
        b = sub(g.a[0], t.scale(k, a))      # a k + b <= 0
        if g.a[0].ty == "i" and g.op == "le":
            # k <= floor(-b/a)
            nb = t.neg(b)
            if a == 1:
                n = add(nb, one())
            else:
                # nb >= 0 has idiv = floor; below zero the loop is skipped
                n = add(t.idiv(nb, C(a)), one())
                return ite(le(zero(), nb), n, zero())
            return posn(n)
        nb = t.scale(t.neg(b), 1 / a)
        if g.op == "le":
            n = add(t.trunc(t.fn("floor", nb)), one())
        else:
            n = t.trunc(t.fn("ceil", nb))
        return posn(n)
    if neg:
        c, d = t.parts(g.a[0])
        if k not in d or any(m is not k and mentions(m, k) for m in d):
            return None
        a = d[k]
        if abs(a) != 1:
            return None
        n = t.scale(sub(g.a[0], t.scale(k, a)), -1 / a)
        return n
    return None


def finish_loop(I, node, k, S0, phis, vals, res, condf, bodyf, incf, nroots):
    fr = I.frames[-1]
    CUR[0] = I
    S = Solver(I, k, phis, vals, res.surv, res.g)
    if res.end is not None:
        S.solve()
    else:
        # never completes an iteration
        for (r, p), phi in phis.items():
            x0 = getp(I, S0.store.get(r) if r in S0.store else I.initial(r), p)
            S.cf[phi] = (lambda v: (lambda K: v))(x0)
    g = S.apply(res.g, k)
    surv = S.apply(res.surv, k)
    # number of completed iterations
    every = None      # early exit happens
    first_exit = None
    if res.end is None:
        N = zero()
        n = None
    elif surv is TRUE:
        n = trip_count(g, k)
        N = n if n is not None else (
            t.trip(k, g) if not g.unk else
            mk("unk", fresh("trip").a[0], (), ty="i"))
        if not mentions(g, k) and g is not TRUE and n is None and not g.unk:
            # zero or endless
            N = ite(g, mk("unk", fresh("endless").a[0], (), ty="i"), zero())
    else:
        n = trip_count(g, k)
        both = trip_count(and_(g, surv), k)
        if both is not None:
            N = both
        elif n is not None:
            j = fresh("u:j", "i")
            N = t.first(n, j, subst(not_(surv), {k: j}))
        else:
            N = t.trip(k, and_(g, surv))
            if g.unk or surv.unk:
                N = mk("unk", fresh("trip").a[0], (), ty="i")
    if N.unk:
        pass
    if N.ty == "i" and N.op not in ("c", "p"):
        t.NONNEG.add(N)

    def at_state(K):
        st = S0.copy()
        for (r, p), phi in phis.items():
            v = S.cf[phi](K)
            st.store[r] = setp(I, st.store[r] if r in st.store
                               else I.initial(r), p, v)
        return st
    # final pass over the body with events
    I.loopctx.append((k, N))
    vars0 = dict(fr.vars)
    st = at_state(k)
    bound = lt(k, N)
    if res.end is not None and bound is not TRUE and surv is TRUE and \
            not N.unk and N.op != "trip":
        if bound is FALSE:
            pass
        elif bound not in st.pc:
            st.pc = st.pc + ((bound,) if bound.op != "and" else bound.a)
    root0, top = nroots
    top, I.nroot = max(top, I.nroot), root0
    fin = one_pass(I, st, condf, bodyf, incf)
    I.nroot = max(top, I.nroot)
    fr.vars = vars0
    I.loopctx.pop()
    # early exits
    outs = []
    F = N
    sb = {k: F}

    def leave(s, base):
        """state s of iteration k as a state after the loop"""
        ns = {}
        for r, v in s.store.items():
            if r not in S0.store and r[0] == "v":
                continue
            r2 = r
            if len(r) > 1 and isinstance(r[1], T) and mentions(r[1], k):
                r2 = (r[0], subst(r[1], sb)) + r[2:]
            ns[r2] = subst(v, sb) if mentions(v, k) else v
        for r, v in S0.store.items():
            ns.setdefault(r, v)
        pc = []
        for c in s.pc[len(S0.pc):]:
            if c is bound:
                continue
            c = subst(c, sb) if mentions(c, k) else c
            pc.append(c)
        return ns, pc
    State = type(S0)
    if not I.silent and res.end is not None:
        # the iteration that was not completed
        I.exitfacts.append(subst(not_(and_(g, surv)), sb))
    early = fin.brk or fin.rets
    anyex = None
    if early:
        n_all = fin.n
        if n is not None and res.end is not None and surv is not TRUE:
            j = fresh("u:j", "i")
            anyex = t.sany(n, j, subst(not_(surv), {k: j}))
            both = trip_count(and_(g, surv), k)
            if both is not None:
                anyex = lt(both, n)
        elif res.end is None:
            anyex = subst(g, {k: zero()})
        elif g is TRUE:
            anyex = TRUE
        else:
            anyex = subst(g, sb)
        total = FALSE
        conds = []
        for x in fin.brk:
            ns, pc = leave(x, S0.pc)
            conds.append(("brk", x, None, ns, pc))
        for s, v in fin.rets:
            ns, pc = leave(s, S0.pc)
            conds.append(("ret", s, v, ns, pc))
        for kd, s, v, ns, pc in conds:
            # exit condition of this way out, at the exiting iteration
            own = [c for c in s.pc[fin.n:]]
            own = and_(*[subst(c, sb) for c in own])
            gfact = [c for c in pc if c not in own_list(own)]
            if len(conds) == 1 and not fin.lost:
                cnd = anyex
            else:
                cnd = and_(anyex, own)
            extra = tuple(c for c in gfact if c is not TRUE and
                          c.op in ("le", "lt", "eq", "not", "or"))
            st2 = State(ns, S0.pc + ((cnd,) if cnd.op != "and" else cnd.a
                                     if cnd is not TRUE else ()))
            if cnd is TRUE:
                st2 = State(ns, S0.pc)
            if cnd is FALSE:
                continue
            if kd == "brk":
                outs.append(st2)
            else:
                val = v
                if isinstance(v, T) and mentions(v, k):
                    val = subst(v, sb)
                elif v is not None and not isinstance(v, T) and \
                        mentions(v.p, k):
                    val = type(v)(subst(v.p, sb))
                fr.rets.append((st2, val))
    if fin.lost:
        for f in I.frames:
            f.lost = True
    # normal exit
    norm = None
    if res.g is not TRUE and not (anyex is TRUE):
        st = at_state(N)
        # heap objects created by the iterations
        if fin.end is not None:
            families(I, k, S0, st, fin.end)
        I.st = st
        pc0 = st.pc
        I.silent += 1
        try:
            c = I.guarded(condf)
        finally:
            I.silent -= 1
        fr.vars = vars0
        if I.st is not None:
            I.st.pc = pc0
            if anyex is not None:
                na = not_(anyex)
                if na is not TRUE:
                    I.st.pc = I.st.pc + ((na,) if na.op != "and" else na.a)
            elif surv is not TRUE:
                # iterations that end the program
                nx = not_(subst(g, sb)) if N.op != "first" else \
                    eq(N, n if n is not None else N)
                if nx not in (TRUE, FALSE):
                    I.st.pc = I.st.pc + (nx,)
            norm = I.st
    ss = [x for x in outs + [norm] if x is not None]
    I.st = I.joinall(ss, S0.pc)


def own_list(c):
    if c is TRUE or c is FALSE:
        return ()
    return c.a if c.op == "and" else (c,)


def families(I, k, S0, st, end):
    for r, v in end.store.items():
        if r[0] == "h" and r not in S0.store and len(r) > 3 and r[3] and \
                r[3][-1] is k:
            l = max(v.lv, 1)
            st.store[("hf", r[1], r[2], r[3][:-1])] = mk(
                "famb", l, subst(v, {k: t.bv(l)}))
