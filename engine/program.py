"""The resolved program: runs the extractor over /repo and merges its output."""
import hashlib
import json
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class AnalysisError(Exception):
    """The analysis cannot be done (no verdict)."""


def strip_targs(q):
    out, d = [], 0
    i = 0
    while i < len(q):
        c = q[i]
        if c == "<" and not q[:i].endswith("operator") and \
                not q[:i].endswith("operator<"):
            d += 1
        elif c == ">" and d:
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


def base_type(t):
    """without const, reference"""
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for s in (" &&", " &", "&&", "&"):
            if t.endswith(s):
                t = t[:-len(s)].strip()
                ch = True
        if t.startswith("const "):
            t = t[6:].strip()
            ch = True
        if t.endswith(" const"):
            t = t[:-6].strip()
            ch = True
        if t.startswith("volatile "):
            t = t[9:].strip()
            ch = True
    return t


def is_ref(t):
    return t.endswith("&")


def is_const_ref(t):
    return t.endswith("&") and not t.endswith("&&") and \
        t.rstrip("& ").startswith("const ") and not \
        t.rstrip("& ").endswith("*")


INTS = {"int", "unsigned int", "long", "unsigned long", "short",
        "unsigned short", "char", "signed char", "unsigned char",
        "long long", "unsigned long long", "wchar_t", "__int128"}
UNS = {"unsigned int", "unsigned long", "unsigned short", "unsigned char",
       "unsigned long long"}
FLOATS = {"double", "float", "long double"}


def kind(t, enums=()):
    t = base_type(t)
    if t in INTS:
        return "i"
    if t in FLOATS:
        return "f"
    if t == "bool":
        return "b"
    if t.startswith("enum ") or t in enums:
        return "i"
    return "o"


def flags():
    f = ["-std=c++17", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-w",
         "-DARMA_DONT_USE_WRAPPER", "-DNDEBUG",
         "-I%s/src/include" % REPO, "-I%s/src/svr_training" % REPO,
         "-I%s" % REPO, "-I%s" % GEN(), "-I/usr/include/libsvm",
         "-I/usr/include/libsvm-3.0", "-I%s/stubs" % VERIF]
    return f


_key = None


def GEN():
    return os.path.join(BUILD, "gen", source_key())


def units():
    out = []
    for d in ("src", "src/svr_training"):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith(".cc"):
                out.append(os.path.join(p, f))
    return out


def source_files():
    out = []
    for r, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".cc", ".h", ".proto", ".c", ".inc")):
                out.append(os.path.join(r, f))
    return out


def source_key():
    global _key
    if _key is None:
        h = hashlib.sha256()
        fs = source_files()
        for r, ds, ff in os.walk(os.path.join(VERIF, "stubs")):
            ds.sort()
            fs += [os.path.join(r, f) for f in sorted(ff)]
        fs.append(os.path.join(VERIF, "extract", "extract.cc"))
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
        _key = h.hexdigest()[:20]
    return _key


def ensure_extractor():
    exe = os.path.join(BUILD, "extract")
    src = os.path.join(VERIF, "extract", "extract.cc")
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        # runs here?
        r = subprocess.run([exe], capture_output=True)
        if r.returncode == 2:
            return exe
    r = subprocess.run([os.path.join(VERIF, "extract", "build.sh")],
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("cannot build the extractor:\n" + r.stderr)
    return exe


def _extract():
    exe = ensure_extractor()
    gen = GEN()
    os.makedirs(gen, exist_ok=True)
    protos = []
    pd = os.path.join(REPO, "src", "proto")
    for f in sorted(os.listdir(pd)):
        if f.endswith(".proto"):
            protos.append(os.path.join(pd, f))
    r = subprocess.run(["protoc", "--cpp_out=" + gen, "-I" + REPO] + protos,
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("protoc: " + r.stderr)
    out = os.path.join(BUILD, "ir", source_key())
    os.makedirs(out, exist_ok=True)

    def one(u):
        o = os.path.join(out, os.path.relpath(u, REPO).replace("/", "_")
                         + ".json")
        r = subprocess.run([exe, REPO + "/", REPO + "/_build/", o, u, "--"]
                           + flags(), capture_output=True, text=True)
        if r.returncode or not os.path.exists(o):
            raise AnalysisError("cannot analyse %s:\n%s" % (u, r.stderr[:3000]))
        return u, o
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, units()))


class Program:
    def __init__(self):
        self.fns = {}        # usr -> function
        self.byq = {}        # qualified name without template arguments
        self.records = {}    # type -> record
        self.globals = {}    # usr -> variable
        self.units = []
        self.overriders = {}
        self._load()

    def _load(self):
        os.makedirs(BUILD, exist_ok=True)
        cache = os.path.join(BUILD, "ir-%s.json" % source_key())
        with open(os.path.join(BUILD, "lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(cache):
                for f in os.listdir(BUILD):
                    if f.startswith("ir-"):
                        os.unlink(os.path.join(BUILD, f))
                pairs = _extract()
                data = []
                for i, (u, o) in enumerate(pairs):
                    with open(o) as fh:
                        d = json.load(fh)
                    data.append([os.path.relpath(u, REPO), d])
                    os.unlink(o)
                with open(cache + ".tmp", "w") as fh:
                    json.dump(data, fh)
                os.rename(cache + ".tmp", cache)
            else:
                with open(cache) as fh:
                    data = json.load(fh)
        for i, (u, d) in enumerate(data):
            self.units.append(u)
            _prefix(d, "u%d" % i)
            for f in d["functions"]:
                if f["u"] not in self.fns:
                    f["unit"] = u
                    self.fns[f["u"]] = f
            for r in d["records"]:
                if r["t"] not in self.records:
                    self.records[r["t"]] = r
            for g in d["globals"]:
                if g["u"] not in self.globals or (
                        g["def"] and not self.globals[g["u"]]["def"]):
                    self.globals[g["u"]] = g
        for f in self.fns.values():
            self.byq.setdefault(strip_targs(f["q"]), []).append(f)
            for o in f.get("over", ()):
                self.overriders.setdefault(o, []).append(f)
        self.virt_root = {}

    def fn(self, q, n=None, pred=None):
        """the function named q (with n parameters)"""
        c = self.byq.get(q, [])
        if n is not None:
            c = [f for f in c if len(f["params"]) == n]
        if pred:
            c = [f for f in c if pred(f)]
        if not c:
            raise AnalysisError("no function %s in the analysed program" % q)
        return c[0]

    def has(self, q):
        return bool(self.byq.get(q))

    def bases(self, t):
        out = []
        r = self.records.get(t)
        if r:
            for b in r["bases"]:
                out.append(b)
                out += self.bases(b)
        return out

    def derived(self, t):
        return [r["t"] for r in self.records.values() if t in self.bases(r["t"])]

    def all_fields(self, t):
        out = []
        r = self.records.get(t)
        if r:
            for b in r["bases"]:
                out += self.all_fields(b)
            out += r["fields"]
        return out

    def resolve(self, usr, cls):
        """the overrider of virtual function usr in class cls"""
        seen = [cls] + self.bases(cls)
        for c in seen:
            for f in self.fns.values():
                if f.get("cls") == c and (f["u"] == usr or
                                          usr in self.over_closure(f)):
                    return f
        return None

    def over_closure(self, f):
        out = set()
        st = list(f.get("over", ()))
        while st:
            u = st.pop()
            if u in out:
                continue
            out.add(u)
            g = self.fns.get(u)
            if g:
                st += g.get("over", ())
        return out

    def pure_virtual_impls(self, usr):
        out = []
        for f in self.fns.values():
            if usr in self.over_closure(f) or f["u"] == usr:
                out.append(f)
        return out


def _prefix(n, p):
    """variable ids are unique per unit; make them unique in the program"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            for k in ("id", "hid"):
                if k in x and isinstance(x[k], str):
                    x[k] = p + x[k]
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(v for v in x if isinstance(v, (dict, list)))


def walk(n):
    """all nodes of an exported body, in source order"""
    if isinstance(n, dict):
        if "k" in n:
            yield n
        for k in ("init", "var", "v", "c", "inc", "range", "ce", "obj", "base",
                  "a", "b", "e", "args", "s", "vars", "body", "handlers",
                  "size", "inits", "caps", "bindings", "hi"):
            if k in n and isinstance(n[k], (dict, list)):
                yield from walk(n[k])
    elif isinstance(n, list):
        for x in n:
            yield from walk(x)
