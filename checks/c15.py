import re

from common import *
from c14 import mutable
from effects import Effects, MUTEX, strip_cv
from program import strip_targs, walk

TECHNIQUE = "lockset analysis over the call graph: every access to mutable " \
    "static storage and every thread-unsafe library call with the static " \
    "locks held"
EXPLANATION = "From every member function of VisqolManager and VisqolApi and " \
    "their destructors (virtual calls resolved to all overrides) the locks " \
    "of static lifetime held at each point are propagated through blocks, " \
    "branches, loops and calls (scoped guards and explicit lock/unlock). " \
    "Rules: a mutable variable of static storage that reachable code changes " \
    "is accessed under one common lock; thread-unsafe library functions are " \
    "called under one common lock; locks per instance do not count."

UNSAFE = {
    # libsvm's parser keeps its line buffer in globals and changes the locale
    "svm_load_model": "libsvm", "svm_save_model": "libsvm",
    "svm_set_print_string_function": "libsvm print function",
    "svm_cross_validation": "rand",
    "setlocale": "locale", "std::setlocale": "locale",
    "std::locale::global": "locale", "localeconv": "locale",
    "rand": "rand", "std::rand": "rand", "srand": "rand",
    "std::srand": "rand", "random": "rand", "srandom": "rand",
    "drand48": "rand", "lrand48": "rand", "mrand48": "rand",
    "strtok": "strtok", "std::strtok": "strtok",
    "localtime": "time", "std::localtime": "time", "gmtime": "time",
    "std::gmtime": "time", "ctime": "time", "asctime": "time",
    "std::ctime": "time", "std::asctime": "time",
    "setenv": "environment", "putenv": "environment",
    "unsetenv": "environment", "chdir": "directory",
    "tmpnam": "tmpnam", "std::tmpnam": "tmpnam", "strerror": "strerror",
    "std::strerror": "strerror", "readdir": "readdir", "umask": "umask",
    "lgamma": "signgam", "lgammaf": "signgam",
    "std::set_new_handler": "handlers", "std::set_terminate": "handlers",
    "signal": "handlers", "std::signal": "handlers",
    "absl::SetFlag": "flags",
    "arma::arma_rng::set_seed": "rand",
}


def roots(c):
    out = []
    for f in c.P.fns.values():
        if f.get("cls") in (MGR, API) and not f.get("static"):
            out.append(f)
    for cls in (MGR, API):
        r = c.P.records.get(cls)
        if r is None:
            raise Skip("no class " + cls)
        if r.get("dtor") in c.P.fns:
            out.append(c.P.fns[r["dtor"]])
    return out


def check(c):
    E = Effects(c.P, roots(c))

    @c.rule("static storage", "functions of an instance")
    def _():
        storage(c, E)

    @c.rule("thread-unsafe functions", "functions of an instance")
    def _():
        unsafe(c, E)


def shared(c, a):
    g = c.P.globals.get(a.var)
    if g is None or g.get("tls"):
        return False
    if re.search(r"std::(__)?atomic|std::once_flag|absl::once_flag",
                 g["t"]):
        return False
    return mutable(c, a)


def locks(c, held):
    return ", ".join(sorted(c.P.globals[u]["q"] if u in c.P.globals else u
                            for u in held)) or "no static lock"


def storage(c, E):
    rule = "mutable static storage is accessed under one lock"
    acc = {}
    for a in E.access:
        if shared(c, a):
            acc.setdefault(a.var, []).append(a)
    for u, xs in sorted(acc.items()):
        q = c.P.globals[u]["q"]
        w = [a for a in xs if a.mode != "r"]
        if not w:
            c.held(rule, q, "never changed by an instance")
            continue
        common = frozenset.intersection(*[frozenset(a.held) for a in xs])
        if common:
            c.held(rule, q, "under " + locks(c, common))
            continue
        a = min(xs, key=lambda x: (len(x.held), x.mode == "r", x.loc))
        c.violated(rule, q, "%s at %s (%s) with %s held; changed at %s" % (
            "accessed" if a.mode == "r" else "changed", a.loc,
            E.path(a.f["u"]), locks(c, a.held), w[0].loc), loc=a.loc)
    used = {a.f["u"] for a in E.access if shared(c, a)}
    for u in sorted(E.funcs - used):
        f = c.P.fns[u]
        c.held("uses no mutable static storage",
               strip_targs(f["q"]) + "/%d" % len(f["params"]))
    # locks: one for all instances
    for k, r in sorted(c.P.records.items()):
        for x in r["fields"]:
            if MUTEX.search(strip_cv(x["t"])):
                c.held("locks of an instance protect only that instance",
                       k + "::" + x["name"])


def unsafe(c, E):
    rule = "thread-unsafe functions are called under one lock"
    by = {}
    for s in E.calls:
        g = UNSAFE.get(s.q)
        if g:
            by.setdefault(g, []).append(s)
    if "libsvm" not in by:
        c.undecided(rule, "svm_load_model", "no call reachable")
    for g, ss in sorted(by.items()):
        common = frozenset.intersection(*[frozenset(s.held) for s in ss])
        for s in ss:
            w = "%s in %s" % (s.q, strip_targs(s.f["q"]))
            if common:
                c.held(rule, w, "under " + locks(c, common), loc=s.loc)
            else:
                c.violated(rule, w, "called (%s) with %s held%s" % (
                    E.path(s.f["u"]), locks(c, s.held),
                    "" if len(ss) == 1 else
                    "; the calls of this group share no lock"), loc=s.loc)
