"""C21: no undefined operation in the C++ library.

The analyses of the other checks are repeated over the same sources compiled with the front end's undefined-behaviour
guards (every guard is a branch to a trap in the IR).  An operation is shown defined when no path condition of any
analysed call reaches its guard, and every load and store stays inside its object and reads written bytes only."""
import importlib
import os
import re
import subprocess

from ..terms import *
from .. import build, cinterp, cspec, equiv
from ..report import PROVED, REFUTED, UNDECIDED, AnchorLost, Report

PARTS = [("cpparith", "c02"), ("recip", "c03"), ("cppcurve", "c04"), ("cppcurve", "c05"), ("cppcurve", "c06"), ("cppecdsa", "c07"),
         ("cppecdsa", "c08"), ("cppecdsa", "c09"), ("cppecdsa", "c18"), ("base58", "c15"), ("base58", "c16"),
         ("cpphash", "c10"), ("cpphash", "c11"), ("cpphash", "c12"), ("cpphash", "c13"), ("cpphash", "c14")]
KINDS = {"ub": "undefined operation", "oob": "access outside an object", "oob?": "access outside an object", "null": "null access",
         "uninit": "uninitialised read", "overlap": "overlapping copy", "constwrite": "write to a constant", "wild": "wild access"}
GUARDS = {0: "signed addition overflows", 1: "unreachable built-in", 4: "division overflows", 5: "float cast overflows", 10: "load of an invalid value",
          11: "missing return", 12: "signed multiplication overflows", 13: "signed negation overflows", 18: "index outside an array",
          20: "shift out of range", 21: "signed subtraction overflows", 25: "array of non-positive length"}


class Probe(Report):
    """collects the events of the analyses; their own obligations are not obligations of this check"""

    def __init__(self, rep):
        Report.__init__(self, rep.pid, "")
        self.seed, self.tier = rep.seed, rep.tier
        self.seen = {}

    def pmap(self, tasks, procs=8):
        def run(t):
            t()
            self.functions |= cinterp.VISITED
        Report.pmap(self, [lambda t=t: run(t) for t in tasks], procs)

    def event(self, kind, loc, detail, pc, cond):
        if kind not in KINDS:
            return
        w = loc.where() if hasattr(loc, "where") else str(loc)
        fn = getattr(getattr(loc, "fn", None), "name", "")
        k = (kind, w)
        n = self.seen.get(k, 0)
        if n == "found" or n >= 100:
            return
        q = band(cond, *[x if v else bnot(x) for x, v in pc])
        env = None
        if q is TRUE:
            env = {}
        elif q is not FALSE:
            vs = [v.args[0] for v in variables([q])]
            ch = [v for v in vs if re.fullmatch(r"c\d+", v)]
            if any(v.startswith(("cell", "loop")) for v in vs):
                pass
            elif ch and len(ch) == len([v for v in vs if not v.startswith("old")]):      # a text: texts of the format first
                n += 1
                s = equiv.separate([(q, FALSE)], seed=self.seed, tries=40, steer=0, draw=lambda g, vs: text(g, vs, 1 + max(int(v[1:]) for v in ch)))
                env = s[1] if s else None
            else:
                n += 25
                s = equiv.separate([(q, FALSE)], seed=self.seed, tries=150, steer=1)
                env = s[1] if s else None
        self.seen[k] = "found" if env is not None else n
        m = re.match(r"undefined behaviour guard (\d+)", detail)
        if m:
            detail = GUARDS.get(int(m.group(1)), detail)
        self.rows.append(("event", kind, w, fn, detail, q is FALSE, None if env is None else equiv.show_env(env)[:200]))


def text(g, vs, L):
    """a string of length L: mostly digits of the format, with runs of the zero digit"""
    from .base58 import draw_string, SPAN, ALPHA as A
    r = g.r
    k = r.randrange(4)
    kinds = [x for x in SPAN if SPAN[x][0] <= L <= SPAN[x][1]]
    if k == 0 and kinds:
        return draw_string(g, vs, r.choice(kinds), L)
    n = r.choice([L, L, L - 1, r.randint(0, L)])
    s = "1" * n + "".join(r.choice(A) for _ in range(L - n))
    e = {v.args[0]: g.value(v.w) for v in vs}
    for i in range(L):
        if "c%d" % i in e:
            e["c%d" % i] = ord(s[i]) if k != 3 or r.randrange(20) else r.randrange(256)
    return e


def variables(roots):
    return [t for t in topo(roots) if t.op == "v"]


def c21(rep):
    old, old_env = cspec.module, os.environ.get("SA_VERBOSE")
    pr = Probe(rep)
    mods = {}

    def module(config="pure-cpp", **kw):
        return old(config, ubsan=True)
    from . import cpparith as ca
    keep = ca.field, ca.integers
    os.environ.pop("SA_VERBOSE", None)
    cspec.module = module
    cinterp.RECORD[:] = [pr.event]
    failed = []
    try:
        for m, f in PARTS:
            run = getattr(importlib.import_module("sa.checks." + m), f)
            n0 = len(pr.obs)
            try:
                run(pr)
            except AnchorLost:
                raise
            if (m, f) == PARTS[0]:
                comparison(pr)
                ca.field = ca.integers = lambda *a, **k: None
            bad = [o for o in pr.obs[n0:] if o["status"] != PROVED and "analysis limit" in str(o["detail"])]
            failed += bad
            rep.ob("calls analysed as for %s.%s: %d analyses without an undefined operation" % (m, f, len(pr.obs) - n0),
                   UNDECIDED if bad else PROVED, "", "%s: %s" % (bad[0]["obligation"], bad[0]["detail"]) if bad else None)
    finally:
        cspec.module = old
        cinterp.RECORD[:] = []
        ca.field, ca.integers = keep
        if old_env:
            os.environ["SA_VERBOSE"] = old_env
    rep.functions |= {f for f in pr.functions if not f.startswith('_Z')}
    # verdict per function
    mod = module()
    names = {n: f for n, f in mod.functions.items() if f.blocks is not None}
    dem = build.demangle(list(names))
    ev = {}
    for _, kind, w, fn, detail, dead, env in pr.rows:
        if not dead:
            ev.setdefault(w, []).append((kind, fn, detail, env))
    seen = {dem.get(n, n) for n in pr.functions | cinterp.VISITED}
    for n in sorted(names, key=lambda n: dem[n]):
        f = names[n]
        where = source(f)
        if where is None:
            continue
        got = [(w, e) for w, es in ev.items() for e in es if e[1] == n]
        for w, e in got:
            pass
        hit = [x for x in got if x[1][3] is not None]
        name = "%s: no undefined operation" % dem[n]
        if hit:
            w, (kind, fn, detail, env) = hit[0]
            rep.ob(name, REFUTED, w, "%s%s" % (detail, " at " + env if env else ""))
        elif got:
            w, (kind, fn, detail, env) = got[0]
            rep.ob(name, UNDECIDED, w, detail)
        elif dem[n] not in seen:
            rep.ob(name, UNDECIDED, where, "not reached by the analysed calls")
        else:
            rep.ob(name, PROVED, where)
    for w, es in ev.items():
        for e in es:
            if e[1] not in names:
                rep.ob("%s: %s" % (w, KINDS[e[0]]), REFUTED if e[3] is not None else UNDECIDED, w, e[2])
    alignment(rep)


def comparison(pr):
    """the comparison only assertions use"""
    from .cpparith import base, fork
    f = "FieldInt::operator<(Uint256 const&) const"
    c = fork("pure-cpp", {})
    if c.has(f):
        c.call(f, c.obj("a", V("a", 256)), c.obj("b", V("b", 256)))


def source(f):
    """file of a library function (None for compiler-generated and standard-library ones)"""
    for b in f.blocks:
        for i in b.insts:
            if i.file and os.path.dirname(os.path.abspath(os.path.join(build.CPP, i.file))) == os.path.abspath(build.CPP):
                return i.where()
    return None


def alignment(rep):
    """casts that promise more alignment than the pointer has (type-based, by the compiler)"""
    clang = build._tool("clang++", "clang++-18")
    bad = []
    for s in build.cpp_sources():
        r = subprocess.run([clang, "-std=c++11", "-fsyntax-only", "-w", "-Wcast-align", s], cwd=build.CPP, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        bad += re.findall(r"([\w.]+:\d+):\d+: warning: (cast from .*) \[-Wcast-align\]", r.stdout)
    if bad:
        rep.ob("no cast to a more strictly aligned type", REFUTED, bad[0][0], bad[0][1])
    else:
        rep.ob("no cast to a more strictly aligned type", PROVED, "cpp", "%d files" % len(build.cpp_sources()))
