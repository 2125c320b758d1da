"""C23: static initialisers, per translation unit, against every state of the other units' constants."""
import itertools
from ..terms import *
from ..cinterp import *
from .. import build, cspec
from ..report import PROVED, REFUTED, UNDECIDED
from .cpparith import asm
from .. import x86


def initialisers(mod):
    g = mod.globals.get("llvm.global_ctors")
    if g is None or g.init is None:
        return []
    return [e.ops[1].v for e in g.init.ops if e.ops[1].k == "func"]


def tu(name):
    return name.replace("_GLOBAL__sub_I_", "")


def run(cfg, mod, init, preset):
    """abstract run of one unit's initialiser; preset: global name -> bytes term (or None: zero).  Returns (ctx, stored)"""
    c = cspec.Ctx(cfg, x86.hooks(asm()) if cfg == "x8664" else None, init=False, mod=mod)
    it, st = c.it, c.st
    stored = []

    def track(kind, p, info):
        if kind == "store" and p.obj.kind in ("global", "const") and p.obj not in [o for o, _ in stored]:
            stored.append((p.obj, it.loc))
    it.track = track
    for n, t in preset.items():
        o = it.gobj(st, n)
        if t is not None:
            it.put(st, o, 0, t)
    it.call(mod.functions[init], [], st)
    return c, stored


def globname(it, o):
    for n, x in it.gobjs.items():
        if x is o:
            return n


def where(loc):
    return loc.where() if hasattr(loc, "where") else str(loc)


def c23(rep):
    for cfg in ("pure-cpp", "x8664"):
        one(rep, cfg)


def one(rep, cfg):
    mods = {nd: cspec.module(cfg, ndebug=nd) for nd in (True, False)}
    mod = mods[True]
    inits = initialisers(mod)
    dem = lambda n: build.demangle([n])[n]
    own, first = {}, {}
    for i in inits:
        try:
            c, stored = run(cfg, mod, i, {})
        except (Undecided, Dead) as e:
            rep.ob("%s: initialiser of %s" % (cfg, tu(i)), UNDECIDED, i, str(e) or "does not complete on zeroed constants")
            continue
        own[i] = []
        for o, loc in stored:
            n = globname(c.it, o)
            if n in first:
                rep.ob("%s: %s initialised by one unit" % (cfg, dem(n)), REFUTED, where(loc),
                       "initialised by %s and by %s: its value depends on their order" % (tu(first[n]), tu(i)))
            first[n] = i
            own[i].append(n)
            rep.functions |= set(c.it.visited)
    alldyn = [n for i in own for n in own[i]]
    # constants that need no code at all
    for n, g in sorted(mod.globals.items()):
        if n.startswith("_ZN") and "::" in dem(n) and n not in alldyn and not g.decl:
            rep.ob("%s: %s" % (cfg, dem(n)), PROVED, "", "constant initialiser, no code runs")
    # 1. no value, and no decision that matters for it, comes from an object not initialised yet
    for i in own:
        if any(mod.globals[n].ty.size > 4096 for n in alldyn):
            rep.ob("%s: %s" % (cfg, tu(i)), UNDECIDED, i, "large dynamically initialised object")
            continue

        def go(i=i):
            pre = {n: V("before_init:" + dem(n), 8 * mod.globals[n].ty.size) for n in alldyn}
            c, stored = run(cfg, mod, i, pre)
            for n in own[i]:
                v = c.it.get(c.st, c.it.gobj(c.st, n), 0, mod.globals[n].ty.size)
                nm = "%s: value of %s uses only objects initialised before it" % (cfg, dem(n))
                dep = sorted(x.args[0].replace("before_init:", "") for x in variables([v])) if v.op != "c" else []
                if not dep:
                    rep.ob(nm, PROVED, tu(i))
                else:
                    # a selection may still be the same constant whichever way: separate by the finite state of step 2
                    rep.ob(nm, UNDECIDED if not differs(v) else REFUTED, tu(i), "its value is computed from %s, which %s" % (
                        ", ".join(dep), "another unit initialises" if any(first.get(m) != i for m in alldyn if dem(m) in dep) else "the same unit initialises later"))
        rep.guard("%s: constants of %s are computed without uninitialised objects" % (cfg, tu(i)), go, i, True)
    # 2. each unit, with every other unit either done or not, with assertions on and off
    final = {}
    for nd in (True, False):
        m = mods[nd]
        ii = [i for i in initialisers(m)]
        fin = {}
        # final values from the order the linker happens to use
        for i in ii:
            try:
                c, stored = run(cfg, m, i, dict(fin))
                for o, loc in stored:
                    n = globname(c.it, o)
                    fin[n] = c.it.get(c.st, o, 0, o.size)
            except (Undecided, Dead):
                pass
        if nd:
            final = fin
        for i in own:
            if i not in ii:
                continue
            others = [j for j in own if j != i]
            for done in itertools.chain.from_iterable(itertools.combinations(others, k) for k in range(len(others) + 1)):
                nm = "%s: %s initialised after {%s}%s" % (cfg, tu(i), ", ".join(tu(j) for j in done), "" if nd else ", assertions on")
                pre = {n: fin.get(n) for j in done for n in own[j]}

                def go():
                    try:
                        c, stored = run(cfg, m, i, pre)
                    except Dead:
                        rep.ob(nm, REFUTED, i, "the initialiser does not complete (assertion failure or termination)")
                        return
                    bad = [e for e in c.it.events if e[0] not in ("uninit",)]
                    if bad:
                        rep.ob(nm, REFUTED, where(bad[0][1]), "%s: %s" % (bad[0][0], bad[0][2]))
                        return
                    for n in own[i]:
                        v = c.it.get(c.st, c.it.gobj(c.st, n), 0, m.globals[n].ty.size)
                        w = final.get(n)
                        if w is None or v.op != "c" or w.op != "c":
                            rep.ob(nm, UNDECIDED, i, "%s is not a constant" % dem(n))
                            return
                        if v is not w:
                            rep.ob(nm, REFUTED, i, "%s becomes %x, but %x for another order" % (dem(n), cv(v), cv(w)))
                            return
                    rep.ob(nm, PROVED, i)
                rep.guard(nm, go, i, True)


def differs(v):
    """whether the value really varies with the uninitialised objects (two random valuations)"""
    import random
    rnd = random.Random(7)
    f = compile_eval([v])
    vs = variables([v])
    out = set()
    for k in range(6):
        d = {x.args[0]: (0 if k == 0 else rnd.getrandbits(x.w)) for x in vs}
        out.add(f(d)[0])
    return len(out) > 1
