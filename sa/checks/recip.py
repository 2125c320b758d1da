"""Modular reciprocals (C++ and Java): the loop is analysed as a transition between symbols (sa/gcdloop.py)."""
from ..terms import *
from ..cinterp import Ptr, Undecided
from ..jinterp import Ref
from .. import equiv, gcdloop, fp, linear
from ..arith import P, N, decide_int
from ..report import PROVED, REFUTED, UNDECIDED, AnchorLost
from . import cpparith as ca, javaarith as ja

T_, M_ = V("x", 256), V("m", 256)
PRIMES = [P, N, 2**256 - 0xbd, 2**255 + 0x5f, (0xaaaa5555 << 224) + 0x2b]
UF_EVAL["inv"] = lambda x, m: pow(x, -1, m) if x % m else 0


class Stop(Exception):
    pass


def corner(r, m):
    c = r.randrange(11)
    if c >= 8:
        # slow inputs: few subtractions shorten the numbers by more than the halvings do
        k = r.choice([3, 5, 7, 3, 5, r.randrange(3, 64) | 1])
        e = 256 - k.bit_length() - (0 if c < 10 else r.randrange(40))
        v = k << e
        return v if v < m else v >> 1
    x = [lambda: 1 << r.randrange(256), lambda: (1 << r.randrange(256)) + r.choice([1, -1, 2, 3]), lambda: m - r.randrange(4), lambda: r.randrange(5),
         lambda: (m + 1) // 2 + r.randrange(-2, 3), lambda: m - (1 << r.randrange(256)), lambda: r.randrange(m), lambda: r.getrandbits(r.randrange(1, 257))][c]()
    return x % m


def visits(run):
    """blocks by number of visits of one run; the loop header"""
    cnt, order = {}, []

    def on(fr, block, state):
        k = (fr.fn, block)
        if k not in cnt:
            order.append(k)
        cnt[k] = cnt.get(k, 0) + 1
    run(on)
    top = max(cnt.values())
    if top < 8:
        return None
    return [k for k in order if cnt[k] == top][0]


def analyse(name, where, rep, start, rd, wr, chunks, result, M, T):
    """start(onblock) -> ctx after the call; rd/wr/chunks access 256-bit cells of a state; result(ctx) -> [terms that must be the inverse]"""
    full = []
    hdr = visits(lambda on: full.append(start(on)))
    outs = result(full[0])
    # random interpretation of the unrolled graph
    ms = PRIMES if M.op == "v" else [cv(M)]

    def draw(g, vs):
        m = g.r.choice(ms)
        e = {v.args[0]: g.value(v.w) for v in vs}
        e.update({"x": corner(g.r, m), "m": m})
        return e
    pairs = [(o, uf("inv", 256, T, M)) for o in outs]
    n = 1200 if rep.thorough else 60

    def sep(k):
        s = equiv.separate(pairs, seed=rep.seed, draw=draw, tries=k, steer=0)
        if s is not None:
            j, env, x, y = s
            rep.ob(name, REFUTED, where, "result is 0x%x, inverse 0x%x at %s" % (x, y, equiv.show_env({k: v for k, v in env.items() if k in ("x", "m")})))
            return True
    if sep(n // 10):
        return
    why = None
    held = {}
    hv = transitions(hdr, start, rd, wr, chunks, held)
    if isinstance(hv, str):
        why = hv
    else:
        c = held["c"]
        try:
            for o in result(c):
                why = why or gcdloop.prove(hv.init, hv.steps, o, hv.syms, M, T)
            for cond, cls in throws(c):
                why = why or gcdloop_nothrow(cond, cls, hv, M, T)
        except (linear.Unsupported, RecursionError) as e:
            why = "linear domain: %s" % e
    if why is None:
        return rep.ob(name, PROVED, where, "loop invariants hold for the initial state and %d transitions (linear domain)" % len(hv.steps))
    if sep(n * 4):
        return
    rep.ob(name, UNDECIDED, where, why[:500])


def transitions(hdr, start, rd, wr, chunks, held):
    """the loop body as transitions between symbols (gcdloop.Havoc), or why not; the context of the last run in held["c"]"""
    if hdr is None:
        return "no loop found"
    idx, seen, keys = [], [], []

    def snap(fr, block, state):
        if (fr.fn, block) != hdr:
            return
        if not seen:
            keys[:] = chunks(state)
        seen.append([rd(state, k) for k in keys])
        if len(seen) == 2:
            raise Stop
    try:
        start(snap)
    except Stop:
        pass
    if len(seen) == 2:
        idx = [i for i, (a, b) in enumerate(zip(*seen)) if a is not b]
    hv = gcdloop.Havoc(rd, wr)

    def on(fr, block, state):
        if (fr.fn, block) == hdr:
            if hv.cells is None:
                ks = chunks(state)
                hv.cells = [ks[i] for i in idx]
            hv.visit(state)
    held["c"] = start(on)
    return hv


def throws(c):
    if hasattr(c, "throws"):
        return [(band(TRUE, *[x if v else bnot(x) for x, v in e[3]]), e[2]) for e in c.throws()]
    return []


def gcdloop_nothrow(cond, cls, hv, M, T):
    for perm in gcdloop.roles(hv.init, M, T):
        sub = {hv.syms[k]: gcdloop.ROLES[j] for j, k in enumerate(perm)}
        if gcdloop.unreachable(rebuild(cond, sub), M, T):
            return None
    return "possible exception " + cls


# ---------------------------------------------------------------- C++

def cpp(rep, cfgs=ca.CONFIGS):
    def one(cfg, M, tag):
        ca.need(ca.base(cfg), ca.UREC)
        name = "%s modulo %s [%s]" % (ca.UREC, tag, cfg)
        held = {}

        def start(on):
            c = ca.fork(cfg, ca.uint_hooks())
            held["t"], held["m"], held["c"] = c.obj("this", T_), c.obj("modulus", M), c
            c.it.onblock = on
            c.call(ca.UREC, held["t"], held["m"])
            rep.functions |= c.it.visited
            return c
        it = ca.base(cfg).it

        def chunks(st):
            os = sorted((o for o in st.mem if o.size in (32, 64, 96) and o.kind in ("stack", "param")), key=lambda o: o.id)
            return [(o, i) for o in os for i in range(0, o.size, 32) if all(i + j in st.rd(o) for j in range(32))]

        def run():
            analyse(name, ca.UREC, rep, start, lambda st, k: it.get(st, k[0], k[1], 32), lambda st, k, v: it.put(st, k[0], k[1], v),
                    chunks, lambda c: [c.rd(held["t"])], M, T_)
            decide_int(rep, name + ": modulus unchanged", ca.UREC, [(held["c"].rd(held["m"]), M)])
        rep.guard(name, run, ca.UREC)

    def field(cfg):
        if not ca.base(cfg).has(FREC):
            return
        name = "%s [%s]" % (FREC, cfg)

        def rec(it, st, a):
            m = ca.w256(it, st, a[1])
            if m is not C(P, 256):
                return NotImplemented
            it.store(st, a[0], fp.finv(ca.w256(it, st, a[0])))

        def run():
            c = ca.fork(cfg, dict(ca.uint_hooks(), **{ca.UREC: rec}))
            declare_ub(XF, P - 1)
            t = c.obj("this", XF)
            c.call(FREC, t)
            rep.functions |= c.it.visited
            decide_int(rep, name, FREC, [(c.rd(t), fp.finv(XF))])
        rep.guard(name, run, FREC)
    jobs = []
    for cfg in cfgs:
        for M, t in ((M_, "every odd modulus coprime to the value"),) + (((C(P, 256), "p"), (C(N, 256), "n")) if rep.thorough else ()):
            jobs.append(lambda cfg=cfg, M=M, t=t: one(cfg, M, t))
        jobs.append(lambda cfg=cfg: field(cfg))
    rep.pmap(jobs)


FREC = "FieldInt::reciprocal()"
XF = V("xf", 256)


# ---------------------------------------------------------------- Java

def java(rep):
    ja.need("Int256Math.reciprocal")
    for alias in ("", "value", "modulus"):
        name = "Int256Math.reciprocal for every odd modulus coprime to the value" + (" (result replaces the %s)" % alias if alias else "")
        held = {}

        def start(on, alias=alias):
            c = ja.fork(ja.int_hooks())
            g = [V("G%d" % i, 256) for i in range(5)]
            vals = ja.words(g[0]) + ja.words(T_) + ja.words(g[1]) + ja.words(M_) + ja.words(g[2]) + ja.words(V("Z", 256)) + ja.words(g[3])
            vals += [V("scr%d" % j, 32) for j in range(48)] + ja.words(g[4])
            ref = c.array("val", "I", vals)
            z = {"": 40, "value": 8, "modulus": 24}[alias]
            held.update(c=c, ref=ref, z=z, g=g)
            c.it.onblock = on
            c.call(ja.I, "reciprocal", ref, ja.ci(8), ja.ci(24), ja.ci(z), ja.ci(56))
            ja.covered(rep, c)
            return c

        def chunks(st):
            o = held["ref"].obj
            return [(o, i) for i in range(0, 112, 8)]

        def run(alias=alias):
            rd = lambda st, k: held["c"].it.words(st, held["ref"], k[1])
            wr = lambda st, k, v: held["c"].it.setwords(st, held["ref"], k[1], v)
            analyse(name, "Int256Math.reciprocal", rep, start, rd, wr, chunks, lambda c: [ja.slot(c, held["ref"], held["z"])], M_, T_)
            c, ref = held["c"], held["ref"]
            keep = [(ja.slot(c, ref, o), t) for o, t in zip((0, 16, 32, 48, 104), held["g"])]
            keep += [(ja.slot(c, ref, o), t) for o, t in ((8, T_), (24, M_), (40, V("Z", 256))) if o != held["z"]]
            decide_int(rep, name + ": only the result and scratch change", "Int256Math.reciprocal", keep)
        rep.guard(name, run, "Int256Math.reciprocal")


def c03(rep):
    cpp(rep)
    ca.integers(rep)
