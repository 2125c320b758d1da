"""Java curve points and scalar multiplication, over the contracts of Int256Math."""
from ..terms import *
from ..cinterp import Undecided
from ..jinterp import *
from .. import fp, equiv, arith, pts
from ..fp import fadd, fsub, fmul, finv
from ..arith import P, N, GX, GY, decide_int
from ..cspec import Missing
from ..report import PROVED, REFUTED, UNDECIDED, AnchorLost
from . import javaarith as ja
from .javaarith import lib, fork, words, ci, slot, need, covered, nothrow, int_hooks, offs, fits, overlap, Junk, I, setup, unchanged
from .cppcurve import XYZ, fin_case, inf_case, q_curve, decide_cases, numpt, decide_mult, bit1

CM = "CurvePointMath"
SCRATCH = {"twice": 64, "add": 112, "multiply": 520, "normalize": 72, "isOnCurve": 56}


def scratch(op):
    """words of temporary space an operation may use: its published constant"""
    k = lib().cls(CM).fields.get(op.upper() + "_TEMP_WORDS")
    if k is not None and k[2] and k[2][0] == 3 and 0 < k[2][1] < 4096:
        return k[2][1]
    return SCRATCH[op]


def field_hooks():
    """contracts of the field operations (decided by C26)"""
    def mk(n, scratch, f):
        def h(it, st, a):
            o = offs(*a[1:])
            if o is None or not all(fits(it, a[0], k) for k in o[:-1]) or overlap(o[:-1], o[-1], scratch) or not fits(it, a[0], o[-1], scratch):
                return NotImplemented
            ins = [it.words(st, a[0], k) for k in o[:n]]
            Junk.fill(it, st, a[0], o[-1], scratch)
            it.setwords(st, a[0], o[n], f(*ins))
        return h
    h = {"fieldAdd([IIIII)": mk(2, 8, fadd), "fieldSubtract([IIIII)": mk(2, 8, fsub), "fieldMultiply2([IIII)": mk(1, 8, lambda x: fadd(x, x)),
         "fieldSquare([IIII)": mk(1, 40, lambda x: fmul(x, x)), "fieldMultiply([IIIII)": mk(2, 40, fmul)}

    def rec(it, st, a):
        o = offs(*a[1:])
        if o is None or overlap(o[:-1], o[-1], 48) or not fits(it, a[0], o[-1], 48):
            return NotImplemented
        x, m = it.words(st, a[0], o[0]), it.words(st, a[0], o[1])
        if m is C(P, 256):
            r = finv(x)
        elif m is C(N, 256):
            r = uf("ninv", 256, x)
        else:
            return NotImplemented
        it.throw(st, "java/lang/IllegalArgumentException", "reciprocal", bnot(ult(x, m)))
        Junk.fill(it, st, a[0], o[3], 48)
        it.setwords(st, a[0], o[2], r)
    h["reciprocal([IIIII)"] = rec
    return {I + "." + k: v for k, v in h.items()}


def hooks():
    return dict(int_hooks(), **field_hooks())


def coord_replace(it, st, a):
    """contract of CurvePointMath.replace, coordinate by coordinate"""
    o = offs(a[1], a[2])
    if o is None or ub(a[3]) > 1 or not all(fits(it, a[0], k, 24) for k in o):
        return NotImplemented
    for j in range(0, 24, 8):
        it.setwords(st, a[0], o[0] + j, ite(ext(a[3], 0, 1), it.words(st, a[0], o[1] + j), it.words(st, a[0], o[0] + j)))


def chooks():
    return dict(hooks(), **{CM + ".replace([IIII)": coord_replace})


def point_hooks(mult=False):
    """contracts of the point operations (decided by C27)"""
    S = {k: scratch(k) for k in SCRATCH}

    def pt(it, st, a, o):
        return it.words(st, a, o, 24)

    def guard(it, a, o, scratch):
        return o is None or overlap([k + 8 * j for k in o[:-1] for j in range(3)], o[-1], scratch) or \
            not all(fits(it, a[0], k, 24) for k in o[:-1]) or not fits(it, a[0], o[-1], scratch)

    def twice(it, st, a):
        o = offs(*a[1:])
        if guard(it, a, o, S['twice']):
            return NotImplemented
        r = pts.pdbl(pt(it, st, a[0], o[0]))
        Junk.fill(it, st, a[0], o[1], S['twice'])
        it.setwords(st, a[0], o[0], r, 24)

    def add_(it, st, a):
        o = offs(*a[1:])
        if guard(it, a, o, S['add']) or abs(o[0] - o[1]) < 24:
            return NotImplemented
        r = pts.padd(pt(it, st, a[0], o[0]), pt(it, st, a[0], o[1]))
        Junk.fill(it, st, a[0], o[2], S['add'])
        it.setwords(st, a[0], o[0], r, 24)

    def norm(it, st, a):
        o = offs(*a[1:])
        if guard(it, a, o, S['normalize']):
            return NotImplemented
        r = pts.pnorm(pt(it, st, a[0], o[0]))
        Junk.fill(it, st, a[0], o[1], S['normalize'])
        it.setwords(st, a[0], o[0], r, 24)

    def mul_(it, st, a):
        o = offs(*a[1:])
        if guard(it, a, [o[0], o[2]], S['multiply']) or overlap([o[1]], o[2], S['multiply']) or overlap([o[1]], o[0], 24):
            return NotImplemented
        r = pts.pmul(pt(it, st, a[0], o[0]), it.words(st, a[0], o[1]))
        Junk.fill(it, st, a[0], o[2], S['multiply'])
        it.setwords(st, a[0], o[0], r, 24)

    def rep(it, st, a):
        o = offs(a[1], a[2])
        if o is None or ub(a[3]) > 1 or not all(fits(it, a[0], k, 24) for k in o):
            return NotImplemented
        it.setwords(st, a[0], o[0], ite(ext(a[3], 0, 1), pt(it, st, a[0], o[1]), pt(it, st, a[0], o[0])), 24)
    h = {"twice([III)": twice, "add([IIII)": add_, "normalize([III)": norm, "replace([IIII)": rep}
    if mult:
        h["multiply([IIII)"] = mul_
    return {CM + "." + k: v for k, v in h.items()}


def layout(parts, nscr, hk):
    """array with guard words around each of the given ranges [(name, terms)] and a scratch range; returns ctx, ref, offsets, scratch offset, guards"""
    c = fork(hk)
    vals, where, guards = [], [], {}
    for i, ts in enumerate(parts):
        g = V("G%d" % i, 256)
        guards[len(vals)] = g
        vals += words(g)
        where.append(len(vals))
        for t in ts:
            vals += words(t)
    g = V("Gs", 256)
    guards[len(vals)] = g
    vals += words(g)
    scr = len(vals)
    vals += [V("scr%d" % j, 32) for j in range(nscr)]
    g = V("Ge", 256)
    guards[len(vals)] = g
    vals += words(g)
    ref = c.array("val", "I", vals)
    return c, ref, where, scr, guards


def coords(c, ref, o):
    return [slot(c, ref, o + 8 * i) for i in range(3)]


def dirty(rep, tag, where, out, refute):
    """results must not depend on what earlier calls left in scratch space; refute looks for contents that make them wrong"""
    j = [v for v in variables(list(out)) if v.args[0].startswith(("junk!", "scr"))]
    if j:
        n0 = len(rep.obs)
        refute()
        if any(o["status"] == REFUTED for o in rep.obs[n0:]):
            return True
        del rep.obs[n0:]
        rep.ob(tag, UNDECIDED, where, "the result depends on scratch contents (%s)" % j[0].args[0])
        return True


def group_law(rep):
    need(CM + ".twice", CM + ".add")

    def twice_():
        tag = CM + ".twice"

        def run():
            c, ref, (p,), scr, g = layout([XYZ(0)], scratch("twice"), chooks())
            c.call(CM, "twice", ref, ci(p), ci(scr))
            covered(rep, c)
            nothrow(rep, c, tag, "twice")
            out = coords(c, ref, p)
            if not dirty(rep, tag, "twice", out, lambda: fp.decide_law(rep, tag, "twice", out, [], 1, lambda p: fp.aff_add(p, p), [("inf",), ("new",)])):
                fp.decide_law(rep, tag, "twice", out, fp.twice_cases(), 1, lambda p: fp.aff_add(p, p), [("inf",), ("new",)])
            decide_int(rep, tag + ": only the point and scratch change", "twice", unchanged(c, ref, g))
        rep.guard(tag, run, "twice")

    def add_():
        tag = CM + ".add"

        def run():
            c, ref, (p, q), scr, g = layout([XYZ(0), XYZ(1)], scratch("add"), chooks())
            c.call(CM, "add", ref, ci(p), ci(q), ci(scr))
            covered(rep, c)
            nothrow(rep, c, tag, "add")
            out = coords(c, ref, p)
            if not dirty(rep, tag, "add", out, lambda: fp.decide_law(rep, tag, "add", out, [], 2, fp.aff_add, fp.ADD_KINDS)):
                fp.decide_law(rep, tag, "add", out, fp.add_cases(), 2, fp.aff_add, fp.ADD_KINDS)
            decide_int(rep, tag + ": only the point and scratch change", "add", list(zip(coords(c, ref, q), XYZ(1))) + unchanged(c, ref, g))
        rep.guard(tag, run, "add")
    rep.pmap([twice_, add_])


def predicates(rep):
    need(CM + ".normalize", CM + ".isOnCurve", CM + ".isZero")
    X0 = XYZ(0)

    def norm():
        tag = CM + ".normalize"

        def run():
            c, ref, (p,), scr, g = layout([X0], scratch("normalize"), chooks())
            for v in X0:
                declare_ub(v, P - 1)
            c.call(CM, "normalize", ref, ci(p), ci(scr))
            covered(rep, c)
            out = coords(c, ref, p)
            e, nz = fin_case("f")
            e2, nz2 = inf_case()

            def num(r, k):
                env, q = numpt(r, 0, ["on", "on", "inf", "any"][k % 4], False)
                return env, (0, 1, 0) if q is None else q + (1,)
            if not dirty(rep, tag, "normalize", out, lambda: decide_cases(rep, tag, "normalize", out, [], num)):
                decide_cases(rep, tag, "normalize", out, [
                    (fp.Case("finite point, every representative", e, nz), [fp.X("x0"), fp.X("y0"), fp.K(1)]),
                    (fp.Case("infinity, every representative", e2, nz2), [fp.K(0), fp.K(1), fp.K(0)])], num)
            decide_int(rep, tag + ": only the point and scratch change", "normalize", unchanged(c, ref, g))
        rep.guard(tag, run, "normalize")

    def onc():
        tag = CM + ".isOnCurve"

        def run():
            c, ref, (p,), scr, g = layout([X0], scratch("isOnCurve"), chooks())
            o = bit1(c.call(CM, "isOnCurve", ref, ci(p), ci(scr)))
            covered(rep, c)
            e, nz = fin_case("f", z1=True)
            e2, nz2 = inf_case(0, True)
            from .. import fp as f_

            def num(r, k):
                env, q = numpt(r, 0, ["on", "any", "inf", "near"][k % 4], True)
                if k % 4 == 3:
                    x, y = f_.rand_point(r)
                    j = r.randrange(3)
                    env = {"X0": [x, y, (x + 1) % P][j], "Y0": [(y + 1) % P, x, y][j], "Z0": 1}
                    q = env["X0"], env["Y0"]
                return env, q is not None and (q[1] * q[1] - q[0] ** 3 - 7) % P == 0
            if not dirty(rep, tag, "isOnCurve", [o], lambda: decide_cases(rep, tag, "isOnCurve", [o], [], num)):
                decide_cases(rep, tag, "isOnCurve", [o], [
                    (fp.Case("normalised point on the curve", e, nz, [fp.curve("x0", "y0")]), True),
                    (fp.Case("normalised coordinates off the curve", e, nz + [q_curve()]), False),
                    (fp.Case("infinity", e2, nz2), False)], num)
            decide_int(rep, tag + ": only scratch changes", "isOnCurve", list(zip(coords(c, ref, p), X0)) + unchanged(c, ref, g))
        rep.guard(tag, run, "isOnCurve")

    def isz():
        tag = CM + ".isZero"

        def run():
            c, ref, (p,), scr, g = layout([X0], 8, hooks())
            o = bit1(c.call(CM, "isZero", ref, ci(p)))
            covered(rep, c)
            e, nz = fin_case("f")
            e2, nz2 = inf_case()

            def num(r, k):
                env, q = numpt(r, 0, ["on", "any", "inf"][k % 3], k % 2)
                return env, q is None
            decide_cases(rep, tag, "isZero", [o], [
                (fp.Case("finite point, every representative", e, nz), False),
                (fp.Case("infinity, every representative", e2, nz2), True)], num)
            decide_int(rep, tag + ": array unchanged", "isZero", list(zip(coords(c, ref, p), X0)) + unchanged(c, ref, g))
        rep.guard(tag, run, "isZero")

    def repl():
        if not lib().find(CM, "replace"):
            return
        en = V("en", 1)
        for same in (False, True):
            tag = CM + ".replace" + (" with itself" if same else "")

            def run():
                c, ref, (p, q), scr, g = layout([X0, XYZ(1)], 8, hooks())
                c.call(CM, "replace", ref, ci(p), ci(p if same else q), zext(en, 32))
                covered(rep, c)
                decide_int(rep, tag, "replace", [(x, x0 if same else ite(en, x1, x0)) for x, x0, x1 in zip(coords(c, ref, p), X0, XYZ(1))] +
                           list(zip(coords(c, ref, q), XYZ(1))) + unchanged(c, ref, g))
            rep.guard(tag, run, "replace")

    def misc():
        def run():
            c, ref, (p,), scr, g = layout([X0], 8, hooks())
            d = c.array("dst", "I", words(V("D0", 256)) + words(V("D1", 768)) + words(V("D2", 256)))
            c.call(CM, "copy", ref, ci(p), d, ci(8))
            decide_int(rep, CM + ".copy", "copy", list(zip(coords(c, ref, p), X0)) + list(zip(coords(c, d, 8), X0)) +
                       [(slot(c, d, 0), V("D0", 256)), (slot(c, d, 32), V("D2", 256))] + unchanged(c, ref, g))
        if lib().find(CM, "copy"):
            rep.guard(CM + ".copy", run, "copy")

        def run():
            c = fork(hooks())
            r = c.call(CM, "getBasePoint")
            decide_int(rep, CM + ".getBasePoint", "getBasePoint", [(cat(c.it.vals(c.st, r.obj)), pts.GPT)])
            k = lib().cls(CM)
            b = c.it.getstatic(c.st, k.name, "BASE_POINT", "[I") if "BASE_POINT" in k.fields else None
            if b is not None:
                rep.ob(CM + ".getBasePoint returns a fresh array", PROVED if b.obj is not r.obj else REFUTED, "getBasePoint",
                       "" if b.obj is not r.obj else "returns the internal array BASE_POINT")
        if lib().find(CM, "getBasePoint"):
            rep.guard(CM + ".getBasePoint", run, "getBasePoint")
        for nm, (v, w) in {"A": (0, 256), "B": (7, 256), "ORDER": (N, 256), "BASE_POINT": (GX | GY << 256 | 1 << 512, 768), "ZERO_POINT": (1 << 256, 768)}.items():
            def run():
                c = fork()
                k = lib().cls(CM)
                if nm not in k.fields:
                    return
                r = c.it.getstatic(c.st, k.name, nm, "[I")
                decide_int(rep, "constant %s.%s" % (CM, nm), nm, [(cat(c.it.vals(c.st, r.obj)), C(v, w))])
            rep.guard("constant " + nm, run, nm)
    rep.pmap([norm, onc, isz, repl, misc])


def scalar_mult(rep):
    need(CM + ".multiply")
    Pt, n = V("Pt", 768), V("n", 256)
    tag = CM + ".multiply"

    def run():
        c, ref, (p, k), scr, g = layout([[ext(Pt, 256 * i, 256) for i in range(3)], [n]], scratch("multiply"), dict(hooks(), **point_hooks()))
        c.call(CM, "multiply", ref, ci(p), ci(k), ci(scr))
        covered(rep, c)
        nothrow(rep, c, tag, "multiply")
        out = c.it.words(c.st, ref, p, 24)
        decide_mult(rep, tag, "multiply", out, Pt)
        decide_int(rep, tag + ": only the point and scratch change", "multiply", [(slot(c, ref, k), n)] + unchanged(c, ref, g))
    rep.guard(tag, run, "multiply")


def c27(rep):
    scalar_mult(rep)
    group_law(rep)
    predicates(rep)
    ja.recip(rep)
    ja.field(rep)
    ja.integers(rep)
