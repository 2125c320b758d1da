"""C++ curve points, scalar multiplication and ECDSA, over the contracts of the field and integer operations."""
from ..terms import *
from ..cinterp import *
from .. import fp, equiv, arith, pts
from ..fp import fadd, fsub, fmul, finv
from ..arith import P, N, GX, GY, decide_int
from ..cspec import Missing
from ..report import PROVED, REFUTED, UNDECIDED, AnchorLost
from . import cpparith as ca
from .cpparith import base, fork, w256, need, CONFIGS, uint_hooks

CP = "CurvePoint::"
ADD, TWICE, MULT = CP + "add(CurvePoint const&)", CP + "twice()", CP + "multiply(Uint256 const&)"
NORM, CREP = CP + "normalize()", CP + "replace(CurvePoint const&, unsigned int)"
ONC, ISZ = CP + "isOnCurve() const", CP + "isZero() const"
CEQ, CNE = CP + "operator==(CurvePoint const&) const", CP + "operator!=(CurvePoint const&) const"
COMP, PUB = CP + "toCompressedPoint(unsigned char*) const", CP + "privateExponentToPublicPoint(Uint256 const&)"
CCTOR = CP + "CurvePoint(FieldInt const&, FieldInt const&)"


def field_hooks():
    """contracts of FieldInt (decided by C02 and C03) as field terms"""
    def bin_(f):
        def h(it, st, a):
            it.store(st, a[0], f(w256(it, st, a[0]), w256(it, st, a[1])))
        return h

    def un(f):
        def h(it, st, a):
            it.store(st, a[0], f(w256(it, st, a[0])))
        return h
    u = uint_hooks()
    h = {ca.FADD: bin_(fadd), ca.FSUB: bin_(fsub), ca.FMUL: bin_(fmul), ca.FDBL: un(lambda x: fadd(x, x)),
         ca.FSQR: un(lambda x: fmul(x, x)), ca.FREC: un(finv), ca.FREP: u[ca.UREP]}
    for k, f in ca.CMP.items():
        h[ca.F + "operator%s(FieldInt const&) const" % k] = u[ca.U + "operator%s(Uint256 const&) const" % k]
    return h


def hooks():
    return dict(uint_hooks(), **field_hooks())


def XYZ(i):
    return [V("%s%d" % (c, i), 256) for c in "XYZ"]


def coords(c, p):
    return [c.rd(p, 32, 32 * i) for i in range(3)]


def point(c, name, t):
    return c.obj(name, cat(t) if isinstance(t, list) else t)


def group_law(rep, cfgs=CONFIGS):
    jobs = []
    for cfg in cfgs:
        need(base(cfg), ADD, TWICE)

        def add_(cfg=cfg):
            tag = "%s [%s]" % (ADD, cfg)

            def run():
                c = fork(cfg, hooks())
                a, b = point(c, "this", XYZ(0)), point(c, "other", XYZ(1))
                c.call(ADD, a, b)
                rep.functions |= c.it.visited
                fp.decide_law(rep, tag, ADD, coords(c, a), fp.add_cases(), 2, fp.aff_add, fp.ADD_KINDS)
                decide_int(rep, tag + ": operand unchanged", ADD, list(zip(coords(c, b), XYZ(1))))
            rep.guard(tag, run, ADD)

        def self_(cfg=cfg):
            tag = "%s with itself [%s]" % (ADD, cfg)

            def run():
                c = fork(cfg, hooks())
                a = point(c, "this", XYZ(0))
                c.call(ADD, a, a)
                fp.decide_law(rep, tag, ADD, coords(c, a), fp.add_cases(True), 1, lambda p: fp.aff_add(p, p), [("inf",), ("new",)])
            rep.guard(tag, run, ADD)

        def twice_(cfg=cfg):
            tag = "%s [%s]" % (TWICE, cfg)

            def run():
                c = fork(cfg, hooks())
                a = point(c, "this", XYZ(0))
                c.call(TWICE, a)
                rep.functions |= c.it.visited
                fp.decide_law(rep, tag, TWICE, coords(c, a), fp.twice_cases(), 1, lambda p: fp.aff_add(p, p), [("inf",), ("new",)])
            rep.guard(tag, run, TWICE)
        jobs += [add_, self_, twice_]
    rep.pmap(jobs)


def c04(rep):
    group_law(rep)
    ca.field(rep)
    ca.integers(rep)


# ---------------------------------------------------------------- C06

X0, Y0, Z0 = XYZ(0)


def fin_case(name, i=0, sfx="", z1=False, **kw):
    x, y, l = fp.X("x" + (sfx or str(i))), fp.X("y" + (sfx or str(i))), fp.X("l%d" % i)
    if z1:
        return {"X%d" % i: x, "Y%d" % i: y, "Z%d" % i: fp.K(1)}, []
    return {"X%d" % i: x * l, "Y%d" % i: y * l, "Z%d" % i: l}, [l]


def inf_case(i=0, norm=False):
    l = fp.K(1) if norm else fp.X("l%d" % i)
    return {"X%d" % i: fp.K(0), "Y%d" % i: l, "Z%d" % i: fp.K(0)}, [] if norm else [l]


def q_curve(i=0):
    return fp.X("y%d" % i) * fp.X("y%d" % i) - fp.X("x%d" % i) * fp.X("x%d" % i) * fp.X("x%d" % i) - fp.K(7)


def decide_cases(rep, name, where, out, cases, numeric):
    """cases: (Case, expected) with expected a list of FP (coordinates) or a bool; numeric: fn(rng) -> (env, expected ints/bool)"""
    import random
    r = random.Random(rep.seed)
    f = compile_eval(list(out))
    names = {v.args[0]: v.w for v in variables(list(out))}
    for k in range(2000 if rep.thorough else 300):
        env, want = numeric(r, k)
        for n, w in names.items():
            env.setdefault(n, r.getrandbits(w))
        got = f(env)
        want = [int(want)] if isinstance(want, bool) else list(want)
        if list(got) != want:
            return rep.ob(name, REFUTED, where, "result %s, expected %s at %s" % (
                ", ".join(hex(x) for x in got), ", ".join(hex(x) for x in want), equiv.show_env(env)))
    for case, want in cases:
        ev = fp.Eval(case)
        e = None
        try:
            if isinstance(want, bool):
                g = ev.boolean(out[0])
                if g is None:
                    e = "condition not decided: %s" % show(out[0], 4)
                elif g != want:
                    e = "evaluates to %s" % g
            else:
                for t, w in zip(out, want):
                    v = ev.val(t)
                    if case.zero(v[0] - w * v[1]) is not True:
                        e = "coordinate differs"
        except fp.Unknown as x:
            e = str(x)
        rep.ob("%s: %s" % (name, case.name), UNDECIDED if e else PROVED, where, e or "rational functions over F_p")


def numpt(r, i, kind, norm):
    l = 1 if norm else r.choice([1, 1, 2, P - 1, r.getrandbits(256) % P or 1, 1 << r.randrange(256)]) % P or 1
    if kind == "inf":
        return {"X%d" % i: 0, "Y%d" % i: l, "Z%d" % i: 0}, None
    if kind == "on":
        p = fp.rand_point(r)
    else:
        p = r.getrandbits(256) % P, r.getrandbits(256) % P
    return {"X%d" % i: p[0] * l % P, "Y%d" % i: p[1] * l % P, "Z%d" % i: l}, p


def bit1(t):
    return t if t.w == 1 else ext(t, 0, 1)


def predicates(rep, cfgs=CONFIGS):
    jobs = []
    for cfg in cfgs:
        need(base(cfg), NORM, ONC, ISZ, CEQ, CNE, COMP, CCTOR)

        def norm(cfg=cfg):
            tag = "%s [%s]" % (NORM, cfg)

            def run():
                c = fork(cfg, hooks())
                a = point(c, "this", XYZ(0))
                c.call(NORM, a)
                rep.functions |= c.it.visited
                e, nz = fin_case("f")
                e2, nz2 = inf_case()

                def num(r, k):
                    env, p = numpt(r, 0, ["on", "on", "inf", "any"][k % 4], False)
                    return env, (0, 1, 0) if p is None else p + (1,)
                decide_cases(rep, tag, NORM, coords(c, a), [
                    (fp.Case("finite point, every representative", e, nz), [fp.X("x0"), fp.X("y0"), fp.K(1)]),
                    (fp.Case("infinity, every representative", e2, nz2), [fp.K(0), fp.K(1), fp.K(0)])], num)
            rep.guard(tag, run, NORM)

        def onc(cfg=cfg):
            tag = "%s [%s]" % (ONC, cfg)

            def run():
                c = fork(cfg, hooks())
                a = point(c, "this", XYZ(0))
                o = bit1(c.call(ONC, a))
                e, nz = fin_case("f", z1=True)
                e2, nz2 = inf_case(0, True)

                def num(r, k):
                    env, p = numpt(r, 0, ["on", "any", "inf", "near"][k % 4], True)
                    if k % 4 == 3:
                        x, y = fp.rand_point(r)
                        j = r.randrange(3)
                        env = {"X0": [x, y, (x + 1) % P][j], "Y0": [(y + 1) % P, x, y][j], "Z0": 1}
                        p = env["X0"], env["Y0"]
                    return env, p is not None and (p[1] * p[1] - p[0] ** 3 - 7) % P == 0
                decide_cases(rep, tag, ONC, [o], [
                    (fp.Case("normalised point on the curve", e, nz, [fp.curve("x0", "y0")]), True),
                    (fp.Case("normalised coordinates off the curve", e, nz + [q_curve()]), False),
                    (fp.Case("infinity", e2, nz2), False)], num)
                decide_int(rep, tag + ": operand unchanged", ONC, list(zip(coords(c, a), XYZ(0))))
            rep.guard(tag, run, ONC)

        def isz(cfg=cfg):
            tag = "%s [%s]" % (ISZ, cfg)

            def run():
                c = fork(cfg, hooks())
                a = point(c, "this", XYZ(0))
                o = bit1(c.call(ISZ, a))
                e, nz = fin_case("f")
                e2, nz2 = inf_case()

                def num(r, k):
                    env, p = numpt(r, 0, ["on", "any", "inf"][k % 3], k % 2)
                    return env, p is None
                decide_cases(rep, tag, ISZ, [o], [
                    (fp.Case("finite point, every representative", e, nz), False),
                    (fp.Case("infinity, every representative", e2, nz2), True)], num)
                decide_int(rep, tag + ": operand unchanged", ISZ, list(zip(coords(c, a), XYZ(0))))
            rep.guard(tag, run, ISZ)

        def cmp(cfg=cfg):
            for fn, pos in ((CEQ, True), (CNE, False)):
                tag = "%s [%s]" % (fn, cfg)

                def run():
                    c = fork(cfg, hooks())
                    a, b = point(c, "this", XYZ(0)), point(c, "other", XYZ(1))
                    o = bit1(c.call(fn, a, b))
                    f0, f1, i0, i1 = fin_case("", 0, z1=True)[0], fin_case("", 1, z1=True)[0], inf_case(0, True)[0], inf_case(1, True)[0]
                    s1 = fin_case("", 1, "0", True)[0]
                    x0, y0, x1, y1 = [fp.X(v) for v in ("x0", "y0", "x1", "y1")]
                    sx = dict(s1, Y1=y1)

                    def num(r, k):
                        env, p = numpt(r, 0, ["on", "inf", "any"][k % 3], True)
                        e1, q = numpt(r, 1, ["on", "inf", "any"][k // 3 % 3], True)
                        if p and k // 9 % 3:
                            q = [(p[0], P - p[1] if p[1] else 0), p, (p[0], q[1] if q else p[1]), (q[0] if q else p[0], p[1]),
                                 (p[0] ^ 1 << r.randrange(255), p[1]), (p[0], p[1] ^ 1 << r.randrange(255))][r.randrange(6)]
                            e1 = {"X1": q[0], "Y1": q[1], "Z1": 1}
                        return dict(env, **e1), (p == q) == pos
                    decide_cases(rep, tag, fn, [o], [
                        (fp.Case("equal finite points", dict(f0, **s1)), pos),
                        (fp.Case("different x", dict(f0, **f1), [x1 - x0]), not pos),
                        (fp.Case("same x, different y", dict(f0, **sx), [y1 - y0]), not pos),
                        (fp.Case("infinity and infinity", dict(i0, **i1)), pos),
                        (fp.Case("finite and infinity", dict(f0, **i1)), not pos),
                        (fp.Case("infinity and finite", dict(i0, **f1)), not pos)], num)
                    decide_int(rep, tag + ": operands unchanged", fn, list(zip(coords(c, a) + coords(c, b), XYZ(0) + XYZ(1))))
                rep.guard(tag, run, fn)

        def comp(cfg=cfg):
            tag = "%s [%s]" % (COMP, cfg)

            def run():
                c = fork(cfg, hooks())
                a = point(c, "this", XYZ(0))
                b = c.obj("output", V("old", 264))
                c.call(COMP, a, b)
                want = cat([add(zext(ext(Y0, 0, 1), 8), C(2, 8)), from_le(bytes_be(X0))])
                decide_int(rep, tag, COMP, [(c.rd(b), want)] + list(zip(coords(c, a), XYZ(0))))
            rep.guard(tag, run, COMP)

            def run():
                c = fork(cfg, hooks())
                a = c.obj("this", V("old", 768))
                c.call(CCTOR, a, c.obj("x", X0), c.obj("y", Y0))
                decide_int(rep, "%s [%s]" % (CCTOR, cfg), CCTOR, list(zip(coords(c, a), [X0, Y0, C(1, 256)])))
            rep.guard(CCTOR, run, CCTOR)
            constants(rep, cfg)
        jobs += [norm, onc, isz, cmp, comp]
    rep.pmap(jobs)


CONSTS = {"FI_ZERO": (0, 256), "FI_ONE": (1, 256), "A": (0, 256), "B": (7, 256), "ORDER": (N, 256),
          "G": (GX | GY << 256 | 1 << 512, 768), "ZERO": (1 << 256, 768)}


def constants(rep, cfg):
    for nm, (v, w) in CONSTS.items():
        def run():
            try:
                g = base(cfg).fork().gval(CP + nm, w // 8)
            except Missing:
                return
            decide_int(rep, "constant %s%s [%s]" % (CP, nm, cfg), CP + nm, [(g, C(v, w))])
        rep.guard("constant " + nm, run, CP + nm)


def recip(rep):
    from . import recip as rc
    rc.cpp(rep)


def c06(rep):
    predicates(rep)
    recip(rep)
    ca.field(rep)
    ca.integers(rep)


# ---------------------------------------------------------------- C05

def p768(it, st, p):
    return it.load(st, p, 96)


def point_hooks(mult=False):
    """contracts of CurvePoint (decided by C04, C05 and C06)"""
    def add_(it, st, a):
        it.store(st, a[0], pts.padd(p768(it, st, a[0]), p768(it, st, a[1])))

    def dbl(it, st, a):
        it.store(st, a[0], pts.pdbl(p768(it, st, a[0])))

    def rep_(it, st, a):
        if ub(a[2]) > 1:
            return NotImplemented
        x, y = p768(it, st, a[0]), p768(it, st, a[1])
        it.store(st, a[0], ite(ext(a[2], 0, 1), y, x))

    def norm(it, st, a):
        it.store(st, a[0], pts.pnorm(p768(it, st, a[0])))

    def mul_(it, st, a):
        it.store(st, a[0], pts.pmul(p768(it, st, a[0]), w256(it, st, a[1])))
    h = {ADD: add_, TWICE: dbl, CREP: rep_, NORM: norm}
    if mult:
        h[MULT] = mul_
    return h


def scalar_mult(rep, cfgs=CONFIGS):
    Pt, n = V("Pt", 768), V("n", 256)
    jobs = []
    for cfg in cfgs:
        need(base(cfg), MULT, PUB)

        def crep(cfg=cfg):
            if not base(cfg).has(CREP):
                return
            tag = "%s [%s]" % (CREP, cfg)

            def run():
                en = V("en", 1)
                c = fork(cfg, hooks())
                a, b = point(c, "this", XYZ(0)), point(c, "other", XYZ(1))
                c.call(CREP, a, b, zext(en, 32))
                decide_int(rep, tag, CREP, [(x, ite(en, q, p)) for x, p, q in zip(coords(c, a), XYZ(0), XYZ(1))] +
                           list(zip(coords(c, b), XYZ(1))))
            rep.guard(tag, run, CREP)

        def mult(cfg=cfg):
            tag = "%s [%s]" % (MULT, cfg)

            def run():
                c = fork(cfg, dict(hooks(), **point_hooks()))
                a, b = c.obj("this", Pt), c.obj("n", n)
                c.call(MULT, a, b)
                rep.functions |= c.it.visited
                decide_mult(rep, tag, MULT, c.rd(a), Pt)
                decide_int(rep, tag + ": scalar unchanged", MULT, [(c.rd(b), n)])
            rep.guard(tag, run, MULT)

        def pub(cfg=cfg):
            tag = "%s [%s]" % (PUB, cfg)

            def run():
                c = fork(cfg, dict(hooks(), **point_hooks(True)))
                o, b = c.obj("result", V("old", 768)), c.obj("n", n)
                c.call(PUB, o, b)
                rep.functions |= c.it.visited

                def draw(g, vs):
                    return {v.args[0]: g.r.choice([1, 2, N - 1, N - 2, g.value(256) % (N - 1) + 1, g.r.getrandbits(256) % (N - 1) + 1])
                            for v in vs}
                st, d = equiv.decide([(c.rd(o), pts.pnorm(pts.pmul(pts.GPT, n)))], seed=rep.seed, draw=draw, tries=60, steer=0)
                rep.ob(tag, st, PUB, d)
            rep.guard(tag, run, PUB)
        jobs += [crep, mult, pub]
    rep.pmap(jobs)


def decide_mult(rep, tag, where, out, Pt, scalar="n"):
    import random
    r = random.Random(rep.seed)
    f = compile_eval([out])
    others = [x for x in variables([out]) if x is not Pt and x.args[0] != scalar]
    for k in range(60 if rep.thorough else 12):
        p = None if k == 5 else fp.rand_point(r)
        l = r.getrandbits(256) % P or 1
        v = l << 256 if p is None else (p[0] * l % P) | (p[1] * l % P) << 256 | l << 512
        n = [0, 1, 15, 16, N - 1, N, N + 1, 2**256 - 1, 1 << 255, int("f0" * 32, 16), int("0f" * 32, 16)][k % 11] if k < 11 else r.getrandbits(256)
        env = {x.args[0]: r.getrandbits(x.w) for x in others}
        env.update({Pt.args[0]: v, scalar: n})
        try:
            g = f(env)[0]
        except ValueError:
            continue
        want = fp.aff_mul(n, p)
        m = (1 << 256) - 1
        if not fp.rep_ok(want, g & m, g >> 256 & m, g >> 512):
            return rep.ob(tag, REFUTED, where, "wrong multiple of the point for n = 0x%x, P = %s" % (n, p))
    st, d = pts.decide_multiple(out, Pt, scalar)
    return rep.ob(tag, st, where, d)


def c05(rep):
    scalar_mult(rep)
    group_law(rep)
    predicates(rep)
    recip(rep)
    ca.field(rep)
    ca.integers(rep)
