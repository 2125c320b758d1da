"""C++ 256-bit integers and the prime field, in the portable and the assembly configuration."""
from ..terms import *
from ..cinterp import *
from .. import cspec, equiv, x86, arith, poly
from ..arith import P, N, decide_int, decide_mod
from ..cspec import Ctx, Missing
from ..report import PROVED, REFUTED, UNDECIDED, AnchorLost

U = "Uint256::"
UADD, USUB = U + "add(Uint256 const&, unsigned int)", U + "subtract(Uint256 const&, unsigned int)"
USHL, USHR = U + "shiftLeft1()", U + "shiftRight1(unsigned int)"
UREP, USWAP = U + "replace(Uint256 const&, unsigned int)", U + "swap(Uint256&, unsigned int)"
UBYTES, UFROM = U + "getBigEndianBytes(unsigned char*) const", U + "Uint256(unsigned char const*)"
USTR, UDEF, UFI = U + "Uint256(char const*)", U + "Uint256()", U + "Uint256(FieldInt const&)"
UREC = U + "reciprocal(Uint256 const&)"
CMP = {"==": lambda x, y: eq(x, y), "!=": lambda x, y: ne(x, y), "<": lambda x, y: ult(x, y), "<=": lambda x, y: ule(x, y),
       ">": lambda x, y: ult(y, x), ">=": lambda x, y: ule(y, x)}
CONFIGS = ("pure-cpp", "x8664")
_asm = []


def asm():
    if not _asm:
        _asm.append(x86.load_listing())
    return _asm[0]


_base = {}


def base(cfg, init=True):
    k = (cfg, init)
    if k not in _base:
        c = Ctx(cfg, hooks=x86.hooks(asm()) if cfg == "x8664" else None, init=init)
        _base[k] = c
    return _base[k]


def fork(cfg, hooks=None):
    b = base(cfg)
    h = dict(b.it.hooks)
    h.update(hooks or {})
    return b.fork(h)


def w256(it, st, p):
    return it.load(st, p, 32)


# ---------------------------------------------------------------- contracts of Uint256 (decided by C01)

def uint_hooks():
    def addsub(f):
        def h(it, st, a):
            p, q, e = a[0], a[1], a[2]
            if ub(e) > 1 or not isinstance(p, Ptr) or not isinstance(q, Ptr):
                return NotImplemented
            x, y = w256(it, st, p), w256(it, st, q)
            full = f(zext(x, 257), ite(ext(e, 0, 1), zext(y, 257), C(0, 257)))
            it.store(st, p, ext(full, 0, 256))
            return zext(ext(full, 256, 1), 32)
        return h

    def shl1(it, st, a):
        x = w256(it, st, a[0])
        it.store(st, a[0], cat([C(0, 1), ext(x, 0, 255)]))
        return zext(ext(x, 255, 1), 32)

    def shr1(it, st, a):
        if ub(a[1]) > 1:
            return NotImplemented
        x = w256(it, st, a[0])
        it.store(st, a[0], ite(ext(a[1], 0, 1), zext(ext(x, 1, 255), 256), x))

    def rep(it, st, a):
        if ub(a[2]) > 1:
            return NotImplemented
        x, y = w256(it, st, a[0]), w256(it, st, a[1])
        it.store(st, a[0], ite(ext(a[2], 0, 1), y, x))

    def swap(it, st, a):
        if ub(a[2]) > 1:
            return NotImplemented
        x, y = w256(it, st, a[0]), w256(it, st, a[1])
        e = ext(a[2], 0, 1)
        it.store(st, a[0], ite(e, y, x))
        it.store(st, a[1], ite(e, x, y))

    def cmp(f):
        return lambda it, st, a: f(w256(it, st, a[0]), w256(it, st, a[1]))
    h = {UADD: addsub(add), USUB: addsub(sub), USHL: shl1, USHR: shr1, UREP: rep, USWAP: swap}
    for k, f in CMP.items():
        h[U + "operator%s(Uint256 const&) const" % k] = cmp(f)
    return h


def asm_field_hooks():
    """contracts of the multi-precision assembly helpers (each decided against the disassembly in C02)"""
    def m(it, st, a):
        it.store(st, a[0], asm_spec("m", w256(it, st, a[1]), w256(it, st, a[2])))

    def b0(it, st, a):
        it.store(st, a[0], asm_spec("b0", it.load(st, a[1], 64)))

    def b1(it, st, a):
        it.store(st, a[0], asm_spec("b1", w256(it, st, a[1])))

    def b2(it, st, a):
        it.store(st, a[0], asm_spec("b2", it.load(st, a[1], 64), it.load(st, a[2], 64)))
    return {"asm_FieldInt_multiply256x256eq512": m, "asm_FieldInt_multiplyBarrettStep0": b0,
            "asm_FieldInt_multiplyBarrettStep1": b1, "asm_FieldInt_multiplyBarrettStep2": b2}


def asm_spec(k, x, y=None):
    if k == "m":
        return mul([zext(x, 512), zext(y, 512)], 512)
    if k == "b0":
        return mul([zext(x, 768), C(2**256 + 2**32 + 977, 768)], 768)
    if k == "b1":
        return mul([zext(x, 512), C(P, 512)], 512)
    return ext(sub(x, y), 0, 288)


# ---------------------------------------------------------------- C01

def need(c, *names):
    for n in names:
        if not c.has(n):
            raise AnchorLost("function %s not found" % n)


def integers(rep, cfgs=CONFIGS, only=None):
    X, Y, en = V("X", 256), V("Y", 256), V("en", 1)
    e32 = zext(en, 32)
    ye = ite(en, Y, C(0, 256))
    B = 1 << 256
    zx, zye = zext(X, 257), zext(ye, 257)
    jobs = []

    def op(cfg, fn, mk, post):
        def go():
            tag = "%s [%s]" % (fn, cfg)

            def run():
                c = fork(cfg)
                args = [a if isinstance(a, T) else c.obj(*a) for a in mk]
                ps = [a for a in args if isinstance(a, Ptr)]
                r = c.call(fn, *args)
                outs = [c.rd(p) for p in ps]
                rep.functions |= c.it.visited
                post(tag, fn, r, outs)
            rep.guard(tag, run, fn)
        jobs.append(go)

    def post_add(sgn):
        def f(tag, fn, r, o):
            full = add(zx, zye) if sgn > 0 else sub(zx, zye)
            decide_int(rep, tag, fn, [(o[0], ext(full, 0, 256)), (r, zext(ext(full, 256, 1), 32))],
                       [([(o[0], 1), (r, sgn * B)], [(X, 1), (ye, sgn)])])
            decide_int(rep, tag + ": operand unchanged", fn, [(o[1], Y)])
        return f

    def post_vals(*want):
        def f(tag, fn, r, o):
            pairs = [(a, b) for a, b in zip(o, want)]
            if len(want) > len(o):
                pairs.append((r, want[-1]))
            decide_int(rep, tag, fn, pairs)
        return f

    def post_cmp(k):
        def f(tag, fn, r, o):
            r1 = ext(r, 0, 1)
            if r.w > 1 and ub(r) > 1:
                decide_int(rep, tag, fn, [(r, zext(CMP[k](X, Y), r.w))])
            else:
                decide_int(rep, tag, fn, [(r1, CMP[k](X, Y))])
            decide_int(rep, tag + ": operands unchanged", fn, [(o[0], X), (o[1], Y)])
        return f
    ox, oy = ("this", X), ("other", Y)
    for cfg in cfgs:
        c0 = base(cfg)
        need(c0, UADD, USUB, USHL, USHR, UREP, USWAP, UBYTES, UFROM, *[U + "operator%s(Uint256 const&) const" % k for k in CMP])
        op(cfg, UADD, [ox, oy, e32], post_add(1))
        op(cfg, USUB, [ox, oy, e32], post_add(-1))
        op(cfg, USHL, [ox], post_vals(cat([C(0, 1), ext(X, 0, 255)]), zext(ext(X, 255, 1), 32)))
        op(cfg, USHR, [ox, e32], post_vals(ite(en, zext(ext(X, 1, 255), 256), X)))
        op(cfg, UREP, [ox, oy, e32], post_vals(ite(en, Y, X), Y))
        op(cfg, USWAP, [ox, oy, e32], post_vals(ite(en, Y, X), ite(en, X, Y)))
        for k in CMP:
            op(cfg, U + "operator%s(Uint256 const&) const" % k, [ox, oy], post_cmp(k))
        rev = from_le(bytes_be(X))
        op(cfg, UBYTES, [ox, ("b", V("old", 256))], post_vals(X, rev))
        op(cfg, UFROM, [("this", V("old", 256)), ("b", X)], post_vals(rev, X))
        if c0.has(UDEF):
            op(cfg, UDEF, [("this", V("old", 256))], post_vals(C(0, 256)))
        if c0.has(UFI):
            op(cfg, UFI, [("this", V("old", 256)), ("val", X)], post_vals(X, X))
        jobs.append(lambda cfg=cfg: self_ops(rep, cfg, X, en))
        jobs.append(lambda cfg=cfg: consts(rep, cfg))
        if cfg == "pure-cpp":
            jobs.append(lambda cfg=cfg: hexctor(rep, cfg))
    rep.pmap(jobs)


def self_ops(rep, cfg, X, en):
    """operations whose argument may be the object itself"""
    for fn, want in ((UREP, X), (USWAP, X)):
        tag = "%s with itself [%s]" % (fn, cfg)

        def run():
            c = fork(cfg)
            p = c.obj("this", X)
            c.call(fn, p, p, zext(en, 32))
            decide_int(rep, tag, fn, [(c.rd(p), want)])
        rep.guard(tag, run, fn)
    for k, f in CMP.items():
        fn = U + "operator%s(Uint256 const&) const" % k
        tag = "%s with itself [%s]" % (fn, cfg)

        def run():
            c = fork(cfg)
            p = c.obj("this", X)
            r = c.call(fn, p, p)
            decide_int(rep, tag, fn, [(ext(r, 0, 1), C(1 if k in ("==", "<=", ">=") else 0, 1))])
        rep.guard(tag, run, fn)


def consts(rep, cfg):
    for nm, v in (("Uint256::ZERO", 0), ("Uint256::ONE", 1)):
        def run():
            try:
                g = base(cfg).fork().gval(nm)
            except Missing:
                return
            decide_int(rep, "constant %s [%s]" % (nm, cfg), nm, [(g, C(v, 256))])
        rep.guard("constant %s [%s]" % (nm, cfg), run, nm)


def hexctor(rep, cfg):
    fn = USTR
    if not base(cfg).has(fn):
        return

    def run():
        bad = None
        chars = [(c, int(chr(c), 16)) for c in b"0123456789abcdefABCDEF"]
        for pos in range(64):
            for ch, v in (chars if cfg == "pure-cpp" or pos in (0, 1, 31, 63) else [chars[(pos * 7) % 22], (ord("f"), 15), (ord("A"), 10)]):
                c = fork(cfg)
                s = [C(ord("5"), 8)] * 64 + [C(0, 8)]
                s[pos] = C(ch, 8)
                o = c.obj("this", V("old", 256))
                p = c.obj("str", cat(s))
                c.call(fn, o, p)
                want = int("5" * pos + "%x" % v + "5" * (63 - pos), 16)
                g = c.rd(o)
                if g is not C(want, 256) and bad is None:
                    bad = (REFUTED if g.op == "c" else UNDECIDED, "digit %r at position %d gives %s" % (chr(ch), pos, show(g)))
        rep.ob("%s reads every digit at every position [%s]" % (fn, cfg), bad[0] if bad else PROVED, fn, bad[1] if bad else "constant propagation")
    rep.guard(fn, run, fn)


def c01(rep):
    integers(rep)


# ---------------------------------------------------------------- C02

F = "FieldInt::"
FADD, FSUB, FDBL = F + "add(FieldInt const&)", F + "subtract(FieldInt const&)", F + "multiply2()"
FMUL, FSQR, FREP = F + "multiply(FieldInt const&)", F + "square()", F + "replace(FieldInt const&, unsigned int)"
FREC = F + "reciprocal()"
FFROM = F + "FieldInt(Uint256 const&)"


def asm_helpers(rep):
    """the multi-precision assembly helpers equal the wide operation, for every operand"""
    X, Y = V("X", 256), V("Y", 256)
    A, Bv = V("A", 512), V("B", 512)
    cases = [("asm_FieldInt_multiply256x256eq512", "m", [X, Y], 64), ("asm_FieldInt_multiplyBarrettStep0", "b0", [A], 96),
             ("asm_FieldInt_multiplyBarrettStep1", "b1", [X], 64), ("asm_FieldInt_multiplyBarrettStep2", "b2", [A, Bv], 36)]
    for nm, k, ins, n in cases:
        if nm not in asm().funcs:
            continue

        def run():
            c = fork("x8664")
            z = c.obj("z", V("old", 8 * n))
            ps = [c.obj("in%d" % i, v) for i, v in enumerate(ins)]
            m = x86.Machine(asm(), c.it, c.st)
            m.run(nm, [z] + ps)
            out = c.rd(z)
            want = asm_spec(k, *ins)
            decide_asm(rep, nm, out, want, k)
            decide_int(rep, nm + ": operands unchanged", nm, [(c.rd(p), v) for p, v in zip(ps, ins)])
        rep.guard(nm, run, nm)


def decide_asm(rep, nm, out, want, k):
    def sep(**kw):
        s = equiv.separate([(out, want)], seed=rep.seed, **kw)
        if s:
            _, env, x, y = s
            return rep.ob(nm, REFUTED, nm, "result 0x%x, specification 0x%x at %s" % (x, y, equiv.show_env(env)))

    def prove():
        e = poly.congruent(out, want, 1 << out.w)
        return (False, str(e)[:300]) if e else (True, "polynomial identity modulo 2^%d" % out.w)
    arith.settle(rep, nm, nm, sep, prove, arith.tries(rep, 600))


def field(rep, cfgs=CONFIGS):
    X, Y, en = V("X", 256), V("Y", 256), V("en", 1)
    ubs = {X: P - 1, Y: P - 1}
    z = lambda t: zext(t, 512)
    spec = {FADD: (2, add(z(X), z(Y))), FSUB: (2, add(z(X), sub(C(P, 512), z(Y)))), FDBL: (1, mul([C(2, 512), z(X)], 512)),
            FMUL: (2, mul([z(X), z(Y)], 512)), FSQR: (1, mul([z(X), z(X)], 512))}
    jobs = []
    if "x8664" in cfgs:
        jobs.append(lambda: asm_helpers(rep))
    for cfg in cfgs:
        need(base(cfg), *spec)
        for fn, (n, sp) in spec.items():
            def go(cfg=cfg, fn=fn, n=n, sp=sp):
                tag = "%s [%s]" % (fn, cfg)

                def run():
                    c = fork(cfg, dict(uint_hooks(), **asm_field_hooks()))
                    a = [c.obj("this", X), c.obj("other", Y)][:n]
                    c.call(fn, *a)
                    rep.functions |= c.it.visited
                    decide_mod(rep, tag, fn, c.rd(a[0]), sp, P, {v: P - 1 for v in (X, Y)[:n]})
                    if n == 2:
                        decide_int(rep, tag + ": operand unchanged", fn, [(c.rd(a[1]), Y)])
                rep.guard(tag, run, fn)
            jobs.append(go)

        def mulself(cfg=cfg):
            tag = "%s by itself [%s]" % (FMUL, cfg)

            def run():
                c = fork(cfg, dict(uint_hooks(), **asm_field_hooks()))
                a = c.obj("this", X)
                c.call(FMUL, a, a)
                decide_mod(rep, tag, FMUL, c.rd(a), spec[FSQR][1], P, {X: P - 1})
            rep.guard(tag, run, FMUL)
        jobs.append(mulself)

        def misc(cfg=cfg):
            def run():
                c = fork(cfg, uint_hooks())
                a, b = c.obj("this", X), c.obj("other", Y)
                c.call(FREP, a, b, zext(en, 32))
                decide_int(rep, "%s [%s]" % (FREP, cfg), FREP, [(c.rd(a), ite(en, Y, X)), (c.rd(b), Y)])
            rep.guard(FREP, run, FREP)
            if base(cfg).has(FFROM):
                def run():
                    c = fork(cfg, uint_hooks())
                    a, b = c.obj("this", V("old", 256)), c.obj("val", X)
                    c.call(FFROM, a, b)
                    decide_mod(rep, "%s [%s]" % (FFROM, cfg), FFROM, c.rd(a), X, P, {X: 2**256 - 1})
                rep.guard(FFROM, run, FFROM)
            for k, f in CMP.items():
                fn = F + "operator%s(FieldInt const&) const" % k
                if not base(cfg).has(fn):
                    continue

                def run():
                    c = fork(cfg, uint_hooks())
                    r = c.call(fn, c.obj("this", X), c.obj("other", Y))
                    decide_int(rep, "%s [%s]" % (fn, cfg), fn, [(ext(r, 0, 1), f(X, Y))])
                rep.guard(fn, run, fn)
        jobs.append(misc)
    rep.pmap(jobs)


def c02(rep):
    field(rep)
    integers(rep)
