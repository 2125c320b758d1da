"""Java ECDSA over the contracts of the curve, integer and hash operations."""
from ..terms import *
from ..jinterp import *
from .. import equiv, modn, pts
from ..arith import P, N, decide_int
from ..modn import nmul, ninv, px, pzero, ponc
from ..report import PROVED, REFUTED, UNDECIDED, AnchorLost
from . import javaarith as ja, javacurve as jc, javahash as jh, ecdsa
from .javaarith import fork, lib, words, ci, slot, need, covered, nothrow, offs, fits, overlap, Junk, I
from .ecdsa import K, D, Z, RR, SS, OR, OS, Q
from .cppcurve import bit1
from .cppecdsa import be, hashterm

CM = jc.CM
D_SIGN, D_SIGNH, D_VERIFY = "sign", "signWithHmacNonce", "verify"


def rec(it, st, a):
    o = offs(*a[1:])
    if o is None or overlap(o[:-1], o[-1], 48) or not fits(it, a[0], o[-1], 48):
        return NotImplemented
    x, m = it.words(st, a[0], o[0]), it.words(st, a[0], o[1])
    if m.op != "c" or cv(m) not in (N, P):
        return NotImplemented
    ecdsa.requires(it, st, x, "Int256Math.reciprocal", cv(m))
    r = ninv(x) if cv(m) == N else jc.finv(x)
    Junk.fill(it, st, a[0], o[3], 48)
    it.setwords(st, a[0], o[2], r)


def mulmod_hook(it, st, a):
    o = offs(a[1], a[3], a[4])
    if o is None or not fits(it, a[0], o[0]) or not fits(it, a[2], o[1]) or not fits(it, a[0], o[2], 16):
        return NotImplemented
    if overlap([o[0]] + ([o[1]] if a[2].obj is a[0].obj else []), o[2], 16):
        return NotImplemented
    x, y = it.words(st, a[0], o[0]), it.words(st, a[2], o[1])
    ecdsa.requires(it, st, x, "multiplyModOrder")
    Junk.fill(it, st, a[0], o[2], 16)
    it.setwords(st, a[0], o[0], nmul(x, y))


def curve_hooks(mul=True):
    h = dict(jc.hooks(), **jc.point_hooks(True))
    h[I + ".reciprocal([IIIII)"] = rec
    onc_scratch = jc.scratch("isOnCurve")

    def isz(it, st, a):
        o = offs(a[1])
        if o is None or not fits(it, a[0], o[0], 24):
            return NotImplemented
        return zext(pzero(it.words(st, a[0], o[0], 24)), 32)

    def onc(it, st, a):
        o = offs(a[1], a[2])
        if o is None or not fits(it, a[0], o[0], 24) or not fits(it, a[0], o[1], onc_scratch) or overlap([o[0], o[0] + 8, o[0] + 16], o[1], onc_scratch):
            return NotImplemented
        r = zext(ponc(it.words(st, a[0], o[0], 24)), 32)
        Junk.fill(it, st, a[0], o[1], onc_scratch)
        return r
    h[CM + ".isZero([II)"] = isz
    h[CM + ".isOnCurve([III)"] = onc
    if mul:
        h["Ecdsa.multiplyModOrder([II[III)"] = mulmod_hook
    return h


def mem(t):
    """bytes of a term in memory order"""
    return [ext(t, 8 * i, 8) for i in range(t.w // 8)]


def arr(c, name, t):
    return c.array(name, "I", words(t))


def word(c, ref):
    return c.it.words(c.st, ref, 0, c.it.length(ref.obj))


def mulmod(rep):
    if not lib().find("Ecdsa", "multiplyModOrder"):
        return
    x, y = V("x", 256), V("y", 256)
    declare_ub(x, N - 1)
    for same in (False, True):
        tag = "Ecdsa.multiplyModOrder" + (" within one array" if same else "")

        def run():
            c = fork(ja.int_hooks())
            g = [V("G%d" % i, 256) for i in range(3)]
            vals = words(g[0]) + words(x) + words(g[1]) + (words(y) if same else []) + [V("scr%d" % j, 32) for j in range(16)] + words(g[2])
            so = 24 + (8 if same else 0)
            ref = c.array("val", "I", vals)
            ref2, yo = (ref, 24) if same else (c.array("val2", "I", words(V("H", 256)) + words(y)), 8)
            c.call("Ecdsa", "multiplyModOrder", ref, ci(8), ref2, ci(yo), ci(so))
            covered(rep, c)
            nothrow(rep, c, tag, "multiplyModOrder")
            out = slot(c, ref, 8)
            modn.EXPAND.add(y)
            try:
                def draw(gg, vs):
                    e = {v.args[0]: gg.value(v.w) for v in vs}
                    e.update({"x": gg.r.choice([0, 1, N - 1, N // 2, N // 2 + 1, gg.r.randrange(N), gg.r.randrange(N)]), "y": gg.value(256)})
                    return e
                if not jc.dirty(rep, tag, "multiplyModOrder", [out], lambda: stale(rep, tag, "multiplyModOrder", [(out, nmul(x, y))], draw)):
                    ecdsa.decide(rep, tag, "multiplyModOrder", [(out, nmul(x, y))], draw, tries=300)
            finally:
                modn.EXPAND.discard(y)
            decide_int(rep, tag + ": only the product and scratch change", "multiplyModOrder",
                       [(slot(c, ref2, yo), y), (slot(c, ref, 0), g[0]), (slot(c, ref, 16), g[1]), (slot(c, ref, so + 16), g[2])])
        rep.guard(tag, run, "multiplyModOrder", True)


def stale(rep, tag, where, pairs, draw):
    s = equiv.separate(pairs, seed=rep.seed, draw=draw, tries=60, steer=0)
    if s is not None:
        rep.ob(tag, REFUTED, where, "result is 0x%x, specification 0x%x at %s" % (s[2], s[3], equiv.show_env(s[1])))


def throwfree(rep, c, tag, where):
    """no exception leaves a call whose arguments meet the documented preconditions"""
    nothrow(rep, c, tag, where)


def sign(rep):
    need("Ecdsa.sign")
    tag = "Ecdsa.sign"

    def run():
        c = fork(curve_hooks())
        d, k, r, s = arr(c, "privateKey", D), arr(c, "nonce", K), arr(c, "outR", OR), arr(c, "outS", OS)
        b = c.array("hash", "B", mem(be(Z)))
        h = jh.newhash(c, b, "([B)")
        ret = bit1(c.call("Ecdsa", "sign", d, h, k, r, s))
        covered(rep, c)
        throwfree(rep, c, tag, "Ecdsa.sign")
        ok, wr, ws = ecdsa.sign_spec(D, Z, K, OR, OS)
        out = [ret, word(c, r), word(c, s)]
        if not jc.dirty(rep, tag, "Ecdsa.sign", out, lambda: stale(rep, tag, "Ecdsa.sign", list(zip(out, [ok, wr, ws])), ecdsa.draw_sign)):
            ecdsa.decide(rep, tag, "Ecdsa.sign", list(zip(out, [ok, wr, ws])), ecdsa.draw_sign, it=c.it)
        decide_int(rep, tag + ": inputs unchanged", "Ecdsa.sign", [(word(c, d), D), (word(c, k), K)])
    rep.guard(tag, run, tag)


def verify(rep):
    need("Ecdsa.verify")
    tag = "Ecdsa.verify"

    def run():
        c = fork(curve_hooks())
        q, r, s = arr(c, "publicKey", Q), arr(c, "r", RR), arr(c, "s", SS)
        h = jh.newhash(c, c.array("hash", "B", mem(be(Z))), "([B)")
        ret = bit1(c.call("Ecdsa", "verify", q, h, r, s))
        covered(rep, c)
        throwfree(rep, c, tag, "Ecdsa.verify")
        if not jc.dirty(rep, tag, "Ecdsa.verify", [ret], lambda: stale(rep, tag, "Ecdsa.verify", [(ret, ecdsa.verify_spec(Q, Z, RR, SS))], ecdsa.draw_verify)):
            ecdsa.decide(rep, tag, "Ecdsa.verify", [(ret, ecdsa.verify_spec(Q, Z, RR, SS))], ecdsa.draw_verify, it=c.it)
        decide_int(rep, tag + ": inputs unchanged", "Ecdsa.verify", [(word(c, q), Q), (word(c, r), RR), (word(c, s), SS)])
    rep.guard(tag, run, tag)


def hmac_hook(it, st, a):
    if not all(isinstance(x, Ref) and it.length(x.obj) is not None for x in a):
        return NotImplemented
    k, m = cat(it.vals(st, a[0].obj)), cat(it.vals(st, a[1].obj))
    t = hashterm("hmac256", 256, k, m)
    b = it.array(st, "digest", "B", mem(t))
    o = it.new(st, "hash", "object", cls="io/nayuki/bitcoin/crypto/Sha256Hash")
    it.call(lib().find("Sha256Hash", "<init>", "([B)"), [Ref(o), b], st)
    return Ref(o)


def nonce(rep):
    need("Ecdsa.signWithHmacNonce", "Ecdsa.sign", "Sha256.getHmac")
    tag = "Ecdsa.signWithHmacNonce"

    def hsign(it, st, a):
        w = lambda x: it.words(st, x, 0, 8)
        d, k, r, s = w(a[0]), w(a[2]), w(a[3]), w(a[4])
        z = be(cat(it.vals(st, it.call(lib().find("Sha256Hash", "toBytes"), [a[1]], st).obj)))
        ok, wr, ws = ecdsa.sign_spec(d, z, k, r, s)
        it.setwords(st, a[3], 0, wr)
        it.setwords(st, a[4], 0, ws)
        return zext(ok, 32)

    def run():
        m = lib().find("Ecdsa", "sign")
        hk = dict(curve_hooks(), **{"Sha256.getHmac([B[B)": hmac_hook})
        hk["Ecdsa.sign([ILio/nayuki/bitcoin/crypto/Sha256Hash;[I[I[I)"] = hsign
        c = fork(hk)
        d, r, s = arr(c, "privateKey", D), arr(c, "outR", OR), arr(c, "outS", OS)
        h = jh.newhash(c, c.array("hash", "B", mem(be(Z))), "([B)")
        ret = bit1(c.call("Ecdsa", "signWithHmacNonce", d, h, r, s))
        covered(rep, c)
        throwfree(rep, c, tag, tag)
        k = be(hashterm("hmac256", 256, be(D), be(Z)))
        ok, wr, ws = ecdsa.sign_spec(D, Z, k, OR, OS)
        ecdsa.decide(rep, tag, tag, [(ret, ok), (word(c, r), wr), (word(c, s), ws)], ecdsa.draw_sign, it=c.it)
        decide_int(rep, tag + ": inputs unchanged", tag, [(word(c, d), D)])
    rep.guard(tag, run, tag)


def c28(rep):
    verify(rep)
    sign(rep)
    mulmod(rep)
    jc.c27(rep)


def c09(rep):
    nonce(rep)
    sign(rep)
    mulmod(rep)
    jh.JHash("sha256", rep).hmac()
    ja.integers(rep)
