"""C++ ECDSA and BIP32 derivation over the contracts of the curve, integer and hash operations."""
from ..terms import *
from ..cinterp import *
from .. import equiv, modn, pts, fp
from ..arith import P, N, decide_int
from ..modn import nmul, ninv, nmod, px, pzero, ponc
from ..cspec import Missing
from ..report import PROVED, REFUTED, UNDECIDED, AnchorLost
from . import cpparith as ca, cppcurve as cc, ecdsa
from .cpparith import base, fork, w256, need, CONFIGS
from .cppcurve import hooks, point_hooks, p768, bit1
from .cpphash import class_types
from .ecdsa import K, D, Z, RR, SS, OR, OS, Q

E = "Ecdsa::"
SIGN = E + "sign(Uint256 const&, Sha256Hash const&, Uint256 const&, Uint256&, Uint256&)"
SIGNH = E + "signWithHmacNonce(Uint256 const&, Sha256Hash const&, Uint256&, Uint256&)"
VERIFY = E + "verify(CurvePoint const&, Sha256Hash const&, Uint256 const&, Uint256 const&)"
MULMOD = E + "multiplyModOrder(Uint256&, Uint256 const&)"


def be(t):
    """the 256-bit memory image (little-endian term) of the big-endian bytes of t"""
    return from_le(bytes_be(t))


def rec_hook(it, st, a):
    m = w256(it, st, a[1])
    if m.op != "c":
        return NotImplemented
    x = w256(it, st, a[0])
    ecdsa.requires(it, st, x, "Uint256::reciprocal", cv(m))
    if cv(m) == N:
        it.store(st, a[0], ninv(x))
    elif cv(m) == P:
        it.store(st, a[0], fp.finv(x))
    else:
        return NotImplemented


def curve_hooks(mulmod=True):
    def pub(it, st, a):
        it.store(st, a[0], pts.pnorm(pts.pmul(pts.GPT, w256(it, st, a[1]))))

    def mm(it, st, a):
        x, y = w256(it, st, a[0]), w256(it, st, a[1])
        ecdsa.requires(it, st, x, "multiplyModOrder")
        it.store(st, a[0], nmul(x, y))
    h = dict(hooks(), **point_hooks(True))
    h[cc.PUB] = pub
    h[ca.UREC] = rec_hook
    h[cc.ISZ] = lambda it, st, a: pzero(p768(it, st, a[0]))
    h[cc.ONC] = lambda it, st, a: ponc(p768(it, st, a[0]))
    if mulmod:
        h[MULMOD] = mm
    return h


def mulmod(rep, cfgs=CONFIGS):
    x, y = V("x", 256), V("y", 256)
    declare_ub(x, N - 1)
    for cfg in cfgs:
        if not base(cfg).has(MULMOD):
            continue
        tag = "%s [%s]" % (MULMOD, cfg)

        def run():
            c = fork(cfg, hooks())
            a, b = c.obj("x", x), c.obj("y", y)
            c.call(MULMOD, a, b)
            rep.functions |= c.it.visited
            modn.EXPAND.add(y)
            try:
                def draw(g, vs):
                    return {"x": g.r.choice([0, 1, N - 1, N // 2, N // 2 + 1, g.r.randrange(N), g.r.randrange(N)]), "y": g.value(256)}
                ecdsa.decide(rep, tag, MULMOD, [(c.rd(a), nmul(x, y))], draw, tries=300)
            finally:
                modn.EXPAND.discard(y)
            decide_int(rep, tag + ": factor unchanged", MULMOD, [(c.rd(b), y)])
        rep.guard(tag, run, MULMOD, True)


def curve_premises(rep):
    cc.scalar_mult(rep)
    cc.group_law(rep)
    cc.predicates(rep)
    cc.recip(rep)
    ca.field(rep)
    ca.integers(rep)


def sign(rep, cfgs=CONFIGS):
    def one(cfg):
        need(base(cfg), SIGN)
        tag = "%s [%s]" % (SIGN, cfg)

        def run():
            c = fork(cfg, curve_hooks())
            d, h, k, r, s = c.obj("privateKey", D), c.obj("msgHash", be(Z)), c.obj("nonce", K), c.obj("outR", OR), c.obj("outS", OS)
            ret = bit1(c.call(SIGN, d, h, k, r, s))
            rep.functions |= c.it.visited
            ok, wr, ws = ecdsa.sign_spec(D, Z, K, OR, OS)
            ecdsa.decide(rep, tag, SIGN, [(ret, ok), (c.rd(r), wr), (c.rd(s), ws)], ecdsa.draw_sign, it=c.it)
            decide_int(rep, tag + ": inputs unchanged", SIGN, [(c.rd(d), D), (c.rd(h), be(Z)), (c.rd(k), K)])
        rep.guard(tag, run, SIGN)
    rep.pmap([lambda cfg=cfg: one(cfg) for cfg in cfgs])


def verify(rep, cfgs=CONFIGS):
    def one(cfg):
        need(base(cfg), VERIFY)
        tag = "%s [%s]" % (VERIFY, cfg)

        def run():
            c = fork(cfg, curve_hooks())
            q, h, r, s = c.obj("publicKey", Q), c.obj("msgHash", be(Z)), c.obj("r", RR), c.obj("s", SS)
            ret = bit1(c.call(VERIFY, q, h, r, s))
            rep.functions |= c.it.visited
            ecdsa.decide(rep, tag, VERIFY, [(ret, ecdsa.verify_spec(Q, Z, RR, SS))], ecdsa.draw_verify, it=c.it)
            decide_int(rep, tag + ": inputs unchanged", VERIFY, [(c.rd(q), Q), (c.rd(h), be(Z)), (c.rd(r), RR), (c.rd(s), SS)])
        rep.guard(tag, run, VERIFY)
    rep.pmap([lambda cfg=cfg: one(cfg) for cfg in cfgs])


def c07(rep):
    verify(rep)
    mulmod(rep)
    curve_premises(rep)


def c08(rep):
    sign(rep)
    mulmod(rep)
    curve_premises(rep)


# ---------------------------------------------------------------- C09

HMAC256 = "Sha256::getHmac(unsigned char const*, unsigned long, unsigned char const*, unsigned long)"
HMAC512 = "Sha512::getHmac(unsigned char const*, unsigned long, unsigned char const*, unsigned long, unsigned char*)"
SHA256 = "Sha256::getHash(unsigned char const*, unsigned long)"
RIPEMD = "Ripemd160::getHash(unsigned char const*, unsigned long, unsigned char*)"


def hashterm(name, w, *parts):
    """digest of byte strings (terms in memory order), as a function of their contents and lengths"""
    return uf("%s_%s" % (name, "_".join(str(p.w // 8) for p in parts)), w, *parts)


def hmac512(k, m):
    """the digest as two independent halves, the first one a big-endian number"""
    return cat([be(hashterm("hmac512l", 256, k, m)), hashterm("hmac512r", 256, k, m)])


def selections(ts, left=24):
    """the terms as a selection, over the conditions they depend on, between constants: a tree (condition, tree, tree) with
    lists of constants as leaves; None if there is no small one"""
    if all(t.op == "c" for t in ts):
        return list(ts)
    if left <= 1:
        return None
    todo, seen = list(ts), set()
    while todo:             # outermost selection, not one below a condition
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op != "ite" or t.args[0].op == "c":
            todo.extend(children(t))
        else:
            c = t.args[0]
            a = selections([modn.subst(x, {c: TRUE}) for x in ts], left - 1)
            b = None if a is None else selections([modn.subst(x, {c: FALSE}) for x in ts], left - 1)
            return None if b is None else (c, a, b)
    return None


def hash_hooks():
    """contracts of the hash functions (decided by C10, C11, C12 and C14)"""
    def digest(it, st, parts, mk):
        """the digest of the byte strings (pointer, length); a start or length that is selected selects the digest"""
        if not all(isinstance(p, Ptr) for p, _ in parts):
            return None
        tree = selections([p.off for p, _ in parts] + [n for _, n in parts])
        if tree is None:
            return None
        k = len(parts)

        def go(t):
            if isinstance(t, tuple):
                a, b = go(t[1]), go(t[2])
                return None if a is None or b is None else ite(t[0], a, b)
            if not all(cv(n) for n in t[k:]):
                return None
            return mk(*[it.load(st, Ptr(p.obj, o), cv(n)) for (p, _), o, n in zip(parts, t, t[k:])])
        return go(tree)

    def hm256(it, st, a):
        v = digest(it, st, [(a[1], a[2]), (a[3], a[4])], lambda k, m: hashterm("hmac256", 256, k, m))
        if v is None:
            return NotImplemented
        it.store(st, a[0], v)

    def hm512(it, st, a):
        v = digest(it, st, [(a[0], a[1]), (a[2], a[3])], hmac512)
        if v is None:
            return NotImplemented
        it.store(st, a[4], v)

    def sha(it, st, a):
        v = digest(it, st, [(a[1], a[2])], lambda m: hashterm("sha256", 256, m))
        if v is None:
            return NotImplemented
        it.store(st, a[0], v)

    def rip(it, st, a):
        v = digest(it, st, [(a[0], a[1])], lambda m: hashterm("ripemd160", 160, m))
        if v is None:
            return NotImplemented
        it.store(st, a[2], v)
    return {HMAC256: hm256, HMAC512: hm512, SHA256: sha, RIPEMD: rip}


def nonce(rep, cfgs=CONFIGS):
    def one(cfg):
        need(base(cfg), SIGNH, SIGN)
        tag = "%s [%s]" % (SIGNH, cfg)

        def hsign(it, st, a):
            d, h, k, r, s = [w256(it, st, x) for x in a]
            ok, wr, ws = ecdsa.sign_spec(d, be(h), k, r, s)
            it.store(st, a[3], wr)
            it.store(st, a[4], ws)
            return ok

        def run():
            c = fork(cfg, dict(curve_hooks(), **dict(hash_hooks(), **{SIGN: hsign})))
            d, h, r, s = c.obj("privateKey", D), c.obj("msgHash", be(Z)), c.obj("outR", OR), c.obj("outS", OS)
            ret = bit1(c.call(SIGNH, d, h, r, s))
            rep.functions |= c.it.visited
            k = be(hashterm("hmac256", 256, be(D), be(Z)))
            ok, wr, ws = ecdsa.sign_spec(D, Z, k, OR, OS)
            ecdsa.decide(rep, tag, SIGNH, [(ret, ok), (c.rd(r), wr), (c.rd(s), ws)], ecdsa.draw_sign, it=c.it)
            decide_int(rep, tag + ": inputs unchanged", SIGNH, [(c.rd(d), D), (c.rd(h), be(Z))])
        rep.guard(tag, run, SIGNH)
    rep.pmap([lambda cfg=cfg: one(cfg) for cfg in cfgs])


def c09(rep):
    from . import cpphash
    nonce(rep)
    sign(rep)
    mulmod(rep)
    b = cpphash.Base()
    cpphash.hmac(cpphash.Hash("sha256", b, rep), cpphash.S256["hmac"], "sret", 32)
    ca.integers(rep)


# ---------------------------------------------------------------- C18

XPK = "ExtendedPrivateKey::"
CHILD = XPK + "getChildKey(unsigned int) const"
XDEF, XCTOR = XPK + "ExtendedPrivateKey()", XPK + "ExtendedPrivateKey(Uint256 const&, unsigned char const*, unsigned char, unsigned int, unsigned char const*)"
FIELDS = [("privateKey", "class.Uint256", 32), ("publicKey", "class.CurvePoint", 96), ("chainCode", 32, 32), ("depth", 1, 1), ("index", 4, 4), ("parentPubkeyHash", 4, 4)]


def xpk_layout(ctx):
    """offset of each member, recognised by its type"""
    for t in class_types(ctx, "ExtendedPrivateKey"):
        r = {}
        for o, e in zip(t.offs, t.elems):
            if e.kind == "struct":
                k = e.name
            elif e.kind == "array":
                k = ("array", e.n)
            else:
                k = ("int", e.w // 8)
            if k in r:
                return None
            r[k] = o
        try:
            return t.size, {"privateKey": r["class.Uint256"], "publicKey": r["class.CurvePoint"], "chainCode": r[("array", 32)],
                            "depth": r[("int", 1)], "index": r[("int", 4)], "parentPubkeyHash": r[("array", 4)]}
        except KeyError:
            return None
    return None


def child(rep, cfgs=CONFIGS):
    W = {n: 8 * k for n, _, k in FIELDS}

    def one(cfg):
        need(base(cfg), CHILD, XCTOR, XDEF)
        lay = xpk_layout(base(cfg))
        if lay is None:
            rep.ob("layout of ExtendedPrivateKey [%s]" % cfg, UNDECIDED, XCTOR, "members not recognised by type")
            return
        size, off = lay

        def obj(c, name, vals):
            o = c.obj(name, None, size)
            for f, v in vals.items():
                c.it.put(c.st, o.obj, off[f], v)
            return o

        def fields(c, o):
            return {f: c.rd(o, W[f] // 8, off[f]) for f in W}
        sym = {f: V("in." + f, w) for f, w in W.items()}
        D_ = sym["privateKey"]
        declare_ub(D_, N - 1)
        zero = {f: C(0, w) for f, w in W.items()}
        zero["publicKey"] = pts.ZEROPT

        def ctor():
            tag = "%s [%s]" % (XCTOR, cfg)
            c = fork(cfg, dict(curve_hooks(), **hash_hooks()))
            o = c.obj("this", None, size)
            c.call(XCTOR, o, c.obj("k", sym["privateKey"]), c.obj("cc", sym["chainCode"]), sym["depth"], sym["index"], c.obj("h", sym["parentPubkeyHash"]))
            rep.functions |= c.it.visited
            got = fields(c, o)
            want = dict(sym, publicKey=pts.pnorm(pts.pmul(pts.GPT, sym["privateKey"])))
            ecdsa.decide(rep, tag, XCTOR, [(got[f], want[f]) for f in W], None, tries=10)
            c = fork(cfg, curve_hooks())
            o = c.obj("this", None, size)
            c.call(XDEF, o)
            got = fields(c, o)
            decide_int(rep, "%s gives the zero key [%s]" % (XDEF, cfg), XDEF, [(got[f], zero[f]) for f in W])
        rep.guard("%s [%s]" % (XCTOR, cfg), ctor, XCTOR)

        def run():
            tag = "%s [%s]" % (CHILD, cfg)
            c = fork(cfg, dict(curve_hooks(), **hash_hooks()))
            o = obj(c, "this", sym)
            r = c.obj("result", None, size)
            idx = V("idx", 32)
            c.call(CHILD, r, o, idx)
            rep.functions |= c.it.visited
            got = fields(c, r)
            pk = sym["publicKey"]
            comp = cat([add(zext(ext(px(pk, 1), 0, 1), 8), C(2, 8)), be(px(pk, 0))])
            hard = cat([C(0, 8), be(D_)])
            msg = cat([ite(ext(idx, 31, 1), hard, comp), from_le(bytes_be(idx))])
            il, ir = hashterm("hmac512l", 256, sym["chainCode"], msg), hashterm("hmac512r", 256, sym["chainCode"], msg)
            key = modn.nlin((il, 1), (D_, 1))
            ok = band(ult(il, C(N, 256)), ne(key, C(0, 256)))
            want = {"privateKey": key, "publicKey": pts.pnorm(pts.pmul(pts.GPT, key)), "chainCode": ir,
                    "depth": add(sym["depth"], C(1, 8)), "index": idx,
                    "parentPubkeyHash": ext(hashterm("ripemd160", 160, hashterm("sha256", 256, comp)), 0, 32)}

            def draw(g, vs):
                p = fp.rand_point(g.r)
                e = {"in." + f: g.r.getrandbits(w) for f, w in W.items()}
                e["in.privateKey"] = ecdsa.scalar(g)
                e["in.publicKey"] = ecdsa.enc(p)
                e["in.depth"] = g.r.choice([0, 1, 254, 255, 127, 128, g.r.getrandbits(8)])
                e["idx"] = g.r.choice([0, 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, g.r.getrandbits(32), g.r.getrandbits(31), 256, 65536])
                return e
            ecdsa.decide(rep, tag, CHILD, [(got[f], ite(ok, want[f], zero[f])) for f in W], draw, split=[il], it=c.it)
            now = fields(c, o)
            decide_int(rep, tag + ": parent unchanged", CHILD, [(now[f], sym[f]) for f in W])
        rep.guard("%s [%s]" % (CHILD, cfg), run, CHILD)
    rep.pmap([lambda cfg=cfg: one(cfg) for cfg in cfgs])


def hmac512_premise(rep):
    from . import cpphash
    b = cpphash.Base()
    cpphash.hmac(cpphash.Hash("sha512", b, rep), cpphash.S512["hmac"], "out", 64)


def c18(rep):
    child(rep)
    hmac512_premise(rep)
    cc.scalar_mult(rep)
    cc.predicates(rep)
    cc.recip(rep)
    ca.integers(rep)
