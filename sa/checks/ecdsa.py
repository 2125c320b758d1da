"""Specification of ECDSA over the contracts of scalar multiplication, modular multiplication and inversion; shared by C++ and Java."""
import random
from ..terms import *
from .. import equiv, modn, pts, fp
from ..arith import P, N, GX, GY
from ..modn import nmul, ninv, nmod, nlin, px, pzero, ponc, Canon, same, bound
from ..report import PROVED, REFUTED, UNDECIDED

K, D, Z = V("k", 256), V("d", 256), V("z", 256)
RR, SS, OR, OS = V("r", 256), V("s", 256), V("oldR", 256), V("oldS", 256)
Q = V("Q", 768)
declare_ub(D, N - 1)


def inrange(x):
    return band(ne(x, C(0, 256)), ult(x, C(N, 256)))


def sign_spec(d, z, k, oldr, olds):
    """(success bit, r, s)"""
    r = nmod(px(pts.pnorm(pts.pmul(pts.GPT, k))))
    t = nmul(nlin((z, 1), (nmul(r, d), 1)), ninv(k))
    ok = band(inrange(k), ne(r, C(0, 256)), ne(t, C(0, 256)))
    neg_ = sub(C(N, 256), t)
    s = ite(ult(neg_, t), neg_, t)
    return ok, ite(ok, r, oldr), ite(ok, s, olds)


def verify_spec(q, z, r, s):
    w = ninv(s)
    p = pts.pnorm(pts.padd(pts.pmul(pts.GPT, nmul(w, nmod(z))), pts.pmul(q, nmul(w, r))))
    valid = band(bnot(pzero(q)), eq(px(q, 2), C(1, 256)), ponc(q), pzero(pts.pmul(q, C(N, 256))))
    return band(inrange(r), inrange(s), valid, bnot(pzero(p)), eq(nmod(px(p)), r))


def scalar(g):
    r = g.r
    return r.choice([1, 2, N - 1, N - 2, r.randrange(1, 1 << 20), N // 2, N // 2 + 1, r.randrange(1, N), r.randrange(1, N), g.value(256) % (N - 1) + 1])


def hashval(g):
    r = g.r
    return r.choice([0, 1, N, N + 1, N - 1, (1 << 256) - 1, N + r.getrandbits(120), g.value(256), r.getrandbits(256), r.getrandbits(256)])


def draw_sign(g, vs):
    r = g.r
    k, d, z = scalar(g), scalar(g), hashval(g)
    c = r.randrange(10)
    if c == 0:
        k = r.choice([0, N, N + 1, (1 << 256) - 1, N + r.getrandbits(100)])
    elif c == 1:
        # s = 0
        x = fp.aff_mul(k, (GX, GY))[0] % N
        z = -x * d % N
        if z + N < 1 << 256 and r.randrange(2):
            z += N
    elif c == 2:
        # s next to the low-s boundary or small
        x = fp.aff_mul(k, (GX, GY))[0] % N
        s = r.choice([N // 2, N // 2 + 1, 1, N - 1, N // 2 - 1, N // 2 + 2])
        z = (s * k - x * d) % N
    return {"k": k, "d": d, "z": z, "oldR": r.getrandbits(256), "oldS": r.getrandbits(256)}


def enc(p, l=1):
    return 1 << 256 if p is None else (p[0] * l % P) | (p[1] * l % P) << 256 | l << 512


G = (GX, GY)
_bigx = []


def bigx(r):
    """a point whose x coordinate is not below the group order"""
    if not _bigx:
        x = N
        while len(_bigx) < 6:
            y = fp.sqrt((x ** 3 + 7) % P)
            if y:
                _bigx.append((x, y))
            x += 1
    x, y = r.choice(_bigx)
    return x, r.choice([y, P - y])


def draw_verify(g, vs):
    r = g.r
    c = r.randrange(15)
    if c < 3 or c > 10:
        d, k, z = scalar(g), scalar(g), hashval(g)
        if c == 11:
            z = r.choice([N + 1, N + r.getrandbits(100), (1 << 256) - 1])
        q = fp.aff_mul(d, G)
        rr = fp.aff_mul(k, G)[0] % N
        s = (z + rr * d) * pow(k, -1, N) % N
        if c in (0, 12):
            s = N - s
    else:
        # choose the point R and both multipliers freely
        R = bigx(r) if c == 3 else fp.rand_point(r)
        u1, u2 = scalar(g), scalar(g)
        if c == 4:
            u1 = 0
        q = fp.aff_mul(pow(u2, -1, N), fp.aff_add(R, fp.aff_mul(N - u1, G)))
        rr = R[0] % N
        if rr == 0:
            rr = 1
        s = rr * pow(u2, -1, N) % N
        z = u1 * s % N
        if z + N < 1 << 256 and r.randrange(2):
            z += N
    if c == 5:
        rr = (rr + r.choice([1, -1, N // 2])) % N
    elif c == 6:
        s = s + N if s + N < 1 << 256 else (s + 1) % N
    elif c == 7:
        rr = r.choice([0, N, rr + N if rr + N < 1 << 256 else 0])
    elif c == 8:
        s = r.choice([0, N])
    elif c == 13:
        # the combination is the point at infinity
        d = scalar(g)
        q = fp.aff_mul(d, G)
        rr, s = scalar(g), scalar(g)
        z = -rr * d % N
    Q_ = enc(q)
    if c == 9 and q:
        Q_ = r.choice([enc(q, r.randrange(2, P)), 1 << 256, enc((q[0], (q[1] + 1) % P)), enc(q) & ~(1 << 512), 0])
    return {"Q": Q_, "z": z, "r": rr, "s": s}


HASHES = ("hmac", "sha", "ripemd", "hash")


def requires(it, st, x, what, m=N):
    """a contract applies only below the modulus: an obligation of the caller"""
    if ub(x) < m:
        return
    it.__dict__.setdefault("pres", []).append((band(TRUE, *[c if v else bnot(c) for c, v in st.pc]), x, what, m))


def decide(rep, name, where, pairs, draw, subs=None, tries=None, split=(), it=None):
    """canonical forms under the contracts; separated by random interpretation when they differ.  split lists function values that
    are to be treated as free numbers, with the cases below the group order and not below it decided apart"""
    pres = it.__dict__.get("pres", []) if it is not None else []
    pairs = list(pairs) + [(band(pc, bnot(ult(x, C(m, 256)))), C(0, 1)) for pc, x, w, m in pres]
    npre = len(pairs) - len(pres)
    n = tries or (400 if rep.thorough else 40)
    late = 3 * n

    def sep(prs, k, dr=draw):
        s = equiv.separate(prs, seed=rep.seed, draw=dr, tries=k, steer=0)
        if s is not None:
            j, env, x, y = s
            if j >= npre:
                rep.ob(name, REFUTED, where, "%s is called with an argument that is not below the modulus at %s" % (pres[j - npre][2], equiv.show_env(env)))
                return True
            rep.ob(name, REFUTED, where, "result is 0x%x, specification 0x%x at %s" % (x, y, equiv.show_env(env)))
            return True
    if sep(pairs, max(6, n // 5)):
        return
    roots = modn.hoist_args([t for p in pairs for t in p] + list(split), HASHES)
    pairs = [(roots[2 * i], roots[2 * i + 1]) for i in range(len(pairs))]
    cases = [{}]
    for j, t in enumerate(roots[2 * len(pairs):]):
        lo, hi = V("@lo%d" % j, 256), V("@hi%d" % j, 256)
        declare_ub(lo, N - 1)
        cases = [dict(list(c.items()) + [(t, v)]) for c in cases for v in (lo, hi)]
    modn.FAILED.clear()
    why, count = None, 0
    for case in cases:
        prs = [(modn.subst(a, case), modn.subst(b, case)) for a, b in pairs] if case else pairs
        high = {ult(v, C(N, 256)): C(0, 1) for v in case.values() if v.args[0].startswith("@hi")}
        if high:
            prs = [(modn.subst(a, high), modn.subst(b, high)) for a, b in prs]

        def dr(g, vs):
            e = draw(g, vs) if draw else {v.args[0]: g.value(v.w) for v in vs}
            for v in case.values():
                if v.args[0].startswith("@hi"):
                    e[v.args[0]] = N + g.r.choice([0, 1, g.r.getrandbits(100), (1 << 256) - 1 - N])
                else:
                    e[v.args[0]] = g.r.choice([0, 1, N - 1, scalar(g), (N - e.get("in.privateKey", 1)) % N])
            return e
        free = case and all(
            not (x.op == "uf" and x.args[0] in {t.args[0] for t in case}) for x in topo([t for p in prs for t in p]))
        if free and sep(prs, n, dr):
            return
        c = Canon(subs)
        for a, b in prs:
            x, y = c(a), c(b)
            e = same(x, y)
            if e:
                why = e
                break
        count += c.count
        if why is not None:
            if free and sep(prs, late, dr):
                return
            break
    if why is None:
        return rep.ob(name, PROVED, where, "identical canonical forms modulo the group order (%d reductions proved)" % count)
    if sep(pairs, late):
        return
    rep.ob(name, UNDECIDED, where, (why + "".join("; " + x[1] for x in modn.FAILED[:1]))[:600])
