"""Point terms: curve-point operations as 768-bit uninterpreted functions over (X, Y, Z) triples (their contracts are obligations of
C04/C06/C27), and a domain of scalar coefficients that are multilinear polynomials over bits, modulo the group order."""
from .terms import *
from .arith import P, N, GX, GY
from . import fp

W = 768
ZEROPT = C(1 << 256, W)
GPT = C(GX | GY << 256 | 1 << 512, W)


def dec(v):
    """(X:Y:Z) integer -> affine point, None for infinity; raises ValueError when it represents no point"""
    m = (1 << 256) - 1
    x, y, z = v & m, v >> 256 & m, v >> 512 & m
    if z % P == 0:
        return None
    i = pow(z, -1, P)
    return x * i % P, y * i % P


def enc(p):
    return 1 << 256 if p is None else p[0] | p[1] << 256 | 1 << 512


def padd(a, b):
    return uf("p+", W, a, b) if a.id <= b.id else uf("p+", W, b, a)


def pdbl(a):
    return uf("pdbl", W, a)


def pmul(a, n):
    return uf("pmul", W, a, n)


def pnorm(a):
    return uf("pnorm", W, a)


UF_EVAL["p+"] = lambda a, b: enc(fp.aff_add(dec(a), dec(b)))
UF_EVAL["pdbl"] = lambda a: enc(fp.aff_add(dec(a), dec(a)))
UF_EVAL["pmul"] = lambda a, n: enc(fp.aff_mul(n, dec(a)))
UF_EVAL["pnorm"] = lambda a: enc(dec(a))


class Unknown(Exception):
    pass


def _mul(p, q, mod, limit=60000):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = m1 | m2
            v = (r.get(m, 0) + c1 * c2) % mod
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > limit:
        raise Unknown("coefficient polynomial too large")
    return r


def _add(p, q, mod, k=1):
    r = dict(p)
    for m, c in q.items():
        v = (r.get(m, 0) + k * c) % mod
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


class Coef(object):
    """point graphs as coefficient * base, the coefficient a multilinear polynomial over the bits b0.. of the scalar symbol"""

    def __init__(self, base, scalar="n", w=256):
        self.base = base
        self.bits = [V("%s.%d" % (scalar, i), 1) for i in range(w)]
        self.sub = {V(scalar, w): cat(self.bits)}
        self.idx = {b: i for i, b in enumerate(self.bits)}
        self.memo = {}
        self.cmemo = {}
        self.other = {}

    def prepare(self, t):
        return rebuild(t, self.sub)

    def cond(self, c):
        r = self.cmemo.get(c)
        if r is None:
            if c.op == "c":
                r = {frozenset(): 1} if cv(c) else {}
            else:
                vs = variables([c])
                if len(vs) > 10 or any(v not in self.idx for v in vs):
                    raise Unknown("condition over %d symbols: %s" % (len(vs), show(c, 3)))
                f = compile_eval([c])
                ks = [self.idx[v] for v in vs]
                n = len(vs)
                tab = [f({v.args[0]: (a >> i) & 1 for i, v in enumerate(vs)})[0] for a in range(1 << n)]
                for i in range(n):
                    for a in range(1 << n):
                        if a >> i & 1:
                            tab[a] -= tab[a ^ 1 << i]
                r = {frozenset(ks[i] for i in range(n) if a >> i & 1): v % N for a, v in enumerate(tab) if v}
            self.cmemo[c] = r
        return r

    def val(self, root):
        for t in topo([root]):
            if t.w != W or t in self.memo:
                continue
            self.memo[t] = self._val(t)
        return self.memo[root]

    def _val(self, t):
        m = self.memo
        if t is self.base:
            return {frozenset(): 1}
        if t.op == "c":
            if t is ZEROPT or dec(cv(t)) is None and cv(t) & ((1 << 256) - 1) == 0 and cv(t) >> 256 & ((1 << 256) - 1):
                return {}
            if t is GPT:
                return "G"
            return None
        if t.op == "uf":
            a = [m.get(x) for x in t.args[1:]]
            if any(x is None for x in a):
                return None
            if t.args[0] == "p+":
                return _add(a[0], a[1], N)
            if t.args[0] == "pdbl":
                return _add(a[0], a[0], N)
            if t.args[0] == "pnorm":
                return a[0]
            return None
        if t.op == "ite":
            a, b = m.get(t.args[1]), m.get(t.args[2])
            if a is None or b is None:
                return None
            c = self.cond(t.args[0])
            return _add(b, _mul(c, _add(a, b, N, -1), N), N)
        if t.op in ("v", "cat", "ext") and not any(v is self.base or v in self.idx for v in variables([t])):
            # contents of scratch space: an unknown point, which must not contribute
            return {frozenset([-1 - self.other.setdefault(t, len(self.other))]): 1}
        return None


def decide_multiple(out, base, scalar="n"):
    """('proved'|'refuted'|'undecided', detail): out is scalar * base for every scalar"""
    d = Coef(base, scalar)
    try:
        v = d.val(d.prepare(out))
    except Unknown as e:
        return "undecided", str(e)
    if v is None or v == "G":
        return "undecided", "result is not a combination of point operations on the base point: %s" % show(out, 3)
    want = {frozenset([i]): pow(2, i, N) for i in range(256)}
    diff = _add(v, want, N, -1)
    if not diff:
        return "proved", "coefficient polynomial equals the sum of 2^i n_i modulo the group order"
    m = min(diff, key=lambda x: (len(x), sorted(x)))
    if any(min(x, default=0) < 0 for x in diff):
        return "undecided", "the result depends on uninitialised contents"
    # all proper subsets agree, so the scalar with exactly these bits gets a wrong coefficient
    n = sum(1 << i for i in m)
    got = sum(c for k, c in v.items() if k <= m) % N
    return "refuted", "for n = 0x%x the result is 0x%x times the point" % (n, got)
