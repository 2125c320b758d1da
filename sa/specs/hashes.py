"""Reference definitions of the hash functions as value graphs, with constants derived from their definitions."""
from ..terms import *


def _primes(n):
    r = []
    k = 2
    while len(r) < n:
        if all(k % p for p in r):
            r.append(k)
        k += 1
    return r


def _iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n:
            lo = m
        else:
            hi = m - 1
    return lo


def frac_root(p, k, bits):
    return _iroot(p << (bits * k), k) & ((1 << bits) - 1)


class Sha2(object):
    def __init__(self, w):
        self.w = w
        self.block = 16 * w // 8
        self.rounds = 64 if w == 32 else 80
        self.K = [frac_root(p, 3, w) for p in _primes(self.rounds)]
        self.H = [frac_root(p, 2, w) for p in _primes(8)]
        if w == 32:
            self.S = ((2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10))
        else:
            self.S = ((28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6))
        self.lenbytes = w // 4

    def compress(self, st, block):
        """st: 8 word terms, block: list of byte terms"""
        w = self.w
        n = w // 8
        W = [from_be(block[i * n:(i + 1) * n]) for i in range(16)]
        s0, s1 = self.S[2], self.S[3]

        def ro(x, s):
            return bxor(rotr(x, s[0]), rotr(x, s[1]), lshr(x, C(s[2], w)))
        for i in range(16, self.rounds):
            W.append(addn([W[i - 16], W[i - 7], ro(W[i - 15], s0), ro(W[i - 2], s1)], w))
        a, b, c, d, e, f, g, h = st
        A, E = self.S[0], self.S[1]
        for i in range(self.rounds):
            t1 = addn([h, bxor(*[rotr(e, k) for k in E]), bxor(g, band(e, bxor(f, g))), C(self.K[i], w), W[i]], w)
            t2 = addn([bxor(*[rotr(a, k) for k in A]), bor(band(a, bor(b, c)), band(b, c))], w)
            h, g, f, e, d, c, b, a = g, f, e, add(d, t1), c, b, a, add(t1, t2)
        return [add(x, y) for x, y in zip(st, (a, b, c, d, e, f, g, h))]

    def init(self):
        return [C(h, self.w) for h in self.H]

    def pad(self, msg, bitlen=None):
        """message bytes (with the already consumed length folded into bitlen when given)"""
        n = len(msg)
        B = self.block
        m = list(msg) + [C(0x80, 8)]
        while len(m) % B != B - self.lenbytes:
            m.append(C(0, 8))
        if bitlen is None:
            bitlen = C(8 * n, self.lenbytes * 8)
        return m + bytes_be(bitlen)

    def out(self, st):
        return [b for x in st for b in bytes_be(x)]

    def digest(self, msg, comp=None):
        comp = comp or self.compress
        st = self.init()
        m = self.pad(msg)
        for i in range(0, len(m), self.block):
            st = comp(st, m[i:i + self.block])
        return self.out(st)

    def hmac(self, key, msg, comp=None):
        B = self.block
        k = list(key)
        if len(k) > B:
            k = self.digest(k, comp)
        k = k + [C(0, 8)] * (B - len(k))
        inner = self.digest([bxor(b, C(0x36, 8)) for b in k] + list(msg), comp)
        return self.digest([bxor(b, C(0x5c, 8)) for b in k] + inner, comp)


class Ripemd160(object):
    block = 64

    def __init__(self):
        rho = [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8]
        pi = [(9 * i + 5) % 16 for i in range(16)]
        self.RL = []
        self.RR = []
        l, r = list(range(16)), pi
        for i in range(5):
            self.RL += l
            self.RR += r
            l = [rho[x] for x in l]
            r = [rho[x] for x in r]
        # shift amounts by message word and round (specification table)
        sh = [[11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8],
              [12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7],
              [13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9],
              [14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6],
              [15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5]]
        self.SL = [sh[j >> 4][self.RL[j]] for j in range(80)]
        self.SR = [sh[j >> 4][self.RR[j]] for j in range(80)]
        self.KL = [0] + [_iroot(p << 60, 2) & 0xffffffff for p in (2, 3, 5, 7)]
        self.KR = [_iroot(p << 90, 3) & 0xffffffff for p in (2, 3, 5, 7)] + [0]

    def init(self):
        return [C(x, 32) for x in (0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0)]

    def f(self, j, x, y, z):
        k = j >> 4
        if k == 0:
            return bxor(x, y, z)
        if k == 1:
            return bor(band(x, y), band(bnot(x), z))
        if k == 2:
            return bxor(bor(x, bnot(y)), z)
        if k == 3:
            return bor(band(x, z), band(y, bnot(z)))
        return bxor(x, bor(y, bnot(z)))

    def compress(self, st, block):
        X = [from_le(block[4 * i:4 * i + 4]) for i in range(16)]
        al, bl, cl, dl, el = st
        ar, br, cr, dr, er = st
        for j in range(80):
            t = add(rotl(addn([al, self.f(j, bl, cl, dl), X[self.RL[j]], C(self.KL[j >> 4], 32)], 32), self.SL[j]), el)
            al, el, dl, cl, bl = el, dl, rotl(cl, 10), bl, t
            t = add(rotl(addn([ar, self.f(79 - j, br, cr, dr), X[self.RR[j]], C(self.KR[j >> 4], 32)], 32), self.SR[j]), er)
            ar, er, dr, cr, br = er, dr, rotl(cr, 10), br, t
        return [addn([st[1], cl, dr], 32), addn([st[2], dl, er], 32), addn([st[3], el, ar], 32),
                addn([st[4], al, br], 32), addn([st[0], bl, cr], 32)]

    def pad(self, msg, bitlen=None):
        m = list(msg) + [C(0x80, 8)]
        while len(m) % 64 != 56:
            m.append(C(0, 8))
        if bitlen is None:
            bitlen = C(8 * len(msg), 64)
        return m + bytes_be(bitlen)[::-1]

    def out(self, st):
        return [b for x in st for b in bytes_be(x)[::-1]]

    def digest(self, msg, comp=None):
        comp = comp or self.compress
        st = self.init()
        m = self.pad(msg)
        for i in range(0, len(m), 64):
            st = comp(st, m[i:i + 64])
        return self.out(st)


class Keccak256(object):
    block = 136

    def __init__(self):
        self.rot = [[0] * 5 for _ in range(5)]
        x, y = 1, 0
        for t in range(24):
            self.rot[x][y] = (t + 1) * (t + 2) // 2 % 64
            x, y = y, (2 * x + 3 * y) % 5

        def rc(t):
            R = 1
            for _ in range(t % 255):
                R <<= 1
                if R & 0x100:
                    R ^= 0x171
            return R & 1
        self.RC = [sum(rc(j + 7 * i) << ((1 << j) - 1) for j in range(7)) for i in range(24)]

    def permute(self, a):
        """a: 25 lane terms, index x + 5*y"""
        for i in range(24):
            c = [bxor(*[a[x + 5 * y] for y in range(5)]) for x in range(5)]
            d = [bxor(c[(x + 4) % 5], rotl(c[(x + 1) % 5], 1)) for x in range(5)]
            a = [bxor(a[x + 5 * y], d[x]) for y in range(5) for x in range(5)]
            b = [None] * 25
            for x in range(5):
                for y in range(5):
                    b[y + 5 * ((2 * x + 3 * y) % 5)] = rotl(a[x + 5 * y], self.rot[x][y])
            a = [bxor(b[x + 5 * y], band(bnot(b[(x + 1) % 5 + 5 * y]), b[(x + 2) % 5 + 5 * y])) for y in range(5) for x in range(5)]
            a[0] = bxor(a[0], C(self.RC[i], 64))
        return a

    def pad(self, msg):
        m = list(msg)
        n = 136 - len(m) % 136
        p = [0] * n
        p[0] |= 1
        p[-1] |= 0x80
        return m + [C(x, 8) for x in p]

    def digest(self, msg, perm=None):
        perm = perm or self.permute
        a = [C(0, 64)] * 25
        m = self.pad(msg)
        for i in range(0, len(m), 136):
            for k in range(17):
                a[k] = cat([bxor(ext(a[k], 8 * j, 8), m[i + 8 * k + j]) for j in range(8)])
            a = perm(a)
        return [b for x in a[:4] for b in bytes_be(x)[::-1]]
