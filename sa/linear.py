"""Linear integer domain with parities and branch conditions.

A context maps the 256-bit symbols of a value graph to linear forms over integer base symbols.  Evaluating a term in a context gives
its exact value as a linear form; where that depends on a parity or on a comparison the context is partitioned.  Comparisons are decided
by Fourier-Motzkin elimination over the context's inequalities (rational relaxation, strengthened to integers on the goal)."""
from fractions import Fraction
from .terms import *


class Unsupported(Exception):
    pass


class Split(Exception):
    def __init__(self, kind, what):
        Exception.__init__(self, kind)
        self.kind, self.what = kind, what


def ladd(a, b, k=1):
    r = dict(a)
    for s, c in b.items():
        v = r.get(s, 0) + k * c
        if v:
            r[s] = v
        else:
            r.pop(s, None)
    return r


def lscale(a, k):
    return {s: c * k for s, c in a.items()} if k else {}


def const(k):
    return {None: k} if k else {}


def infeasible(cs, limit=400):
    """the system {L >= 0} has no rational solution"""
    cs = [dict(c) for c in cs]
    while True:
        keep, seen = [], set()
        for c in cs:
            vs = [s for s in c if s is not None]
            if not vs:
                if c.get(None, 0) < 0:
                    return True
                continue
            k = abs(c[min(vs)])
            t = tuple(sorted(((str(s), Fraction(v) / k) for s, v in c.items()), key=lambda x: x[0]))
            if t not in seen:
                seen.add(t)
                keep.append(c)
        cs = keep
        if not cs:
            return False
        cnt = {}
        for c in cs:
            for s, v in c.items():
                if s is not None:
                    p, n = cnt.get(s, (0, 0))
                    cnt[s] = (p + (v > 0), n + (v < 0))
        s = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], str(x)))
        pos = [c for c in cs if c.get(s, 0) > 0]
        neg_ = [c for c in cs if c.get(s, 0) < 0]
        cs = [c for c in cs if not c.get(s, 0)]
        for p in pos:
            for q in neg_:
                cs.append(ladd(lscale(p, -Fraction(q[s])), q, Fraction(p[s])))
        if len(cs) > limit:
            return False


class Cx(object):
    def __init__(self):
        self.env = {}       # term symbol -> linear form over base symbols
        self.cons = []      # linear forms >= 0
        self.base = {}      # base symbol -> (term symbol, scale, offset): symbol = scale * base + offset
        self.bools = {}
        self.n = 0
        self.path = ()
        self.forms = {}     # opaque terms as symbols

    def copy(self):
        c = Cx()
        c.env, c.cons, c.base, c.bools, c.n, c.path = dict(self.env), list(self.cons), dict(self.base), dict(self.bools), self.n, self.path
        return c

    def symbol(self, v, lo=0, hi=None):
        b = "s%d" % self.n
        self.n += 1
        self.env[v] = {b: 1}
        self.base[b] = (v, 1, 0)
        self.cons.append(ladd({b: 1}, const(lo), -1))
        self.cons.append(ladd(const(ones(v.w) if hi is None else hi), {b: 1}, -1))
        return {b: 1}

    def refine(self, b, p):
        """b = 2 b' + p"""
        c = self.copy()
        b2 = "s%d" % c.n
        c.n += 1
        new = {b2: 2}
        if p:
            new[None] = 1

        def sub_(l):
            if b not in l:
                return l
            k = l[b]
            r = dict(l)
            del r[b]
            return ladd(r, new, k)
        c.env = {v: sub_(l) for v, l in c.env.items()}
        c.cons = [sub_(l) for l in c.cons] + [{b2: 1}]
        v, s, o = c.base.pop(b)
        c.base[b2] = (v, 2 * s, o + s * p)
        c.path += (("parity", b, p),)
        return c

    def with_(self, l):
        c = self.copy()
        c.cons.append(l)
        return c

    def ge0(self, l):
        """True / False / None: l >= 0 for every point of the context"""
        vs = [s for s in l if s is not None]
        if not vs:
            return l.get(None, 0) >= 0
        if infeasible(self.cons + [ladd(lscale(l, -1), const(-1))]):
            return True
        if infeasible(self.cons + [l]):
            return False
        return None

    def decide(self, l):
        r = self.ge0(l)
        if r is None:
            raise Split("ge", l)
        return r

    def original(self, l):
        """the form over the term symbols (rational coefficients)"""
        r = const(Fraction(l.get(None, 0)))
        for b, k in l.items():
            if b is None:
                continue
            v, s, o = self.base[b]
            r = ladd(r, {v: Fraction(k, s)})
            r = ladd(r, const(Fraction(-o * k, s)))
        return r

    def even(self, l):
        """parity bit of an integer form"""
        odd = [b for b, k in l.items() if b is not None and k % 2]
        if any(k != int(k) for k in l.values()):
            raise Unsupported("fractional form")
        if odd:
            raise Split("parity", odd[0])
        return l.get(None, 0) % 2

    def reduce(self, l, w):
        """l modulo 2^w"""
        M = 1 << w
        for j in (0, 1, -1, 2, -2, 3, -3):
            r = ladd(l, const(-j * M))
            if self.ge0(r) and self.ge0(ladd(const(M - 1), r, -1)):
                return r
        raise Split("ge", l if self.ge0(l) is None else ladd(l, const(-M)))

    def value(self, t):
        r = self._value(t)
        return r

    def _value(self, t):
        if t.op == "c":
            return const(cv(t))
        if t in self.env:
            return self.env[t]
        if t.w == 1:
            return const(int(self.truth(t)))
        if t.op == "ite":
            return self.value(t.args[1] if self.truth(t.args[0]) else t.args[2])
        if t.op == "add":
            c, ts = t.args
            h = 1 << t.w - 1
            l = const(c - 2 * h if c >= h else c)
            for x, k in ts:
                l = ladd(l, self.value(x), k - 2 * h if k >= h else k)
            return self.reduce(l, t.w)
        if t.op == "cat":
            l, o = {}, 0
            for p in t.args:
                l = ladd(l, self.value(p), 1 << o)
                o += p.w
            return l
        if t.op == "ext":
            return self.slice(self.value(t.args[0]), t.args[0].w, t.args[1], t.w)
        raise Unsupported(t.op)

    def slice(self, l, w, lo, n):
        if lo + n < w:
            hi = lo + n
            l = self.reduce(l, hi) if lo <= 4 else self.reduce(l, hi)
        if not lo:
            return l
        if lo <= 4:
            for _ in range(lo):
                p = self.even(l)
                l = lscale(ladd(l, const(-p)), Fraction(1, 2))
                l = {s: int(c) if c == int(c) else c for s, c in l.items()}
                if any(c != int(c) for c in l.values()):
                    raise Unsupported("fractional form")
            return l
        # a few high bits: find the multiple of 2^lo
        if n <= 2:
            for k in range(1, 1 << n):
                if not self.decide(ladd(l, const(-k << lo) if False else const(-(k << lo)))):
                    return const(k - 1)
            return const((1 << n) - 1)
        raise Unsupported("slice")

    def truth(self, t):
        if t.op == "c":
            return bool(cv(t))
        if t in self.bools:
            return self.bools[t]
        if t.op in ("and", "or", "xor"):
            if t.op == "xor":
                r = False
                for x in t.args:
                    r ^= self.truth(x)
                return r
            r = t.op == "and"
            for x in t.args:
                if self.truth(x) != r:
                    return not r
            return r
        if t.op == "ite":
            return self.truth(t.args[1] if self.truth(t.args[0]) else t.args[2])
        if t.op == "ult":
            a, b = self.value(t.args[0]), self.value(t.args[1])
            return self.decide(ladd(ladd(b, a, -1), const(-1)))
        if t.op == "eq":
            l = ladd(self.value(t.args[0]), self.value(t.args[1]), -1)
            return self.decide(l) and self.decide(lscale(l, -1))
        if t.op == "ext":
            x, lo = t.args
            l = self.value(x)
            if lo == 0:
                return bool(self.even(l))
            if lo <= 4:
                return bool(self.even(self.slice(l, x.w, lo, x.w - lo)))
            r = self.slice(l, x.w, lo, 1)
            return bool(r.get(None, 0))
        raise Unsupported("boolean " + t.op)


def explore(cx, f, budget=3000):
    """f on every cell of a partition of the context in which it needs no further case distinction; results with their contexts"""
    out, st = [], [cx]
    while st:
        c = st.pop()
        budget -= 1
        if budget < 0 or len(c.cons) > len(cx.cons) + 24:
            raise Unsupported("too many cases")
        try:
            out.append((c, f(c)))
        except Split as s:
            if s.kind == "parity":
                ks = [c.refine(s.what, 1), c.refine(s.what, 0)]
            else:
                ks = [c.with_(s.what), c.with_(ladd(lscale(s.what, -1), const(-1)))]
            st.extend(k for k in ks if not infeasible(k.cons))
    return out
