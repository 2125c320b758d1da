"""Exact integer polynomial domain over word-level value graphs.

Every machine word is mapped to an integer polynomial in input words and in *carry atoms* floor(P/d), [P<0]; reduction
modulo 2^w introduces P mod d = P - d*floor(P/d).  Carry chains telescope, so that multi-word results are polynomial
identities, whatever the limb size or order of the carry propagation.  Only polynomial arithmetic and interval
bounds are used."""
from fractions import Fraction
from .terms import *


class NoProof(Exception):
    pass


class Poly(object):
    """immutable: dict monomial(tuple of atom indices, sorted) -> nonzero int"""
    __slots__ = ("d", "_k")

    def __init__(self, d):
        self.d = d
        self._k = None

    def key(self):
        if self._k is None:
            self._k = frozenset(self.d.items())
        return self._k

    def const(self):
        d = self.d
        if not d:
            return 0
        if len(d) == 1 and () in d:
            return d[()]
        return None

    def atoms(self):
        s = set()
        for m in self.d:
            s.update(m)
        return s


ZERO = Poly({})


def pc(c):
    return Poly({(): c}) if c else ZERO


def padd(p, q, k=1):
    if not q.d or not k:
        return p
    if not p.d and k == 1:
        return q
    d = dict(p.d)
    for m, c in q.d.items():
        v = d.get(m, 0) + c * k
        if v:
            d[m] = v
        else:
            d.pop(m, None)
    return Poly(d)


def pscale(p, k):
    if k == 1:
        return p
    if not k:
        return ZERO
    return Poly({m: c * k for m, c in p.d.items()})


class Atom(object):
    __slots__ = ("kind", "p", "d", "term", "lo", "hi", "bool", "idx", "nn")


class Dom(object):
    """One abstract context: atoms, facts (linear inequalities) and assigned boolean terms."""

    def __init__(self, roots=(), facts=(), assign=None, ubs=None, signs=False):
        self.atoms = []
        self.tab = {}
        self.memo = {}
        self.facts = []          # (Poly, lo, hi)
        self.assign = assign or {}   # bool term -> 0/1
        self.ubs = ubs or {}
        self.cuts = {}
        self.whole_done = set()
        self.negdef = {}
        self.depmemo = {}
        self.signs = signs       # relate sign atoms to each other
        self.rel = {}            # pairs of sign atoms: implication or exclusion
        self.wholes = {}         # index of the lowest slice atom of a bounded input -> (whole atom - other slices)
        self.prepare(roots)

    # -- finest slices of opaque terms
    def opaque(self, t):
        return t.op in ("v", "uf") or (t.op in ("and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem") and
                                       not (t.op == "xor" and t.w > 1 and t.args[0].op == "c" and cv(t.args[0]) == ones(t.w) and len(t.args) == 2))

    def prepare(self, roots):
        for n in topo(list(roots)):
            if n.op == "ext" and self.opaque(n.args[0]):
                c = self.cuts.setdefault(n.args[0], set())
                c.add(n.args[1])
                c.add(n.args[1] + n.w)

    def atom(self, kind, key, term=None, p=None, d=None, lo=0, hi=1):
        k = (kind, key)
        a = self.tab.get(k)
        if a is None:
            a = Atom()
            a.kind = kind
            a.p = p
            a.d = d
            a.term = term
            a.lo, a.hi = lo, hi
            a.bool = (lo >= 0 and hi <= 1)
            a.idx = len(self.atoms)
            self.atoms.append(a)
            self.tab[k] = a
        return Poly({(a.idx,): 1})

    def mul(self, p, q):
        d = {}
        at = self.atoms
        for m1, c1 in p.d.items():
            for m2, c2 in q.d.items():
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    l = list(m1)
                    dead = False
                    for x in m2:
                        if at[x].bool and x in m1:
                            continue
                        if self.signs and at[x].kind == "neg":
                            r = self.related(x, l)
                            if r == "no":
                                dead = True
                                break
                            if r == "have":
                                continue
                        l.append(x)
                    if dead:
                        continue
                    l.sort()
                    m = tuple(l)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        return Poly(d)

    def related(self, x, l):
        """the sign atom x next to the atoms l: implied by one of them ("have"), excluded by one of them ("no"), or neither;
        atoms of l that x implies are removed"""
        for y in list(l):
            if y == x or self.atoms[y].kind != "neg":
                continue
            k = (x, y)
            r = self.rel.get(k)
            if r is None:
                P, Q = self.atoms[x].p, self.atoms[y].p
                r = ""
                lo, hi = self.rng0(padd(P, Q, -1))
                if hi <= 0:
                    r = "y=>x"
                elif lo >= 0:
                    r = "x=>y"
                elif self.rng0(padd(P, Q))[0] >= -1:
                    r = "no"
                self.rel[k] = r
            if r == "no":
                return "no"
            if r == "y=>x":
                return "have"
            if r == "x=>y":
                l.remove(y)
        return None

    # -- bounds
    def rng0(self, p):
        lo = hi = 0
        at = self.atoms
        for m, c in p.d.items():
            l = h = c
            for x in m:
                a = at[x]
                if a.lo >= 0:
                    if l >= 0:
                        l, h = l * a.lo, h * a.hi
                    elif h <= 0:
                        l, h = l * a.hi, h * a.lo
                    else:
                        l, h = l * a.hi, h * a.hi
                else:
                    v = (l * a.lo, l * a.hi, h * a.lo, h * a.hi)
                    l, h = min(v), max(v)
            lo += l
            hi += h
        return lo, hi

    def rng(self, p):
        lo, hi = self.rng0(p)
        if self.facts and p.d:
            todo = [(p, lo, hi)]
            for q, ql, qh in self.facts:
                for m, c in q.d.items():
                    if m and m in p.d and p.d[m] % c == 0:
                        k = p.d[m] // c
                        r = padd(p, q, -k)
                        a, b = self.rng0(r)
                        x, y = (k * ql if ql is not None else None), (k * qh if qh is not None else None)
                        if k < 0:
                            x, y = y, x
                        if x is not None and a + x > lo:
                            lo = a + x
                        if y is not None and b + y < hi:
                            hi = b + y
                        break
        return lo, hi

    def collapse(self, d):
        """express a bounded input through itself instead of through its lowest slice"""
        for low, q in self.wholes.items():
            while any(low in m for m in d):
                new = {}
                for m, c in d.items():
                    if low not in m:
                        new[m] = new.get(m, 0) + c
                        continue
                    l = list(m)
                    l.remove(low)
                    for m2, c2 in q.d.items():
                        k = tuple(sorted(l + list(m2)))
                        new[k] = new.get(k, 0) + c * c2
                d = {m: c for m, c in new.items() if c}
        return d

    def deep(self, p):
        lo, hi = self.rng(p)
        if self.wholes:
            sv = self.facts
            self.facts = [(Poly(self.collapse(q.d)), a, b) for q, a, b in sv]
            try:
                l, h = self.rng(Poly(self.collapse(p.d)))
            finally:
                self.facts = sv
            lo, hi = max(lo, l), min(hi, h)
        return lo, hi

    def add_fact(self, p, lo, hi):
        p = self.expand(p)
        self.facts.append((p, lo, hi))

    # -- floors
    def boolonly(self, p):
        at = p.atoms()
        if len(at) > 4:
            return None
        for x in at:
            if not self.atoms[x].bool:
                return None
        return sorted(at)

    def multilinear(self, p, f):
        """interpolate f(p) over the boolean atoms of p"""
        at = self.boolonly(p)
        n = len(at)
        vals = {}
        for b in range(1 << n):
            v = 0
            on = {at[i] for i in range(n) if b >> i & 1}
            for m, c in p.d.items():
                if all(x in on for x in m):
                    v += c
            vals[b] = f(v)
        d = {}
        # Moebius transform
        co = dict(vals)
        for i in range(n):
            for b in range(1 << n):
                if b >> i & 1:
                    co[b] -= co[b ^ (1 << i)]
        for b in range(1 << n):
            if co[b]:
                d[tuple(at[i] for i in range(n) if b >> i & 1)] = co[b]
        return Poly(d)

    def neg(self, p):
        """[p < 0] as a polynomial"""
        c = p.const()
        if c is not None:
            return pc(1 if c < 0 else 0)
        lo, hi = self.rng(p)
        if lo >= 0:
            return ZERO
        if hi < 0:
            return pc(1)
        if self.boolonly(p) is not None:
            return self.multilinear(p, lambda v: 1 if v < 0 else 0)
        if self.signs:
            s = self.halves(p)
            if s is not None:
                return s
        import math
        g = 0
        k0 = p.d.get((), 0)
        for m, c in p.d.items():
            if m:
                g = math.gcd(g, c)
        if g > 1:
            d = {m: c // g for m, c in p.d.items() if m}
            if k0 // g:
                d[()] = k0 // g
            p = Poly(d)
            lo, hi = self.rng(p)
        # canonical orientation: [p<0] = 1 - [-p-1 < 0]
        m0 = min(m for m in p.d if m)
        if p.d[m0] < 0:
            q = padd(pscale(p, -1), pc(-1))
            return padd(pc(1), self.atom("neg", q.key(), p=q, lo=0, hi=1), -1)
        return self.atom("neg", p.key(), p=p, lo=0, hi=1)

    def halves(self, p):
        """[p < 0] where p contains a sign atom n = [q < 0], or a remainder given by one, when one value of n decides it"""
        s = self.halves1(p)
        if s is None and p.d and len(p.d) <= 8:
            for m in list(p.d):
                a = self.atoms[m[0]] if len(m) == 1 else None
                if a is not None and a.kind == "mod" and abs(p.d[m]) == 1:
                    lo, hi = self.rng(a.p)
                    if hi // a.d - lo // a.d == 1 and self.boolonly(a.p) is None:
                        q = padd(p, padd(padd(a.p, self.floor(a.p, a.d), -a.d), Poly({m: 1}), -1), p.d[m])
                        s = self.halves1(q)
                        if s is not None:
                            return s
        return s

    def halves1(self, p):
        for m, k in p.d.items():
            if len(m) != 1 or self.atoms[m[0]].kind != "neg":
                continue
            n, q = m[0], self.atoms[m[0]].p
            if any(n in m2 for m2 in p.d if m2 != m):
                continue
            rest = padd(p, Poly({m: -k}))
            lq, hq = self.rng0(q)
            for sg in (1, -1):
                r = padd(rest, q, -sg)
                if len(r.d) >= len(rest.d):
                    continue
                lr, hr = self.rng0(r)
                out = []
                for v, a, b in ((1, lq, min(hq, -1)), (0, max(lq, 0), hq)):
                    a, b = (a, b) if sg == 1 else (-b, -a)
                    lo, hi = a + lr + k * v, b + hr + k * v
                    out.append(pc(1) if hi < 0 else ZERO if lo >= 0 else None)
                if out[0] is None and out[1] is None:
                    continue
                one = out[0] if out[0] is not None else self.neg(padd(rest, pc(k)))
                zero = out[1] if out[1] is not None else self.neg(rest)
                x = Poly({m: 1})
                return padd(zero, self.mul(x, padd(one, zero, -1)))
        return None

    def floor(self, p, d):
        """floor(p/d)"""
        if d == 1:
            return p
        a = self._single_mod(p, d)
        if a is not None:
            return padd(self.floor(a.p, d), self.floor(a.p, a.d), -(a.d // d))
        out, rest = {}, {}
        for m, c in p.d.items():
            r = c % d
            if r > d // 2:
                r -= d
            q = (c - r) // d
            if q:
                out[m] = q
            if r:
                rest[m] = r
        A, B = Poly(out), Poly(rest)
        # prefer the original split if its range is already a single value
        lo, hi = self.rng(p)
        if lo // d == hi // d:
            return pc(lo // d)
        c = B.const()
        if c is not None:
            return padd(A, pc(c // d))
        lo, hi = self.rng(B)
        k0, k1 = lo // d, hi // d
        if k0 == k1:
            return padd(A, pc(k0))
        if self.boolonly(B) is not None:
            return padd(A, self.multilinear(B, lambda v: v // d))
        if k1 == k0 + 1:
            # k0+1 - [B < (k0+1) d]
            n = self.neg(padd(B, pc(-(k0 + 1) * d)))
            ats = list(n.atoms())
            if len(ats) == 1 and ats[0] not in self.negdef and abs(n.d.get((ats[0],), 0)) == 1:
                # atom = const + sign * floor(B/d)
                self.negdef[ats[0]] = (B, d, k0 + 1, -1) if n.d[(ats[0],)] == 1 else (B, d, -k0, 1)
            return padd(A, padd(pc(k0 + 1), n, -1))
        import math
        g = d
        for m, c in B.d.items():
            if m:
                g = math.gcd(g, c)
        if g > 1:
            dd = {m: c // g for m, c in B.d.items() if m}
            c0 = B.d.get((), 0) // g
            if c0:
                dd[()] = c0
            return padd(A, self.floor(Poly(dd), d // g))
        return padd(A, self.atom("fl", (B.key(), d), p=B, d=d, lo=k0, hi=k1))

    def _single_mod(self, p, d):
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if c == 1 and len(m) == 1:
                a = self.atoms[m[0]]
                if a.kind == "mod" and a.d > d and a.d % d == 0:
                    return a
        return None

    def wrap(self, p, d):
        """p mod d"""
        a = self._single_mod(p, d)
        if a is not None:
            return self.wrap(a.p, d)
        lo, hi = self.rng(p)
        if lo >= 0 and hi < d:
            return p
        if lo // d == hi // d:
            return padd(p, pc(-(lo // d) * d))
        rest = {}
        for m, c in p.d.items():
            r = c % d
            if r > d // 2:
                r -= d
            if r:
                rest[m] = r
        B = Poly(rest)
        lo, hi = self.rng(B)
        if lo >= 0 and hi < d:
            return B
        if lo // d == hi // d:
            return padd(B, pc(-(lo // d) * d))
        if self.boolonly(B) is not None:
            return self.multilinear(B, lambda v: v % d)
        # remainders modulo a multiple of d may be replaced by what they are remainders of
        q = B
        for m in B.d:
            if len(m) == 1 and self.atoms[m[0]].kind == "mod" and self.atoms[m[0]].d % d == 0:
                q = padd(padd(q, Poly({m: B.d[m]}), -1), pscale(self.atoms[m[0]].p, B.d[m]))
        if q is not B:
            lo, hi = self.rng(q)
            if lo // d == hi // d:
                return padd(q, pc(-(lo // d) * d))
            l2, h2 = self.rng(B)
            if hi - lo < h2 - l2 and -d < lo and hi < d:
                B = q
        return self.atom("mod", (B.key(), d), p=B, d=d, lo=0, hi=d - 1)

    def expand(self, p):
        """eliminate 'mod' atoms through their definition"""
        while True:
            hit = None
            for x in p.atoms():
                if self.atoms[x].kind == "mod":
                    hit = x if hit is None or x > hit else hit
            if hit is None:
                return p
            a = self.atoms[hit]
            rep = padd(a.p, self.floor(a.p, a.d), -a.d)
            p = self.subst(p, hit, rep)

    def subst(self, p, idx, rep):
        keep = {}
        coef = {}
        for m, c in p.d.items():
            if idx in m:
                l = list(m)
                l.remove(idx)
                if idx in l:
                    raise NoProof("power of a carry atom")
                m2 = tuple(l)
                coef[m2] = coef.get(m2, 0) + c
            else:
                keep[m] = c
        return padd(Poly(keep), self.mul(Poly({m: c for m, c in coef.items() if c}), rep))

    # -- terms
    def poly(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        for n in topo([t]):
            if n not in self.memo:
                self.memo[n] = self._poly(n)
        return self.memo[t]

    def var(self, t):
        u = self.ubs.get(t)
        if u is None:
            u = ub(t)
        cuts = self.cuts.get(t) or (self.cuts.get(t.args[0]) if t.op == "ext" else None)
        if t.op == "ext":
            base, lo, hi = t.args[0], t.args[1], t.args[1] + t.w
        else:
            base, lo, hi = t, 0, t.w
        cuts = self.cuts.get(base)
        if cuts:
            cs = sorted({lo, hi} | {c for c in cuts if lo < c < hi})
            if len(cs) > 2:
                p = ZERO
                for a, b in zip(cs, cs[1:]):
                    e = mk("ext", b - a, (base, a))
                    p = padd(p, self.atom("var", e, term=e, lo=0, hi=(1 << (b - a)) - 1), 1 << (a - lo))
                if base in self.ubs and base not in self.whole_done:
                    self.whole_done.add(base)
                    q = self.atom("var", base, term=base, lo=0, hi=self.ubs[base])
                    full = [0] + sorted(c for c in cuts if 0 < c < base.w) + [base.w]
                    low = None
                    for a, b in zip(full, full[1:]):
                        e = mk("ext", b - a, (base, a))
                        x = self.atom("var", e, term=e, lo=0, hi=(1 << (b - a)) - 1)
                        if a == 0:
                            (m, _), = x.d.items()
                            low = m[0]
                        else:
                            q = padd(q, x, -(1 << a))
                    self.wholes[low] = q
                return p
        return self.atom("var", t, term=t, lo=0, hi=u)

    def _poly(self, t):
        op = t.op
        if t.w == 1:
            a = self.assign.get(t)
            if a is not None:
                return pc(a)
        if op == "c":
            return pc(cv(t))
        if op == "v" or op == "uf":
            return self.var(t)
        if op == "ext":
            x, lo = t.args
            if self.opaque(x):
                return self.var(t)
            p = self.memo[x]
            return self.wrap(self.floor(p, 1 << lo), 1 << t.w)
        if op == "cat":
            p = self._signed(t)
            if p is not None:
                return p
            p = ZERO
            s = 0
            for a in t.args:
                p = padd(p, self.memo[a], 1 << s)
                s += a.w
            return p
        if op == "add":
            c, ts = t.args
            d = 1 << t.w
            if len(ts) == 1 and ts[0][1] == 1 or all(k <= d // 2 for n, k in ts):
                p = pc(c)
            else:
                p = pc(c if c <= d // 2 else c - d)
            for n, k in ts:
                p = padd(p, self.memo[n], k if k <= d // 2 else k - d)
            return self.wrap(p, d)
        if op == "mul":
            p = pc(1)
            for a in t.args:
                p = self.mul(p, self.memo[a])
            return self.wrap(p, 1 << t.w)
        if op == "ite":
            c = self.memo[t.args[0]]
            k = c.const()
            if k is not None:
                return self.memo[t.args[1]] if k else self.memo[t.args[2]]
            a, b = self.memo[t.args[1]], self.memo[t.args[2]]
            return padd(b, self.mul(c, padd(a, b, -1)))
        if op == "ult":
            return self.neg(padd(self.memo[t.args[0]], self.memo[t.args[1]], -1))
        if op == "eq":
            a, b = self.memo[t.args[0]], self.memo[t.args[1]]
            dlt = padd(a, b, -1)
            lo, hi = self.rng(dlt)
            if lo > 0 or hi < 0:
                return ZERO
            if lo == hi == 0:
                return pc(1)
            if self.boolonly(dlt) is not None:
                return self.multilinear(dlt, lambda v: 1 if v == 0 else 0)
            if lo >= 0:
                return self.neg(padd(dlt, pc(-1)))
            if hi <= 0:
                return self.neg(padd(pscale(dlt, -1), pc(-1)))
            return self.atom("var", t, term=t, lo=0, hi=1)
        if op in ("and", "or", "xor") and t.w == 1:
            ps = [self.memo[a] for a in t.args]
            if op == "and":
                p = ps[0]
                for q in ps[1:]:
                    p = self.mul(p, q)
                return p
            if op == "or":
                p = padd(pc(1), ps[0], -1)
                for q in ps[1:]:
                    p = self.mul(p, padd(pc(1), q, -1))
                return padd(pc(1), p, -1)
            p = ps[0]
            for q in ps[1:]:
                pq = self.mul(p, q)
                p = padd(padd(p, q), pq, -2)
            return p
        if op == "xor" and t.args[0].op == "c" and cv(t.args[0]) == ones(t.w) and len(t.args) == 2:
            return padd(pc(ones(t.w)), self.memo[t.args[1]], -1)
        if op in ("udiv", "urem") and t.args[1].op == "c" and cv(t.args[1]):
            d = cv(t.args[1])
            p = self.memo[t.args[0]]
            return self.floor(p, d) if op == "udiv" else self.wrap(p, d)
        return self.var(t)

    def _signed(self, t):
        """sign extension of the upper part of a word whose signed value is known without wrap-around"""
        e = t.args[-1]
        if len(t.args) != 2 or e.op != "ite" or e.args[1].op != "c" or e.args[2].op != "c":
            return None
        low = t.args[0]
        if cv(e.args[1]) != ones(e.w) or cv(e.args[2]) != 0 or e.args[0] is not ext(low, low.w - 1, 1):
            return None
        x, lo = (low.args[0], low.args[1]) if low.op == "ext" else (low, 0)
        if lo + low.w != x.w or x not in self.memo or self.opaque(x):
            return None
        q = self.memo[x]
        h = 1 << (x.w - 1)
        if len(q.d) == 1:
            (m, c), = q.d.items()
            if c == 1 and len(m) == 1 and self.atoms[m[0]].kind == "mod" and self.atoms[m[0]].d == 1 << x.w:
                q = self.atoms[m[0]].p
        for m, c in list(q.d.items()):
            if len(m) == 1 and self.atoms[m[0]].kind == "mod" and self.atoms[m[0]].d == 1 << x.w:
                q = padd(padd(q, Poly({m: c}), -1), pscale(self.atoms[m[0]].p, c))
        a, b = self.rng(q)
        if a < -h or b >= h:
            return None
        return self.wrap(self.floor(q, 1 << lo), 1 << t.w)

    def deps(self, x):
        r = self.depmemo.get(x)
        if r is not None:
            return r
        self.depmemo[x] = frozenset()
        a = self.atoms[x]
        if a.kind == "mod":
            ps = [self.expand(Poly({(x,): 1}))]
        elif a.kind == "fl":
            ps = [a.p]
        elif x in self.negdef:
            ps = [self.negdef[x][0]]
        else:
            ps = []
        s = set()
        for p in ps:
            for y in p.atoms():
                if y != x:
                    s.add(y)
                    s |= self.deps(y)
        self.depmemo[x] = frozenset(s)
        return self.depmemo[x]

    # -- bounds through real relaxation of floors
    def relax(self, p):
        """lower/upper bound of p with floor atoms replaced by (P - r)/d, r in [0, d-1]"""
        best = self.deep(p)
        cur = {m: Fraction(c) for m, c in p.d.items()}
        extra_lo = extra_hi = Fraction(0)
        for _ in range(400):
            cand = set()
            for m in cur:
                for x in m:
                    if self.atoms[x].kind in ("fl", "mod") or (x in self.negdef and len(m) == 1):
                        cand.add(x)
            if not cand:
                break
            # remainders first: their expansion cancels other floors exactly; then floors no other candidate depends on
            mods = [x for x in cand if self.atoms[x].kind == "mod"]
            if mods:
                hit = max(mods)
            else:
                top = [x for x in cand if not any(x in self.deps(y) for y in cand if y != x)]
                hit = max(top or cand)
            a = self.atoms[hit]
            new = {}
            if a.kind == "mod":
                rep = self.expand(Poly({(hit,): 1}))
                rd = {m: Fraction(c) for m, c in rep.d.items()}
                rl = rh = 0
            elif a.kind == "neg":
                B, d, k, s = self.negdef[hit]
                rd = {m: Fraction(c * s, d) for m, c in B.d.items()}
                rd[()] = rd.get((), 0) + k
                e = Fraction(-(d - 1), d)
                rl, rh = (e, 0) if s > 0 else (0, -e)
            else:
                rd = {m: Fraction(c, a.d) for m, c in a.p.d.items()}
                rl, rh = Fraction(-(a.d - 1), a.d), 0
            for m, c in cur.items():
                if hit in m:
                    l = list(m)
                    l.remove(hit)
                    if l:
                        return best
                    for m2, c2 in rd.items():
                        v = new.get(m2, 0) + c * c2
                        if v:
                            new[m2] = v
                        else:
                            new.pop(m2, None)
                    if c > 0:
                        extra_lo += c * rl
                        extra_hi += c * rh
                    else:
                        extra_lo += c * rh
                        extra_hi += c * rl
                else:
                    v = new.get(m, 0) + c
                    if v:
                        new[m] = v
                    else:
                        new.pop(m, None)
            cur = self.collapse(new)
            lo, hi = self.rng0(Poly(cur))
            lo += extra_lo
            hi += extra_hi
            import math
            best = (max(best[0], math.ceil(lo)), min(best[1], math.floor(hi)))
        return best


def show_poly(dom, p, limit=12):
    out = []
    for m, c in sorted(p.d.items())[:limit]:
        nm = []
        for x in m:
            a = dom.atoms[x]
            nm.append(show(a.term, 2) if a.term is not None else "%s%d" % (a.kind, x))
        out.append("%d*%s" % (c, "*".join(nm)) if nm else str(c))
    return " + ".join(out) + (" ..." if len(p.d) > limit else "")


# ---------------------------------------------------------------- provers

def fixed_carries(dom, p):
    """substitute the carries whose value the input bounds fix"""
    for x in sorted(p.atoms()):
        if dom.atoms[x].kind in ("fl", "neg"):
            lo, hi = dom.relax(Poly({(x,): 1}))
            if lo == hi:
                p = dom.subst(p, x, pc(lo))
    return p


def identity(outs, spec, ubs=None, roots=()):
    """sum coef*out == spec exactly, for lists of (term, coef).  Returns None or a reason."""
    rs = [t for t, _ in outs] + [t for t, _ in spec] + list(roots)
    why = None
    for signs in (False, True):
        try:
            dom = Dom(rs, ubs=ubs, signs=signs)
            p = ZERO
            for t, k in outs:
                p = padd(p, dom.expand(dom.poly(t)), k)
            for t, k in spec:
                p = padd(p, dom.expand(dom.poly(t)), -k)
            p = dom.expand(p)
            if p.d:
                p = fixed_carries(dom, p)
            if not p.d:
                return None
        except (NoProof, RecursionError):
            if not signs:
                raise
            continue
        why = why or "residual polynomial " + show_poly(dom, p)
        if not any(a.kind == "neg" for a in dom.atoms) or len(p.d) > 400:
            break
    return why


def congruent(out, spec, modulus, ubs=None):
    """value(out) == value(spec) modulo `modulus` (a coefficient-wise identity)"""
    dom = Dom([out, spec], ubs=ubs)
    p = padd(dom.expand(dom.poly(out)), dom.expand(dom.poly(spec)), -1)
    p = dom.expand(p)
    if any(c % modulus for c in p.d.values()):
        p = fixed_carries(dom, p)
    if all(c % modulus == 0 for c in p.d.values()):
        return None
    return "residual polynomial " + show_poly(dom, p)


def crt(r1, m1, r2, m2):
    g = pow(m1, -1, m2)
    x = (r1 + m1 * ((r2 - r1) * g % m2)) % (m1 * m2)
    if x > m1 * m2 // 2:
        x -= m1 * m2
    return x


def bool_leaves(t):
    """atomic boolean terms deciding t"""
    out = []
    st = [t]
    seen = set()
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        if n.op in ("and", "or", "xor", "ite") and n.w == 1:
            st.extend(children(n))
        elif n.op != "c":
            out.append(n)
    return out


def ite_conds(t, within=None):
    """boolean leaves of the selections that t depends on arithmetically (outermost first)"""
    res = []
    seen = set()
    st = [t]
    while st:
        n = st.pop(0)
        if n in seen:
            continue
        seen.add(n)
        if n.op == "ite":
            for l in bool_leaves(n.args[0]):
                if l not in res:
                    res.append(l)
            st.extend(n.args[1:])
        elif n.op in ("add", "cat", "ext", "mul", "xor", "and", "or"):
            st.extend(children(n))
        if len(seen) > 4000:
            break
    return res


def prove_mod(out, spec, p, ubs, log=None, maxdepth=6, lift=(), need_range=True):
    """Show  out == spec (mod p)  and  0 <= out < p  for every valuation within ubs.
    `spec` is a term (exact integer).  Trace partitioning over the selection conditions of out."""
    conds = [c for c in ite_conds(out)][:maxdepth]
    count = [0]

    def leaf(assign, order):
        count[0] += 1
        dom = Dom([out, spec] + [c for c in order], assign={}, ubs=ubs)
        for c in order:
            a = assign[c]
            # fact from the boolean
            bp = dom.poly(c)
            k = bp.const()
            if k is not None:
                if k != a:
                    return None      # infeasible
                continue
            _fact(dom, c, bp, a)
        # rebuild with the decided conditions
        sub = {c: C(assign[c], 1) for c in order}
        o2 = rebuild(out, sub)
        dom.prepare([o2])
        dom.memo = {}
        return dom, o2

    def _fact(dom, c, bp, a):
        # bp is atom or 1-atom
        at = [x for x in bp.atoms()]
        if len(at) == 1 and dom.atoms[at[0]].kind == "neg":
            A = dom.atoms[at[0]]
            neg = (bp.d.get((at[0],)) == 1)
            val = a if neg else 1 - a
            if val:
                dom.add_fact(A.p, None, -1)
            else:
                dom.add_fact(A.p, 0, None)
            # the atom itself is now a constant
            A.lo = A.hi = val
        if len(at) == 1 and bp.d.get((at[0],)) in (1, -1) and len(bp.d) <= 2 and dom.atoms[at[0]].bool:
            A = dom.atoms[at[0]]
            A.lo = A.hi = (a - bp.d.get((), 0)) * bp.d[(at[0],)]
        if c.op == "eq" and a == 1:
            d = padd(dom.poly(c.args[0]), dom.poly(c.args[1]), -1)
            dom.add_fact(d, 0, 0)
        if c.op == "eq" and a == 0 and c.args[1].op == "c" and cv(c.args[1]) == 0:
            dom.add_fact(dom.poly(c.args[0]), 1, None)

    def check(assign, order):
        r = leaf(assign, order)
        if r is None:
            return None
        dom, o2 = r
        # contradiction of facts?
        for q, lo, hi in dom.facts:
            a, b = dom.deep(q)
            if (lo is not None and b < lo) or (hi is not None and a > hi):
                return None
        op = dom.poly(o2)
        P = dom.expand(op)
        S = dom.expand(dom.poly(spec))
        D = padd(P, S, -1)
        D = Poly({m: c for m, c in D.d.items()})
        D = _constatoms(dom, D)
        if all(c % p == 0 for c in D.d.values()):
            lo, hi = dom.deep(op)
            lo2, hi2 = dom.deep(P)
            lo, hi = max(lo, lo2), min(hi, hi2)
            if not need_range or (lo >= 0 and hi < p):
                return None
            return "range [%d,%d] not within the modulus" % (lo, hi)
        # lift the exact value through the Chinese remainder theorem
        why = "not congruent"
        for ext_terms in [()] + [tuple(lift)] if lift else [()]:
            full = cat([o2] + [rebuild(x, {c: C(assign[c], 1) for c in order}) for x in ext_terms])
            M = 1 << full.w
            F = dom.expand(dom.poly(full))
            res = {}
            for m in set(F.d) | set(S.d):
                v = crt(F.d.get(m, 0) % M, M, S.d.get(m, 0) % p, p)
                if v:
                    res[m] = v
            L = Poly(res)
            lo, hi = dom.relax(L)
            why = "lifted value in [%d,%d]" % (lo, hi)
            if lo >= 0 and hi < M:
                # full == L exactly; use as a fact and bound out
                dom.add_fact(padd(F, L, -1), 0, 0)
                return _finish(dom, o2, F, L, p, lo, hi)
        return why

    def _finish(dom, o2, F, L, p, lo, hi):
        if hi < p:
            return None
        P = dom.expand(dom.poly(o2))
        a, b = dom.deep(P)
        if a >= 0 and b < p:
            return None
        return "lifted value not below the modulus"

    def _constatoms(dom, D):
        for x in list(D.atoms()):
            A = dom.atoms[x]
            if A.lo == A.hi:
                D = dom.subst(D, x, pc(A.lo))
        return D

    def rec(i, assign, order):
        # skip conditions that vanished
        if i == len(conds):
            return check(assign, order)
        if i and not order and False:
            pass
        e = check(assign, order) if i else "start"
        if e is None:
            return None
        for v in (0, 1):
            a2 = dict(assign)
            a2[conds[i]] = v
            r = rec(i + 1, a2, order + [conds[i]])
            if r is not None:
                return "case %s: %s" % ({show(c, 2): x for c, x in a2.items()}, r)
        return None
    if not conds:
        r = check({}, [])
    else:
        r = rec(0, {}, [])
    if log is not None:
        log["cases"] = count[0]
    return r


def exact(t, spec, p, ubs):
    """The exact integer value of t, when t = spec (mod p) and the value that both moduli force lies within the word:
    returns (lo, hi) bounds of the value of t, or a reason (string)"""
    dom = Dom([t, spec], ubs=ubs)
    F = dom.expand(dom.poly(t))
    S = dom.expand(dom.poly(spec))
    M = 1 << t.w
    F = fixed_carries(dom, F)
    res = {}
    for m in set(F.d) | set(S.d):
        v = crt(F.d.get(m, 0) % M, M, S.d.get(m, 0) % p, p)
        if v:
            res[m] = v
    lo, hi = dom.relax(Poly(res))
    if lo < 0 or hi >= M:
        return "lifted value in [%d,%d]" % (lo, hi)
    return lo, hi


def prove_reduction(out, spec, p, ubs, log=None):
    """prove_mod, through an intermediate double-width remainder that a final conditional subtraction reduces"""
    e = prove_mod(out, spec, p, ubs, log)
    if e is None:
        return None
    conds = ite_conds(out)
    lows, tops = [], []
    for c in conds:
        if c.op == "ult":
            lows += [x for x in c.args if x.op != "c" and x.w >= 256 and x not in lows]
        elif c.op == "eq":
            k = [x for x in c.args if x.op == "c" and cv(x) == 0]
            o = [x for x in c.args if x.op != "c"]
            if k and o and o[0] not in tops:
                tops.append(o[0])
    for low in lows:
        for top in tops + [None]:
            D = cat([low, top]) if top is not None else low
            r = exact(D, spec, p, ubs)
            if isinstance(r, str):
                e = r
                continue
            v = V("remainder%d" % D.w, D.w)
            sub = {low: ext(v, 0, low.w)}
            if top is not None:
                sub[top] = ext(v, low.w, top.w)
            o2 = rebuild_at(out, sub)
            if any(x is not v for x in variables([o2])):
                continue
            r = prove_mod(o2, v, p, {v: r[1]}, log)
            if r is None:
                return None
            e = r
    return e


def rebuild_at(t, sub):
    """replace whole nodes"""
    memo = dict(sub)
    cats = [k for k in sub if k.op == "cat"]
    for n in topo([t]):
        if n not in memo:
            if n.op == "cat" and cats:
                # a replaced concatenation may have been absorbed by a longer one
                parts, i, hit = [], 0, False
                while i < len(n.args):
                    for k in cats:
                        if n.args[i:i + len(k.args)] == k.args:
                            parts.append(sub[k])
                            i += len(k.args)
                            hit = True
                            break
                    else:
                        parts.append(memo[n.args[i]])
                        i += 1
                if hit:
                    memo[n] = cat(parts)
                    continue
            ch = [memo[c] for c in children(n)]
            memo[n] = apply_op(n, ch) if ch else n
    return memo[t]
