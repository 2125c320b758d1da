"""Arithmetic modulo the group order.  Value graphs over integer operations and the contracts of modular multiplication (n*) and
inversion (ninv) are rewritten bottom-up: every sub-graph that computes the canonical residue of a linear combination of its
leaves (the combination is guessed from samples and then proved in the polynomial domain) becomes a polynomial modulo N over
atoms.  Two graphs with the same polynomials, selections and conditions have the same canonical form."""
import random
from .terms import *
from .arith import P, N, GX, GY
from . import poly, pts, fp
from .equiv import Gen

RING = {}      # node -> {monomial (sorted tuple of (atom, exponent)): coefficient mod N}


def bound(t, u):
    if ub(t) > u:
        declare_ub(t, u)
    return t


def nmul(a, b):
    if a.op == "c" and b.op == "c":
        return C(cv(a) * cv(b) % N, 256)
    return bound(uf("n*", 256, a, b) if a.id <= b.id else uf("n*", 256, b, a), N - 1)


def ninv(a):
    if a.op == "c":
        return C(pow(cv(a), -1, N) if cv(a) % N else 0, 256)
    return bound(uf("ninv", 256, a), N - 1)


def nmod(a):
    """residue of an unbounded non-negative term"""
    return bound(uf("nmod", 256, a), N - 1) if a.op != "c" else C(cv(a) % N, 256)


def nlin(*pairs):
    """specification: sum of coefficient * term modulo N"""
    p = {}
    for t, k in pairs:
        p = padd(p, to_poly(t), k)
    return from_poly(p)


UF_EVAL["n*"] = lambda a, b: a * b % N
UF_EVAL["ninv"] = lambda a: pow(a, -1, N) if a % N else 0
UF_EVAL["nmod"] = lambda a: a % N


def _nsum(*a):
    return sum(c * m for c, m in zip(a[::2], a[1::2])) % N


def _nprod(*a):
    r = 1
    for x in a:
        r = r * x % N
    return r


UF_EVAL["nsum"] = _nsum
UF_EVAL["nprod"] = _nprod


# point observers
def px(pt, i=0):
    """affine/projective coordinate of a point term"""
    if pt.op == "c":
        return ext(pt, 256 * i, 256)
    if pt.op == "v" or pt.op == "cat":
        return bound(ext(pt, 256 * i, 256), P - 1)
    if pt.op == "ite":
        return ite(pt.args[0], px(pt.args[1], i), px(pt.args[2], i))
    return bound(uf("pcoord%d" % i, 256, pt), P - 1)


for _i in range(3):
    UF_EVAL["pcoord%d" % _i] = lambda v, i=_i: v >> 256 * i & ((1 << 256) - 1)


def pzero(pt):
    """is the point the identity (any representation)"""
    if pt.op == "c":
        return C(int(pts.dec(cv(pt)) is None), 1)
    return uf("pzero", 1, pt)


def ponc(pt):
    return uf("ponc", 1, pt)


def _onc(v):
    m = (1 << 256) - 1
    x, y, z = v & m, v >> 256 & m, v >> 512 & m
    return int(z != 0 and (y * y - x ** 3 - 7) % P == 0)


UF_EVAL["pzero"] = lambda v: int((v & ((1 << 256) - 1)) == 0 and v >> 512 == 0)
UF_EVAL["ponc"] = _onc


# ---------------------------------------------------------------- polynomials

def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = (r.get(m, 0) + k * c) % N
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    e = dict(m1)
    for a, k in m2:
        e[a] = 1 if a.w == 1 else e.get(a, 0) + k
    return tuple(sorted(e.items(), key=lambda x: x[0].id))


def pmulp(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono(m1, m2)
            v = (r.get(m, 0) + c1 * c2) % N
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


EXPAND = set()      # words to be read as the sum of their bits


def to_poly(t):
    if t in RING:
        return RING[t]
    if t.op == "c":
        c = cv(t) % N
        r = {(): c} if c else {}
    elif t.op == "uf" and t.args[0] == "n*":
        r = pmulp(to_poly(t.args[1]), to_poly(t.args[2]))
    elif t.op == "uf" and t.args[0] == "nmod":
        r = to_poly(t.args[1])
    elif t in EXPAND:
        r = {((ext(t, i, 1), 1),): pow(2, i, N) for i in range(t.w)}
    else:
        r = {((t, 1),): 1}
    return r


def from_poly(p):
    if not p:
        return C(0, 256)
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return C(c, 256)
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].w == 256 and ub(m[0][0]) < N:
            return m[0][0]
    args = []
    for m, c in sorted(p.items(), key=lambda x: [(a.id, e) for a, e in x[0]]):
        args.append(C(c, 256))
        if not m:
            args.append(C(1, 256))
        elif len(m) == 1 and m[0][1] == 1:
            args.append(zext(m[0][0], 256))
        else:
            args.append(uf("nprod", 256, *[zext(a, 256) for a, e in m for _ in range(e)]))
    t = uf("nsum", 256, *args)
    RING[t] = p
    return bound(t, N - 1)


# ---------------------------------------------------------------- regions

REGION_OPS = {"add", "ite", "ult", "eq", "and", "or", "xor", "ext", "cat", "mul", "shl", "lshr"}


def leaf(n):
    if n.op in ("v", "uf"):
        return True
    return n.op == "ext" and n.args[0].op in ("v", "uf") and n.w in (1, 256)


def region(t, limit=90):
    """(word leaves, bit leaves) of the arithmetic that computes t, or None.  A single bit of a word that is used as a whole elsewhere
    in the region belongs to that word."""
    words, bits, seen, st = [], [], set(), [t]
    while st:
        n = st.pop()
        if n in seen or n.op == "c":
            continue
        seen.add(n)
        if len(seen) > limit:
            return None
        if leaf(n):
            (bits if n.w == 1 else words).append(n)
            if n.w not in (1, 256):
                return None
        elif n.op in REGION_OPS:
            st.extend(reversed(children(n)))
        else:
            return None
    bits = [n for n in bits if n.op != "ext" or n.args[0] not in words]
    if len(words) > 4 or len(bits) > 4:
        return None
    return words, bits


def subst(t, sub, memo=None):
    """replace whole nodes, leaving what is below them alone"""
    memo = dict(sub)

    def go(root):
        st = [(root, 0)]
        while st:
            n, k = st.pop()
            if n in memo:
                continue
            if k:
                memo[n] = apply_op(n, [memo[c] for c in children(n)])
                continue
            if n.op in ("c", "v"):
                memo[n] = n
                continue
            st.append((n, 1))
            st.extend((c, 0) for c in children(n))
        return memo[root]
    return go(t)


_fits = {}


def cls(n):
    u = ub(n)
    return ("n", N - 1) if u < N else ("p", P - 1) if u < P else ("w", (1 << 256) - 1)


def fit(t, words, bits):
    """{(word index or None, frozenset of bit indices): coefficient} such that t is the residue of the combination, or None"""
    sub, names = {}, []
    for i, n in enumerate(words):
        k, u = cls(n)
        v = V("@%s%d" % (k, i), 256)
        declare_ub(v, u)
        sub[n] = v
        names.append((v, u))
    bv = []
    for i, n in enumerate(bits):
        v = V("@b%d" % i, 1)
        sub[n] = v
        bv.append(v)
    s = subst(t, sub)
    if any(not x.args[0].startswith("@") for x in variables([s])):
        return None
    key = (s, len(words), len(bits))
    if key in _fits:
        return _fits[key]
    r = _fits[key] = _fit(s, names, bv)
    return r


def _fit(s, names, bv):
    f = compile_eval([s])
    nb = len(bv)
    coef = []
    for a in range(1 << nb):
        env = {v.args[0]: 0 for v, u in names}
        env.update({v.args[0]: a >> i & 1 for i, v in enumerate(bv)})
        c0 = f(env)[0]
        cs = []
        for v, u in names:
            env[v.args[0]] = 1
            cs.append((f(env)[0] - c0) % N)
            env[v.args[0]] = 0
        coef.append((c0 % N, cs))
    g = Gen(7, [N, P, N // 2])
    r = g.r
    for k in range(200):
        env = {}
        for v, u in names:
            x = r.choice([0, 1, u, u - 1, r.getrandbits(256), g.value(256), N - 1, N, N + 1, N // 2, N // 2 + 1])
            env[v.args[0]] = x if x <= u else r.randrange(u + 1)
        a = r.randrange(1 << nb)
        env.update({v.args[0]: a >> i & 1 for i, v in enumerate(bv)})
        c0, cs = coef[a]
        if f(env)[0] != (c0 + sum(c * env[v.args[0]] for c, (v, u) in zip(cs, names))) % N:
            return None
    # prove: congruent and canonical, for every assignment of the bits
    ubs = {v: u for v, u in names}
    for a in range(1 << nb):
        o = rebuild(s, {v: C(a >> i & 1, 1) for i, v in enumerate(bv)})
        c0, cs = coef[a]
        terms = [mul([C(c, 560), zext(v, 560)], 560) for c, (v, u) in zip(cs, names) if c]
        spec = addn(terms + [C(c0, 560)], 560)
        try:
            e = proven(o, spec, ubs)
        except (poly.NoProof, RecursionError) as x:
            e = str(x)
        if e is not None:
            FAILED.append((s, str(e)))
            return None
    # multilinear interpolation over the bits
    out = {}
    for i in range(nb):
        for a in range(1 << nb):
            if a >> i & 1:
                b = coef[a ^ 1 << i]
                coef[a] = (coef[a][0] - b[0]) % N, [(x - y) % N for x, y in zip(coef[a][1], b[1])]
    for a in range(1 << nb):
        bs = frozenset(i for i in range(nb) if a >> i & 1)
        if coef[a][0]:
            out[(None, bs)] = coef[a][0]
        for i, c in enumerate(coef[a][1]):
            if c:
                out[(i, bs)] = c
    return out


FAILED = []


def proven(o, spec, ubs):
    if o is ext(spec, 0, 256) and ub(spec) < N:
        return None
    if o.op == "v":
        return None if ubs[o] < N else "not canonical"
    return poly.prove_reduction(o, spec, N, ubs)


class Canon(object):
    """canonical forms of graphs over integers modulo N and points"""

    def __init__(self, subs=None):
        self.memo = dict(subs or {})
        self.count = 0

    def __call__(self, root):
        for n in topo([root]):
            if n not in self.memo:
                self.memo[n] = self.node(n)
        return self.memo[root]

    def node(self, n):
        if n.op in ("c", "v"):
            return n
        ch = [self.memo[c] for c in children(n)]
        if n.op == "uf":
            nm = n.args[0]
            if nm == "n*":
                return from_poly(pmulp(to_poly(ch[0]), to_poly(ch[1])))
            if nm == "nmod":
                return from_poly(to_poly(ch[0]))
            if nm == "ninv":
                return self.inv(ch[0])
            if nm == "pmul" and ch[0].op == "uf" and ch[0].args[0] == "pnorm":
                ch[0] = ch[0].args[1]
            t = apply_op(n, ch)
            if nm in ("p+",):
                t = pts.padd(*ch)
            if nm in ("pzero",):
                t = self.zero(ch[0])
            if nm.startswith("pcoord"):
                t = px(ch[0], int(nm[-1]))
            u = ub(n)
            return bound(t, u) if u < ub(t) else t
        if n.op == "ext":
            x = ch[0]
            if x.op == "uf" and x.w == 768:
                lo = n.args[1]
                if lo // 256 == (lo + n.w - 1) // 256:
                    return ext(px(x, lo // 256), lo % 256, n.w)
            if x.op == "add" and 256 < x.w < 600 and n.args[1] + n.w <= 256 and n.w < 256:
                # a slice of a 256-bit value that no node holds as a whole
                y = ext(x, 0, 256)
                r = self.memo.get(y)
                if r is None:
                    r = self.memo[y] = self.reduce(y) if not leaf(y) else y
                if r is not y:
                    return ext(r, n.args[1], n.w)
            if x.op == "ite" and x.w == 768 and n.args[1] % 256 == 0 and n.w == 256:
                return px(x, n.args[1] // 256)
        t = apply_op(n, ch)
        if t.op == "ext" and t.args[1] == 0 and t.args[0].op == "add" and t.w == 256:
            # low half of a sum: the sum of the low halves
            t2 = self.reduce(t)
            if t2 is not t:
                return t2
            c, ts = t.args[0].args
            t = lin(c, [(ext(x, 0, t.w), k) for x, k in ts], t.w)
        if t.op == "ult":
            t = self.half(t)
        if t.op == "eq":
            t = self.eqz(t)
        if t.w == 256 and t.op in ("add", "ite", "ext", "cat") and not leaf(t):
            t = self.reduce(t)
        return t

    def inv(self, a):
        p = to_poly(a)
        if len(p) == 1:
            # inverse of a product is the product of the inverses (also for zero, as 0 maps to 0)
            (m, c), = p.items()
            if all(x.w == 256 for x, e in m):
                q = {(): pow(c, -1, N)}
                for x, e in m:
                    i = self.inv1(x)
                    for _ in range(e):
                        q = pmulp(q, i)
                return from_poly(q)
        return bound(uf("ninv", 256, from_poly(p)), N - 1)

    def inv1(self, x):
        if x.op == "uf" and x.args[0] == "ninv":
            return to_poly(x.args[1])
        return {((bound(uf("ninv", 256, x), N - 1), 1),): 1}

    def half(self, t):
        """C - x < x  and  x < C - x, for x at most C, as a comparison with C/2"""
        a, b = t.args
        for p, q, low in ((a, b, True), (b, a, False)):
            if p.op == "add" and len(p.args[1]) == 1 and p.args[1][0] == (q, ones(q.w)) and ub(q) <= p.args[0]:
                c = p.args[0]
                return ult(C(c // 2, q.w), q) if low else ult(q, C((c + 1) // 2, q.w))
        return t

    def zero(self, p):
        if p.op == "uf" and p.args[0] == "pnorm":
            return self.zero(p.args[1])
        return pzero(p)

    def eqz(self, t):
        """z = 0 of a point term is the identity test"""
        a, b = t.args
        for x, y in ((a, b), (b, a)):
            if y.op == "c" and x.op == "uf" and x.args[0] == "pcoord2":
                if cv(y) == 0:
                    return self.zero(x.args[1])
                if cv(y) == 1 and x.args[1].op == "uf" and x.args[1].args[0] == "pnorm":
                    return bnot(self.zero(x.args[1]))
        return t

    def reduce(self, t):
        r = region(t)
        if r is None:
            return t
        words, bits = r
        f = fit(t, words, bits)
        if f is None:
            return t
        self.count += 1
        p = {}
        for (i, bs), c in f.items():
            q = {(): c}
            if i is not None:
                q = pmulp(q, to_poly(words[i]))
            for b in bs:
                q = pmulp(q, {((bits[b], 1),): 1})
            p = padd(p, q)
        return from_poly(p)


def conditions(*roots):
    """conditions of the selections and atomic booleans of a boolean root"""
    out, seen, st = [], set(), list(roots)
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        if n.w == 1:
            for l in poly.bool_leaves(n):
                if l not in out:
                    out.append(l)
        elif n.op == "ite":
            for l in poly.bool_leaves(n.args[0]):
                if l not in out:
                    out.append(l)
            st.extend(n.args[1:])
        elif n.op in ("cat", "add", "ext"):
            st.extend(children(n))
    return out


def same(a, b, budget=4096):
    """equal under every assignment of the atomic conditions (taken as independent)"""
    n = [0]

    def go(a, b):
        if a is b:
            return None
        n[0] += 1
        if n[0] > budget:
            return "too many cases"
        cs = conditions(a, b)
        if not cs:
            return "%s differs from %s" % (show(a, 4), show(b, 4))
        c = cs[0]
        for v in (1, 0):
            e = go(assume(a, c, v), assume(b, c, v))
            if e:
                return e
        return None
    return go(a, b)


def assume(t, c, v):
    """cofactor of the selections of t, without touching values below the leaves"""
    memo = {c: C(v, 1)}

    def go(n):
        r = memo.get(n)
        if r is not None:
            return r
        if n.op == "ite" or n.op in ("and", "or", "xor") and n.w == 1 or n.op in ("cat", "add", "ext") and n.w > 1:
            r = apply_op(n, [go(x) for x in children(n)])
        else:
            r = n
        memo[n] = r
        return r
    return go(t)


def hoist(t, budget=64):
    """selections inside a value made outermost, so that the same value has one form"""
    n = [0]

    def go(t):
        cs = conditions(t)
        n[0] += 1
        if not cs or n[0] > budget:
            return t
        c = min(cs, key=lambda x: x.id)
        a, b = go(assume(t, c, 1)), go(assume(t, c, 0))
        return a if a is b else ite(c, a, b)
    return go(t)


def hoist_args(roots, prefixes):
    """the graphs with the arguments of the functions whose name starts with one of the prefixes hoisted"""
    memo = {}
    for n in topo(roots):
        if n.op in ("c", "v"):
            memo[n] = n
            continue
        ch = [memo[c] for c in children(n)]
        if n.op == "uf" and n.args[0].startswith(prefixes):
            ch = [hoist(c) for c in ch]
        memo[n] = apply_op(n, ch)
    return [memo[r] for r in roots]
