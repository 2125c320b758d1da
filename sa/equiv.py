"""Deciding whether two value graphs denote the same function.

Proof: identical normal forms (hash-consed node identity), possibly after canonicalising bitwise cones.
Refutation: the normal forms differ and a valuation of the graphs' input symbols separates them
(random interpretation).  Neither: undecided."""
import os
import random
from .terms import *
from .steer import Steer

STEER = 1.5 if os.environ.get("VERIF_TIER") != "thorough" else 15.0


class Gen(object):
    """valuations for input symbols, biased to word-level corners, with harvested constants"""

    def __init__(self, seed=1, consts=()):
        self.r = random.Random(seed)
        self.consts = [c for c in consts]

    def value(self, w):
        r = self.r
        k = r.randrange(12)
        m = (1 << w) - 1
        if w <= 8:
            return r.randrange(1 << w) if k else r.choice([0, m, 1, 1 << (w - 1)]) & m
        if k < 3:
            return r.getrandbits(w)
        if k == 3:
            return r.choice([0, 1, 2, m, m - 1, 1 << (w - 1), (1 << (w - 1)) - 1]) & m
        if k == 4 and self.consts:
            c = r.choice(self.consts)
            return (c + r.choice([0, 0, 1, -1, 2, -2])) & m
        if k == 5:
            v = 0
            for i in range(0, w, 32):
                v |= r.choice([0, 1, 0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff, r.getrandbits(32)]) << i
            return v & m
        if k == 6:
            v = 0
            for i in range(0, w, 32):
                v |= r.choice([0, 0xffffffff]) << i
            return v & m
        if k == 7:
            return r.getrandbits(r.randrange(1, w + 1))
        if k == 8:
            return m - r.getrandbits(r.randrange(1, w + 1))
        if k == 9:
            return (1 << r.randrange(w)) & m
        if k == 10 and self.consts:
            c = r.choice(self.consts)
            return (c - r.getrandbits(r.randrange(1, max(2, w // 2)))) & m
        return (m << r.randrange(w)) & m


def harvest(roots):
    s = set()
    for n in topo(roots):
        if n.op == "c" and n.w >= 16:
            s.add(cv(n))
        elif n.op == "add":
            s.add(n.args[0])
            if n.args[0] and n.w <= 512:
                s.add((-n.args[0]) & ones(n.w))
    return sorted(s)[:400]


def separate(pairs, pre=(), gens=None, tries=300, seed=1, fix=None, extra=(), draw=None, steer=STEER):
    """a valuation of the symbols that satisfies pre and gives different values; None if none found"""
    roots = [t for p in pairs for t in p] + list(pre)
    vs = variables(roots)
    consts = harvest(roots) + list(extra)
    g = Gen(seed, consts)
    f = compile_eval(roots)
    n = len(pairs)
    got = 0
    caps = [(v.args[0], ub(v)) for v in vs if ub(v) != ones(v.w)]     # bounds assumed of the inputs
    for i in range(tries * 4):
        if got >= tries:
            break
        if draw is not None:
            env = draw(g, vs)
        else:
            env = {}
            prev = []
            for v in vs:
                gen = gens.get(v.args[0]) if gens else None
                if gen is not None:
                    env[v.args[0]] = gen(g)
                elif prev and g.r.randrange(8) == 0:
                    env[v.args[0]] = g.r.choice(prev) & ones(v.w)
                else:
                    env[v.args[0]] = g.value(v.w)
                if v.w > 8:
                    prev.append(env[v.args[0]])
        if fix:
            fix(env, g)
        for v in vs:
            if v.args[0] not in env:       # contents of uninitialised storage
                env[v.args[0]] = g.value(v.w)
        for x, m in caps:
            if env[x] > m:
                env[x] %= m + 1
        r = f(env)
        if not all(r[2 * n:]):
            continue
        got += 1
        for k in range(n):
            if r[2 * k] != r[2 * k + 1]:
                return k, env, r[2 * k], r[2 * k + 1]
    if fix is not None or steer <= 0:
        return None
    # steer comparisons and carries of the two graphs
    import time
    st = Steer(roots, g)
    if not st.ok:
        return None
    end = time.time() + steer
    while time.time() < end:
        if draw is not None:
            env = draw(g, vs)
        else:
            env = {v.args[0]: (gens[v.args[0]](g) if gens and v.args[0] in gens else g.value(v.w)) for v in vs}
        old = dict(env)
        st.steer(env, g.r.randrange(1, 5))
        if env == old or any(env[x] > m for x, m in caps):
            continue
        r = f(env)
        if not all(r[2 * n:]):
            continue
        for k in range(n):
            if r[2 * k] != r[2 * k + 1]:
                return k, env, r[2 * k], r[2 * k + 1]
    return None


def canon(t, memo=None, maxleaf=5):
    """ANF-canonicalise cones of bitwise operations with few leaves"""
    if memo is None:
        memo = {}
    for n in topo([t]):
        if n in memo:
            continue
        if n.op in ("c", "v"):
            memo[n] = n
            continue
        m = apply_op(n, [memo[c] for c in children(n)])
        if m.op in ("and", "or", "xor"):
            a = _anf(m, maxleaf)
            if a is not None:
                m = a
        memo[n] = m
    return memo[t]


def _cone(n, maxleaf):
    """leaves of the maximal bitwise cone rooted at n with at most maxleaf leaves"""
    leaves = list(dict.fromkeys(n.args))
    while True:
        for l in leaves:
            if l.op in ("and", "or", "xor"):
                new = [x for x in leaves if x is not l]
                for c in l.args:
                    if c not in new:
                        new.append(c)
                if len([x for x in new if x.op != "c"]) <= maxleaf:
                    leaves = new
                    break
        else:
            return leaves


def _negative(x):
    if x.op == "add":
        return min(x.args[1], key=lambda e: e[0].id)[1] >> (x.w - 1) == 1
    if x.op == "xor":
        return x.args[0].op == "c" and cv(x.args[0]) == ones(x.w)
    if x.op == "ext" or x.op == "cat":
        return _negative(x.args[0])
    return False


def complement(x):
    """the term whose bitwise complement x is, if that is the one of the two to be written (the complement of a sum is a sum)"""
    if not _negative(x):
        return None
    y = bxor(C(ones(x.w), x.w), x)
    return None if _negative(y) else y


def ring(t, memo):
    """bitwise operations over (xor, and) with no complement below and: a | b = a ^ b ^ ab, ~a b = b ^ ab"""
    for n in topo([t]):
        if n in memo:
            continue
        if n.op in ("c", "v"):
            memo[n] = n
            continue
        ch = [memo[c] for c in children(n)]
        if n.op == "or" and len(ch) == 2:
            m = bxor(ch[0], ch[1], _times(ch[0], ch[1]))
        elif n.op == "and" and len(ch) == 2:
            m = _times(ch[0], ch[1])
        else:
            m = apply_op(n, ch)
        memo[n] = m
    return memo[t]


def _times(a, b):
    for x, y in ((a, b), (b, a)):
        z = complement(x)
        if z is not None:
            return bxor(y, _times(z, y))
    return band(a, b)


def alike(pairs):
    """do two families of terms agree after canonicalising their bitwise parts?"""
    for f in (canon, ring):
        m = {}
        if all(f(a, m) is f(b, m) for a, b in pairs):
            return True
    return False


def _anf(n, maxleaf):
    leaves = _cone(n, maxleaf)
    var = [l for l in leaves if l.op != "c"]
    if len(var) > maxleaf:
        return None
    w = n.w
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if x.op == "c":
            r = {frozenset(): cv(x)} if cv(x) else {}
        elif x in leafset:
            y = complement(x)
            r = {frozenset([x]): ones(w)} if y is None else {frozenset([y]): ones(w), frozenset(): ones(w)}
        else:
            cs = [go(c) for c in x.args]
            if x.op == "xor":
                r = {}
                for c in cs:
                    for k, m in c.items():
                        r[k] = r.get(k, 0) ^ m
            else:
                if x.op == "or":
                    cs = [inv(c) for c in cs]
                r = cs[0]
                for c in cs[1:]:
                    q = {}
                    for k1, m1 in r.items():
                        for k2, m2 in c.items():
                            k = k1 | k2
                            q[k] = q.get(k, 0) ^ (m1 & m2)
                    r = {k: m for k, m in q.items() if m}
                if x.op == "or":
                    r = inv(r)
            r = {k: m for k, m in r.items() if m}
        memo[x] = r
        return r

    def inv(c):
        c = dict(c)
        c[frozenset()] = c.get(frozenset(), 0) ^ ones(w)
        return c
    leafset = set(var)
    r = go(n)
    terms = []
    for k, m in sorted(r.items(), key=lambda e: (len(e[0]), sorted(x.id for x in e[0]))):
        fs = sorted(k, key=lambda x: x.id)
        if m != ones(w) or not fs:
            fs = fs + [C(m, w)]
        terms.append(bitop("and", fs, w) if len(fs) > 1 else fs[0])
    if not terms:
        return C(0, w)
    return mk_xor(terms, w)


def mk_xor(terms, w):
    return bitop("xor", terms, w) if len(terms) > 1 else terms[0]


def show_env(env, limit=24):
    ks = sorted(env)
    return ", ".join("%s=0x%x" % (k, env[k]) for k in ks[:limit]) + (" ..." if len(ks) > limit else "")


def decide(pairs, pre=(), **kw):
    """pairs of (code term, spec term) -> (status, detail)"""
    bad = [(i, a, b) for i, (a, b) in enumerate(pairs) if a is not b]
    if not bad:
        return "proved", "identical normal forms"
    for i, a, b in bad:
        if a.w != b.w:
            return "refuted", "result %d has width %d, expected %d" % (i, a.w, b.w)
    for steer in (0, None):
        if steer == 0:
            q = dict(kw, steer=0)
        else:
            q = kw
        s = separate([(a, b) for _, a, b in bad], pre, **q)
        if s is not None:
            k, env, x, y = s
            return "refuted", "result %d is 0x%x, specification 0x%x at %s" % (bad[k][0], x, y, show_env(env))
        if steer == 0:
            if alike([(a, b) for _, a, b in bad]):
                return "proved", "identical normal forms after canonicalising bitwise cones"
    return "undecided", "normal forms differ, no separating valuation"
