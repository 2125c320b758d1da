"""Deciding 256-bit integer and prime-field results: normal forms, polynomial identities, order abstraction, and
random interpretation of the two graphs where the normal forms differ."""
from .terms import *
from . import poly, equiv

P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
GX = 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
GY = 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8


# ---------------------------------------------------------------- order abstraction

def order_canon(*roots, limit=20000):
    """Boolean graphs over comparisons of word slices as a polynomial over GF(2) in the relations (a=b), (a<b) of each
    slice pair, reduced by (a=b)(a<b)=0; comparisons of concatenations are expanded lexicographically.
    The form is unique, as the three outcomes of every slice comparison are independent."""
    cmps = [n for n in topo(list(roots)) if n.op in ("ult", "eq")]

    def slices(x):
        """low-first list of (base, lo, width)"""
        r = []
        for p in (x.args if x.op == "cat" else (x,)):
            if p.op == "ext":
                r.append((p.args[0], p.args[1], p.w))
            else:
                r.append((p, 0, p.w))
        return r

    def split(x, points):
        out, prev = [], 0
        for q in points:
            out.append(ext(x, prev, q - prev))
            prev = q
        return out
    todo = []
    for n in cmps:
        a, b = n.args
        if a.w < 8:
            return None
        todo.append((n, a, b))
    # choose word boundaries globally: every base is cut where any comparison cuts it
    bounds = {}
    for n, a, b in todo:
        for x in (a, b):
            for base, lo, w in slices(x):
                bounds.setdefault(base, set()).update((lo, lo + w))
    changed = True
    while changed:
        changed = False
        for n, a, b in todo:
            pts = set()
            for x in (a, b):
                o = 0
                for base, lo, w in slices(x):
                    pts.add(o)
                    for c in bounds[base]:
                        if lo <= c <= lo + w:
                            pts.add(o + c - lo)
                    o += w
            for x in (a, b):
                o = 0
                for base, lo, w in slices(x):
                    for c in pts:
                        if o <= c <= o + w and (lo + c - o) not in bounds[base]:
                            bounds[base].add(lo + c - o)
                            changed = True
                    o += w
    idx = {}

    def atom(kind, a, b):
        k = (a, b) if a.id < b.id else (b, a)
        i = idx.setdefault(k, len(idx))
        if kind == "eq":
            return {frozenset([2 * i]): 1}
        if k == (a, b):
            return {frozenset([2 * i + 1]): 1}
        return {frozenset(): 1, frozenset([2 * i]): 1, frozenset([2 * i + 1]): 1}

    def mul2(p, q):
        r = {}
        for m1 in p:
            for m2 in q:
                m = m1 | m2
                if any(x % 2 == 0 and x + 1 in m for x in m):
                    continue
                if m in r:
                    del r[m]
                else:
                    r[m] = 1
        if len(r) > limit:
            raise poly.NoProof("order abstraction too large")
        return r

    def add2(p, q):
        r = dict(p)
        for m in q:
            if m in r:
                del r[m]
            else:
                r[m] = 1
        return r
    one = {frozenset(): 1}

    def compare(n, a, b):
        pts = set()
        for x in (a, b):
            o = 0
            for base, lo, w in slices(x):
                for c in bounds[base]:
                    if lo < c <= lo + w:
                        pts.add(o + c - lo)
                o += w
        pts = sorted(pts)
        sa, sb = split(a, pts), split(b, pts)
        e, l = one, {}
        for x, y in reversed(list(zip(sa, sb))):
            if x.op == "c" and y.op == "c":
                ei = one if x is y else {}
                li = one if cv(x) < cv(y) else {}
            elif x is y:
                ei, li = one, {}
            else:
                ei, li = atom("eq", x, y), atom("lt", x, y)
            l = add2(l, mul2(e, li))
            e = mul2(e, ei)
        return e if n.op == "eq" else l
    memo = {}
    for n in topo(list(roots)):
        if n.w != 1:
            continue
        if n.op == "c":
            memo[n] = one if cv(n) else {}
        elif n.op in ("ult", "eq"):
            memo[n] = compare(n, *n.args)
        elif n.op == "xor":
            r = {}
            for a in n.args:
                if a not in memo:
                    return None
                r = add2(r, memo[a])
            memo[n] = r
        elif n.op in ("and", "or"):
            r = one
            for a in n.args:
                if a not in memo:
                    return None
                r = mul2(r, memo[a] if n.op == "and" else add2(one, memo[a]))
            memo[n] = r if n.op == "and" else add2(one, r)
        elif n.op == "ite":
            c, a, b = [memo.get(x) for x in n.args]
            if c is None or a is None or b is None:
                return None
            memo[n] = add2(b, mul2(c, add2(a, b)))
        else:
            return None
    if any(t not in memo for t in roots):
        return None
    return [frozenset(memo[t]) for t in roots]


# ---------------------------------------------------------------- random interpretation input

def field_draw(names, p=P):
    """valuations with the named symbols below p, biased so that products fall next to multiples of p"""
    def draw(g, vs):
        env = {}
        r = g.r
        prev = []
        for v in vs:
            nm = v.args[0]
            if nm in names:
                k = r.randrange(10)
                if k < 3 and prev and prev[-1]:
                    small = r.getrandbits(r.choice([1, 8, 32, 33, 34, 48, 60, 63, 64, 65, 66]))
                    if r.randrange(2):
                        small = p - 1 - small
                    x = small * pow(prev[-1], -1, p) % p
                elif k == 3 and prev:
                    x = r.choice([prev[-1], (p - prev[-1]) % p, (p - prev[-1] + r.randrange(4)) % p, (prev[-1] + 1) % p,
                                  (p + 1) // 2 + r.randrange(-2, 3)])
                elif k == 4:
                    x = (p - r.getrandbits(r.choice([1, 2, 8, 32, 64, 128]))) % p
                elif k == 5:
                    x = g.value(256) % p
                elif k == 6:
                    x = p - 1 - r.getrandbits(r.randrange(1, 256)) % p
                else:
                    x = r.getrandbits(256) % p
                env[nm] = x % p
                prev.append(env[nm])
            else:
                env[nm] = g.value(v.w)
        return env
    return draw


def tries(rep, quick=400):
    return quick * 20 if rep.thorough else quick


def decide_int(rep, name, where, pairs, ident=None, pre=(), draw=None, quick=400):
    """pairs: (code, spec) terms; ident: [(outs with coefficients, spec with coefficients)] for carry-propagating results"""
    pairs = [(ext(a, 0, 1), ext(b, 0, 1)) if a.w == b.w and a.w > 1 and ub(a) <= 1 and ub(b) <= 1 else (a, b) for a, b in pairs]
    if all(a is b for a, b in pairs):
        return rep.ob(name, "proved", where, "identical normal forms")

    def sep(**kw):
        s = equiv.separate(pairs, pre, seed=rep.seed, draw=draw, **kw)
        if s is not None:
            k, env, x, y = s
            return rep.ob(name, "refuted", where, "result is 0x%x, specification 0x%x at %s" % (x, y, equiv.show_env(env)))

    def prove():
        rest = [(a, b) for a, b in pairs if a is not b]
        how = []
        if ident is not None:
            e = [poly.identity(o, s) for o, s in ident]
            if not any(e):
                return True, "polynomial identity over the integers"
            how += e
        if all(a.w == 1 for a, b in rest):
            ks = [order_canon(a, b) for a, b in rest]
            if all(k is not None and k[0] == k[1] for k in ks):
                return True, "identical order polynomials"
        if equiv.alike(rest):
            return True, "identical normal forms after canonicalising bitwise cones"
        for a, b in rest:
            e = poly.identity([(a, 1)], [(b, 1)])
            if e:
                return False, "; ".join(str(x)[:200] for x in how + [e] if x)
        return True, "polynomial identity over the integers"
    return settle(rep, name, where, sep, prove, tries(rep, quick))


def settle(rep, name, where, sep, prove, n):
    """a few random valuations, then the proof, then a longer and steered search for a separating valuation"""
    r = sep(tries=n // 8, steer=0)
    if r is not None:
        return r
    try:
        ok, how = prove()
    except (poly.NoProof, RecursionError) as e:
        ok, how = False, "polynomial domain: %s" % e
    if ok:
        return rep.ob(name, "proved", where, how)
    r = sep(tries=n)
    if r is not None:
        return r
    return rep.ob(name, "undecided", where, how)


def decide_mod(rep, name, where, out, spec, p, ubs, quick=400):
    """out is the canonical residue of the (non-negative, exact) integer term spec"""
    pre = [ult(v, C(b + 1, v.w)) for v, b in ubs.items()]
    exactw = max(spec.w, out.w)
    want = ext(urem(zext(spec, exactw), C(p, exactw)), 0, out.w)

    def sep(**kw):
        s = equiv.separate([(out, want)], pre, seed=rep.seed, draw=field_draw({v.args[0] for v in ubs}, p), **kw)
        if s is not None:
            k, env, x, y = s
            return rep.ob(name, "refuted", where, "result is 0x%x, residue 0x%x at %s" % (x, y, equiv.show_env(env)))

    def prove():
        log = {}
        e = poly.prove_reduction(out, spec, p, ubs, log)
        if e is None:
            return True, "congruent modulo p as polynomials and bounded by p in %d case(s)" % log.get("cases", 1)
        return False, str(e)[:300]
    return settle(rep, name, where, sep, prove, tries(rep, quick))
