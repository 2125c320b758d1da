"""C29: Java Base58Check conversion, one value graph per length and shape."""
from ..terms import *
from ..cinterp import Undecided, assume
from ..jinterp import *
from .. import equiv
from ..arith import decide_int
from ..report import PROVED, REFUTED, UNDECIDED
from .javaarith import fork, need, covered
from . import javahash as jh
from .base58 import settle, under, ALPHA, Case, Range, nd, sha256d, b58bytes
from .guards import rejects, ob, IAE, short, pcterm

B5 = "Base58Check"
W = B5 + ".java"
DBLJ = "Sha256.getDoubleHash([B)"


FOLD = [False]


def hashterm(data):
    if FOLD[0] and all(x.op == "c" for x in data):
        return C(int.from_bytes(sha256d(bytes(cv(x) for x in data)), "little"), 256)
    UF_EVAL["sha256d"] = lambda x, k: int.from_bytes(sha256d(x.to_bytes(k, "little")), "little")
    return uf("sha256d", 256, from_le(data) if data else C(0, 8), len(data))


def byts(it, st, r):
    o = it.obj(st, r)
    return list(it.vals(st, o))


def digest_hook(give):
    def h(it, st, a):
        vs = byts(it, st, a[0])
        t = give(vs)
        o = it.new(st, "hash", "object", cls="io/nayuki/bitcoin/crypto/Sha256Hash")
        m = jh.lib().find("Sha256Hash", "<init>", "([B)")
        it.call(m, [Ref(o), it.array(st, "digest", "B", bytes_le(t))], st)
        return Ref(o)
    return h


def bytes_le(t):
    return [ext(t, 8 * i, 8) for i in range(t.w // 8)]


# ---------------------------------------------------------------- encoding

def shapes(n):
    for z in range(n + 5):
        a = Case(n, True, z, None)
        if a.ok:
            for d in a.digits:
                yield z, d


def encode_case(rep, n, z, d):
    case = Case(n, True, z, d)
    seen = []

    def give(vs):
        seen.append(vs)
        if vs == case.bytes[:-4]:
            return cat([from_le(case.field["check"][0]), V("check.rest", 224)])
        return hashterm(vs)
    c = fork({DBLJ: digest_hook(give)})
    c.it.budget = 10 ** 7
    c.it.oracle = case.range
    data = c.array("data", "B", case.bytes[:-4])
    r = c.call(B5, "bytesToBase58", data)
    covered(rep, c)
    th = c.throws()
    got = [ext(x, 0, 16) for x in c.it.s(c.st, r).chars]
    X = case.X
    want = [C(ord("1"), 16)] * z
    for k in reversed(range(d)):
        q = udiv(X, C(58 ** k, X.w)) if (58 ** k).bit_length() <= X.w else C(0, X.w)
        want.append(chartable(ALPHA, ext(urem(q, C(58, X.w)), 0, 32) if X.w >= 32 else zext(urem(q, C(58, X.w)), 32)))
    if len(got) != len(want):
        e = case.draw(equiv.Gen(rep.seed), [V("check", 32)] if False else [v for bs, v, p in case.field.values() if v is not None])
        x = int.from_bytes(bytes(compile_eval(case.bytes)(e)), "big") if case.bytes else 0
        real = case.lo <= x <= case.hi and sha256d((x >> 32).to_bytes(n, "big"))[:4] == (x & 0xffffffff).to_bytes(4, "big")
        return (REFUTED if real else UNDECIDED), "%d characters, specified are %d" % (len(got), len(want)) + (" for %s" % (x >> 32).to_bytes(n, "big").hex() if real else "")
    pairs = list(zip(got, want)) + list(zip(byts(c.it, c.st, data), case.bytes[:-4]))
    st, det = equiv.decide(pairs, pre=case.pre(), draw=case.draw, seed=rep.seed, tries=12, steer=0)
    if st == PROVED and th:
        return UNDECIDED, "may throw %s" % short(th[0][2])
    if st == PROVED and not any(x == case.bytes[:-4] for x in seen):
        return UNDECIDED, "checksum not taken from the payload"
    return st, det


def encode(rep, n):
    bulk(rep, "bytesToBase58: every array of %d bytes" % n, [(n, z, d) for z, d in shapes(n)], encode_case,
         lambda a: "%d leading zero bytes, %d digits" % a[1:])


def bulk(rep, name, cases, f, label):
    def run():
        worst, note = PROVED, ""
        for a in cases:
            try:
                with chains():
                    st, d = f(rep, *a)
            except Undecided as e:
                st, d = UNDECIDED, str(e)
            if st != PROVED and (worst == PROVED or st == REFUTED):
                worst, note = st, "%s: %s" % (label(a), d)
            if st == REFUTED:
                break
        rep.ob(name, worst, W, note or "%d cases" % len(cases))
    return rep.guard(name, run, W)


# ---------------------------------------------------------------- decoding

def value_cases(m):
    """ranges of the value of m digits (first not zero) with one byte count and top bit"""
    if not m:
        return [(0, 0, 0)]
    lo, hi = 58 ** (m - 1), 58 ** m - 1
    r = []
    for nb in range((lo.bit_length() + 7) // 8, (hi.bit_length() + 7) // 8 + 1):
        a, b, q = 256 ** (nb - 1), 128 * 256 ** (nb - 1), 256 ** nb
        for p, e in ((a, b - 1), (b, q - 1)):
            p, e = max(p, lo), min(e, hi)
            if p <= e:
                r.append((nb, p, e))
    return r


def decode_case(rep, L, k, nb, lo, hi, alter=None):
    """alter: a string made of this one that no longer lies in the alphabet"""
    m = L - k
    FOLD[0] = m == 0 and not alter
    ch = [V("c%d" % i, 16) for i in range(m)]
    c = fork({DBLJ: digest_hook(hashterm)})
    c.it.budget = 10 ** 7
    for i, x in enumerate(ch):
        assume(c.st, instring(ALPHA, x), True)
    if m:
        assume(c.st, eq(ch[0], C(ord("1"), 16)), False)
    w = 8 * max(nb, 1) + 8
    v = C(0, w)
    for x in ch:
        v = add(mul([v, C(58, w)], w), zext(position(ALPHA, x), w))
    c.it.oracle = Facts(v, lo, hi)
    chars = [C(ord("1"), 16)] * k + ch
    if alter:
        chars = alter(chars)
    done = True
    try:
        r = c.call(B5, "base58ToBytes", JStr(chars))
    except Dead:
        done = False
    covered(rep, c)
    th = c.throws()
    bs = [C(0, 8)] * k + [ext(v, 8 * i, 8) for i in reversed(range(nb))]
    pre = [ule(C(lo, v.w), v), ule(v, C(hi, v.w))] + [instring(ALPHA, x) for x in ch] + ([ne(ch[0], C(ord("1"), 16))] if m else [])
    if len(bs) < 4:
        ok = FALSE
    else:
        h = hashterm(bs[:-4])
        ok = band(*[eq(x, ext(h, 8 * i, 8)) for i, x in enumerate(bs[-4:])])
    known_ = set(pre[2:])
    pairs = [(under(jh.accept(th), known_) if done else FALSE, under(ok, known_))]
    draw = lambda g, vs: draw_text(g, k, m, nb, lo, hi)
    for e in th:
        if not c.it.subclass(e[2], IAE):
            pc = under(pcterm(e[3]), known_)
            if pc is FALSE:
                continue
            s = equiv.separate([(pc, FALSE)], pre=pre, draw=draw, seed=rep.seed, tries=60) if pc is not TRUE else ((), draw(equiv.Gen(rep.seed), ()))
            return (UNDECIDED, "may throw %s" % short(e[2])) if s is None else (REFUTED, "throws %s at %s" % (short(e[2]), equiv.show_env(s[1])))
    if alter:
        pairs = [(pairs[0][0], FALSE)]
        done = False
    short_ = False
    if done and len(bs) >= 4:
        got = byts(c.it, c.st, r)
        if len(got) != len(bs) - 4:
            pairs.append((ok, FALSE))
            short_ = True
        else:
            pairs += [(ite(ok, x, C(0, 8)), ite(ok, y, C(0, 8))) for x, y in zip(got, bs)]
    pairs = [(x, y) if x is y else (settle(x), settle(y)) for x, y in pairs]
    if short_:
        st, d = equiv.decide(pairs, pre=pre, draw=draw, seed=rep.seed, tries=60, steer=0)
        return (st, "a payload of %d bytes, specified are %d" % (len(got), len(bs) - 4)) if st == REFUTED else (UNDECIDED, "payload length")
    st, d = equiv.decide(pairs, pre=pre, draw=draw, seed=rep.seed, tries=40, steer=0)
    return st, d


class Facts(Range):
    """interval facts about a sum of digits at every width it is written in"""

    def __init__(self, v, lo, hi):
        Range.__init__(self, v, lo, hi)
        self.lo, self.hi, self.v = lo, hi, v

    def same(self, t):
        if t is self.v:
            return True
        if t.w < self.hi.bit_length():
            return False
        w = t.w     # equal modulo a power of two above every value
        a = [lin(0, [(fit(x, w), 1)], w) for x in (t, self.v)]
        return a[0] is a[1]

    def _iv(self, t):
        if t.op in ("add", "uf") and self.same(t):
            return self.lo, self.hi
        return Range._iv(self, t)


def draw_text(g, k, m, nb, lo, hi):
    r = g.r
    for t in range(300):
        if k + nb >= 4 and r.randrange(4):
            # a valid string of this shape
            x = r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, hi)])
            full = bytes(k) + (x.to_bytes(nb, "big") if nb else b"")
            p = full[:-4]
            q = p + sha256d(p)[:4]
            if r.randrange(4) == 0:
                q = q[:-1] + bytes([q[-1] ^ (1 << r.randrange(8))])
            x = int.from_bytes(q[k:], "big")
            if q[:k] != bytes(k):
                continue
        else:
            x = r.choice([lo, hi, r.randint(lo, hi)])
        if lo <= x <= hi:
            break
    else:
        x = lo
    s = ""
    for i in range(m):
        x, d = divmod(x, 58)
        s = ALPHA[d] + s
    return {"c%d" % i: ord(a) for i, a in enumerate(s)}


def decode(rep, L, ks=None):
    ks = range(L + 1) if ks is None else sorted({k for k in ks if 0 <= k <= L})
    cases = [(L, k) + q for k in ks for q in value_cases(L - k)]
    which = "" if len(ks) == L + 1 else " with %s leading '1's" % ", ".join(map(str, ks))
    bulk(rep, "base58ToBytes: every string of length %d over the alphabet%s" % (L, which), cases, decode_case,
         lambda a: "%d leading '1's, values %d to %d" % (a[1], a[3], a[4]))


def alterations(L):
    """(label, characters removed, change) making strings with a foreign character out of strings over the alphabet"""
    for i, at in ((0, "first"), (-1, "last"), (L // 2, "middle")):
        for x in (0, 9, 10, 13, 32, 0x2d, 0x5f, 0xa0, 0x3000, 0x200b):
            def put(cs, i=i, x=x):
                p = i if i >= 0 else len(cs)
                return cs[:p] + [C(x, 16)] + cs[p:]
            yield "%s character U+%04X" % (at, x), 1, put
        for nm, f in (("with bit 7 set", lambda c: bor_(c, 0x80)), ("plus 0x100", lambda c: add(c, C(0x100, 16))), ("plus 0xfee0", lambda c: add(c, C(0xfee0, 16)))):
            yield "%s character %s" % (at, nm), 0, lambda cs, i=i, f=f: cs[:i] + [f(cs[i])] + (cs[i + 1:] if i != -1 else [])
        for a, b in ("1l", "1I", "1O", "o0", "oO", "10"):
            yield "%s character %s for %s" % (at, b, a), 1, lambda cs, i=i, b=b: cs[:i] + [C(ord(b), 16)] + (cs[i:] if i != -1 else [])


def bor_(c, k):
    return bitop("or", [c, C(k, 16)], 16)


def foreign(rep, L):
    cs = [V("c%d" % i, 16) for i in range(L)]
    name = "base58ToBytes: every string of length %d with a character outside the alphabet" % L

    def member(c, skip, f):
        """(status, detail) over all shapes"""
        m = L - skip
        for k in {0, 1, min(m, 2), m}:
            for q in value_cases(m - k) if k <= m else ():
                try:
                    with chains():
                        st, d = decode_case(rep, m, k, *q, alter=f)
                except Undecided:
                    continue
                if st == REFUTED:
                    return st, d
        return None

    def run():
        st, d = PROVED, ""
        for x in cs:
            q = bnot(instring(ALPHA, x))
            try:
                st, d = rejects(rep, name, W, lambda c: (assume(c.st, q, True), c.call(B5, "base58ToBytes", JStr(list(cs)))), (IAE,), pre=q,
                                hooks={DBLJ: digest_hook(hashterm)})
            except Undecided as e:
                st, d = UNDECIDED, str(e)
            if st != PROVED:
                break
        if st == UNDECIDED and L in (3, 9, 34, 51):
            for label, skip, f in alterations(L):
                r = member(None, skip, f)
                if r:
                    st, d = r[0], "%s: %s" % (label, r[1])
                    break
        rep.ob(name, st, W, d)
    rep.guard(name, run, W)


def c29(rep):
    need(B5 + ".base58ToBytes", B5 + ".bytesToBase58", "Sha256.getDoubleHash", "Sha256Hash.toBytes")
    t = rep.thorough
    jobs = [lambda n=n: encode(rep, n) for n in list(range(0, 61 if t else 37)) + [78]]
    jobs += [lambda L=L: decode(rep, L) for L in range(0, 81 if t else 46)]
    jobs += [lambda L=L: decode(rep, L, range(L + 1) if t else (0, 1, 2, L - 1)) for L in (50, 51, 52, 111, 112)]
    jobs += [lambda L=L: foreign(rep, L) for L in list(range(1, 40)) + [51, 52, 111]]
    rep.pmap(jobs[::-1])
