"""C30: Java Bech32 codec against BIP173, one value graph per length and separator position."""
import random
from ..terms import *
from ..cinterp import Undecided, assume
from ..jinterp import *
from ..jinterp import inranges, single, shape, stable_hash, valuesover, members, implied
from .. import equiv
from ..report import PROVED, REFUTED, UNDECIDED, AnchorLost
from .javaarith import fork, need, covered, lib
from . import javahash as jh
from .base58 import settle, holds, under
from .guards import rejects, IAE, short, pcterm

B = "Bech32"
W = B + ".java"
ALPHA = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
GEN = (0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)
UPPER, LOWER = [("A", "Z")], [("a", "z")]


# ---------------------------------------------------------------- the code itself

def pymod(vs):
    chk = 1
    for v in vs:
        top = chk >> 25
        chk = (chk & 0x1ffffff) << 5 ^ v
        for i in range(5):
            if top >> i & 1:
                chk ^= GEN[i]
    return chk


def pyexpand(h):
    return [ord(c) >> 5 for c in h] + [0] + [ord(c) & 31 for c in h]


def pyencode(h, d):
    pm = pymod(pyexpand(h) + list(d) + [0] * 6) ^ 1
    return h + "1" + "".join(ALPHA[x] for x in list(d) + [pm >> 5 * (5 - i) & 31 for i in range(6)])


def step(chk, v):
    """one symbol of the polynomial remainder, bit by bit"""
    top = [ext(chk, 25 + i, 1) for i in range(5)]
    low = cat([v, ext(chk, 0, 25)])
    return cat([bxor(*[ext(low, j, 1)] + [top[i] for i in range(5) if GEN[i] >> j & 1]) for j in range(30)])


def polymod(vs):
    chk = C(1, 30)
    for v in vs:
        chk = step(chk, v)
    return chk


def modterm(vs):
    """the remainder as an opaque function of its symbols"""
    UF_EVAL["bech32mod"] = lambda x, n: pymod([x >> 5 * i & 31 for i in range(n)])
    return uf("bech32mod", 30, cat(vs), len(vs))


def bxor(*xs):
    return bitop("xor", list(xs), xs[0].w)


def remainder(rep):
    """the private remainder function for every sequence of 5-bit values, per length"""
    ns = list(range(9, 174)) if rep.thorough else list(range(9, 80)) + [86, 95, 120, 153, 172, 173]
    return [lambda q=q: judge(rep, "Bech32 remainder of %d to %d values" % (q[0], q[-1]), lambda: contract(rep, q)) for q in [ns[i::24] for i in range(24)]]


def contract(rep, ns):
    """the remainder function against BIP173, for all values"""
    for n in ns:
        c = fork({})
        c.it.budget = 10 ** 7
        vs = [V("v%d" % i, 5) for i in range(n)]
        a = c.array("data", "B", [zext(v, 8) for v in vs])
        r = c.call(B, "polymod", a, desc="([B)")
        covered(rep, c)
        want = zext(polymod(vs), 32)
        st, d = equiv.decide([(ext(r, j, 1), ext(want, j, 1)) for j in range(32)], seed=rep.seed, tries=12)
        if st == PROVED and c.throws():
            st, d = UNDECIDED, "may throw " + short(c.throws()[0][2])
        if st != PROVED:
            return st, "%d values: %s" % (n, d)
    return PROVED, "%d lengths" % len(ns)


def judge(rep, name, f):
    def run():
        try:
            st, d = f()
        except Undecided as e:
            st, d = UNDECIDED, str(e)
        rep.ob(name, st, W, d)
    return rep.guard(name, run, W)


INLINE = []   # set where the remainder is not a function of its own with the expected contract


def hooks():
    """the remainder as a contract, if it is still a function of its own"""
    if not INLINE and lib().find(B, "polymod", "([B)") is None:
        INLINE.append(True)
    if INLINE:
        return {}

    def pm(it, st, a):
        vs = it.vals(st, it.obj(st, a[0]))
        low = [ext(v, 0, 5) for v in vs]
        for v in vs:
            hi = ext(v, 5, 3)
            if hi.op != "c" or cv(hi):
                k = it.decided(st, eq(hi, C(0, 3)))
                if k is not True:
                    raise Undecided("a checksum symbol of more than 5 bits")
        return zext(modterm(low), 32)
    return {B + ".polymod([B)": pm}


# ---------------------------------------------------------------- characters as maps

def charmap(t, x, dom):
    """a term in one character as a table over the characters that matter"""
    vs = tuple(valuesover(t, x, dom))
    if len(set(vs)) == 1:
        return C(vs[0], t.w)
    if t is x:
        return t
    name = "map" + stable_hash((vs, tuple(dom) if len(dom) < 600 else hash(tuple(dom))))
    if name not in UF_EVAL:
        d = dict(zip(dom, vs))
        UF_EVAL[name] = lambda c, d=d: d.get(c, 0)
    k = max(max(vs).bit_length(), 1)
    return zext(uf(name, k, x), t.w)


class Canon(object):
    """rewrites terms over characters whose possible values are known"""

    def __init__(self, doms):
        self.doms = doms
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.go(t)
        return r

    def go(self, t):
        if t.op in ("c", "v"):
            return t
        x = single(t)
        if x and x in self.doms:
            return charmap(t, x, self.doms[x])
        if t.op == "cat":
            return cat([self(a) for a in t.args])
        if t.op == "ext":
            return ext(self(t.args[0]), t.args[1], t.w)
        if t.op == "ite":
            return ite(*[self(a) for a in t.args])
        if t.op in ("and", "or", "xor"):
            return bitop(t.op, [self(a) for a in t.args], t.w)
        if t.op == "eq":
            return eq(self(t.args[0]), self(t.args[1]))
        if t.op == "ult":
            return ult(self(t.args[0]), self(t.args[1]))
        if t.op == "uf":
            return uf(t.args[0], t.w, *[self(a) if isinstance(a, T) else a for a in t.args[1:]])
        return t


ALL16 = range(1 << 16)


def conjuncts(t):
    """conjunction as (character -> conditions, other conditions)"""
    per, rest = {}, []
    todo = list(t.args) if t.op == "and" else [t]
    while todo:
        x = todo.pop()
        if x.op == "xor" and len(x.args) == 2 and x.args[0].op == "c" and x.args[1].op == "or":
            todo.extend(bnot(y) for y in x.args[1].args)
            continue
        if x is TRUE:
            continue
        v = single(x)
        if v and v.w == 16:
            per.setdefault(v, []).append(x)
        else:
            rest.append(x)
    return per, rest


_SETS = {}


def charset(x, conds):
    k = frozenset(shape(c) for c in conds)
    if k not in _SETS:
        _SETS[k] = members([(c, True) for c in conds], x)
    return _SETS[k]


def normal(ok, base, pairs, chars):
    """(character sets, condition, values) under an acceptance condition and the facts base (character -> conditions)"""
    per, rest = conjuncts(ok)
    doms = {}
    for x in chars:
        conds = per.get(x, []) + base.get(x, [])
        doms[x] = charset(x, conds) if conds else ALL16
    can = Canon(doms)
    cond = band(TRUE, *[can(c) for c in rest])
    return doms, settle(cond), [settle(can(v)) for v in pairs]


def accepted(ths, pre=()):
    """no exception, each condition under those before it"""
    facts = set()
    for q in pre:
        facts |= holds(q)
    ok = []
    for e in ths:
        q = bnot(under(pcterm(e[3]), facts))
        ok.append(q)
        facts |= holds(q)
    return band(TRUE, *ok)


def compare(rep, okc, okS, base, vals, chars, pre, draw, tries=300):
    """acceptance and, where accepted, values: code against specification"""
    okc, okS = under(okc, set(pre)), under(okS, set(pre))
    if okc is FALSE and okS is FALSE:
        return PROVED, "rejected"
    if okc is not FALSE and okS is not FALSE and all(isinstance(a, T) for p in vals for a in p):
        a = normal(okc, base, [x for x, y in vals], chars)
        b = normal(okS, base, [y for x, y in vals], chars)
        if all(list(a[0][x]) == list(b[0][x]) for x in chars) and a[1] is b[1] and all(p is q for p, q in zip(a[2], b[2])):
            return PROVED, "identical normal forms"
    pairs = [(okc, okS)] + [(ite(okS, x, C(0, x.w)), ite(okS, y, C(0, y.w))) for x, y in vals]
    return equiv.decide(pairs, pre=list(pre), draw=draw, seed=rep.seed, tries=tries, steer=0)


# ---------------------------------------------------------------- strings that should separate

def folded(f):
    """the outcome of a call on constants: 'returns', an exception class, or None"""
    c = fork({})
    c.it.budget = 10 ** 6
    try:
        f(c)
        return "returns"
    except Dead:
        th = c.throws()
        return th[-1][2] if th else None
    except Undecided:
        return None


def kept(f, cands, says):
    """first candidate for which the call on constants does not end in IllegalArgumentException"""
    for x in cands:
        if x is None:
            continue
        o = folded(lambda c: f(c, x))
        if o == "returns" or o and not fork({}).it.subclass(o, IAE):
            return "%s %s" % (says if o == "returns" else "throws " + short(o) + ":", ascii(x))
    return None


def js(s):
    return JStr([C(ord(x), 16) for x in s])


def craft(r, h, n):
    """a string with remainder 1 over n data characters, for any n, by solving for the low bits of the human-readable part"""
    for t in range(20):
        data = [r.randrange(32) for _ in range(n)]
        low = [r.randrange(1, 27) for _ in range(h)]
        f = lambda l: pymod([3] * h + [0] + l + data)
        rows, want = [], f(low) ^ 1
        for i in range(h):
            for b in range(5):
                l = list(low)
                l[i] ^= 1 << b
                rows.append((f(l) ^ f(low), 1 << 5 * i + b))
        r.shuffle(rows)
        sol, basis = 0, []
        for v, m in rows:
            for bv, bm in basis:
                if v ^ bv < v:
                    v, m = v ^ bv, m ^ bm
            if v:
                basis.append((v, m))
                basis.sort(reverse=True)
        for bv, bm in basis:
            if want ^ bv < want:
                want, sol = want ^ bv, sol ^ bm
        if want:
            return None
        low = [x ^ (sol >> 5 * i & 31) for i, x in enumerate(low)]
        if 31 not in low:
            return "".join(chr(0x60 + x) for x in low) + "1" + "".join(ALPHA[x] for x in data)
    return None


# ---------------------------------------------------------------- decoding strings

def lowered(c):
    return ite(inranges(c, UPPER), add(c, C(32, 16)), c)


def draw_decode(r, L, p, case, first=None):
    """a string of this shape that is often valid"""
    h, n = p, L - p - 1
    if n < 6 and h >= 8 and first is None:
        s = craft(r, h, n)
        if s:
            return {"c%d" % i: ord(c.upper() if case == "upper" else c) for i, c in enumerate(s)}
    for t in range(200):
        hp = "".join(chr(r.choice([r.randrange(33, 65), r.randrange(91, 127), 33, 126, 49, 96, 123])) for _ in range(h))
        if first is not None and first < p:
            hp = hp[:first].replace("1", "2") + "1" + hp[first + 1:]
        d = [r.randrange(32) for _ in range(max(n - 6, 0))]
        s = pyencode(hp, d) if n >= 6 else hp + "1" + "".join(r.choice(ALPHA) for _ in range(n))
        q = r.randrange(8)
        s = list(s)
        if q == 1 and n >= 6:
            pm = pymod(pyexpand(hp) + d + [0] * 6) ^ r.choice([0, 0x2bc830a3, 1 << r.randrange(30), 1 << r.randrange(30), 1 << 29, r.randrange(1 << 30) & r.randrange(1 << 30)])
            s[-6:] = [ALPHA[pm >> 5 * (5 - i) & 31] for i in range(6)]
        if case == "upper":
            s = [c.upper() if "a" <= c <= "z" else c for c in s]
        if q == 2:
            i = r.randrange(L)
            if i != p:
                s[i] = chr(r.choice([ord(s[i]) ^ 1, ord(s[i]) | 0x80, ord(s[i]) + 256, 32, 127, 0, 0x212a, r.randrange(33, 127), ord("b"), ord("i"), ord("o")]))
        if q == 4:
            alike = {"k": "\u212a", "i": "\u0130", "s": "\u017f"}
            s = [alike.get(x.lower(), x) if r.random() < .7 else x for x in s]
        if q == 5:
            i = r.randrange(L)
            s[i] = chr(ord(s[i]) | r.choice([0x80, 0x100, 0x1000, 0xff00, 0x8000])) if i != p else s[i]
        if q == 3 and n:
            s[r.randrange(p + 1, L)] = r.choice("bio!~ \x00\u0431")
        if q == 6 and h:
            s[r.randrange(h)] = r.choice("\x20\x7f\x80\u0100\x00\xff\x1f\t")
        break
    return {"c%d" % i: ord(c) for i, c in enumerate(s)}


def decode_case(rep, L, p, case):
    try:
        return decode_part(rep, L, p, case, None)
    except Undecided:
        if not p:
            raise
        # a split that depends on earlier separators: by the position of the first one
        for first in range(p, -1, -1):
            st, d = decode_part(rep, L, p, case, first)
            if st != PROVED:
                return st, "first separator at %d: %s" % (first, d)
        return PROVED, ""


def decode_part(rep, L, p, case, first):
    """p: position of the last separator, or None; first: position of the first, or None for any"""
    cs = [V("c%d" % i, 16) for i in range(L)]
    chars = list(cs)
    base, pre = {}, []
    c = fork(hooks())
    c.it.budget = 10 ** 7

    def know(x, cond):
        assume(c.st, cond, True)
        base.setdefault(x, []).append(cond)
        pre.append(cond)
    for i, x in enumerate(cs):
        if i == p or i == first:
            chars[i] = C(ord("1"), 16)
            continue
        if first is not None and i < first:
            know(x, ne(x, C(ord("1"), 16)))
        know(x, bnot(inranges(x, UPPER if case == "lower" else LOWER)))
        if p is None or i > p:
            know(x, ne(x, C(ord("1"), 16)))
    free = [x for i, x in enumerate(cs) if i not in (p, first)]
    low = [lowered(x) if case == "upper" else x for x in chars]
    done = True
    try:
        r = c.call(B, "bech32ToBitGroups", JStr(chars))
    except Dead:
        done = False
    covered(rep, c)
    th = c.throws()

    def draw(g, vs):
        if p is None:
            e = {v.args[0]: g.r.choice([33, 97 if case == "lower" else 65, 50, g.r.randrange(128)]) for v in free}
        else:
            e = draw_decode(g.r, L, p, case, first)
        return e
    for e in th:
        if not c.it.subclass(e[2], IAE):
            pc = under(pcterm(e[3]), set(pre))
            if pc is FALSE:
                continue
            s = equiv.separate([(pc, FALSE)], pre=pre, draw=draw, seed=rep.seed, tries=60, steer=0)
            return (UNDECIDED, "may throw %s" % short(e[2])) if s is None else (REFUTED, "throws %s at %s" % (short(e[2]), equiv.show_env(s[1])))
    if p is None or p < 1 or p > 83 or L - p - 1 < 6 or L > 90:
        ok = FALSE
    else:
        hp, ds = low[:p], low[p + 1:]
        ok = band(TRUE, *[band(ule(C(33, 16), x), ule(x, C(126, 16))) for x in hp])
        ok = band(ok, *[instring(ALPHA, x) for x in ds])
        vals = [ext(x, 5, 3) for x in hp]
        sym = [zext(v, 5) for v in vals] + [C(0, 5)] + [ext(x, 0, 5) for x in hp] + [ext(position(ALPHA, x), 0, 5) for x in ds]
        rem = modterm(sym) if hooks() else polymod(sym)
        ok = band(ok, eq(rem, C(1, 30)))
    pairs = []
    if done:
        parts = c.it.vals(c.st, c.it.obj(c.st, r))
        if len(parts) != 2:
            return UNDECIDED, "result of %d parts" % len(parts)
        if ok is not FALSE:
            s = c.it.s(c.st, parts[0]).chars
            d = c.it.vals(c.st, c.it.obj(c.st, parts[1]))
            if len(s) != p or len(d) != L - p - 7:
                st, q = equiv.decide([(FALSE, ok)], pre=pre, draw=draw, seed=rep.seed, tries=60, steer=0)
                return st if st == REFUTED else UNDECIDED, "result lengths %d and %d, specified are %d and %d" % (len(s), len(d), p, L - p - 7)
            pairs = list(zip(s, low[:p])) + [(x, zext(position(ALPHA, y), 8)) for x, y in zip(d, low[p + 1:])]
    okc = accepted(th, pre) if done else FALSE
    return compare(rep, okc, ok, base, pairs, free, pre, draw)


def decode(rep, L, ps):
    ps = [p for p in ps if p is None or 0 <= p < L]

    def f():
        for case in ("lower", "upper"):
            for p in ps:
                try:
                    st, d = decode_case(rep, L, p, case)
                except Undecided as e:
                    st, d = UNDECIDED, str(e)
                if st != PROVED:
                    return st, "separator %s, %s case: %s" % ("missing" if p is None else "at %d" % p, case, d)
        return PROVED, "%d separator positions" % len(ps)
    judge(rep, "bech32ToBitGroups: every string of length %d in one case%s" % (L, "" if len(ps) == L + 1 else " (%d separator positions)" % len(ps)), f)


def mixed(rep, L):
    cs = [V("c%d" % i, 16) for i in range(L)]
    lo, up = bor(FALSE, *[inranges(x, LOWER) for x in cs]), bor(FALSE, *[inranges(x, UPPER) for x in cs])
    name = "bech32ToBitGroups: every string of length %d with letters of both cases" % L

    missed = []

    def candidates():
        """strings valid but for a letter of the other case, preferring letters the code's own conditions leave out"""
        r = random.Random(rep.seed)
        q = {}
        for m in missed:
            for v, k in m:
                q.setdefault(int(v.args[0][1:]), []).extend(k)
        for t in range(60):
            if L < 8:
                return
            p = r.randrange(1, L - 6)
            at = r.choice(sorted(q)) if q and r.random() < .8 else r.randrange(L)
            ch = chr(r.choice(q[at])) if at in q else r.choice("abz")
            hp = [r.choice("2#~ghkz") for _ in range(p)]
            d = [r.randrange(32) for _ in range(L - p - 7)]
            if at < p:
                hp[at] = ch.lower()
            elif p < at < L - 6 and ch.lower() in ALPHA:
                d[at - p - 1] = ALPHA.index(ch.lower())
            s = list(pyencode("".join(hp), d))
            if t % 3 == 2:
                s = [x if i == at or not x.isalpha() or r.random() < .8 else x.upper() for i, x in enumerate(s)]
            elif ch.isupper():
                s[at] = s[at].upper()
            else:
                s = [x if i == at else x.upper() for i, x in enumerate(s)]
            if any("a" <= x <= "z" for x in s) and any("A" <= x <= "Z" for x in s):
                yield "".join(s)

    def setup(c):
        assume(c.st, lo, True)
        assume(c.st, up, True)
        c.it.oracle = implied([lo, up], missed)
        return c.call(B, "bech32ToBitGroups", JStr(list(cs)))

    def f():
        try:
            q = rejects(rep, name, W, setup, (IAE,), pre=band(lo, up), hooks=hooks())
        except Undecided as e:
            q = UNDECIDED, str(e)
        if q[0] == UNDECIDED:
            s = kept(lambda c, x: c.call(B, "bech32ToBitGroups", js(x)), candidates(), "accepted:")
            if s:
                return REFUTED, s
        return q
    judge(rep, name, f)


def toolong(rep, L):
    cs = [V("c%d" % i, 16) for i in range(L)]

    def f():
        try:
            q = rejects(rep, "", W, lambda c: c.call(B, "bech32ToBitGroups", JStr(list(cs))), (IAE,), hooks=hooks())
        except Undecided as e:
            q = UNDECIDED, str(e)
        if q[0] == UNDECIDED:
            ok = [pyencode("a" * h, [0] * (L - h - 7)) for h in (1, 2, 20, 83)] + [craft(random.Random(1), L - 4, 3)]
            s = kept(lambda c, x: c.call(B, "bech32ToBitGroups", js(x)), ok, "accepted:")
            if s:
                return REFUTED, s
        return q
    judge(rep, "bech32ToBitGroups: every string of length %d" % L, f)


# ---------------------------------------------------------------- encoding

def encode_case(rep, h, d):
    hp = [V("h%d" % i, 16) for i in range(h)]
    ds = [V("d%d" % i, 5) for i in range(d)]
    c = fork(hooks())
    c.it.budget = 10 ** 7
    pre = []
    for x in hp:
        for q in (ule(C(33, 16), x), ule(x, C(126, 16)), bnot(inranges(x, UPPER))):
            assume(c.st, q, True)
            pre.append(q)
    a = c.array("data", "B", [zext(x, 8) for x in ds])
    r = c.call(B, "bitGroupsToBech32", JStr(list(hp)), a)
    covered(rep, c)
    got = c.it.s(c.st, r).chars
    sym = [ext(x, 5, 5) for x in hp] + [C(0, 5)] + [ext(x, 0, 5) for x in hp] + ds + [C(0, 5)] * 6
    rem = bxor(modterm(sym) if hooks() else polymod(sym), C(1, 30))
    want = hp + [C(49, 16)] + [chartable(ALPHA, zext(x, 32)) for x in ds] + [chartable(ALPHA, zext(ext(rem, 5 * (5 - i), 5), 32)) for i in range(6)]
    if len(got) != len(want):
        return REFUTED, "%d characters, specified are %d" % (len(got), len(want))
    base = {x: [q for q in pre if single(q) is x] for x in hp}
    doms = {x: charset(x, base[x]) for x in hp}
    can = Canon(doms)
    pairs = [(ext(x, 0, 16), y) for x, y in zip(got, want)] + list(zip(c.it.vals(c.st, a.obj), [zext(x, 8) for x in ds]))
    th = [e for e in c.throws() if under(pcterm(e[3]), set(pre)) is not FALSE]

    def draw(g, vs):
        e = {v.args[0]: g.value(v.w) for v in vs}
        for v in vs:
            if v.w == 16:
                e[v.args[0]] = g.r.choice([33, 126, 64, 91, g.r.randrange(33, 65), g.r.randrange(91, 127)])
        return e
    for e in th:
        s = equiv.separate([(pcterm(e[3]), FALSE)], pre=pre, draw=draw, seed=rep.seed, tries=60, steer=0)
        return (UNDECIDED, "may throw %s" % short(e[2])) if s is None else (REFUTED, "throws %s at %s" % (short(e[2]), equiv.show_env(s[1])))
    if all(can(x) is can(y) for x, y in pairs):
        return PROVED, ""
    return equiv.decide(pairs, pre=pre, draw=draw, seed=rep.seed, tries=40, steer=0)


def encode(rep, h, dl):
    dl = [d for d in dl if 0 <= d <= 83 - h]

    def f():
        for d in dl:
            st, q = encode_case(rep, h, d)
            if st != PROVED:
                return st, "%d data values: %s" % (d, q)
        return PROVED, "%d data lengths" % len(dl)
    judge(rep, "bitGroupsToBech32: human-readable parts of %d characters (%s data lengths)" % (h, "all" if len(dl) == 84 - h else len(dl)), f)


def encode_rejects(rep, h, d):
    hp = [V("h%d" % i, 16) for i in range(h)]

    def f():
        pre = [bnot(band(ule(C(33, 16), x), ule(x, C(126, 16)), bnot(inranges(x, UPPER)))) for x in hp]
        setup = lambda c: c.call(B, "bitGroupsToBech32", JStr(list(hp)), c.array("data", "B", [V("d%d" % i, 8) for i in range(d)]))
        fold = lambda c, x: c.call(B, "bitGroupsToBech32", js(x[0]), c.array("data", "B", [C(v, 8) for v in x[1]]))

        def rej(setup, pre, cands):
            try:
                q = rejects(rep, "", W, setup, (IAE,), pre=pre, hooks=hooks())
            except Undecided as e:
                q = UNDECIDED, str(e)
            s = kept(fold, cands, "accepted:") if q[0] == UNDECIDED else None
            return (REFUTED, s) if s else q
        if h < 1 or h + d > 83:
            return rej(setup, TRUE, [("a" * h, [1] * d)])
        for i, q in enumerate(pre):
            bad = [("a" * i + x + "a" * (h - i - 1), [1] * d) for x in "AZMKB \x7f\x80\xff\x00\x1f\u0130\u212a\u0161"]
            st, r = rej(lambda c: (assume(c.st, q, True), setup(c)), q, bad)
            if st != PROVED:
                return st, r
        return PROVED, "%d positions" % h
    judge(rep, "bitGroupsToBech32 rejects %s" % ("parts of %d characters with %d values" % (h, d) if h < 1 or h + d > 83 else
                                                 "an unsuitable character in parts of %d characters" % h), f)


# ---------------------------------------------------------------- segwit layer

def segwit_encode(rep, n):
    def f():
        got = []

        def enc(it, st, a):
            got.append((a[0], it.vals(st, it.obj(st, a[1])), st.pc))
            return JStr([V("out%d" % i, 16) for i in range(20)])
        c = fork({B + ".bitGroupsToBech32(Ljava/lang/String;[B)": enc})
        v = zext(V("witVer", 5), 32)
        pre = ule(v, C(16, 32))
        assume(c.st, pre, True)
        ps = jh.syms("p", n)
        a = c.array("witProg", "B", ps)
        h = JStr([V("h%d" % i, 16) for i in range(3)])
        hs = [q for x in h.chars for q in (ule(C(97, 16), x), ule(x, C(122, 16)))]
        for q in hs:
            assume(c.st, q, True)
        r = c.call(B, "segwitToBech32", h, v, a)
        covered(rep, c)
        if not got:
            return UNDECIDED, "not passed to bitGroupsToBech32"
        th = [e for e in c.throws() if under(pcterm(e[3]), {pre} | set(hs)) is not FALSE]
        draw = lambda g, vs: dict({x.args[0]: g.r.randrange(97, 123) if x.w == 16 else g.value(x.w) for x in vs}, witVer=g.r.randrange(17))
        for e in th:
            s = equiv.separate([(pcterm(e[3]), FALSE)], pre=[pre], draw=draw, seed=rep.seed, tries=60, steer=0)
            return (UNDECIDED, "may throw %s" % short(e[2])) if s is None else (REFUTED, "throws %s at %s" % (short(e[2]), equiv.show_env(s[1])))
        if len(got) != 1 or list(c.it.s(c.st, r).chars) != [V("out%d" % i, 16) for i in range(20)] or not jsame(got[0][0], h):
            return UNDECIDED, "not passed to bitGroupsToBech32"
        bits = [ext(x, 7 - i, 1) for x in ps for i in range(8)]
        bits += [C(0, 1)] * (-len(bits) % 5)
        want = [ext(v, 0, 8)] + [zext(cat(bits[i:i + 5][::-1]), 8) for i in range(0, len(bits), 5)]
        if len(want) != len(got[0][1]):
            return REFUTED, "%d groups, specified are %d" % (len(got[0][1]), len(want))
        return equiv.decide(list(zip(got[0][1], want)) + list(zip(c.it.vals(c.st, a.obj), ps)), pre=[pre], draw=draw, seed=rep.seed, tries=40, steer=0)
    judge(rep, "segwitToBech32: every program of %d bytes" % n, f)


def segwit_decode(rep, n):
    def f():
        h = JStr([V("h%d" % i, 16) for i in range(3)])
        ds = [V("d%d" % i, 5) for i in range(n)]
        src = []

        def dec(it, st, a):
            src.append(a[0])
            d = it.array(st, "groups", "B", [zext(x, 8) for x in ds])
            return it.array(st, "pair", "Ljava/lang/Object;", [h, d])
        c = fork({B + ".bech32ToBitGroups(Ljava/lang/String;)": dec})
        s = JStr([V("c%d" % i, 16) for i in range(4)])
        done = True
        try:
            r = c.call(B, "bech32ToSegwit", s)
        except Dead:
            done = False
        covered(rep, c)
        if not src:
            return UNDECIDED, "string not passed to bech32ToBitGroups"
        th = c.throws()
        m = (n - 1) * 5 // 8 if n else 0
        pad = (n - 1) * 5 - 8 * m if n else 0
        ok = FALSE
        vals = []
        if n and 2 <= m <= 40 and pad < 5:
            bits = [ext(x, 4 - i, 1) for x in ds[1:] for i in range(5)]
            ok = band(ule(ds[0], C(16, 5)), *[eq(cat(bits[8 * m:][::-1]), C(0, pad))] if pad else [])
            vals = [cat(bits[8 * i:8 * i + 8][::-1]) for i in range(m)]

        def draw(g, vs):
            e = {x.args[0]: g.value(x.w) for x in vs}
            e["d0"] = g.r.randrange(18)
            if n > 1 and pad < 5:
                e["d%d" % (n - 1)] = g.r.choice([0, g.r.randrange(32) >> pad << pad, g.r.randrange(32)])
            return e
        for e in th:
            if not c.it.subclass(e[2], IAE):
                q = equiv.separate([(pcterm(e[3]), FALSE)], draw=draw, seed=rep.seed, tries=60, steer=0)
                if q is None and pcterm(e[3]) is FALSE:
                    continue
                return (UNDECIDED, "may throw %s" % short(e[2])) if q is None else (REFUTED, "throws %s at %s" % (short(e[2]), equiv.show_env(q[1])))
        pairs = [(settle(accepted(th)) if done else FALSE, settle(ok))]
        if done and not (src and jsame(src[0], s)):
            return UNDECIDED, "string not passed to bech32ToBitGroups"
        if done and ok is not FALSE:
            parts = c.it.vals(c.st, c.it.obj(c.st, r))
            if len(parts) != 3 or not isinstance(parts[1], JBox):
                return UNDECIDED, "result shape"
            p = c.it.vals(c.st, c.it.obj(c.st, parts[2]))
            if len(p) != m:
                return REFUTED, "program of %d bytes, specified are %d" % (len(p), m)
            if not jsame(parts[0], h):
                return UNDECIDED, "human-readable part"
            pairs += [(ite(ok, x, C(0, x.w)), ite(ok, y, C(0, y.w))) for x, y in zip([parts[1].v] + p, [zext(ds[0], 32)] + vals)]
        return equiv.decide(pairs, draw=draw, seed=rep.seed, tries=60, steer=0)
    judge(rep, "bech32ToSegwit: every sequence of %d groups" % n, f)


# ---------------------------------------------------------------- consistency of the specification

def roundtrip(rep):
    """appending the checksum gives remainder 1 (for the specification graphs the two directions are compared with)"""
    def f():
        for n in (1, 2, 5, 9, 20, 40, 90) + ((130, 167) if rep.thorough else ()):
            vs = [V("v%d" % i, 5) for i in range(n)]
            rem = bxor(polymod(vs + [C(0, 5)] * 6), C(1, 30))
            st, d = equiv.decide([(polymod(vs + [ext(rem, 5 * (5 - i), 5) for i in range(6)]), C(1, 30))], seed=rep.seed)
            if st != PROVED:
                return st, d
        return PROVED, "the checksum of a sequence makes its remainder 1"
    judge(rep, "BIP173 checksum and verification agree", f)


def c30(rep):
    need(B + ".segwitToBech32", B + ".bech32ToSegwit", B + ".bitGroupsToBech32", B + ".bech32ToBitGroups")
    t = rep.thorough
    if hooks():
        try:
            st, d = contract(rep, (9, 10, 12, 17))
        except Undecided:
            st = UNDECIDED
        if st != PROVED:
            INLINE.append(True)
    jobs = remainder(rep) if hooks() else []
    cut = (lambda x: x) if hooks() else lambda x: [i for i in x if i < 20 or i > 90]
    jobs.append(lambda: roundtrip(rep))
    for L in cut(range(91) if t else list(range(0, 19)) + [39, 42, 62, 74, 88, 89, 90]):
        ps = [None] + list(range(L))
        if L > 18 and not t:
            ps = [None, 0, 1, 2, 3, 4, 5, L // 2, L - 9, L - 8, L - 7, L - 6, L - 2, L - 1]
        jobs.append(lambda L=L, ps=ps: decode(rep, L, ps))
    jobs += [lambda L=L: mixed(rep, L) for L in cut(list(range(2, 20)) + [42, 62, 90])]
    jobs += [lambda L=L: toolong(rep, L) for L in (91, 92, 93, 96, 100, 128, 180, 256)]
    jobs += [lambda h=h: encode(rep, h, range(84) if t and hooks() or hooks() and h < 7 else (0, 1, 2, 6, 33, 53, 83 - h) if hooks() else (0, 3)) for h in (range(1, 84) if hooks() else (1, 2, 5))]
    jobs += [lambda a=a: encode_rejects(rep, *a) for a in [(0, 0), (0, 5), (1, 5), (2, 5), (3, 0), (5, 33), (20, 7), (83, 0), (84, 0), (90, 0), (1, 83), (2, 82), (40, 44), (82, 2), (83, 1)]]
    jobs += [lambda n=n: segwit_encode(rep, n) for n in range(2, 41)]
    jobs += [lambda n=n: segwit_decode(rep, n) for n in range(0, 84)]
    rep.pmap(jobs)
