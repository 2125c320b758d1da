"""C++ Base58Check: encoding by case partition on leading zeros and digit count, decoding per string length."""
import hashlib
from ..terms import *
from ..cinterp import *
from .. import equiv
from ..arith import N as ORDER, decide_int
from ..cspec import Missing
from ..report import PROVED, REFUTED, UNDECIDED, AnchorLost
from .cpparith import base, fork, need, CONFIGS
from .cppcurve import bit1

ALPHA = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
B = "Base58Check::"
ENC = {"pub": B + "pubkeyHashToBase58Check(unsigned char const*, unsigned char, char*)",
       "priv": B + "privateKeyToBase58Check(Uint256 const&, unsigned char, bool, char*)",
       "ext": B + "extendedPrivateKeyToBase58Check(ExtendedPrivateKey const&, char*)"}
DBL = "Sha256::getDoubleHash(unsigned char const*, unsigned long)"


def sha256d(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def table_term(idx):
    """ALPHABET[idx] as the interpreter writes a constant table read"""
    d = {i: ord(ch) for i, ch in enumerate(ALPHA)}
    idx = zext(idx, 64)
    offs = list(range(min(ub(idx), 57) + 1))
    if len(offs) <= 4:
        r = C(d[offs[-1]], 8)
        for o in reversed(offs[:-1]):
            r = ite(eq(idx, C(o, 64)), C(d[o], 8), r)
        return r
    d = {o: d[o] for o in offs}
    nm = "table" + stable_hash(tuple((o, d[o]) for o in offs))
    UF_EVAL[nm] = lambda x, d=d: d.get(x, 0)
    return uf(nm, 8, idx)


class Range(object):
    """interval facts about one value, its top slices and everything divided out of them"""

    def __init__(self, X, lo, hi):
        self.f = {}
        self.memo = {}
        for s in range(0, X.w, 8):
            t = ext(X, s, X.w - s)
            if t.op != "c":
                self.f[t] = (lo >> s, hi >> s)
                k = max(1, ub(t).bit_length())
                if k < t.w:
                    self.f[ext(t, 0, k)] = (lo >> s, hi >> s)

    def iv(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._iv(t)
        return r

    def _iv(self, t):
        if t in self.f:
            return self.f[t]
        if t.op == "c":
            return cv(t), cv(t)
        lo, hi = 0, ub(t)
        if t.op == "ext":
            a, b = self.iv(t.args[0])
            s = t.args[1]
            if (a >> s) >> t.w == (b >> s) >> t.w:
                lo, hi = max(lo, (a >> s) & ones(t.w)), min(hi, (b >> s) & ones(t.w))
        elif t.op == "udiv" and is_c(t.args[1]):
            a, b = self.iv(t.args[0])
            d = cv(t.args[1])
            lo, hi = a // d, min(hi, b // d)
        elif t.op == "cat":
            lo = hi = s = 0
            for x in t.args:
                a, b = self.iv(x)
                lo |= a << s
                hi |= b << s
                s += x.w
        elif t.op == "ite":
            a, b = self.iv(t.args[1]), self.iv(t.args[2])
            lo, hi = min(a[0], b[0]), max(a[1], b[1])
        return lo, hi

    def __call__(self, c):
        if c.op == "c":
            return bool(cv(c))
        if c.op == "xor" and len(c.args) == 2 and c.args[0].op == "c":
            r = self(c.args[1])
            return None if r is None else not r
        if c.op in ("and", "or"):
            args = self.join(c.args) if c.op == "and" else c.args
            rs = [self(x) for x in args]
            stop = c.op == "or"
            if any(r is stop for r in rs):
                return stop
            return None if None in rs else not stop
        if c.op in ("eq", "ult"):
            (a, b), (p, q) = self.iv(c.args[0]), self.iv(c.args[1])
            if c.op == "eq":
                if b < p or q < a:
                    return False
                return True if a == b == p == q else None
            return True if b < p else False if a >= q else None
        a, b = self.iv(c)
        return bool(a) if a == b else None


    def join(self, args):
        """zero tests of adjacent slices become one zero test"""
        zs, rest = [], []
        for x in args:
            if x.op == "eq" and any(y.op == "c" and cv(y) == 0 for y in x.args):
                zs.append(x.args[1] if x.args[0].op == "c" else x.args[0])
            elif x.op == "xor" and len(x.args) == 2 and x.args[0].op == "c" and x.args[1].op in ("ext", "udiv"):
                zs.append(x.args[1])
            else:
                rest.append(x)
        more = True
        while more:
            more = False
            for a in zs:
                for b in zs:
                    j = cat([a, b]) if a is not b else None
                    if j is not None and j.op != "cat":
                        zs = [x for x in zs if x is not a and x is not b] + [j]
                        more = True
                        break
                if more:
                    break
        return rest + [eq(x, C(0, x.w)) for x in zs]


def nd(x):
    n = 0
    while x:
        x //= 58
        n += 1
    return n


def fields(kind, comp=True):
    """payload layout: (field, bytes) or a constant byte"""
    if isinstance(kind, int):
        return [("data", kind)] if kind else []
    if kind == "pub":
        return [("version", 1), ("hash", 20)]
    if kind == "priv":
        return [("version", 1), ("key", 32)] + ([0x01] if comp else [])
    return [4, 0x88, 0xAD, 0xE4, ("depth", 1), ("fingerprint", 4), ("index", 4), ("chain", 32), 0, ("key", 32)]


class Case(object):
    """payload and checksum bytes with z leading zero bytes and d base-58 digits"""

    def __init__(self, kind, comp, z, d):
        self.kind, self.comp, self.z, self.d = kind, comp, z, d
        self.lay = fields(kind, comp) + [("check", 4)]
        self.n = sum(1 if isinstance(f, int) else f[1] for f in self.lay)
        self.bytes, self.field = [], {}
        self.ok = True
        for f in self.lay:
            if isinstance(f, int):
                if (len(self.bytes) < z and f) or (len(self.bytes) == z and not f):
                    self.ok = False
                self.bytes.append(C(f, 8))
                continue
            nm, k = f
            p = len(self.bytes)
            zero = max(0, min(k, z - p))
            v = V(nm, 8 * (k - zero)) if k > zero else None
            bs = [C(0, 8)] * zero + (bytes_be(v) if v is not None else [])
            self.field[nm] = (bs, v, p)
            self.bytes += bs
        self.X = from_be(self.bytes)
        if not self.ok:
            return
        lo = hi = 0
        for i, b in enumerate(self.bytes):
            lo = lo << 8 | (cv(b) if b.op == "c" else int(i == z))
            hi = hi << 8 | (cv(b) if b.op == "c" else 255)
        self.full = (lo, hi)
        if d is None:
            self.digits = list(range(nd(lo), nd(hi) + 1))
            return
        self.lo, self.hi = max(lo, 58 ** (d - 1) if d else 0), min(hi, 58 ** d - 1)
        self.range = Range(self.X, self.lo, self.hi)

    def name(self):
        return "%d-byte payload%s, %d leading zero bytes, %d digits" % (
            self.n - 4, "" if self.kind != "priv" else " (compressed)" if self.comp else " (uncompressed)", self.z, self.d)

    def chars(self):
        X = self.X
        r = [C(ord("1"), 8)] * self.z
        for k in reversed(range(self.d)):
            q = udiv(X, C(58 ** k, X.w)) if (58 ** k).bit_length() <= X.w else C(0, X.w)
            r.append(table_term(ext(urem(q, C(58, X.w)), 0, 8)))
        return r + [C(0, 8)]

    def pre(self):
        w = self.X.w
        return [ule(C(self.lo, w), self.X), ule(self.X, C(self.hi, w))]

    def draw(self, g, vs):
        e = {v.args[0]: g.value(v.w) for v in vs}
        for t in range(60):
            x = g.r.choice([self.lo, self.hi, g.r.randint(self.lo, self.hi), g.r.randint(self.lo, self.hi)])
            x = (x & ~0xffffffff) | int.from_bytes(sha256d((x >> 32).to_bytes(self.n - 4, "big"))[:4], "big")
            for nm, (bs, v, p) in self.field.items():
                if v is not None:
                    k = v.w // 8
                    end = p + len(bs)
                    e[nm] = x >> 8 * (self.n - end) & ones(v.w)
            # constant bytes
            y = 0
            for b, i in zip(self.bytes, range(self.n)):
                y = y << 8 | (cv(b) if b.op == "c" else x >> 8 * (self.n - 1 - i) & 255)
            c = int.from_bytes(sha256d((y >> 32).to_bytes(self.n - 4, "big"))[:4], "big")
            v = self.field["check"][1]
            if v is not None:
                e["check"] = c & ones(v.w)
                if v.w < 32 and c >> v.w:
                    continue
            elif c:
                continue
            y = y >> 32 << 32 | c
            if self.lo <= y <= self.hi:
                break
        rest = sha256d((y >> 32).to_bytes(self.n - 4, "big"))[4:]
        if "check.rest" in e:
            e["check.rest"] = int.from_bytes(rest, "little")
        return e


def cases(kind):
    for comp in ((True, False) if kind == "priv" else (True,)):
        n = sum(1 if isinstance(f, int) else f[1] for f in fields(kind, comp)) + 4
        for z in range(n + 1):
            a = Case(kind, comp, z, None)
            if a.ok:
                for d in a.digits:
                    yield kind, comp, z, d


def encode_case(rep, cfg, case, hooks=None):
    fn = ENC[case.kind]
    tag = "%s: %s [%s]" % (fn.split("(")[0], case.name(), cfg)

    def run():
        seen = []

        def dbl(it, st, a):
            n = a[2]
            if n.op != "c" or cv(n) > 4096:
                raise Undecided("hash of unknown length")
            data = [it.load(st, it.padd(a[1], i), 1) for i in range(cv(n))]
            seen.append(data)
            chk = case.field["check"][0]
            if data == case.bytes[:-4]:
                val = cat([from_le(chk), V("check.rest", 224)])
            else:
                UF_EVAL["sha256d"] = lambda x, k: int.from_bytes(sha256d(x.to_bytes(k, "little")), "little")
                val = uf("sha256d", 256, from_le(data), len(data))
            it.store(st, a[0], val)
        h = {DBL: dbl}
        h.update(hooks or {})
        c = fork(cfg, h)
        c.it.oracle = case.range
        c.it.budget = 10 ** 8
        f = {nm: from_le(bs) for nm, (bs, v, p) in case.field.items()}
        size = {"pub": 36, "priv": 53, "ext": 112}[case.kind]
        out = c.obj("outStr", None, size)
        for i in range(size):
            c.it.put(c.st, out.obj, i, V("out%d" % i, 8))
        ins = []
        if case.kind == "pub":
            p = c.obj("pubkeyHash", f["hash"])
            ins = [(p, f["hash"])]
            c.call(fn, p, f["version"], out)
        elif case.kind == "priv":
            k = from_le(bytes_be(f["key"]))
            p = c.obj("privKey", k)
            ins = [(p, k)]
            c.call(fn, p, f["version"], C(int(case.comp), 1), out)
        else:
            from .cppecdsa import xpk_layout
            lay = xpk_layout(base(cfg))
            if lay is None:
                raise Undecided("layout of ExtendedPrivateKey")
            sz, off = lay
            p = c.obj("key", None, sz)
            vals = {"privateKey": from_le(bytes_be(f["key"])), "publicKey": V("publicKey", 768), "chainCode": f["chain"], "depth": f["depth"],
                    "index": from_le(bytes_be(f["index"])), "parentPubkeyHash": f["fingerprint"]}
            for nm, v in vals.items():
                c.it.put(c.st, p.obj, off[nm], v)
            c.call(fn, p, out)
            ins = [(None, None)]
            now = [(c.rd(p, v.w // 8, off[nm]), v) for nm, v in vals.items()]
        rep.functions |= c.it.visited
        bad = [e for e in c.it.events if e[0] in ("oob", "oob?", "null", "uninit", "ub", "assert", "noreturn")]
        want = case.chars()
        pairs = list(zip([c.rd(out, 1, i) for i in range(len(want))], want))
        pairs += [(c.rd(q), t) for q, t in ins if q is not None] if case.kind != "ext" else now
        st, d = equiv.decide(pairs, pre=case.pre(), draw=case.draw, seed=rep.seed, tries=12, steer=0)
        if st == PROVED and bad:
            st, d = UNDECIDED, "possible fault: %s at %s" % (bad[0][2], bad[0][1])
        if st == PROVED and not any(x == case.bytes[:-4] for x in seen):
            st, d = UNDECIDED, "checksum not taken from the payload"
        rep.ob(tag, st, fn, d)
        return c
    return rep.guard(tag, run, fn)


def encode(rep, cfgs=("pure-cpp",)):
    for cfg in cfgs:
        need(base(cfg), DBL, *ENC.values())
    tasks = []
    for kind in ("ext", "priv", "pub"):
        for a in cases(kind):
            tasks.append(lambda a=a: encode_case(rep, cfgs[0], Case(*a)))
    rep.pmap(tasks)


def c15(rep):
    encode(rep)


# ---------------------------------------------------------------- decoding
DEC = {"pub": B + "pubkeyHashFromBase58Check(char const*, unsigned char*, unsigned char*)",
       "priv": B + "privateKeyFromBase58Check(char const*, Uint256&, unsigned char*, bool*)",
       "ext": B + "extendedPrivateKeyFromBase58Check(char const*, ExtendedPrivateKey&)"}
SPAN = {"pub": (25, 35), "priv": (38, 52), "ext": (111, 111)}


def found(ch):
    return bor(*[eq(ch, C(ord(x), 8)) for x in ALPHA + "\0"])


def digit(ch):
    idx = {ord(x): i for i, x in enumerate(ALPHA + "\0")}
    nm = "chridx" + stable_hash(tuple(sorted(idx.items())))
    UF_EVAL[nm] = lambda x, idx=idx: idx.get(x, 0)
    o = uf(nm, 64, ch)
    declare_ub(o, 58)
    return ext(o, 0, 8)


def hash_term(data):
    UF_EVAL["sha256d"] = lambda x, k: int.from_bytes(sha256d(x.to_bytes(k, "little")), "little")
    return uf("sha256d", 256, from_le(data), len(data))


def decoded(chars, n):
    """(accepted, the n bytes) of base58CheckToBytes"""
    w = 8 * n
    W = C(0, w)
    ok = TRUE
    for ch in chars:
        t = lin(0, [(zext(W, w + 6), 58)], w + 6)
        ok = band(ok, eq(ext(t, w, 6), C(0, 6)), found(ch))
        t = add(zext(ext(t, 0, w), w + 1), zext(digit(ch), w + 1))
        ok = band(ok, eq(ext(t, w, 1), C(0, 1)))
        W = ext(t, 0, w)
    bs = bytes_be(W)
    h = hash_term(bs[:-4])
    chk = band(*[eq(bs[n - 4 + i], ext(h, 8 * i, 8)) for i in range(4)])
    f = chk
    for i in reversed(range(n + 1)):
        a = eq(chars[i], C(ord("1"), 8)) if i < len(chars) else FALSE
        b = eq(bs[i], C(0, 8)) if i < n else FALSE
        f = ite(a, band(b, f), band(bnot(b), chk))
    return band(ok, f), bs


def under(t, facts, memo=None):
    """t where the given conditions hold; arithmetic is not entered"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = t
    if t.w == 1 and t in facts:
        r = TRUE
    elif t.w == 1 and bnot(t) in facts:
        r = FALSE
    elif t.op == "ite":
        c = under(t.args[0], facts, memo)
        if c.op == "c":
            r = under(t.args[1] if cv(c) else t.args[2], facts, memo)
        else:
            r = ite(c, under(t.args[1], facts, memo), under(t.args[2], facts, memo))
    elif t.op in ("and", "or", "xor"):
        r = bitop(t.op, [under(x, facts, memo) for x in t.args], t.w)
    elif t.op == "cat":
        r = cat([under(x, facts, memo) for x in t.args])
    elif t.op in ("eq", "ult"):
        x, y = [under(x, facts, memo) for x in t.args]
        r = eq(x, y) if t.op == "eq" else ult(x, y)
    memo[t] = r
    return r


class Facts(object):
    def __init__(self, count):
        self.count = count

    def __contains__(self, x):
        return self.count.get(x, 0) > 0


_deep = {}


def deep(t):
    """does a condition contain selections or nested connectives"""
    r = _deep.get(t)
    if r is None:
        if t.op in ("and", "or", "xor"):
            r = any(x.op not in ("c", "eq", "ult", "v") and not (x.op == "xor" and x.args[-1].op in ("eq", "ult")) for x in t.args) or \
                any(x.op in ("eq", "ult") and deep(x) for x in t.args)
        elif t.op in ("eq", "ult"):
            r = any(x.op in ("ite", "cat", "and", "or", "xor") for x in t.args)
        else:
            r = t.op == "ite"
        _deep[t] = r
    return r


def holds(c):
    """what a condition implies, as a set of conditions"""
    out, todo = set(), [c]
    while todo:
        x = todo.pop()
        out.add(x)
        if x.op == "and":
            todo.extend(x.args)
        elif x.op == "xor" and len(x.args) == 2 and x.args[0].op == "c" and x.args[1].op == "or":
            todo.extend(bnot(y) for y in x.args[1].args)
    return out


def settle(t, seen=None):
    """drop what the rest of a conjunction, disjunction or selection already decides"""
    seen = {} if seen is None else seen
    if t in seen:
        return seen[t]
    r = t
    if t.op == "ite":
        c, a, b = t.args
        c = settle(c, seen)
        a, b = settle(under(a, holds(c)), seen), settle(under(b, holds(bnot(c))), seen)
        r = ite(c, a, b)
        if a.op == "ite" and a.args[2] is b:
            r = settle(ite(band(c, a.args[0]), a.args[1], b), seen)
        elif a.op == "ite" and a.args[1] is b:
            r = settle(ite(band(c, bnot(a.args[0])), a.args[2], b), seen)
        elif b.op == "ite" and b.args[1] is a:
            r = settle(ite(bor(c, b.args[0]), a, b.args[2]), seen)
    elif t.op == "xor" and t.w == 1 and len(t.args) == 2 and t.args[0].op == "c" and t.args[1].op in ("and", "or"):
        r = (bor if t.args[1].op == "and" else band)(*[settle(bnot(x), seen) for x in t.args[1].args])
        if r is not t:
            r = settle(r, seen)
    elif t.op in ("and", "or") and t.w == 1:
        args = bitop(t.op, [settle(x, seen) for x in t.args], 1)
        if args.op != t.op:
            seen[t] = args
            return args
        args = list(args.args)
        hs = [holds(x if t.op == "and" else bnot(x)) for x in args]
        count = {}
        for h in hs:
            for x in h:
                count[x] = count.get(x, 0) + 1
        for i, x in enumerate(args):
            if deep(x):
                for y in hs[i]:
                    count[y] -= 1
                args[i] = under(x, Facts(count))
                hs[i] = holds(args[i] if t.op == "and" else bnot(args[i]))
                for y in hs[i]:
                    count[y] = count.get(y, 0) + 1
        r = bitop(t.op, args, 1)
    seen[t] = r
    return r


def decode_case(rep, cfg, kind, L, nulls=()):
    fn = DEC[kind]
    tag = "%s: strings of length %d%s [%s]" % (fn.split("(")[0], L, "".join(", no " + x for x in nulls), cfg)

    def run():
        def dbl(it, st, a):
            if a[2].op != "c" or cv(a[2]) > 4096:
                raise Undecided("hash of unknown length")
            it.store(st, a[0], hash_term([it.load(st, it.padd(a[1], i), 1) for i in range(cv(a[2]))]))
        from .cppecdsa import xpk_layout, curve_hooks
        from . import cppcurve as cc
        h = {DBL: dbl}
        if kind == "ext":
            h = dict(curve_hooks(), **h)
        c = fork(cfg, h)
        c.it.budget = 10 ** 8
        s = c.obj("str", None, L + 1)
        ch = [V("c%d" % i, 8) for i in range(L)]
        for i, x in enumerate(ch + [C(0, 8)]):
            c.it.put(c.st, s.obj, i, x)
            if i < L:
                assume(c.st, eq(x, C(0, 8)), False)
        inside = SPAN[kind][0] <= L <= SPAN[kind][1]
        ver = NULL if "outVersion" in nulls else c.obj("outVersion", V("oldVersion", 8))
        cmp_ = NULL if "outIsCompressed" in nulls else c.obj("outIsCompressed", V("oldFlag", 8))
        if kind == "pub":
            o = c.obj("outPubkeyHash", V("oldHash", 160))
            ret = bit1(c.call(fn, s, o, ver))
            ok, bs = decoded(ch, 25) if inside else (FALSE, [C(0, 8)] * 25)
            want = [(o, 0, from_le(bs[1:21]), V("oldHash", 160)), (ver, 0, bs[0], V("oldVersion", 8))]
        elif kind == "priv":
            o = c.obj("outPrivKey", V("oldKey", 256))
            ret = bit1(c.call(fn, s, o, ver, cmp_))
            if inside:
                ok1, b1 = decoded(ch, 37)
                ok2, b2 = decoded(ch, 38)
                ok2 = band(ok2, eq(b2[33], C(1, 8)))
                ok = bor(ok1, ok2)
            else:
                ok = ok1 = ok2 = FALSE
                b1 = b2 = [C(0, 8)] * 38
            want = [(o, 0, from_be(b1[1:33]), ite(ok2, from_be(b2[1:33]), V("oldKey", 256))),
                    (ver, 0, b1[0], ite(ok2, b2[0], V("oldVersion", 8))),
                    (cmp_, 0, C(0, 8), ite(ok2, C(1, 8), V("oldFlag", 8)))]
        else:
            from ..terms import V as VV
            lay = xpk_layout(base(cfg))
            if lay is None:
                raise Undecided("layout of ExtendedPrivateKey")
            sz, off = lay
            o = c.obj("outKey", None, sz)
            wid = {"privateKey": 256, "publicKey": 768, "chainCode": 256, "depth": 8, "index": 32, "parentPubkeyHash": 32}
            for nm, w in wid.items():
                c.it.put(c.st, o.obj, off[nm], V("old_" + nm, w))
            ret = bit1(c.call(fn, s, o))
            ok, bs = decoded(ch, 82) if inside else (FALSE, [C(0, 8)] * 82)
            key = from_be(bs[46:78])
            ok = band(ok, *[eq(bs[i], C(v, 8)) for i, v in enumerate((4, 0x88, 0xAD, 0xE4))])
            ok = band(ok, eq(bs[45], C(0, 8)), ne(key, C(0, 256)), ult(key, C(ORDER, 256)))
            from .. import pts
            new = {"privateKey": key, "publicKey": pts.pnorm(pts.pmul(pts.GPT, key)), "chainCode": from_le(bs[13:45]), "depth": bs[4],
                   "index": from_be(bs[9:13]), "parentPubkeyHash": from_le(bs[5:9])}
            want = [(o, off[nm], new[nm], V("old_" + nm, w)) for nm, w in wid.items()]
        rep.functions |= c.it.visited
        pairs = [(ret, ok)]
        pairs += [(c.rd(q, x.w // 8, at), ite(ok1 if kind == "priv" else ok, x, y)) for q, at, x, y in want if q is not NULL]
        pairs += [(c.rd(s, 1, i), x) for i, x in enumerate(ch + [C(0, 8)])]
        pairs = [(settle(x), settle(y)) for x, y in pairs]
        if "DBGF" in globals():
            return DBGF(pairs)
        bad = [e for e in c.it.events if e[0] in ("oob", "oob?", "null", "uninit", "ub", "assert", "noreturn")]
        st, d = equiv.decide(pairs, draw=lambda g, vs: draw_string(g, vs, kind, L), seed=rep.seed, tries=300 if inside else 12, steer=0)
        if st == PROVED and bad:
            st, d = UNDECIDED, "possible fault: %s at %s" % (bad[0][2], bad[0][1])
        rep.ob(tag, st, fn, d)
    def chained():
        with chains():
            run()
    return rep.guard(tag, chained, fn)


def b58(n):
    s = ""
    while n:
        n, r = divmod(n, 58)
        s = ALPHA[r] + s
    return s


def b58bytes(b):
    z = 0
    while z < len(b) and not b[z]:
        z += 1
    return "1" * z + b58(int.from_bytes(b, "big"))


def payload(r, kind, n, L, dirty=True):
    """a random payload of n - 4 bytes that tends to encode to L characters"""
    z = r.choice([0, 0, 0, 1, 2, max(0, min(n - 5, n - L + r.randrange(12)))])
    edge = r.choice([1, 2, 8])
    b = bytearray(r.choice([0, 1, 0x7f, 0x80, 0xff]) if r.randrange(edge) == 0 else r.randrange(256) for _ in range(n - 4))
    if r.randrange(3) == 0:
        b[0] = r.choice([0, 1, 0x80, 0xff, 5])
    if kind == "ext":
        b[0:4] = bytes([4, 0x88, 0xAD, 0xE4])
        b[45] = 0
        k = r.choice([0, 1, ORDER - 1, ORDER, ORDER + 1, 2 ** 256 - 1, r.getrandbits(256), r.getrandbits(256), r.getrandbits(256), r.getrandbits(100),
                      ORDER + r.getrandbits(100)])
        b[46:78] = (k % 2 ** 256).to_bytes(32, "big")
        q = r.randrange(12) if dirty else 11
        if q < 4:
            b[q] ^= 1 << r.randrange(8)
        elif q == 4:
            b[45] = r.choice([1, 0x80, r.randrange(256)])
        return bytes(b)
    for i in range(z):
        b[i] = 0
    if kind == "priv" and n == 38:
        b[33] = r.choice([1, 1, 1, 1, 0, 2, 0x81, r.randrange(256)])
        if r.randrange(8) == 0:
            b[1:33] = r.choice([0, ORDER, ORDER - 1, 2 ** 256 - 1, 1]).to_bytes(32, "big")
    return bytes(b)


def draw_string(g, vs, kind, L):
    r = g.r
    e = {v.args[0]: g.value(v.w) for v in vs}
    s = None
    for t in range(400):
        n = {"pub": 25, "ext": 82}.get(kind) or r.choice([37, 38])
        dirty = r.randrange(2)
        p = payload(r, kind, n, L, dirty)
        q = r.randrange(14) if dirty else 0
        c = sha256d(p)[:4]
        if q == 1:
            c = bytearray(c)
            c[r.randrange(4)] ^= 1 << r.randrange(8)
            c = bytes(c)
        elif q == 2:
            c = r.choice([c[::-1], hashlib.sha256(p).digest()[:4], bytes(4), sha256d(p)[4:8]])
        full = p + c
        if q == 3 and n != 82:      # one byte more or less than required
            p = p[:-1] if r.randrange(2) else p + bytes([r.randrange(256)])
            full = p + sha256d(p)[:4]
        if q in (4, 5):             # the value wraps around
            v = int.from_bytes(full, "big")
            k = (58 ** L - v) // 256 ** n
            if k < 1:
                continue
            z = len(full) - len(full.lstrip(b"\0"))
            k = r.choice([1, k, r.randint(1, k)])
            s = "1" * z + b58(v + k * 256 ** n)
        else:
            s = b58bytes(full)
        if q == 6:
            s = "1" + s
        elif q == 7 and s[:1] == "1":
            s = s[1:]
        elif q == 8 and s:
            i = r.randrange(len(s))
            s = s[:i] + chr(r.choice([ord(r.choice("0OIl+/ \n~")), r.randrange(1, 256), r.randrange(1, 128), ord(s[i]) ^ 0x20, ord(s[i]) | 0x80, ord(s[i]) - 1])) + s[i + 1:]
        elif q == 9 and len(s) > L:
            s = s[:L]
        elif q == 10 and len(s) < L:
            s += "".join(r.choice(ALPHA) for _ in range(L - len(s)))
        elif q == 11 and len(s) > 1:
            i = r.randrange(len(s))
            s = s[:i] + r.choice(ALPHA) + s[i + 1:]
        if len(s) == L:
            break
    if s is None or len(s) != L:
        s = "".join(r.choice(ALPHA) for _ in range(L))
    for i in range(L):
        e["c%d" % i] = ord(s[i]) & 255
    return e


def unbounded(rep, cfg, kind):
    """strings longer than every accepted one: the result must not depend on anything but the length"""
    fn = DEC[kind]
    tag = "%s: strings longer than %d characters [%s]" % (fn.split("(")[0], SPAN[kind][1] + 8, cfg)

    def run():
        n = V("length", 64)
        lim = SPAN[kind][1] + 8
        c = fork(cfg, {})
        s = c.obj("str", None, 1 << 40)
        c.it.oracle = lambda q: longer(q, n, lim)
        c.it.hooks = dict(c.it.hooks, strlen=lambda it, st, a: n)
        from .cppecdsa import xpk_layout
        if kind == "ext":
            lay = xpk_layout(base(cfg))
            if lay is None:
                raise Undecided("layout of ExtendedPrivateKey")
            outs = [("outKey", lay[0])]
        else:
            outs = [("out", 20 if kind == "pub" else 32), ("outVersion", 1)] + ([("outIsCompressed", 1)] if kind == "priv" else [])
        ps = []
        for nm, k in outs:
            ps.append((c.obj(nm, V("old_" + nm, 8 * k)), V("old_" + nm, 8 * k)))
        ret = bit1(c.call(fn, s, *[p for p, _ in ps]))
        st, d = equiv.decide([(ret, FALSE)] + [(c.rd(p), v) for p, v in ps], seed=rep.seed, tries=5, steer=0)
        rep.functions |= c.it.visited
        rep.ob(tag, st if st == PROVED else UNDECIDED, fn, d)
    return rep.guard(tag, run, fn)


def longer(q, n, lim):
    """decide a comparison with n > lim"""
    if q.op == "xor" and len(q.args) == 2 and q.args[0].op == "c":
        r = longer(q.args[1], n, lim)
        return None if r is None else not r
    if q.op in ("and", "or"):
        rs = [longer(x, n, lim) for x in q.args]
        stop = q.op == "or"
        return stop if stop in rs else None if None in rs else not stop
    if q.op == "ult" and q.args[0] is n and is_c(q.args[1]) and cv(q.args[1]) <= lim:
        return False
    if q.op == "ult" and q.args[1] is n and is_c(q.args[0]) and cv(q.args[0]) <= lim:
        return True
    if q.op == "eq" and n in q.args:
        o = q.args[1] if q.args[0] is n else q.args[0]
        if is_c(o) and cv(o) <= lim:
            return False
    return None


class Captured(Exception):
    pass


def payload_layout(rep, cfg, kind, comp):
    """the bytes that are hashed for the checksum, with every field free"""
    fn = ENC[kind]
    tag = "%s: payload layout%s [%s]" % (fn.split("(")[0], "" if kind != "priv" else " (compressed)" if comp else " (uncompressed)", cfg)

    def run():
        case = Case(kind, comp, 0, None)
        got = []

        def dbl(it, st, a):
            if a[2].op != "c" or cv(a[2]) > 4096:
                raise Undecided("hash of unknown length")
            got.append([it.load(st, it.padd(a[1], i), 1) for i in range(cv(a[2]))])
            raise Captured()
        c = fork(cfg, {DBL: dbl})
        f = {nm: from_le(bs) for nm, (bs, v, p) in case.field.items()}
        out = c.obj("outStr", None, 112)
        try:
            if kind == "pub":
                c.call(fn, c.obj("pubkeyHash", f["hash"]), f["version"], out)
            elif kind == "priv":
                c.call(fn, c.obj("privKey", from_le(bytes_be(f["key"]))), f["version"], C(int(comp), 1), out)
            else:
                from .cppecdsa import xpk_layout
                lay = xpk_layout(base(cfg))
                if lay is None:
                    raise Undecided("layout of ExtendedPrivateKey")
                sz, off = lay
                p = c.obj("key", None, sz)
                for nm, v in {"privateKey": from_le(bytes_be(f["key"])), "publicKey": V("publicKey", 768), "chainCode": f["chain"], "depth": f["depth"],
                              "index": from_le(bytes_be(f["index"])), "parentPubkeyHash": f["fingerprint"]}.items():
                    c.it.put(c.st, p.obj, off[nm], v)
                c.call(fn, p, out)
        except Captured:
            pass
        rep.functions |= c.it.visited
        if not got:
            raise Undecided("no double hash of the payload")
        want = case.bytes[:-4]
        if len(got[0]) != len(want):
            rep.ob(tag, REFUTED, fn, "payload of %d bytes, specified are %d" % (len(got[0]), len(want)))
            return
        st, d = equiv.decide([(from_le(got[0]), from_le(want))], seed=rep.seed, tries=40)
        rep.ob(tag, st, fn, d)
    return rep.guard(tag, run, fn)


def c17(rep):
    cfg = "pure-cpp"
    need(base(cfg), DBL, *ENC.values())
    need(base(cfg), DBL, *DEC.values())
    jobs = []
    for kind in ("ext", "priv", "pub"):
        for L in range(SPAN[kind][1], SPAN[kind][0] - 1, -1):
            jobs.append(lambda kind=kind, L=L: decode_case(rep, cfg, kind, L))
        for comp in ((True, False) if kind == "priv" else (True,)):
            jobs.append(lambda kind=kind, comp=comp: payload_layout(rep, cfg, kind, comp))
            for a in cases(kind):
                if a[1] == comp and a[2] == 0:
                    jobs.append(lambda a=a: encode_case(rep, cfg, Case(*a)))
    rep.pmap(jobs)


def decode(rep, cfgs=("pure-cpp",)):
    for cfg in cfgs:
        need(base(cfg), DBL, *DEC.values())
    jobs = []
    for kind in ("ext", "priv", "pub"):
        lo, hi = SPAN[kind]
        order = sorted(range(hi + 9), key=lambda L: (not lo <= L <= hi, -L))
        for L in order:
            jobs.append(lambda kind=kind, L=L: decode_case(rep, cfgs[0], kind, L))
        jobs.append(lambda kind=kind: unbounded(rep, cfgs[0], kind))
    for kind, L, nulls in (("priv", 51, ("outVersion",)), ("priv", 52, ("outIsCompressed",)), ("priv", 50, ("outVersion", "outIsCompressed")), ("pub", 34, ("outVersion",))):
        jobs.append(lambda a=(kind, L, nulls): decode_case(rep, cfgs[0], *a))
    rep.pmap(jobs)


def c16(rep):
    decode(rep)
