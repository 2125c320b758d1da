"""C++ hash functions: value graphs of the compression steps and of the padding / buffering logic."""
from ..terms import *
from ..cinterp import *
from .. import cspec, equiv
from ..cspec import Ctx, Missing
from ..report import PROVED, REFUTED, UNDECIDED, AnchorLost, Divided
from ..specs import hashes

SPEC = {"sha256": hashes.Sha2(32), "sha512": hashes.Sha2(64), "ripemd160": hashes.Ripemd160(), "keccak256": hashes.Keccak256()}


def opaque(name, w, nwords):
    """an uninterpreted compression function on (state, block)"""
    def comp(st, block):
        h = uf("comp_" + name, w * nwords, cat(list(st)), cat(list(block)))
        return [ext(h, w * i, w) for i in range(nwords)]
    return comp


def _no_init(hooks):
    """contexts start from a module whose static initialisers are not needed"""
    return Ctx(hooks=hooks)


def syms(prefix, n, w=8):
    return [V("%s%d" % (prefix, i), w) for i in range(n)]


def arr(c, name, bs, kind="param"):
    o = Obj(name, len(bs), kind)
    c.st.mem[o] = [{i: (b, 0) for i, b in enumerate(bs)}, True]
    return Ptr(o, Z64)


def rdbytes(c, p, n=None):
    n = n if n is not None else p.obj.size
    off = cv(p.off)
    return [c.it.get(c.st, p.obj, off + i, 1) for i in range(n)]


class Base(object):
    def __init__(self):
        self.ctx = Ctx()

    def fork(self, hooks=None):
        return self.ctx.fork(hooks or {})

    def touch(self, rep, c):
        rep.functions |= c.it.visited


# ---------------------------------------------------------------- compression steps

def words(c, p, n, w):
    return [c.rd(p, w // 8, i * w // 8) for i in range(n)]


def sha256_hook(comp):
    def h(it, st, args):
        s, b = args
        sw = [it.load(st, it.padd(s, 4 * i), 4) for i in range(8)]
        bl = [it.load(st, it.padd(b, i), 1) for i in range(64)]
        for i, x in enumerate(comp(sw, bl)):
            it.store(st, it.padd(s, 4 * i), x)
        return None
    return h


def class_footprint(base, fn, size, w, nwords, blen):
    """which bytes of *this the member compression step reads as block and rewrites as state"""
    c = base.fork()
    bs = syms("o", size)
    p = arr(c, "this", bs)
    c.call(fn, p)
    out = rdbytes(c, p)
    changed = [i for i in range(size) if out[i] is not bs[i]]
    used = set()
    for i in changed:
        for v in variables([out[i]]):
            used.add(int(v.args[0][1:]))
    n = w * nwords // 8
    if len(changed) != n or changed != list(range(changed[0], changed[0] + n)):
        return None
    blk = sorted(used - set(changed))
    if len(blk) != blen or blk != list(range(blk[0], blk[0] + blen)):
        return None
    return changed[0], blk[0]


def member_hook(comp, soff, boff, w, nwords, blen):
    n = w // 8

    def h(it, st, args):
        p = args[0]
        sw = [it.load(st, it.padd(p, soff + n * i), n) for i in range(nwords)]
        bl = [it.load(st, it.padd(p, boff + i), 1) for i in range(blen)]
        for i, x in enumerate(comp(sw, bl)):
            it.store(st, it.padd(p, soff + n * i), x)
        return None
    return h


def bulk(name, state, n):
    """the chain value after compressing the first n bytes of a message too long to spell out"""
    w = sum(x.w for x in state)
    h = uf("bulk_%s_%d" % (name, n), w, cat(list(state)))
    k = state[0].w
    return [ext(h, k * i, k) for i in range(len(state))]


def ripemd_hook(comp):
    def h(it, st, args):
        s, b, ln = args
        if ln.op != "c":
            raise Undecided("symbolic block count")
        if cv(ln) % 64:
            it.event("pre", "compress called with a partial block", st)
            raise Undecided("partial block")
        if cv(ln) > 1 << 16:
            sw = bulk("ripemd160", [it.load(st, it.padd(s, 4 * i), 4) for i in range(5)], cv(ln))
            for i in range(5):
                it.store(st, it.padd(s, 4 * i), sw[i])
            return None
        for k in range(0, cv(ln), 64):
            sw = [it.load(st, it.padd(s, 4 * i), 4) for i in range(5)]
            bl = [it.load(st, it.padd(b, k + i), 1) for i in range(64)]
            for i, x in enumerate(comp(sw, bl)):
                it.store(st, it.padd(s, 4 * i), x)
        return None
    return h


def keccak_hook(comp):
    # lane (x, y) is at index x*5+y in the C++ array
    def h(it, st, args):
        p = args[0]
        a = [None] * 25
        for x in range(5):
            for y in range(5):
                a[x + 5 * y] = it.load(st, it.padd(p, 8 * (5 * x + y)), 8)
        r = comp(a)
        for x in range(5):
            for y in range(5):
                it.store(st, it.padd(p, 8 * (5 * x + y)), r[x + 5 * y])
        return None
    return h


def okeccak(a):
    # lanes are re-assembled from their bytes so that equal bytes give equal arguments
    h = uf("keccakf", 1600, *[ext(x, 8 * i, 8) for x in a for i in range(8)])
    return [ext(h, 64 * i, 64) for i in range(25)]


class Hash(Divided):
    """one C++ hash function, its compression anchor (if it still exists) and the opaque model used above it"""

    def __init__(self, name, base, rep):
        self.name = name
        self.base = base
        self.rep = rep
        self.spec = SPEC[name]
        self.hooks = {}
        self.comp = None
        self.inlined = False
        b = base.ctx
        n0 = len(rep.obs)
        if name == "sha256":
            fn = "Sha256::compress(unsigned int*, unsigned char const*)"
            if b.has(fn):
                self.comp = opaque(name, 32, 8)
                self.hooks = {fn: sha256_hook(self.comp)}
                rep.guard("compression step of " + name, lambda: self._plain(fn, 8, 32, 64), internal=True)
        elif name == "sha512":
            fn = "Sha512::compress()"
            self.csize = class_size(b, "Sha512")
            if b.has(fn) and self.csize:
                fp = None
                try:
                    fp = class_footprint(base, fn, self.csize, 64, 8, 128)
                except Undecided:
                    pass
                if fp:
                    self.comp = opaque(name, 64, 8)
                    self.hooks = {fn: member_hook(self.comp, fp[0], fp[1], 64, 8, 128)}
                    rep.guard("compression step of " + name, lambda: self._member(fn, fp), internal=True)
        elif name == "ripemd160":
            fn = "Ripemd160::compress(unsigned int*, unsigned char const*, unsigned long)"
            if b.has(fn):
                self.comp = opaque(name, 32, 5)
                self.hooks = {fn: ripemd_hook(self.comp)}
                rep.guard("compression step of " + name, lambda: self._ripemd(fn), internal=True)
        elif name == "keccak256":
            fn = "Keccak256::absorb(unsigned long (*) [5])"
            if b.has(fn):
                self.comp = okeccak
                self.hooks = {fn: keccak_hook(okeccak)}
                rep.guard("permutation of " + name, lambda: self._keccak(fn), internal=True)
        self.contract(n0)
        if self.comp is None:
            self.inlined = True

    def scomp(self):
        return self.comp

    def _cmp(self, name, pairs, where, **kw):
        st, d = equiv.decide(pairs, seed=self.rep.seed, **kw)
        self.rep.ob(name, st, where, d)

    def _plain(self, fn, n, w, bl):
        c = self.base.fork()
        sv, bv = syms("h", n, w), syms("m", bl)
        s = c.obj("state", cat(sv))
        b = arr(c, "block", bv)
        c.call(fn, s, b)
        out = words(c, s, n, w)
        self._cmp("compression step of %s equals its specification for every state and block" % self.name,
                  list(zip(out, self.spec.compress(sv, bv))), fn)
        self._cmp("compression step of %s leaves its block unchanged" % self.name, list(zip(rdbytes(c, b), bv)), fn)
        self.base.touch(self.rep, c)

    def _member(self, fn, fp):
        c = self.base.fork()
        sv, bv = syms("h", 8, 64), syms("m", 128)
        junk = syms("j", self.csize)
        p = arr(c, "this", junk)
        for i, x in enumerate(sv):
            c.it.put(c.st, p.obj, fp[0] + 8 * i, x)
        for i, x in enumerate(bv):
            c.it.put(c.st, p.obj, fp[1] + i, x)
        c.call(fn, p)
        out = [c.rd(p, 8, fp[0] + 8 * i) for i in range(8)]
        self._cmp("compression step of %s equals its specification for every state and block" % self.name,
                  list(zip(out, self.spec.compress(sv, bv))), fn)
        self.base.touch(self.rep, c)

    def _ripemd(self, fn):
        for nb in (0, 1, 2):
            c = self.base.fork()
            sv, bv = syms("h", 5, 32), syms("m", 64 * max(nb, 1))
            s = c.obj("state", cat(sv))
            b = arr(c, "blocks", bv)
            c.call(fn, s, b, C(64 * nb, 64))
            ref = sv
            for k in range(nb):
                ref = self.spec.compress(ref, bv[64 * k:64 * k + 64])
            self._cmp("%d-block compression of %s equals its specification" % (nb, self.name),
                      list(zip(words(c, s, 5, 32), ref)), fn, tries=60)
            self.base.touch(self.rep, c)

    def _keccak(self, fn):
        with lanes():
            self._keccak1(fn)

    def _keccak1(self, fn):
        c = self.base.fork()
        sv = syms("a", 25, 64)     # index x*5+y
        s = c.obj("state", cat(sv))
        c.call(fn, s)
        out = words(c, s, 25, 64)
        a = [sv[x * 5 + y] for y in range(5) for x in range(5)]
        r = self.spec.permute(a)
        self._cmp("permutation of %s equals its specification for every state" % self.name,
                  [(out[x * 5 + y], r[x + 5 * y]) for x in range(5) for y in range(5)], fn)
        self.base.touch(self.rep, c)

    # ---- whole-message obligations
    def lengths(self):
        B = self.spec.block
        if self.probing:
            return [0, 1, B + 1]
        if self.inlined:
            return [0, 1, B - 1 - (0 if self.name == "keccak256" else B // 8), B - 1, B, B + 1] if not self.rep.thorough else \
                sorted(set(list(range(0, B + 2, 5)) + [B - 9, B - 8, B - 1, B, B + 1]))
        r = list(range(0, 2 * B + 10))
        return r + [257, 300, 511, 512, 513, 600] + ([1000, 4095, 4096, 65535, 65536, 70000] if self.rep.thorough else [])

    def digest(self, msg):
        if self.name == "keccak256":
            return self.spec.digest(msg, self.comp)
        return self.spec.digest(msg, self.comp)

    def oneshot(self, fn, kind):
        self.attempt(lambda: self._oneshot(fn, kind))

    def _oneshot(self, fn, kind):
        tasks = []
        for n in self.lengths():
            def go(n=n):
                c = self.base.fork(self.hooks)
                mv = syms("m", n)
                p = arr(c, "msg", mv) if n else NULL
                outn = {"sha256": 32, "sha512": 64, "ripemd160": 20, "keccak256": 32}[self.name]
                r = arr(c, "result", syms("r", outn))
                if kind == "sret":
                    c.call(fn, r, p, C(n, 64))
                else:
                    c.call(fn, p, C(n, 64), r)
                pairs = list(zip(rdbytes(c, r), self.digest(mv)))
                if n:
                    pairs += list(zip(rdbytes(c, p), mv))
                st, d = equiv.decide(pairs, seed=self.rep.seed, tries=20)
                self.rep.ob("digest of a %d-byte message (%s) applies padding and compression as specified" % (n, self.name), st, fn, d)
                self.base.touch(self.rep, c)
            tasks.append(lambda n=n, go=go: self.rep.guard("digest of a %d-byte message (%s)" % (n, self.name), go, fn))
        self.rep.pmap(tasks)


def class_size(ctx, cls):
    """size of a class from the allocation of its temporaries in the whole module"""
    for t in class_types(ctx, cls):
        return t.size
    return None


def class_types(ctx, cls):
    seen = {}
    for nm, f in ctx.mod.functions.items():
        if f.decl:
            continue
        ctx.mod.body(f)
        for b in f.blocks:
            for i in b.insts:
                t = i.x if i.op in ("alloca", "gep") else None
                if isinstance(t, llvmir_Type) and t.kind == "struct" and t.name in ("class." + cls, "struct." + cls):
                    seen[id(t)] = t
    return list(seen.values())


from ..llvmir import Type as llvmir_Type


# ---------------------------------------------------------------- incremental interface

class Incremental(object):
    """Invariant of the stateful hasher: (chain value, buffered bytes, fill k, total length L with L mod B = k)."""

    def __init__(self, h, cls, w, append, finish, ctor, finish_kind):
        self.h, self.cls, self.w = h, cls, w
        self.append, self.finish, self.ctor, self.fk = append, finish, ctor, finish_kind
        self.B = h.spec.block
        self.rep = h.rep

    def fields(self):
        """locate the fields by their contents after appending known numbers of bytes"""
        b = self.h.base.ctx
        ts = class_types(b, self.cls)
        if not ts:
            return None
        t = ts[0]
        B = self.B
        scal = [(o, e.w // 8) for o, e in zip(t.offs, t.elems) if e.kind == "int"]
        arrs = [(o, e.elem.size, e.n) for o, e in zip(t.offs, t.elems) if e.kind == "array"]
        stf = [o for o, s, n in arrs if s == self.w // 8 and n == 8]
        buf = [o for o, s, n in arrs if s == 1 and n == B]
        if len(stf) != 1 or len(buf) != 1 or len(scal) + len(arrs) != len(t.elems):
            return None
        c = self.h.base.fork(self.h.hooks)
        o = c.obj("this", None, t.size)
        c.call(self.ctor, o)
        self.rep.ob("initial chain value of %s" % self.cls,
                    *[equiv.decide([(c.rd(o, self.w // 8, stf[0] + i * self.w // 8), x) for i, x in enumerate(self.h.spec.init())])[0]],
                    where=self.ctor)
        one = arr(c, "byte", [V("x", 8)])
        vals = {f: [c.rd(o, f[1], f[0])] for f in scal}
        for k in range(2 * B + 1):
            c.call(self.append, o, one, C(1, 64))
            for f in scal:
                vals[f].append(c.rd(o, f[1], f[0]))
        ln = fill = None
        for f in scal:
            v = [cv(x) if x.op == "c" else None for x in vals[f]]
            if v == list(range(2 * B + 2)):
                ln = f
            elif v == [i % B for i in range(2 * B + 2)]:
                fill = f
            else:
                return None
        if ln is None or ln[1] != 8:
            return None
        self.size, self.stf, self.buf, self.ln, self.fill = t.size, stf[0], buf[0], ln, fill
        return True

    def state(self, c, k):
        o = c.obj("this", None, self.size)
        wb = self.w // 8
        H = syms("h", 8, self.w)
        for i, x in enumerate(H):
            c.it.put(c.st, o.obj, self.stf + i * wb, x)
        bv = syms("b", self.B)
        for i, x in enumerate(bv):
            c.it.put(c.st, o.obj, self.buf + i, x)
        lg = self.B.bit_length() - 1
        L = cat([C(k, lg), V("q", 64 - lg)])
        c.it.put(c.st, o.obj, self.ln[0], L)
        if self.fill:
            c.it.put(c.st, o.obj, self.fill[0], C(k, self.fill[1] * 8))
        return o, H, bv[:k], L

    def run(self):
        rep = self.rep
        r = rep.guard("fields of " + self.cls, self.fields, internal=True)
        if not r:
            rep.ob("representation of the incremental state of %s recognised" % self.cls, UNDECIDED, "", "fields not identified; only whole messages are compared")
            self.split()
            return
        B = self.B
        tasks = []
        for k in range(B):
            ms = [0, 1, B - k, B + 1] + ([2, B - k - 1, B - k + 1, B - 1, B, 2 * B - k, 2 * B, 3 * B + 1] if k in (0, 1, 7, B - 9, B - 8, B - 2, B - 1) or rep.thorough else [])
            for m in sorted(set(x for x in ms if x >= 0)):
                tasks.append(lambda m=m, k=k: rep.guard("append of %d bytes at fill %d (%s)" % (m, k, self.cls), lambda: self.step(k, m), self.append, True))
            tasks.append(lambda k=k: rep.guard("finish at fill %d (%s)" % (k, self.cls), lambda: self.end(k), self.finish, True))
        rep.pmap(tasks)

    def step(self, k, m):
        c = self.h.base.fork(self.h.hooks)
        o, H, bv, L = self.state(c, k)
        mv = syms("m", m)
        p = arr(c, "bytes", mv) if m else NULL
        c.call(self.append, o, p, C(m, 64))
        data = bv + mv
        st = H
        while len(data) >= self.B:
            st = self.h.comp(st, data[:self.B])
            data = data[self.B:]
        wb = self.w // 8
        pairs = [(c.rd(o, wb, self.stf + i * wb), st[i]) for i in range(8)]
        pairs += [(c.rd(o, 1, self.buf + i), x) for i, x in enumerate(data)]
        pairs.append((c.rd(o, 8, self.ln[0]), add(L, C(m, 64))))
        if self.fill:
            pairs.append((c.rd(o, self.fill[1], self.fill[0]), C((k + m) % self.B, self.fill[1] * 8)))
        if m:
            pairs += list(zip(rdbytes(c, p), mv))
        stt, d = equiv.decide(pairs, seed=self.rep.seed, tries=20)
        self.rep.ob("appending %d bytes with %d buffered (any chain value and length) keeps the invariant of %s" % (m, k, self.cls), stt, self.append, d)
        self.h.base.touch(self.rep, c)

    def end(self, k):
        c = self.h.base.fork(self.h.hooks)
        o, H, bv, L = self.state(c, k)
        outn = self.w
        r = arr(c, "result", syms("r", outn))
        if self.fk == "sret":
            c.call(self.finish, r, o)
        else:
            c.call(self.finish, o, r)
        lb = self.h.spec.lenbytes * 8
        bits = zext(shl(L, C(3, 64)), lb)
        m = self.h.spec.pad(bv, bits)
        st = H
        for i in range(0, len(m), self.B):
            st = self.h.comp(st, m[i:i + self.B])
        stt, d = equiv.decide(list(zip(rdbytes(c, r), self.h.spec.out(st))), seed=self.rep.seed, tries=20)
        self.rep.ob("finishing with %d buffered bytes and any length applies the specified padding (%s)" % (k, self.cls), stt, self.finish, d)
        self.h.base.touch(self.rep, c)

    def split(self):
        """fallback: two appends compared with the whole message"""
        ts = class_types(self.h.base.ctx, self.cls)
        if not ts:
            return
        B = self.B
        lens = [(0, 0), (0, 1), (1, B - 1), (B - 1, 1), (B - 1, 2), (B // 2, B), (B, B + 1), (5, B - 14), (3, 2 * B)]
        if self.h.inlined:
            lens = lens[:4]
        for a, b in lens:
            def go(a=a, b=b):
                c = self.h.base.fork(self.h.hooks)
                o = c.obj("this", None, ts[0].size)
                c.call(self.ctor, o)
                mv = syms("m", a + b)
                c.call(self.append, o, arr(c, "x", mv[:a]) if a else NULL, C(a, 64))
                c.call(self.append, o, arr(c, "y", mv[a:]) if b else NULL, C(b, 64))
                r = arr(c, "result", syms("r", self.w))
                if self.fk == "sret":
                    c.call(self.finish, r, o)
                else:
                    c.call(self.finish, o, r)
                st, d = equiv.decide(list(zip(rdbytes(c, r), self.h.spec.digest(mv, self.h.comp))), seed=self.rep.seed, tries=20)
                self.rep.ob("appending %d then %d bytes gives the digest of the concatenation (%s)" % (a, b, self.cls), st, self.append, d)
            self.rep.guard("append %d+%d" % (a, b), go)


def hmac(h, fn, kind, outn):
    h.attempt(lambda: _hmac(h, fn, kind, outn))


def _hmac(h, fn, kind, outn):
    B = h.spec.block
    keys = list(range(0, B + 3)) + [B + 20, 2 * B - 1, 2 * B, 2 * B + 1, 300]
    msgs = [0, 1, B - 9, B - 1, B]
    if h.inlined:
        keys, msgs = [0, 1, B - 1, B, B + 1], [0, 3]
    elif h.probing:
        keys, msgs = [1, B + 1], [3]
    tasks = []
    for i, kl in enumerate(keys):
        ml = msgs[:2] if not (kl in (0, 1, B - 1, B, B + 1) or h.rep.thorough) else msgs
        for n in ml:
            def go(kl=kl, n=n):
                c = h.base.fork(h.hooks)
                kv, mv = syms("k", kl), syms("m", n)
                k = arr(c, "key", kv) if kl else NULL
                m = arr(c, "msg", mv) if n else NULL
                r = arr(c, "result", syms("r", outn))
                a = (k, C(kl, 64), m, C(n, 64))
                c.call(fn, *((r,) + a if kind == "sret" else a + (r,)))
                pairs = list(zip(rdbytes(c, r), h.spec.hmac(kv, mv, h.comp)))
                if kl:
                    pairs += list(zip(rdbytes(c, k), kv))
                if n:
                    pairs += list(zip(rdbytes(c, m), mv))
                st, d = equiv.decide(pairs, seed=h.rep.seed, tries=20)
                h.rep.ob("HMAC with a %d-byte key and a %d-byte message (%s)" % (kl, n, h.name), st, fn, d)
                h.base.touch(h.rep, c)
            tasks.append(lambda kl=kl, n=n, go=go: h.rep.guard("HMAC with a %d-byte key and a %d-byte message (%s)" % (kl, n, h.name), go, fn))
    h.rep.pmap(tasks)


def need(base, *fns):
    for f in fns:
        if not base.ctx.has(f):
            raise AnchorLost("public function %s not found" % f)


S256 = {"append": "Sha256::append(unsigned char const*, unsigned long)", "finish": "Sha256::getHash()", "ctor": "Sha256::Sha256()",
        "oneshot": "Sha256::getHash(unsigned char const*, unsigned long)", "double": "Sha256::getDoubleHash(unsigned char const*, unsigned long)",
        "hmac": "Sha256::getHmac(unsigned char const*, unsigned long, unsigned char const*, unsigned long)"}
S512 = {"append": "Sha512::append(unsigned char const*, unsigned long)", "finish": "Sha512::getHash(unsigned char*)", "ctor": "Sha512::Sha512()",
        "oneshot": "Sha512::getHash(unsigned char const*, unsigned long, unsigned char*)",
        "hmac": "Sha512::getHmac(unsigned char const*, unsigned long, unsigned char const*, unsigned long, unsigned char*)"}
RIPE = "Ripemd160::getHash(unsigned char const*, unsigned long, unsigned char*)"
KECC = "Keccak256::getHash(unsigned char const*, unsigned long, unsigned char*)"


def c10(rep):
    base = Base()
    need(base, *S256.values())
    h = Hash("sha256", base, rep)
    h.oneshot(S256["oneshot"], "sret")
    if not h.inlined:
        Incremental(h, "Sha256", 32, S256["append"], S256["finish"], S256["ctor"], "sret").run()
    else:
        inc = Incremental(h, "Sha256", 32, S256["append"], S256["finish"], S256["ctor"], "sret")
        inc.split()
    for n in ([0, 1, 55, 56, 64, 80, 100] if not h.inlined else [0, 80]):
        def go(n=n):
            c = base.fork(h.hooks)
            mv = syms("m", n)
            r = arr(c, "result", syms("r", 32))
            c.call(S256["double"], r, arr(c, "msg", mv) if n else NULL, C(n, 64))
            st, d = equiv.decide(list(zip(rdbytes(c, r), h.digest(h.digest(mv)))), seed=rep.seed, tries=20)
            rep.ob("double hash of a %d-byte message" % n, st, S256["double"], d)
        rep.guard("double hash of a %d-byte message" % n, go)
    rep.guard("digest object", lambda: sha256hash(rep, base), "Sha256Hash")


def sha256hash(rep, base):
    ctor_b, ctor_s = "Sha256Hash::Sha256Hash(unsigned char const*, unsigned long)", "Sha256Hash::Sha256Hash(char const*)"
    eqf, nef = "Sha256Hash::operator==(Sha256Hash const&) const", "Sha256Hash::operator!=(Sha256Hash const&) const"
    need(base, ctor_b, ctor_s, eqf, nef)
    c = base.fork()
    bv = syms("b", 32)
    o = arr(c, "this", syms("o", 32))
    c.call(ctor_b, o, arr(c, "hash", bv), C(32, 64))
    st, d = equiv.decide(list(zip(rdbytes(c, o), bv)))
    rep.ob("digest object built from bytes holds exactly those bytes", st, ctor_b, d)
    # comparison
    c = base.fork()
    x, y = V("x", 256), V("y", 256)
    for fn, want in ((eqf, eq(x, y)), (nef, ne(x, y))):
        c = base.fork()
        r = c.call(fn, c.obj("a", x), c.obj("b", y))
        def draw(g, vs):
            a = g.value(256)
            b = a ^ (g.r.choice([0, 1 << g.r.randrange(256), g.value(256)]))
            return {"x": a, "y": b}
        stt, d = equiv.decide([(ext(r, 0, 1), want)], draw=draw, seed=rep.seed)
        rep.ob("digest comparison %s agrees with the values" % fn, stt, fn, d)
    # hexadecimal: each position for every digit
    def go():
        digits = {}
        for ch, v in zip("0123456789abcdef", range(16)):
            digits[ord(ch)] = v
            digits[ord(ch.upper())] = v
        bad = []
        for ch, v in sorted(digits.items()):
            for pos in (range(64) if ch in (ord("0"), ord("f"), ord("9"), ord("A"), ord("a")) else (0, 1, 63)):
                c = base.fork()
                s = [C(ord("1") if i != pos else ch, 8) for i in range(64)] + [C(0, 8)]
                o = arr(c, "this", syms("o", 32))
                c.call(ctor_s, o, arr(c, "str", s))
                want = []
                for j in range(32):
                    hi = v if 62 - 2 * j == pos else 1
                    lo = v if 63 - 2 * j == pos else 1
                    want.append(C(hi * 16 + lo, 8))
                st, d = equiv.decide(list(zip(rdbytes(c, o), want)))
                if st != "proved":
                    bad.append((st, "digit %r at position %d: %s" % (chr(ch), pos, d)))
        if bad:
            rep.ob("hexadecimal digest string is parsed byte-reversed", bad[0][0], ctor_s, bad[0][1])
        else:
            rep.ob("hexadecimal digest string is parsed byte-reversed", PROVED, ctor_s)
    rep.guard("hexadecimal digest string is parsed byte-reversed", go)


def c11(rep):
    base = Base()
    need(base, *S512.values())
    h = Hash("sha512", base, rep)
    h.oneshot(S512["oneshot"], "out")
    inc = Incremental(h, "Sha512", 64, S512["append"], S512["finish"], S512["ctor"], "out")
    inc.split() if h.inlined else inc.run()


def c12(rep):
    base = Base()
    need(base, RIPE)
    h = Hash("ripemd160", base, rep)
    h.oneshot(RIPE, "out")
    if not h.inlined:
        for n in ((1 << 29) + 3, (1 << 29) + 63, (1 << 32) + 8, (1 << 45) + 60):
            def go(n=n):
                c = base.fork(h.hooks)
                p = c.obj("msg", None, n)
                off = n // 64 * 64
                mv = syms("t", n - off)
                for i, x in enumerate(mv):
                    c.it.put(c.st, p.obj, off + i, x)
                r = arr(c, "result", syms("r", 20))
                c.call(RIPE, p, C(n, 64), r)
                st = bulk("ripemd160", h.spec.init(), off)
                m = h.spec.pad(mv, C(8 * n, 64))
                for i in range(0, len(m), 64):
                    st = h.comp(st, m[i:i + 64])
                stt, d = equiv.decide(list(zip(rdbytes(c, r), h.spec.out(st))), seed=rep.seed, tries=20)
                rep.ob("digest of a %d-byte message (ripemd160) encodes the full length" % n, stt, RIPE, d)
            rep.guard("digest of a %d-byte message (ripemd160)" % n, go, RIPE)


def c13(rep):
    base = Base()
    need(base, KECC)
    h = Hash("keccak256", base, rep)
    h.oneshot(KECC, "out")


def c14(rep):
    base = Base()
    need(base, *S256.values())
    need(base, *S512.values())
    hmac(Hash("sha256", base, rep), S256["hmac"], "sret", 32)
    hmac(Hash("sha512", base, rep), S512["hmac"], "out", 64)
