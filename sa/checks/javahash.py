"""Java hash functions: value graphs of the compression steps, padding, HMAC and the digest object."""
from ..terms import *
from ..cinterp import Undecided
from ..jinterp import *
from .. import equiv
from ..report import PROVED, REFUTED, UNDECIDED, AnchorLost, Divided
from .cpphash import SPEC, opaque, okeccak, lanes, syms, bulk
from .javaarith import fork, lib, need, covered, nothrow

BIG = 1 << 16
INFO = {  # class, private compression method, state words, word width, result length
    "sha256": ("Sha256", "compress", "([I[BI)", 8, 32, 32), "sha512": ("Sha512", "compress", "([J[BI)", 8, 64, 64),
    "ripemd160": ("Ripemd160", "compress", "([I[BI)", 5, 32, 20), "keccak256": ("Keccak256", "absorb", "([J)", 25, 64, 32)}


def block_hook(name, comp, n, w, B):
    def h(it, st, a):
        s, b, ln = a
        if not isinstance(s, Ref) or not isinstance(b, Ref) or ln.op != "c" or it.length(s.obj) != n:
            return NotImplemented
        m = cv(ln)
        if m >> 31 or m % B or it.length(b.obj) is None or m > it.length(b.obj):
            return NotImplemented
        sw = [it.aget(st, s.obj, i) for i in range(n)]
        if m > BIG:
            sw = bulk(name, sw, m)
        else:
            for k in range(0, m, B):
                sw = comp(sw, [it.aget(st, b.obj, k + i) for i in range(B)])
        for i in range(n):
            it.aput(st, s.obj, i, sw[i])
    return h


def lane_hook(comp):
    def h(it, st, a):
        s = a[0]
        if not isinstance(s, Ref) or it.length(s.obj) != 25:
            return NotImplemented
        r = comp([it.aget(st, s.obj, i) for i in range(25)])
        for i in range(25):
            it.aput(st, s.obj, i, r[i])
    return h


class JHash(Divided):
    def __init__(self, name, rep):
        self.name, self.rep, self.spec = name, rep, SPEC[name]
        self.cls, m, d, self.n, self.w, self.outn = INFO[name]
        need(self.cls + ".getHash")
        self.hooks = {}
        self.comp = None
        n0 = len(rep.obs)
        if lib().find(self.cls, m, d):
            self.fn = "%s.%s" % (self.cls, m)
            if name == "keccak256":
                self.comp = okeccak
                self.hooks = {self.fn + d: lane_hook(okeccak)}
                rep.guard("Java permutation of " + name, self.perm, self.fn, True)
            else:
                self.comp = opaque(name, self.w, self.n)
                self.hooks = {self.fn + d: block_hook(name, self.comp, self.n, self.w, self.spec.block)}
                rep.guard("Java compression of " + name, self.step, self.fn, True)
        self.m, self.d = m, d
        self.contract(n0)
        self.inlined = self.comp is None

    def dec(self, tag, pairs, where, **kw):
        st, d = equiv.decide(pairs, seed=self.rep.seed, **kw)
        self.rep.ob(tag, st, where, d)

    def step(self):
        B = self.spec.block
        for nb in (0, 1, 2):
            c = fork()
            sv, bv = syms("h", self.n, self.w), syms("m", B * max(nb, 1))
            s = c.array("state", "I" if self.w == 32 else "J", sv)
            b = c.array("blocks", "B", bv)
            c.call(self.cls, self.fn.split(".")[1], s, b, C(B * nb, 32), desc=INFO[self.name][2])
            covered(self.rep, c)
            tag = "Java %d-block compression of %s equals its specification for every state and block" % (nb, self.name)
            nothrow(self.rep, c, tag, self.fn)
            ref = sv
            for k in range(nb):
                ref = self.spec.compress(ref, bv[B * k:B * k + B])
            self.dec(tag, list(zip(c.it.vals(c.st, s.obj), ref)), self.fn, tries=60)
            self.dec(tag + ": blocks unchanged", list(zip(c.it.vals(c.st, b.obj), bv)), self.fn)

    def perm(self):
        with lanes():
            c = fork()
            sv = syms("a", 25, 64)
            s = c.array("state", "J", sv)
            c.call(self.cls, self.fn.split(".")[1], s, desc="([J)")
            covered(self.rep, c)
            self.dec("Java permutation of keccak256 equals its specification for every state",
                     list(zip(c.it.vals(c.st, s.obj), self.spec.permute(sv))), self.fn)

    def out(self, c, r):
        if self.name == "sha256":
            o = c.it.obj(c.st, r)
            f = [v for v in c.st.rd(o).values() if isinstance(v, Ref) and v.obj.elem == "B"]
            if len(f) != 1:
                r = c.call("Sha256Hash", "toBytes", r)
            else:
                r = f[0]
        return c.it.vals(c.st, r.obj)

    def lengths(self):
        B = self.spec.block
        if self.probing:
            return [0, 1, B + 1]
        if self.inlined:
            return [0, 1, B - 1 - (0 if self.name == "keccak256" else B // 8), B - 1, B, B + 1]
        if self.rep.thorough:
            return list(range(0, 2 * B + 10)) + [257, 300, 511, 512, 513, 600, 1000, 4095, 4096, 70000]
        return list(range(0, B + 2)) + [2 * B - 10, 2 * B - 9, 2 * B - 8, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B + 5, 513, 600]

    def result(self, c, tag, fn, r, want, pairs=()):
        nothrow(self.rep, c, tag, fn)
        got = self.out(c, r)
        self.dec(tag, [(C(len(got), 32), C(len(want), 32))] + list(zip(got, want)) + list(pairs), fn, tries=20)

    def oneshot(self):
        self.attempt(self._oneshot)

    def _oneshot(self):
        fn = self.cls + ".getHash"
        tasks = []
        for n in self.lengths():
            def go(n=n):
                c = fork(self.hooks)
                mv = syms("m", n)
                p = c.array("msg", "B", mv)
                r = c.call(self.cls, "getHash", p, desc="([B)")
                covered(self.rep, c)
                self.result(c, "Java digest of a %d-byte message (%s) applies padding and compression as specified" % (n, self.name), fn, r,
                            self.spec.digest(mv, self.comp), list(zip(c.it.vals(c.st, p.obj), mv)))
            tasks.append(lambda n=n, go=go: self.rep.guard("Java digest of a %d-byte message (%s)" % (n, self.name), go, fn))
        if not self.inlined and not self.probing and self.name != "keccak256":
            for n in self.huge():
                tasks.append(lambda n=n: self.rep.guard("Java digest of a %d-byte message (%s)" % (n, self.name), lambda: self.hugeone(n), fn))
        self.rep.pmap(tasks)

    def huge(self):
        B = self.spec.block
        return [(1 << 28) + 3, (1 << 29) + B - 1, (1 << 30) + 7, (1 << 31) - 9]

    def hugemsg(self, c, n):
        p = c.array("msg", "B", None, n)
        p.obj.lazy = True
        off = n // self.spec.block * self.spec.block
        mv = syms("t", n - off)
        d = c.st.wr(p.obj)
        for i, x in enumerate(mv):
            d[off + i] = x
        return p, off, mv

    def finish(self, st, mv, total):
        m = self.spec.pad(mv, C(8 * total, 8 * getattr(self.spec, "lenbytes", 8)))
        for i in range(0, len(m), self.spec.block):
            st = self.comp(st, m[i:i + self.spec.block])
        return self.spec.out(st)

    def hugeone(self, n):
        c = fork(self.hooks)
        p, off, mv = self.hugemsg(c, n)
        r = c.call(self.cls, "getHash", p, desc="([B)")
        covered(self.rep, c)
        self.result(c, "Java digest of a %d-byte message (%s) encodes the full length" % (n, self.name), self.cls + ".getHash", r,
                    self.finish(bulk(self.name, self.spec.init(), off), mv, n))

    def hmac(self):
        self.attempt(self._hmac)

    def _hmac(self):
        B = self.spec.block
        fn = self.cls + ".getHmac"
        need(fn)
        keys = sorted(set(list(range(0, 40, 1 if self.rep.thorough else 4)) + [32, B - 2, B - 1, B, B + 1, B + 2, B + 20, 2 * B, 300]))
        msgs = [0, 1, 37, B - 9, B - 1, B]
        if self.inlined:
            keys, msgs = [0, 1, B - 1, B, B + 1], [0, 3]
        elif self.probing:
            keys, msgs = [1, B + 1], [3]
        tasks = []
        for kl in keys:
            for n in (msgs if kl in (0, 32, B - 1, B, B + 1) or self.rep.thorough else msgs[:2]):
                def go(kl=kl, n=n):
                    c = fork(self.hooks)
                    kv, mv = syms("k", kl), syms("m", n)
                    k, m = c.array("key", "B", kv), c.array("msg", "B", mv)
                    r = c.call(self.cls, "getHmac", k, m)
                    covered(self.rep, c)
                    self.result(c, "Java HMAC with a %d-byte key and a %d-byte message (%s)" % (kl, n, self.name), fn, r,
                                self.spec.hmac(kv, mv, self.comp), list(zip(c.it.vals(c.st, k.obj), kv)) + list(zip(c.it.vals(c.st, m.obj), mv)))
                tasks.append(lambda kl=kl, n=n, go=go: self.rep.guard("Java HMAC with a %d-byte key and a %d-byte message (%s)" % (kl, n, self.name), go, fn))
        self.rep.pmap(tasks)


def c10(rep):
    h = JHash("sha256", rep)
    h.oneshot()
    need("Sha256.getDoubleHash")
    for n in [0, 1, 55, 56, 64, 80, 100] if not h.inlined else [0, 80]:
        def go(n=n):
            c = fork(h.hooks)
            mv = syms("m", n)
            p = c.array("msg", "B", mv)
            r = c.call("Sha256", "getDoubleHash", p)
            covered(rep, c)
            h.result(c, "Java double hash of a %d-byte message" % n, "Sha256.getDoubleHash", r,
                     h.spec.digest(h.spec.digest(mv, h.comp), h.comp), list(zip(c.it.vals(c.st, p.obj), mv)))
        rep.guard("Java double hash of a %d-byte message" % n, go, "Sha256.getDoubleHash")
    rep.guard("Java digest object", lambda: hashobj(rep), "Sha256Hash")


def newhash(c, arg, desc):
    o = c.it.new(c.st, "hash", "object", cls="io/nayuki/bitcoin/crypto/Sha256Hash")
    m = lib().find("Sha256Hash", "<init>", desc)
    if m is None:
        raise AnchorLost("Sha256Hash constructor %s not found" % desc)
    c.it.call(m, [Ref(o), arg], c.st)
    return Ref(o)


def accept(ths):
    return bnot(bor(FALSE, *[band(TRUE, *[x if v else bnot(x) for x, v in e[3]]) for e in ths]))


def hashobj(rep):
    need("Sha256Hash.toBytes", "Sha256Hash.equals", "Sha256Hash.compareTo", "Sha256Hash.toString", "Sha256Hash.hashCode")

    def dec(tag, pairs, where, **kw):
        st, d = equiv.decide(pairs, seed=rep.seed, **kw)
        rep.ob(tag, st, where, d)

    def near(g, vs):
        a = g.value(256)
        k = g.r.randrange(3)
        b = a ^ (0 if k == 0 else (1 << g.r.randrange(256)) if k == 1 else g.r.getrandbits(8) << 8 * g.r.randrange(32))
        d = {}
        for i in range(32):
            d["x%d" % i] = a >> 8 * i & 255
            d["y%d" % i] = b >> 8 * i & 255
        return d

    def value():
        c = fork()
        bv = syms("x", 32)
        p = c.array("b", "B", bv)
        o = newhash(c, p, "([B)")
        r = c.call("Sha256Hash", "toBytes", o)
        covered(rep, c)
        nothrow(rep, c, "Java digest object", "Sha256Hash")
        got = c.it.vals(c.st, r.obj)
        dec("Java digest object built from bytes holds exactly those bytes", [(C(len(got), 32), C(32, 32))] + list(zip(got, bv)), "Sha256Hash.toBytes")
        s = c.call("Sha256Hash", "toString", o)
        js = c.it.s(c.st, s)
        want = []
        for b in reversed(bv):
            want += [hexchar(ext(b, 4, 4)), hexchar(ext(b, 0, 4))]
        dec("Java digest object prints its bytes reversed in lowercase hexadecimal", [(C(len(js.chars), 32), C(64, 32))] + list(zip(js.chars, want)), "Sha256Hash.toString", tries=60)
        h = c.call("Sha256Hash", "hashCode", o)
        bad = [v for v in variables([h]) if v not in bv]
        rep.ob("Java digest hash code is a function of the value", UNDECIDED if bad else PROVED, "Sha256Hash.hashCode", str(bad[:3]))
    rep.guard("Java digest object", value, "Sha256Hash")

    def compare():
        c = fork()
        xv, yv = syms("x", 32), syms("y", 32)
        a, b = newhash(c, c.array("a", "B", xv), "([B)"), newhash(c, c.array("b", "B", yv), "([B)")
        X, Y = cat(xv), cat(yv)
        c1 = c.fork2() if hasattr(c, "fork2") else c
        r = c1.call("Sha256Hash", "equals", a, b)
        dec("Java digest equals agrees with the values", [(ext(r, 0, 1), eq(X, Y))], "Sha256Hash.equals", draw=near)
        r = c1.call("Sha256Hash", "compareTo", a, b, desc="(Lio/nayuki/bitcoin/crypto/Sha256Hash;)")
        covered(rep, c)
        tag = "Java digest compareTo orders by the byte-reversed value"
        if lexico(r, xv, yv):
            rep.ob(tag, PROVED, "Sha256Hash.compareTo", "lexicographic chain over the bytes")
        else:
            z = C(0, r.w)
            dec(tag, [(slt(r, z), ult(X, Y)), (band(bnot(slt(r, z)), bnot(eq(r, z))), ult(Y, X))], "Sha256Hash.compareTo", draw=near)
        r = c1.call("Sha256Hash", "equals", a, a)
        dec("Java digest equals itself", [(ext(r, 0, 1), TRUE)], "Sha256Hash.equals")
        r = c1.call("Sha256Hash", "equals", a, JNULL)
        dec("Java digest does not equal null", [(ext(r, 0, 1), FALSE)], "Sha256Hash.equals")
        x2 = newhash(c, c.array("a2", "B", xv), "([B)")
        h1, h2 = c1.call("Sha256Hash", "hashCode", a), c1.call("Sha256Hash", "hashCode", x2)
        dec("equal Java digests have equal hash codes", [(h1, h2)], "Sha256Hash.hashCode")
    rep.guard("Java digest comparison", compare, "Sha256Hash.compareTo")

    def parse():
        c = fork()
        ch = [V("c%d" % i, 16) for i in range(64)]
        o = newhash(c, JStr(ch), "(Ljava/lang/String;)")
        covered(rep, c)
        ok = band(TRUE, *[hexok(x) for x in ch])
        th = c.throws()

        def draw(g, vs):
            d = {}
            for i in range(64):
                d["c%d" % i] = ord(g.r.choice("0123456789abcdefABCDEF"))
            if g.r.randrange(2):
                d["c%d" % g.r.randrange(64)] = g.r.choice([0x2f, 0x3a, 0x40, 0x47, 0x60, 0x67, ord("-"), ord("+"), 0x20, 0x660, 0xff10, 0, g.r.getrandbits(16)])
            return d
        dec("Java digest parser accepts exactly hexadecimal digits", [(accept(th), ok)], "Sha256Hash(String)", draw=draw)
        bad = [e for e in th if e[2] != "java/lang/IllegalArgumentException"]
        rep.ob("Java digest parser throws only IllegalArgumentException", REFUTED if bad else PROVED, "Sha256Hash(String)", str(bad[0][2:4])[:200] if bad else "")
        got = c.it.vals(c.st, c.call("Sha256Hash", "toBytes", o).obj)
        pairs = [(C(len(got), 32), C(32, 32))]
        for i in range(32):
            w = cat([hexval(ch[63 - 2 * i]), hexval(ch[62 - 2 * i])])
            pairs.append((ite(ok, got[i], C(0, 8)), ite(ok, w, C(0, 8))))
        dec("Java hexadecimal digest string is parsed byte-reversed", pairs, "Sha256Hash(String)", draw=draw)
    rep.guard("Java hexadecimal digest string", parse, "Sha256Hash(String)")

    def reject():
        bad = None
        for n in list(range(0, 67)) + [128]:
            for kind in "BS":
                if n == (32 if kind == "B" else 64):
                    continue
                c = fork()
                try:
                    if kind == "B":
                        newhash(c, c.array("b", "B", syms("b", n)), "([B)")
                    else:
                        newhash(c, JStr([C(48, 16)] * n), "(Ljava/lang/String;)")
                    bad = "length %d is accepted" % n
                except Dead:
                    e = c.throws()[-1]
                    if e[2] != "java/lang/IllegalArgumentException":
                        bad = "length %d: %s" % (n, e[2])
        rep.ob("Java digest object rejects other lengths", REFUTED if bad else PROVED, "Sha256Hash", bad or "lengths up to 66 and 128")
    rep.guard("Java digest object rejects other lengths", reject, "Sha256Hash")


def lexico(r, xs, ys):
    """the result is a selection chain from the most significant byte down: x < y exactly when the first differing byte is less"""
    z = C(0, r.w)
    for a, b in reversed(list(zip(xs, ys))):
        if r.op == "ite" and r.args[0] is eq(a, b):
            leaf, r = r.args[2], r.args[1]
        else:
            leaf, r = r, None
        if slt(leaf, z) is not ult(a, b) or eq(leaf, z) is not eq(a, b):
            return False
        if r is None:
            return a is xs[0]
    return r is z


def c11(rep):
    JHash("sha512", rep).oneshot()


def c12(rep):
    JHash("ripemd160", rep).oneshot()


def c13(rep):
    JHash("keccak256", rep).oneshot()


def c14(rep):
    JHash("sha256", rep).hmac()
    JHash("sha512", rep).hmac()
