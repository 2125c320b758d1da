"""C33: rejection of invalid arguments by the Java API."""
import itertools
from ..terms import *
from ..cinterp import Undecided, assume
from ..jinterp import *
from .. import equiv, gcdloop, linear
from ..arith import decide_int
from ..report import PROVED, REFUTED, UNDECIDED, AnchorLost
from .javaarith import fork, lib, need, covered, words, ci, slot, I, int_hooks
from . import javahash as jh, javaecdsa, recip

NPE, IAE, IOOBE = "java/lang/NullPointerException", "java/lang/IllegalArgumentException", "java/lang/IndexOutOfBoundsException"
LENGTHS = list(range(0, 34)) + [40, 47, 48, 63, 64, 65, 128]


def short(c):
    return c.split("/")[-1]


def pcterm(pc):
    return band(TRUE, *[x if v else bnot(x) for x, v in pc])


def feasible(t, seed):
    """None: never; False: not known; otherwise a valuation"""
    if t is FALSE:
        return None
    if t is TRUE:
        return {}
    def draw(g, vs):
        d = {v.args[0]: g.value(v.w) for v in vs}
        odd = g.r.choice("+-/:@G`g \u0660\uff10\uff21\u00b2\x00")
        hexa = [v.args[0] for v in vs if v.w == 16]
        for v in hexa:
            d[v] = ord(g.r.choice("0123456789abcdefABCDEF"))
        for v in hexa:
            if g.r.random() < 1.5 / len(hexa):
                d[v] = ord(odd)
        return d
    s = equiv.separate([(t, FALSE)], seed=seed, tries=200) or equiv.separate([(t, FALSE)], seed=seed, tries=1500, draw=draw)
    return s[1] if s is not None else False


def rejects(rep, name, where, setup, allowed, pre=TRUE, hooks=None):
    """setup(context) performs the call; it must not return normally, must throw only allowed classes, and must not change a parameter.
    (status, detail)"""
    c = fork(hooks)
    c.it.budget = 400000
    done = True
    try:
        setup(c)
    except Dead:
        done = False
    covered(rep, c)
    th = c.throws()
    if done:
        left = band(pre, bnot(bor(FALSE, *[pcterm(e[3]) for e in th])))
        f = feasible(left, rep.seed)
        if f is not None:
            return (UNDECIDED, "a call may return normally") if f is False else (REFUTED, "the call returns normally%s" % (" at " + equiv.show_env(f) if f else ""))
    elif not th:
        return UNDECIDED, "no exception seen"
    for e in th:
        why = None
        if not any(c.it.subclass(e[2], a) for a in allowed):
            why = "throws %s instead of %s" % (short(e[2]), " or ".join(short(a) for a in allowed))
        elif e[4][1]:
            why = "throws %s after changing %s" % (short(e[2]), ", ".join(o.name for o in e[4][1]))
        if why:
            f = feasible(band(pre, pcterm(e[3])), rep.seed)
            if f is not None:
                return (UNDECIDED if f is False else REFUTED), why + (" at " + equiv.show_env(f) if f else "")
    return PROVED, ", ".join(sorted({short(e[2]) for e in th}))


def ob(rep, name, where, setup, allowed, clauses=None, members=(), **kw):
    """with clauses: the class of arguments is their union, each taken on its own; members: (label, setup) of single members, tried where the class is undecided"""
    def run():
        for q in clauses or (None,):
            try:
                if q is None:
                    st, d = rejects(rep, name, where, setup, allowed, **kw)
                else:
                    st, d = rejects(rep, name, where, lambda c: (assume(c.st, q, True), setup(c)), allowed, pre=q, **kw)
            except Undecided as e:
                st, d = UNDECIDED, str(e)
            if st != PROVED:
                break
        if clauses and st == PROVED:
            d += " (%d clauses)" % len(clauses)
        for label, f in members if st == UNDECIDED else ():
            try:
                q = rejects(rep, name, where, f, allowed, **kw)
            except Undecided:
                continue
            if q[0] == REFUTED:
                st, d = REFUTED, "%s: %s" % (label, q[1])
                break
        rep.ob(name, st, where, d)
    rep.guard(name, run, where)


def c33(rep):
    digest(rep)
    hashes(rep)
    signatures(rep)
    ints(rep)
    reciprocal(rep)
    codecs(rep)


# ---------------------------------------------------------------- digest object and hash functions

def digest(rep):
    need("Sha256Hash.compareTo")
    w = "Sha256Hash"
    ob(rep, "Sha256Hash(byte[]) rejects null", w, lambda c: jh.newhash(c, JNULL, "([B)"), (NPE,))
    ob(rep, "Sha256Hash(String) rejects null", w, lambda c: jh.newhash(c, JNULL, "(Ljava/lang/String;)"), (NPE,))

    def anylen(c):
        b = c.symlen("b", "B")
        assume(c.st, eq(b.obj.length, C(32, 32)), False)
        jh.newhash(c, b, "([B)")
    ob(rep, "Sha256Hash(byte[]) rejects every array of another length", w, anylen, (IAE,),
       members=[("length %d" % n, lambda c, n=n: jh.newhash(c, c.array("b", "B", jh.syms("b", n)), "([B)")) for n in LENGTHS if n != 32])
    for n in list(range(0, 64)) + list(range(65, 140)):
        ob(rep, "Sha256Hash(String) rejects every string of length %d" % n, w,
           lambda c, n=n: jh.newhash(c, JStr([V("c%d" % i, 16) for i in range(n)]), "(Ljava/lang/String;)"), (IAE,))
    nothex = [bnot(hexok(V("c%d" % i, 16))) for i in range(64)]

    def digits(c):
        jh.newhash(c, JStr([V("c%d" % i, 16) for i in range(64)]), "(Ljava/lang/String;)")
    ob(rep, "Sha256Hash(String) rejects every other character", w, digits, (IAE,), clauses=nothex)

    def cmp(c):
        h = jh.newhash(c, c.array("b", "B", jh.syms("b", 32)), "([B)")
        c.call("Sha256Hash", "compareTo", h, JNULL, desc="(Lio/nayuki/bitcoin/crypto/Sha256Hash;)")
    ob(rep, "Sha256Hash.compareTo rejects null", w, cmp, (NPE,))


def hashes(rep):
    for cls in ("Sha256", "Sha512", "Ripemd160", "Keccak256"):
        for m in ("getHash", "getDoubleHash"):
            if (cls, m) in (("Sha256", "getDoubleHash"),) or m == "getHash":
                need(cls + "." + m)
                ob(rep, "%s.%s rejects null" % (cls, m), cls + "." + m, lambda c: c.call(cls, m, JNULL, desc="([B)"), (NPE,))
    for cls in ("Sha256", "Sha512"):
        need(cls + ".getHmac")
        for k, t in ((("null", "null"), (0, 0)), (("null", "array"), (0, 1)), (("array", "null"), (1, 0))):
            def run(c):
                a = [c.array("a%d" % i, "B", jh.syms("x%d" % i, 5)) if v else JNULL for i, v in enumerate(t)]
                c.call(cls, "getHmac", *a)
            ob(rep, "%s.getHmac rejects key %s, message %s" % (cls, k[0], k[1]), cls + ".getHmac", run, (NPE,))
        for n in (0, 65, 129, 200):
            def run(c):
                c.call(cls, "getHmac", c.array("a", "B", jh.syms("x", n)), JNULL)
            ob(rep, "%s.getHmac rejects key of %d bytes, message null" % (cls, n), cls + ".getHmac", run, (NPE,))


# ---------------------------------------------------------------- signatures

def signatures(rep):
    H = ("msgHash", None)
    for m, ps in (("sign", (("privateKey", 8), H, ("nonce", 8), ("outR", 8), ("outS", 8))),
                  ("signWithHmacNonce", (("privateKey", 8), H, ("outR", 8), ("outS", 8))),
                  ("verify", (("publicKey", 24), H, ("r", 8), ("s", 8)))):
        need("Ecdsa." + m)
        for combo in itertools.product(*[("ok", "null") if n is None else ("ok", "null", "length") for p, n in ps]):
            if set(combo) == {"ok"}:
                continue
            nm = "Ecdsa.%s rejects %s" % (m, ", ".join("%s %s" % (p, "null" if v == "null" else "of wrong length") for (p, n), v in zip(ps, combo) if v != "ok"))
            allowed = ((NPE,) if "null" in combo else ()) + ((IAE,) if "length" in combo else ())

            def call(c, length=None):
                args = []
                for (p, n), v in zip(ps, combo):
                    if v == "null":
                        args.append(JNULL)
                    elif n is None:
                        args.append(jh.newhash(c, c.array("hash", "B", jh.syms("z", 32)), "([B)"))
                    elif v == "ok":
                        args.append(c.array(p, "I", words(V(p, 32 * n))))
                    elif length is not None:
                        args.append(c.array(p, "I", [V("%s%d" % (p, i), 32) for i in range(length if length != n else 0)]))
                    else:
                        a = c.symlen(p, "I")
                        assume(c.st, eq(a.obj.length, C(n, 32)), False)
                        args.append(a)
                c.call("Ecdsa", m, *args)

            def run():
                try:
                    r = rejects(rep, nm, "Ecdsa." + m, call, allowed, hooks=javaecdsa.curve_hooks())
                except Undecided as e:
                    r = UNDECIDED, str(e)
                if r[0] != PROVED and "length" in combo:
                    # a separating length
                    for n in (9, 16, 25, 30, 7, 23, 1, 0):
                        try:
                            q = rejects(rep, nm, "Ecdsa." + m, lambda c: call(c, n), allowed, hooks=javaecdsa.curve_hooks())
                        except Undecided:
                            continue
                        if q[0] == REFUTED:
                            r = REFUTED, "length %d: %s" % (n, q[1])
                            break
                rep.ob(nm, r[0], "Ecdsa." + m, r[1])
            rep.guard(nm, run, "Ecdsa." + m)


# ---------------------------------------------------------------- integers

def ints(rep):
    if lib().find(I, "bytesToUint"):
        def anylen(c):
            b = c.symlen("b", "B")
            assume(c.st, eq(b.obj.length, C(32, 32)), False)
            c.call(I, "bytesToUint", b, c.array("val", "I", words(V("v", 256))), ci(0))
        ob(rep, "Int256Math.bytesToUint rejects every array of another length", "bytesToUint", anylen, (IAE,),
           members=[("length %d" % n, lambda c, n=n: c.call(I, "bytesToUint", c.array("b", "B", jh.syms("b", n)), c.array("val", "I", words(V("v", 256))), ci(0))) for n in LENGTHS if n != 32])
        ob(rep, "Int256Math.bytesToUint rejects null", "bytesToUint", lambda c: c.call(I, "bytesToUint", JNULL, c.array("val", "I", words(V("v", 256))), ci(0)), (NPE,))
    if lib().find(I, "hexToUint"):
        for n in list(range(0, 64)) + list(range(65, 140)):
            ob(rep, "Int256Math.hexToUint rejects every string of length %d" % n, "hexToUint",
               lambda c, n=n: c.call(I, "hexToUint", JStr([V("c%d" % i, 16) for i in range(n)]), c.array("val", "I", words(V("v", 256))), ci(0)), (IAE,))
        nothex = [bnot(hexok(V("c%d" % i, 16))) for i in range(64)]
        ob(rep, "Int256Math.hexToUint rejects every other character", "hexToUint",
           lambda c: c.call(I, "hexToUint", JStr([V("c%d" % i, 16) for i in range(64)]), c.array("val", "I", words(V("v", 256))), ci(0)), (IAE,), clauses=nothex)
        ob(rep, "Int256Math.hexToUint rejects null", "hexToUint", lambda c: c.call(I, "hexToUint", JNULL, c.array("val", "I", words(V("v", 256))), ci(0)), (NPE,))
    # null arrays
    for cls in (I, "CurvePointMath"):
        k = lib().cls(cls)
        if k is None:
            raise AnchorLost("missing class " + cls)
        for (n, d), m in sorted(k.methods.items()):
            if not m.access & 1 or n.startswith("<") or not any(a == "[I" for a in m.args):
                continue

            def run(c, d=d, n=n, m=m):
                args = []
                for j, a in enumerate(m.args):
                    if a == "[I":
                        args.append(JNULL)
                    elif a == "I":
                        args.append(C(0, 32))
                    elif a == "[B":
                        args.append(c.array("b", "B", jh.syms("b", 32)))
                    else:
                        args.append(JStr([C(48, 16)] * 64))
                c.call(cls, n, *args, desc=d[:d.index(")") + 1])
            ob(rep, "%s.%s rejects a null array" % (cls, n), "%s.%s" % (cls, n), run, (NPE,))


def reciprocal(rep):
    need("Int256Math.reciprocal")
    M, T = recip.M_, recip.T_
    w = "Int256Math.reciprocal"
    g = [V("G%d" % i, 256) for i in range(5)]

    def start(c, m=M, t=T, z=40):
        vals = words(g[0]) + words(t) + words(g[1]) + words(m) + words(g[2]) + words(V("Z", 256)) + words(g[3]) + [V("scr%d" % j, 32) for j in range(48)] + words(g[4])
        ref = c.array("val", "I", vals)
        c.ref = ref
        c.call(I, "reciprocal", ref, ci(8), ci(24), ci(z), ci(56))

    # at entry: the union of the rejected classes, before anything is written
    def entry():
        c = fork(int_hooks())
        hit = []

        def on(cls, cond, state):
            if not c.it.changed(state):
                hit.append((cls, pcterm(state.pc if cond is None else state.pc + ((cond, True),))))

        def store(kind, *a):
            if kind == "store" and a[0] is c.ref.obj:
                raise recip.Stop
        c.it.onthrow = on
        c.it.track = store
        try:
            start(c)
        except (recip.Stop, Dead):
            pass
        covered(rep, c)
        got = bor(FALSE, *[t for k, t in hit if k == IAE])
        odd = ext(M, 0, 1)
        want = bor(bnot(odd), bnot(ult(C(1, 256), M)), bnot(ult(T, M)))

        def draw(r, vs):
            m = r.r.choice([r.value(256), 0, 1, 2, 3, r.r.getrandbits(256) | 1])
            x = r.r.choice([r.value(256), m, max(m - 1, 0), m + 1 & (1 << 256) - 1, 0])
            return dict({v.args[0]: r.value(v.w) for v in vs}, **{M.args[0]: m, T.args[0]: x})
        st, d = equiv.decide([(got, want)], seed=rep.seed, draw=draw)
        rep.ob("Int256Math.reciprocal rejects exactly even moduli, moduli below 2 and values not below the modulus before it writes", st, w, d)
        bad = [k for k, t in hit if k != IAE]
        rep.ob("Int256Math.reciprocal throws only IllegalArgumentException at entry", REFUTED if bad else PROVED, w, ", ".join(bad))
    rep.guard("Int256Math.reciprocal entry checks", entry, w)

    # after the loop: every value sharing a factor with the modulus
    keep = [(0, g[0]), (8, T), (16, g[1]), (24, M), (32, g[2]), (40, V("Z", 256)), (48, g[3]), (104, g[4])]
    end, cur = [], []

    def run(on):
        del end[:]
        c = fork(int_hooks())
        cur[:] = [c]
        c.it.onblock = on

        def ont(cls, cond, state):
            end.append((cls, state.pc if cond is None else state.pc + ((cond, True),), [c.it.words(state, c.ref, o) for o, t in keep]))
        c.it.onthrow = ont
        start(c)
        covered(rep, c)
        return c

    def noncoprime():
        name = "Int256Math.reciprocal rejects every nonzero value not coprime to the modulus, leaving the result unchanged"
        hdr = recip.visits(run)
        full = list(end)
        held = {}
        rd = lambda st, k: cur[0].it.words(st, cur[0].ref, k)
        wr = lambda st, k, v: cur[0].it.setwords(st, cur[0].ref, k, v)

        hv = recip.transitions(hdr, run, rd, wr, lambda st: list(range(0, 112, 8)), held)
        why = hv if isinstance(hv, str) else None
        if why is None:
            syms = set(hv.syms or ())
            after = [e for e in end if any(x in syms for y, v in e[1] for x in variables([y]))]
            bad = [cls for cls, pc, vals in after if cls != IAE]
            if bad:
                return rep.ob(name, UNDECIDED, w, "throws %s" % bad[0])
            if any(a is not t for cls, pc, vals in after for a, (o, t) in zip(vals, keep)):
                why = "words outside the scratch range differ when it throws"
            cond = bor(FALSE, *[band(TRUE, *[y if v else bnot(y) for y, v in pc if any(x in syms for x in variables([y]))]) for cls, pc, vals in after])
            try:
                why = why or gcdloop.rejects(hv.init, hv.steps, cond, hv.syms, M, T)
            except (linear.Unsupported, RecursionError) as e:
                why = "linear domain: %s" % e
        if why is None:
            return rep.ob(name, PROVED, w, "loop invariants: after the loop one cell holds gcd(value, modulus), for which the exception condition is true")

        def draw(r, vs):
            k = r.r.choice([3, 5, 7, 0xffffffff, r.r.getrandbits(r.r.randrange(2, 200)) | 3])
            m = k * (r.r.getrandbits(256 - k.bit_length()) | 1)
            x = k * r.r.randrange(1, m // k) if m > k else 0
            if r.r.randrange(2):
                x = k << r.r.choice([1, 8, 32, 64, 96, 128, r.r.randrange(256)])
                x = x if x < m else k
            return dict({v.args[0]: r.value(v.w) for v in vs}, **{M.args[0]: m, T.args[0]: x})
        cond = bor(FALSE, *[pcterm(pc) for cls, pc, vals in full])
        s = equiv.separate([(bor(cond, eq(T, C(0, 256)), bnot(ult(C(1, 256), M))), TRUE)], seed=rep.seed, draw=draw, tries=60, steer=0)
        if s is not None:
            return rep.ob(name, REFUTED, w, "no exception at " + equiv.show_env({k: v for k, v in s[1].items() if k in ("x", "m")}))
        rep.ob(name, UNDECIDED, w, why)
    rep.guard("Int256Math.reciprocal rejects values not coprime to the modulus", noncoprime, w)


# ---------------------------------------------------------------- codecs

def codecs(rep):
    B5 = "Base58Check"
    need(B5 + ".base58ToBytes", B5 + ".bytesToBase58", "Bech32.segwitToBech32", "Bech32.bech32ToSegwit", "Bech32.bitGroupsToBech32", "Bech32.bech32ToBitGroups")
    ob(rep, "Base58Check.base58ToBytes rejects null", B5, lambda c: c.call(B5, "base58ToBytes", JNULL), (NPE,))
    ob(rep, "Base58Check.bytesToBase58 rejects null", B5, lambda c: c.call(B5, "bytesToBase58", JNULL), (NPE,))
    b = "Bech32"
    for m in ("bech32ToSegwit", "bech32ToBitGroups"):
        ob(rep, "Bech32.%s rejects null" % m, b, lambda c: c.call(b, m, JNULL), (NPE,))
    hp = lambda: JStr([C(98, 16), C(99, 16)])
    for h, d in ((0, 0), (0, 1), (1, 0)):
        t = "%s and %s" % ("part" if h else "null part", "data" if d else "null data")
        ob(rep, "Bech32.bitGroupsToBech32 rejects " + t, b,
           lambda c: c.call(b, "bitGroupsToBech32", hp() if h else JNULL, c.array("data", "B", jh.syms("d", 7)) if d else JNULL), (NPE,))
        ob(rep, "Bech32.segwitToBech32 rejects " + t, b,
           lambda c: c.call(b, "segwitToBech32", hp() if h else JNULL, V("witVer", 32), c.array("data", "B", jh.syms("d", 20)) if d else JNULL), (NPE, IAE))
    v = V("witVer", 32)
    declare_ub(V("witProg.length", 32), (1 << 31) - 1)
    ob(rep, "Bech32.segwitToBech32 rejects every witness version outside 0 to 16", b,
       lambda c: c.call(b, "segwitToBech32", hp(), v, c.array("data", "B", jh.syms("d", 20))), (IAE,), clauses=[slt(v, C(0, 32)), slt(C(16, 32), v)])

    def proglen(c):
        a = c.symlen("witProg", "B")
        c.call(b, "segwitToBech32", hp(), C(0, 32), a)
    n = V("witProg.length", 32)
    ob(rep, "Bech32.segwitToBech32 rejects every program length outside 2 to 40", b, proglen, (IAE,), clauses=[ult(n, C(2, 32)), band(ult(C(40, 32), n), bnot(ult(n, C(2, 32))))],
       members=[("length %d" % k, lambda c, k=k: c.call(b, "segwitToBech32", hp(), C(0, 32), c.array("data", "B", jh.syms("d", k)))) for k in (0, 1, 41, 42, 44, 48, 64)])
    for k in (1, 2, 33, 70):
        ds = jh.syms("d", k)
        big = [ult(C(31, 8), x) for x in ds]
        ob(rep, "Bech32.bitGroupsToBech32 rejects %d data values of which any exceeds 5 bits" % k, b,
           lambda c: c.call(b, "bitGroupsToBech32", hp(), c.array("data", "B", ds)), (IAE,), clauses=big)
