"""Constant time (C19): no secret reaches a branch condition, an address, a select or a variable-latency instruction.

Secrets are symbols; every computed word is widened to a fresh secret (so the domain is: known constant, or secret), which keeps
public loop bounds and addresses exact while no operation on secrets is unfolded.  Calls to operations that are obligations of this
check themselves are replaced by 'writes its outputs with fresh secrets'."""
from ..terms import *
from ..cinterp import *
from .. import cspec, x86
from ..jinterp import JInterp, Ref, JObj, ELEMW
from ..arith import N
from ..cspec import Missing
from ..report import PROVED, REFUTED, UNDECIDED, AnchorLost
from .cpparith import asm, base, CONFIGS
from . import javaarith

_n = [0]


def secret(w):
    _n[0] += 1
    return V("secret%d" % _n[0], w)


class Sanction(object):
    """conditions one outcome of which never returns (assertion, exception): calls that complete cannot be told apart by them"""
    precise = False
    sink = None

    def fork2(self, fr, c, fa, fb, state):
        sink = self.sink
        at = len(sink) - 1
        mine = at >= 0 and sink[at][2] is c
        died = []

        def side(f):
            n = len(sink)

            def g(s):
                try:
                    return f(s)
                except Dead:
                    died.append(f)
                    del sink[n:]
                    raise
            return g
        r = super().fork2(fr, c, side(fa), side(fb), state)
        if died and mine:
            sink[at] = None
        return r

    def widen(self, r):
        if isinstance(r, T) and r.op not in ("c", "v") and not (self.precise and ub(r) <= 1):
            v = secret(r.w)
            declare_ub(v, ub(r))
            return v
        return r


class Secrecy(Sanction, Interp):
    """constants stay exact, everything else becomes an unrelated secret"""

    def step(self, fr, ins, state):
        return self.widen(Interp.step(self, fr, ins, state))


class JSecrecy(Sanction, JInterp):
    def push(self, fr, v):
        JInterp.push(self, fr, self.widen(v))


U, F, P = "Uint256::", "FieldInt::", "CurvePoint::"
u, f, p = ("c", 32), ("c", 32), ("c", 96)
mu, mf, mp = ("m", 32), ("m", 32), ("m", 96)
e = ("e", 32)


def o(n):
    return ("o", n)


def k(n):
    return ("k", n)


BOOL = 1
# function -> (parameters, width of the result, required)
OPS = {
    U + "Uint256(unsigned char const*)": ((o(32), ("c", 32)), 0),
    U + "Uint256(FieldInt const&)": ((o(32), f), 0),
    U + "add(Uint256 const&, unsigned int)": ((mu, u, e), "e"),
    U + "subtract(Uint256 const&, unsigned int)": ((mu, u, e), "e"),
    U + "shiftLeft1()": ((mu,), "e"),
    U + "shiftRight1(unsigned int)": ((mu, e), 0),
    U + "reciprocal(Uint256 const&)": ((mu, ("n", 32)), 0),
    U + "replace(Uint256 const&, unsigned int)": ((mu, u, e), 0),
    U + "swap(Uint256&, unsigned int)": ((mu, mu, e), 0),
    U + "getBigEndianBytes(unsigned char*) const": ((u, o(32)), 0),
    F + "FieldInt(Uint256 const&)": ((o(32), u), 0),
    F + "add(FieldInt const&)": ((mf, f), 0),
    F + "subtract(FieldInt const&)": ((mf, f), 0),
    F + "multiply2()": ((mf,), 0),
    F + "square()": ((mf,), 0),
    F + "multiply(FieldInt const&)": ((mf, f), 0),
    F + "reciprocal()": ((mf,), 0),
    F + "replace(FieldInt const&, unsigned int)": ((mf, f, e), 0),
    P + "CurvePoint(FieldInt const&, FieldInt const&)": ((o(96), f, f), 0),
    P + "add(CurvePoint const&)": ((mp, p), 0),
    P + "twice()": ((mp,), 0),
    P + "multiply(Uint256 const&)": ((mp, u), 0),
    P + "normalize()": ((mp,), 0),
    P + "replace(CurvePoint const&, unsigned int)": ((mp, p, e), 0),
    P + "isOnCurve() const": ((p,), BOOL),
    P + "isZero() const": ((p,), BOOL),
    P + "operator==(CurvePoint const&) const": ((p, p), BOOL),
    P + "operator!=(CurvePoint const&) const": ((p, p), BOOL),
    P + "toCompressedPoint(unsigned char*) const": ((p, o(33)), 0),
    P + "privateExponentToPublicPoint(Uint256 const&)": ((o(96), u), 0),
    "Sha256Hash::Sha256Hash(unsigned char const*, unsigned long)": ((o(32), ("c", 32), k(32)), 0),
    "Sha256Hash::operator==(Sha256Hash const&) const": ((u, u), BOOL),
    "Sha256Hash::operator!=(Sha256Hash const&) const": ((u, u), BOOL),
}
for x in ("==", "!=", "<", "<=", ">", ">="):
    OPS[U + "operator%s(Uint256 const&) const" % x] = ((u, u), BOOL)
    OPS[F + "operator%s(FieldInt const&) const" % x] = ((f, f), BOOL)
# internal helpers: analysed on their own when present, otherwise inlined where they are called
OPTIONAL = {
    F + "replace(FieldInt const&, unsigned int)", F + "operator<(Uint256 const&) const", F + "operator>=(Uint256 const&) const",
    P + "replace(CurvePoint const&, unsigned int)",
}
OPS[F + "operator<(Uint256 const&) const"] = ((f, u), BOOL)
OPS[F + "operator>=(Uint256 const&) const"] = ((f, u), BOOL)
# compression functions, with the state they keep (constructed, then filled with secrets)
HASH = {
    "Sha256::getHash(unsigned char const*, unsigned long)": lambda n: (o(32), ("c", n), k(n)),
    "Sha256::getDoubleHash(unsigned char const*, unsigned long)": lambda n: (o(32), ("c", n), k(n)),
    "Sha512::getHash(unsigned char const*, unsigned long, unsigned char*)": lambda n: (("c", n), k(n), o(64)),
    "Ripemd160::getHash(unsigned char const*, unsigned long, unsigned char*)": lambda n: (("c", n), k(n), o(20)),
    "Keccak256::getHash(unsigned char const*, unsigned long, unsigned char*)": lambda n: (("c", n), k(n), o(32)),
}
HMAC = {
    "Sha256::getHmac(unsigned char const*, unsigned long, unsigned char const*, unsigned long)":
        lambda a, b: (o(32), ("c", a), k(a), ("c", b), k(b)),
    "Sha512::getHmac(unsigned char const*, unsigned long, unsigned char const*, unsigned long, unsigned char*)":
        lambda a, b: (("c", a), k(a), ("c", b), k(b), o(64)),
}
SIGN = "Ecdsa::sign(Uint256 const&, Sha256Hash const&, Uint256 const&, Uint256&, Uint256&)"
SIGNH = "Ecdsa::signWithHmacNonce(Uint256 const&, Sha256Hash const&, Uint256&, Uint256&)"
SIGNS = {SIGN: (u, u, u, mu, mu), SIGNH: (u, u, mu, mu)}


def result(rw):
    if rw == "e":
        v = zext(secret(1), 32)
        return v
    return secret(rw) if rw else None


def summary(params, rw):
    def h(it, st, a):
        if len(a) != len(params):
            return NotImplemented
        for (kind, n), x in zip(params, a):
            if kind in "mo":
                it.store(st, x, secret(8 * n))
            if kind == "k" and not (isinstance(x, T) and x.op == "c"):
                return NotImplemented       # a length that is not public: analyse the call where it stands
        return result(rw)
    return h


def arguments(c, params):
    r = []
    for i, (kind, n) in enumerate(params):
        if kind == "e":
            r.append(zext(secret(1), 32))
        elif kind == "k":
            r.append(C(n, 64))
        elif kind == "n":
            r.append(c.obj("arg%d" % i, C(N, 256)))
        else:
            r.append(c.obj("arg%d" % i, secret(8 * n) if n and kind != "o" else None, size=n))
    return r


WHAT = {"branch": "decides a branch", "select": "decides a conditional expression", "address": "decides a memory address",
        "divide": "reaches a variable-latency division", "library": "is scanned by a library routine whose time depends on the contents"}


def trace(it, sink):
    def t(kind, ins, info):
        if kind not in WHAT:
            return
        if kind == "select" and isinstance(ins, x86.AInst):
            return          # conditional moves take the same time either way
        if kind == "library":
            if isinstance(info, str) or tainted(*info[1:]):
                sink.append((kind, ins, None))
        elif isinstance(info, T) and variables([info]):
            sink.append((kind, ins, info))
    it.track = t
    it.sink = sink


def tainted(args, state):
    for x in args:
        if isinstance(x, T):
            if x.op != "c":
                return True
        elif isinstance(x, Ref):
            if isinstance(x.obj, JObj) and any(isinstance(v, T) and v.op != "c" for v in state.rd(x.obj).values()):
                return True
        elif not isinstance(x, str):
            return True
    return False


def where(ins):
    try:
        return ins.where()
    except Exception:
        return "?"


def prepare(cfg, me, extra=None):
    hooks = {d: summary(ps, rw) for d, (ps, rw) in OPS.items() if d != me}
    hooks.update(extra or {})
    b = base(cfg)
    h = dict(b.it.hooks)
    h.update(hooks)
    c = b.fork(h)
    c.it.__class__ = Secrecy
    c.it.budget = 2000000
    return c


def analyse(rep, cfg, dem, params, extra=None, label="", optional=False):
    name = "%s: %s%s" % (cfg, dem, label)
    c = prepare(cfg, dem, extra)
    if not c.has(dem):
        if optional:
            return
        raise AnchorLost("function %s not found" % dem)
    rep.functions.add(dem)
    sink = []
    trace(c.it, sink)
    limit = None
    try:
        c.call(dem, *arguments(c, params))
    except Undecided as ex:
        limit = str(ex)
    except Dead:
        limit = "no return path"
    conclude(rep, name, sink, limit)


def conclude(rep, name, sink, limit):
    sink = [x for x in sink if x]
    if sink:
        seen = {}
        for kind, ins, info in sink:
            seen.setdefault((kind, where(ins)), 0)
        d = "; ".join("%s: a secret %s" % (w, WHAT[kd]) for kd, w in seen)
        rep.ob(name, REFUTED, next(iter(seen))[1], d)
    elif limit:
        rep.ob(name, UNDECIDED, "", limit)
    else:
        rep.ob(name, PROVED, "", "no secret-dependent branch, address, conditional or division")


def signing(rep, cfg, dem, params):
    """successful executions of sign are indistinguishable: a condition may be tested only if one outcome means failure"""
    extra = {d: summary(mk(32, 32), 0) for d, mk in HMAC.items()}
    if dem != SIGN:
        extra[SIGN] = summary(SIGNS[SIGN], BOOL)
    c = prepare(cfg, dem, extra)
    if not c.has(dem):
        raise AnchorLost("function %s not found" % dem)
    rep.functions.add(dem)
    c.it.precise = True
    sink = []
    trace(c.it, sink)
    limit = ret = None
    try:
        ret = c.call(dem, *arguments(c, params))
    except Undecided as ex:
        limit = str(ex)
    except Dead:
        limit = "no return path"
    conclude(rep, "%s: %s: successful executions indistinguishable" % (cfg, dem), failures_allowed(sink, ret), limit)


def failures_allowed(sink, ret):
    bad = []
    for x in sink:
        if x is None:
            continue
        kind, ins, info = x
        if kind in ("branch", "select") and isinstance(ret, T) and info.w == 1:
            if any(known_false(rebuild_bool(ret, {info: b, bnot(info): 1 - b})) for b in (0, 1)):
                continue
            if rebuild_bool(info, success(ret)).op == "c":
                continue
        bad.append(x)
    return bad


def success(ret):
    """the conditions that a result of true fixes: each conjunct of it, and the negation of what it negates"""
    out, todo = {}, [ret]
    while todo:
        t = todo.pop()
        if t.w > 1 and ub(t) <= 1:
            todo.append(ext(t, 0, 1))
        elif t.op == "and":
            todo += [a for a in t.args if isinstance(a, T)]
        elif t.op != "c":
            out[t] = 1
            out[bnot(t)] = 0
    return out


def rebuild_bool(t, m):
    return rebuild(t, {a: C(b, 1) for a, b in m.items()})


def known_false(t):
    return t.op == "c" and cv(t) == 0


def c19(rep):
    jobs = []
    for cfg in CONFIGS:
        base(cfg)
        for dem, (params, rw) in OPS.items():
            opt = dem in OPTIONAL or "operator" in dem and dem.startswith(F) and "==" not in dem and "!=" not in dem
            jobs.append(lambda cfg=cfg, dem=dem, params=params, opt=opt: rep.guard(
                dem, lambda: analyse(rep, cfg, dem, params, optional=opt)))
        for dem, params in SIGNS.items():
            jobs.append(lambda cfg=cfg, dem=dem, params=params: rep.guard(dem, lambda: signing(rep, cfg, dem, params)))
    ns = (0, 1, 32, 55, 56, 64, 120, 136, 200, 256) if not rep.thorough else tuple(range(0, 300, 7)) + (55, 56, 64, 111, 112, 128, 136, 135)
    for dem, mk in HASH.items():
        for n in ns:
            jobs.append(lambda dem=dem, mk=mk, n=n: rep.guard(
                dem, lambda: analyse(rep, "pure-cpp", dem, mk(n), label=" of %d bytes" % n)))
    for dem, mk in HMAC.items():
        for a, b in ((32, 32), (0, 0), (64, 37), (65, 64), (128, 1), (129, 200)):
            jobs.append(lambda dem=dem, mk=mk, a=a, b=b: rep.guard(
                dem, lambda: analyse(rep, "pure-cpp", dem, mk(a, b), label=" with %d-byte key, %d-byte message" % (a, b))))
    rep.pmap(jobs)


# ---------------------------------------------------------------- C31: Java

I, CM = "Int256Math", "CurvePointMath"
X, Z, TMP, E, PT, PZ = ("x", 8), ("z", 8), ("t", 0), ("e", 1), ("x", 24), ("z", 24)
A = ("a", 0)
JOPS = {
    I + ".uintAdd([IIIII)": ((A, X, X, E, Z), "e", None),
    I + ".uintSubtract([IIIII)": ((A, X, X, E, Z), "e", None),
    I + ".uintShiftLeft1([III)": ((A, X, Z), "e", None),
    I + ".uintShiftRight1([IIII)": ((A, X, E, Z), 0, None),
    I + ".reciprocal([IIIII)": ((A, X, X, Z, TMP), 0, "RECIPROCAL_TEMP_WORDS"),
    I + ".fieldAdd([IIIII)": ((A, X, X, Z, TMP), 0, "FIELD_ADD_TEMP_WORDS"),
    I + ".fieldSubtract([IIIII)": ((A, X, X, Z, TMP), 0, "FIELD_SUBTRACT_TEMP_WORDS"),
    I + ".fieldMultiply2([IIII)": ((A, X, Z, TMP), 0, "FIELD_MULTIPLY2_TEMP_WORDS"),
    I + ".fieldSquare([IIII)": ((A, X, Z, TMP), 0, "FIELD_SQUARE_TEMP_WORDS"),
    I + ".fieldMultiply([IIIII)": ((A, X, X, Z, TMP), 0, "FIELD_MULTIPLY_TEMP_WORDS"),
    I + ".replace([IIII)": ((A, Z, X, E), 0, None),
    I + ".swap([IIII)": ((A, Z, Z, E), 0, None),
    I + ".equalTo([III)": ((A, X, X), "e", None),
    I + ".lessThan([III)": ((A, X, X), "e", None),
    I + ".isZero([II)": ((A, X), "e", None),
    CM + ".twice([III)": ((A, PZ, TMP), 0, "TWICE_TEMP_WORDS"),
    CM + ".add([IIII)": ((A, PZ, PT, TMP), 0, "ADD_TEMP_WORDS"),
    CM + ".multiply([IIII)": ((A, PZ, X, TMP), 0, "MULTIPLY_TEMP_WORDS"),
    CM + ".normalize([III)": ((A, PZ, TMP), 0, "NORMALIZE_TEMP_WORDS"),
    CM + ".replace([IIII)": ((A, PZ, PT, E), 0, None),
    CM + ".isOnCurve([III)": ((A, PT, TMP), "e", "ISONCURVE_TEMP_WORDS"),
    CM + ".isZero([II)": ((A, PT), "e", None),
}
JSIGN = {"Ecdsa.sign([ILSha256Hash;[I[I[I)": 5, "Ecdsa.signWithHmacNonce([ILSha256Hash;[I[I)": 4}


def jresult(rw):
    return zext(secret(1), 32) if rw == "e" else C(0, 32)


def jsummary(params, rw):
    def h(it, st, a):
        if len(a) != len(params) or not isinstance(a[0], Ref):
            return NotImplemented
        for (kind, n), x in zip(params, a):
            if kind == "z":
                if x.op != "c" or it.length(a[0].obj) is None or cv(x) + n > it.length(a[0].obj):
                    return NotImplemented
                for i in range(n):
                    it.aput(st, a[0].obj, cv(x) + i, secret(32))
        return jresult(rw)
    return h


def jprepare(me, extra=None):
    hooks = {d: jsummary(ps, rw) for d, (ps, rw, _) in JOPS.items() if d != me}
    hooks.update(extra or {})
    c = javaarith.fork(hooks)
    c.it.__class__ = JSecrecy
    return c


def jscratch(cls, const):
    if const is None:
        return 0
    c = javaarith.fork()
    try:
        return cv(c.it.getstatic(c.st, javaarith.lib().cls(cls).name, const, "I"))
    except Undecided:
        return 600


def joperation(rep, me, params, rw, const):
    cls, rest = me.split(".")
    meth, desc = rest.split("(")
    name = "Java: " + me
    if javaarith.lib().find(cls, meth, "(" + desc) is None:
        if me.startswith(I + ".isZero"):
            return
        raise AnchorLost("method %s not found" % me)
    c = jprepare(me)
    n = sum(k for _, k in params) + jscratch(cls, const)
    ref = c.array("val", "I", [secret(32) for _ in range(n)])
    args, at = [], 0
    for kind, k in params:
        if kind == "a":
            args.append(ref)
        elif kind == "e":
            args.append(zext(secret(1), 32))
        else:
            args.append(C(at, 32))
            at += k
    sink = []
    trace(c.it, sink)
    jrun(rep, c, name, sink, lambda: c.call(cls, meth, *args, desc="(" + desc))


def jrun(rep, c, name, sink, go, fails=False):
    limit = ret = None
    try:
        ret = go()
    except Undecided as ex:
        limit = str(ex)
    except Dead:
        limit = "no return path"
    javaarith.covered(rep, c)
    conclude(rep, name, failures_allowed(sink, ret) if fails else sink, limit)


def jbytes(c, name, n):
    return c.array(name, "B", [secret(8) for _ in range(n)])


def jhash(c):
    """a digest object built by its own constructor from secret bytes"""
    k = javaarith.lib().cls("Sha256Hash")
    o = c.it.new(c.st, "hash", "object", cls=k.name)
    c.it.call(javaarith.lib().find("Sha256Hash", "<init>", "([B)"), [Ref(o), jbytes(c, "digest", 32)], c.st)
    return Ref(o)


def c31(rep):
    jobs = []
    javaarith.base()
    for me, (params, rw, const) in JOPS.items():
        jobs.append(lambda me=me, params=params, rw=rw, const=const: rep.guard(me, lambda: joperation(rep, me, params, rw, const)))
    hm = {"Sha256.getHmac([B[B)": lambda it, st, a: jdigest(it, st)}

    def sign(meth, n):
        def run():
            javaarith.need("Ecdsa." + meth)
            ex = dict(hm)
            c = jprepare("", ex)
            c.it.precise = True
            if meth != "sign":
                for k in javaarith.lib().cls("Ecdsa").methods:
                    if k[0] == "sign":
                        c.it.hooks["Ecdsa.sign" + k[1].split(")")[0] + ")"] = lambda it, st, a: zext(secret(1), 32)
            sink = []
            w = lambda nm: c.array(nm, "I", [secret(32) for _ in range(8)])
            args = [w("key"), jhash(c)] + [w("w%d" % i) for i in range(n - 2)]
            trace(c.it, sink)
            jrun(rep, c, "Java: Ecdsa.%s: successful executions indistinguishable" % meth, sink, lambda: c.call("Ecdsa", meth, *args), True)
        jobs.append(lambda: rep.guard("Ecdsa." + meth, run))
    sign("sign", 5)
    sign("signWithHmacNonce", 4)

    def bytes_():
        c = jprepare("")
        sink = []
        b, v = jbytes(c, "bytes", 32), c.array("val", "I", [secret(32) for _ in range(24)])
        trace(c.it, sink)
        jrun(rep, c, "Java: Int256Math.bytesToUint", sink, lambda: c.call(I, "bytesToUint", b, v, C(8, 32)))
        c = jprepare("")
        sink = []
        v = c.array("val", "I", [secret(32) for _ in range(24)])
        trace(c.it, sink)
        jrun(rep, c, "Java: Int256Math.uintToBytes", sink, lambda: c.call(I, "uintToBytes", v, C(8, 32)))
    jobs.append(lambda: rep.guard("bytes", bytes_))
    ns = (0, 1, 32, 55, 56, 64, 120, 136, 200, 256) if not rep.thorough else tuple(range(0, 300, 7)) + (55, 56, 64, 111, 112, 128, 136, 135)

    def hash_(cls, meth, *lens):
        def run():
            javaarith.need("%s.%s" % (cls, meth))
            c = jprepare("")
            sink = []
            args = [jbytes(c, "in%d" % i, n) for i, n in enumerate(lens)]
            trace(c.it, sink)
            jrun(rep, c, "Java: %s.%s of %s bytes" % (cls, meth, ", ".join(map(str, lens))), sink,
                 lambda: c.call(cls, meth, *args, desc="(" + "[B" * len(lens) + ")"))
        jobs.append(lambda: rep.guard(cls, run))
    for n in ns:
        for cls in ("Sha256", "Sha512", "Ripemd160", "Keccak256"):
            hash_(cls, "getHash", n)
        hash_("Sha256", "getDoubleHash", n)
    for cls in ("Sha256", "Sha512"):
        for a, b in ((32, 32), (0, 0), (64, 37), (65, 64), (128, 1), (129, 200)):
            hash_(cls, "getHmac", a, b)
    rep.pmap(jobs)


def jdigest(it, st):
    k = javaarith.lib().cls("Sha256Hash")
    o = it.new(st, "hmac", "object", cls=k.name)
    it.call(javaarith.lib().find("Sha256Hash", "<init>", "([B)"), [Ref(o), it.array(st, "mac", "B", [secret(8) for _ in range(32)])], st)
    return Ref(o)
