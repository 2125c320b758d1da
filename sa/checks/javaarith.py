"""Java 256-bit integers and the prime field (arrays of 32-bit words at offsets)."""
from ..terms import *
from ..cinterp import Undecided
from ..jinterp import *
from .. import equiv, arith, poly
from ..arith import P, N, decide_int, decide_mod
from ..cspec import Missing
from ..report import PROVED, REFUTED, UNDECIDED, AnchorLost

I = "Int256Math"
_base = {}
W8 = 8


def lib():
    if "lib" not in _base:
        _base["lib"] = Library()
    return _base["lib"]


def base(ea=False):
    if ea not in _base:
        _base[ea] = JCtx(lib(), ea=ea)
    return _base[ea]


def fork(hooks=None, ea=False):
    return base(ea).fork(hooks)


def words(t):
    return [ext(t, 32 * i, 32) for i in range(t.w // 32)]


def ci(n):
    return C(n, 32)


def slot(c, ref, off):
    return c.it.words(c.st, ref, off)


def need(*names):
    for n in names:
        cls, m = n.split(".")
        m = m.split("(")[0]
        k = lib().cls(cls)
        if k is None or not any(nm == m for nm, d in k.methods):
            raise AnchorLost("method %s not found" % n)


def mname(n):
    return n


# ---------------------------------------------------------------- contracts (decided by C25 / C26)

class Junk(object):
    """contents of a scratch range after a call: a fresh unknown per call and slot"""
    n = [0]

    @classmethod
    def fill(cls, it, st, ref, off, n):
        for i in range(n):
            cls.n[0] += 1
            it.aput(st, ref.obj, off + i, V("junk!%d" % cls.n[0], 32))


def offs(*ts):
    r = []
    for t in ts:
        if t.op != "c" or cv(t) & 7 or cv(t) >> 31:
            return None
        r.append(cv(t))
    return r


def fits(it, ref, o, n=8):
    ln = it.length(ref.obj)
    return ln is not None and o + n <= ln


def overlap(ranges, scratch, n):
    return any(o + 8 > scratch and o < scratch + n for o in ranges)


def int_hooks():
    h = {}

    def w(it, st, a, o):
        return it.words(st, a, o)

    def addsub(f):
        def g(it, st, a):
            v, x, y, en, z = a
            o = offs(x, y, z)
            if o is None or ub(en) > 1 or not isinstance(v, Ref) or not all(fits(it, v, k) for k in o):
                return NotImplemented
            full = f(zext(w(it, st, v, o[0]), 257), ite(ext(en, 0, 1), zext(w(it, st, v, o[1]), 257), C(0, 257)))
            it.setwords(st, v, o[2], ext(full, 0, 256))
            return zext(ext(full, 256, 1), 32)
        return g

    def shl1(it, st, a):
        o = offs(a[1], a[2])
        if o is None or not all(fits(it, a[0], k) for k in o):
            return NotImplemented
        x = w(it, st, a[0], o[0])
        it.setwords(st, a[0], o[1], cat([C(0, 1), ext(x, 0, 255)]))
        return zext(ext(x, 255, 1), 32)

    def shr1(it, st, a):
        o = offs(a[1], a[3])
        if o is None or ub(a[2]) > 1 or not all(fits(it, a[0], k) for k in o):
            return NotImplemented
        x = w(it, st, a[0], o[0])
        it.setwords(st, a[0], o[1], ite(ext(a[2], 0, 1), zext(ext(x, 1, 255), 256), x))

    def rep(it, st, a):
        o = offs(a[1], a[2])
        if o is None or ub(a[3]) > 1 or not all(fits(it, a[0], k) for k in o):
            return NotImplemented
        x, y = w(it, st, a[0], o[0]), w(it, st, a[0], o[1])
        it.setwords(st, a[0], o[0], ite(ext(a[3], 0, 1), y, x))

    def swap(it, st, a):
        o = offs(a[1], a[2])
        if o is None or ub(a[3]) > 1 or not all(fits(it, a[0], k) for k in o):
            return NotImplemented
        x, y = w(it, st, a[0], o[0]), w(it, st, a[0], o[1])
        e = ext(a[3], 0, 1)
        it.setwords(st, a[0], o[0], ite(e, y, x))
        it.setwords(st, a[0], o[1], ite(e, x, y))

    def cmp(f):
        def g(it, st, a):
            o = offs(a[1], a[2])
            if o is None or not all(fits(it, a[0], k) for k in o):
                return NotImplemented
            return zext(f(w(it, st, a[0], o[0]), w(it, st, a[0], o[1])), 32)
        return g

    def cmp2(f):
        def g(it, st, a):
            o = offs(a[1], a[3])
            if o is None or not fits(it, a[0], o[0]) or not fits(it, a[2], o[1]):
                return NotImplemented
            return zext(f(w(it, st, a[0], o[0]), w(it, st, a[2], o[1])), 32)
        return g

    def isz(it, st, a):
        o = offs(a[1])
        if o is None or not fits(it, a[0], o[0]):
            return NotImplemented
        return zext(eq(w(it, st, a[0], o[0]), C(0, 256)), 32)
    h = {"uintAdd([IIIII)": addsub(add), "uintSubtract([IIIII)": addsub(sub), "uintShiftLeft1([III)": shl1,
         "uintShiftRight1([IIII)": shr1, "replace([IIII)": rep, "swap([IIII)": swap, "equalTo([III)": cmp(eq),
         "lessThan([III)": cmp(ult), "lessThan([II[II)": cmp2(ult), "equalTo([II[II)": cmp2(eq), "isZero([II)": isz}
    h = {I + "." + k: v for k, v in h.items()}
    return h


# ---------------------------------------------------------------- C25

def partitions(n):
    """all ways operands can coincide"""
    def go(i, part):
        if i == n:
            yield list(part)
            return
        for k in range(max(part) + 2 if part else 1):
            yield from go(i + 1, part + [k])
    return list(go(0, []))


def setup(nslots, part, names, hooks=None, pad=1, ea=False, extra=0):
    """a backing array with a free guard slot, one slot per operand class and trailing scratch; returns ctx, ref, offsets, terms"""
    c = fork(hooks, ea)
    k = max(part) + 1 if part else 0
    vals = []
    terms = [V("G0", 256)]
    for j in range(k):
        terms.append(V("S%d" % j, 256))
    terms.append(V("G1", 256))
    for t in terms:
        vals += words(t)
    scr = len(vals)
    for j in range(extra):
        vals.append(V("scr%d" % j, 32))
    g2 = V("G2", 256)
    vals += words(g2)
    ref = c.array("val", "I", vals)
    return c, ref, [8 * (1 + j) for j in part], [terms[1 + j] for j in part], scr, {0: terms[0], 8 * (k + 1): terms[-1], scr + extra: g2}


def unchanged(c, ref, guards):
    return [(slot(c, ref, o), t) for o, t in guards.items()]


def tagof(part, names):
    if len(set(part)) == len(part):
        return ""
    g = {}
    for p, n in zip(part, names):
        g.setdefault(p, []).append(n)
    return " with " + ", ".join("=".join(v) for v in g.values() if len(v) > 1)


def covered(rep, c):
    rep.functions |= c.it.visited


def nothrow(rep, c, tag, m):
    bad = [e for e in c.throws()]
    if bad:
        rep.ob(tag + ": completes", UNDECIDED, m, "possible exception %s (%s)" % (bad[0][2], bad[0][4][0]))


def integers(rep):
    need("Int256Math.uintAdd", "Int256Math.uintSubtract", "Int256Math.uintShiftLeft1", "Int256Math.uintShiftRight1",
         "Int256Math.replace", "Int256Math.swap", "Int256Math.equalTo", "Int256Math.lessThan", "Int256Math.uintToBytes", "Int256Math.bytesToUint")
    en = V("en", 1)
    e32 = zext(en, 32)
    B = 1 << 256
    jobs = []

    def op(name, desc, names, mkargs, post):
        for part in partitions(len(names)):
            def go(part=part):
                tag = "%s.%s%s" % (I, name, tagof(part, names))

                def run():
                    c, ref, o, t, scr, guards = setup(0, part, names)
                    r = c.call(I, name, ref, *mkargs(o), desc=desc)
                    covered(rep, c)
                    nothrow(rep, c, tag, name)
                    post(tag, name, c, ref, o, t, r, guards)
                rep.guard(tag, run, name)
            jobs.append(go)

    def slots(c, ref, o, t, out):
        """expected contents of every slot: outputs by index, others as before"""
        exp = {}
        for off, x in zip(o, t):
            exp[off] = x
        for i, x in out:
            exp[o[i]] = x
        return [(slot(c, ref, off), x) for off, x in sorted(exp.items())]

    def p_add(sgn):
        def f(tag, m, c, ref, o, t, r, guards):
            x, y = t[0], t[1]
            ye = ite(en, y, C(0, 256))
            full = (add if sgn > 0 else sub)(zext(x, 257), zext(ye, 257))
            out = slot(c, ref, o[2])
            decide_int(rep, tag, m, [(out, ext(full, 0, 256)), (r, zext(ext(full, 256, 1), 32))],
                       [([(out, 1), (r, sgn * B)], [(x, 1), (ye, sgn)])])
            rest = [(slot(c, ref, k), v) for k, v in zip(o, t) if k != o[2]] + unchanged(c, ref, guards)
            decide_int(rep, tag + ": only the output changes", m, rest)
        return f

    def p_out(outs, ret=None):
        def f(tag, m, c, ref, o, t, r, guards):
            pairs = slots(c, ref, o, t, outs(t))
            if ret is not None:
                pairs.append((r, ret(t)))
            decide_int(rep, tag, m, pairs)
            decide_int(rep, tag + ": only the output changes", m, unchanged(c, ref, guards))
        return f
    xyz = ["x", "y", "z"]
    op("uintAdd", None, xyz, lambda o: [ci(o[0]), ci(o[1]), e32, ci(o[2])], p_add(1))
    op("uintSubtract", None, xyz, lambda o: [ci(o[0]), ci(o[1]), e32, ci(o[2])], p_add(-1))
    op("uintShiftLeft1", None, ["x", "z"], lambda o: [ci(o[0]), ci(o[1])],
       p_out(lambda t: [(1, cat([C(0, 1), ext(t[0], 0, 255)]))], lambda t: zext(ext(t[0], 255, 1), 32)))
    op("uintShiftRight1", None, ["x", "z"], lambda o: [ci(o[0]), e32, ci(o[1])],
       p_out(lambda t: [(1, ite(en, zext(ext(t[0], 1, 255), 256), t[0]))]))
    op("replace", None, ["x", "y"], lambda o: [ci(o[0]), ci(o[1]), e32], p_out(lambda t: [(0, ite(en, t[1], t[0]))]))
    op("swap", None, ["x", "y"], lambda o: [ci(o[0]), ci(o[1]), e32], p_out(lambda t: [(0, ite(en, t[1], t[0])), (1, ite(en, t[0], t[1]))]))
    for nm, f in (("equalTo", eq), ("lessThan", ult)):
        op(nm, "([III)", ["x", "y"], lambda o: [ci(o[0]), ci(o[1])],
           p_out(lambda t: [], lambda t, f=f: zext(f(t[0], t[1]), 32)))
    if lib().find(I, "isZero"):
        op("isZero", None, ["x"], lambda o: [ci(o[0])], p_out(lambda t: [], lambda t: zext(eq(t[0], C(0, 256)), 32)))

    def two(nm, f):
        if not lib().find(I, nm, "([II[II)"):
            return

        def run():
            x, y = V("X", 256), V("Y", 256)
            c = fork()
            a, b = c.array("x", "I", words(V("G0", 256)) + words(x)), c.array("y", "I", words(y))
            r = c.call(I, nm, a, ci(8), b, ci(0), desc="([II[II)")
            covered(rep, c)
            decide_int(rep, "Int256Math.%s over two arrays" % nm, nm, [(r, zext(f(x, y), 32)), (slot(c, a, 8), x), (slot(c, b, 0), y)])
        rep.guard("Int256Math.%s over two arrays" % nm, run, nm)

    def scalar():
        if not lib().find(I, "equalTo", "(II)"):
            return

        def run():
            x, y = V("x", 32), V("y", 32)
            c = fork()
            r = c.call(I, "equalTo", x, y, desc="(II)")
            decide_int(rep, "Int256Math.equalTo(int, int)", "equalTo", [(r, zext(eq(x, y), 32))])
        rep.guard("Int256Math.equalTo(int, int)", run, "equalTo")

    def copy():
        if not lib().find(I, "copy"):
            return
        for same in (False, True):
            def run():
                c, ref, o, t, scr, guards = setup(0, [0, 1], [])
                ref2 = ref if same else c.array("dst", "I", words(V("D0", 256)) + words(V("D1", 256)))
                c.call(I, "copy", ref, ci(o[0]), ref2, ci(o[1] if same else 8))
                covered(rep, c)
                pairs = [(slot(c, ref, o[0]), t[0])] + unchanged(c, ref, guards)
                pairs += [(slot(c, ref2, o[1] if same else 8), t[0])]
                if not same:
                    pairs += [(slot(c, ref, o[1]), t[1]), (slot(c, ref2, 0), V("D0", 256))]
                decide_int(rep, "Int256Math.copy%s" % (" within one array" if same else ""), "copy", pairs)
            rep.guard("Int256Math.copy %s" % same, run, "copy")

    def conv():
        def run():
            c, ref, o, t, scr, guards = setup(0, [0], [])
            r = c.call(I, "uintToBytes", ref, ci(o[0]))
            covered(rep, c)
            out = c.it.vals(c.st, r.obj)
            decide_int(rep, "Int256Math.uintToBytes", "uintToBytes", [(C(len(out), 32), C(32, 32)), (cat(out), from_le(bytes_be(t[0]))), (slot(c, ref, o[0]), t[0])]
                       + unchanged(c, ref, guards))
        rep.guard("Int256Math.uintToBytes", run, "uintToBytes")

        def run():
            c, ref, o, t, scr, guards = setup(0, [0], [])
            b = V("B", 256)
            br = c.array("b", "B", [ext(b, 8 * i, 8) for i in range(32)])
            c.call(I, "bytesToUint", br, ref, ci(o[0]))
            covered(rep, c)
            decide_int(rep, "Int256Math.bytesToUint", "bytesToUint", [(slot(c, ref, o[0]), from_le(bytes_be(b))), (cat(c.it.vals(c.st, br.obj)), b)]
                       + unchanged(c, ref, guards))
        rep.guard("Int256Math.bytesToUint", run, "bytesToUint")

        def run():
            bad = None
            for n in list(range(0, 66)) + [127, 128, 256]:
                if n == 32:
                    continue
                c, ref, o, t, scr, guards = setup(0, [0], [])
                br = c.array("b", "B", [V("b%d" % i, 8) for i in range(n)])
                try:
                    c.call(I, "bytesToUint", br, ref, ci(o[0]))
                    bad = "length %d is accepted" % n
                except Dead:
                    e = c.throws()[-1]
                    if e[2] != "java/lang/IllegalArgumentException" or e[4][1]:
                        bad = "length %d: %s%s" % (n, e[2], ", array modified" if e[4][1] else "")
            rep.ob("Int256Math.bytesToUint rejects other lengths", REFUTED if bad else PROVED, "bytesToUint", bad or "every length up to 65, 127, 128, 256")
        rep.guard("Int256Math.bytesToUint rejects other lengths", run, "bytesToUint")

    def hexes():
        if lib().find(I, "uintToHex"):
            def run():
                c, ref, o, t, scr, guards = setup(0, [0], [])
                r = c.call(I, "uintToHex", ref, ci(o[0]))
                covered(rep, c)
                s = c.it.s(c.st, r)
                want = [hexchar(ext(t[0], 4 * i, 4)) for i in reversed(range(64))]
                decide_int(rep, "Int256Math.uintToHex", "uintToHex", [(C(len(s.chars), 32), C(64, 32)), (cat(list(s.chars)), cat(want))])
            rep.guard("Int256Math.uintToHex", run, "uintToHex")
        if lib().find(I, "hexToUint"):
            def run():
                c, ref, o, t, scr, guards = setup(0, [0], [])
                ch = [V("c%d" % i, 16) for i in range(64)]
                c.call(I, "hexToUint", JStr(ch), ref, ci(o[0]))
                covered(rep, c)
                ok = band(TRUE, *[hexok(x) for x in ch])
                want = cat([hexval(x) for x in reversed(ch)])
                th = c.throws()
                acc = bnot(bor(FALSE, *[band(TRUE, *[x if v else bnot(x) for x, v in e[3]]) for e in th]))
                decide_int(rep, "Int256Math.hexToUint accepts exactly 64 hexadecimal digits", "hexToUint", [(acc, ok)])
                bad = [e for e in th if e[2] != "java/lang/IllegalArgumentException" or e[4][1]]
                rep.ob("Int256Math.hexToUint rejects before writing", REFUTED if bad else PROVED, "hexToUint", str(bad[0][2]) if bad else "")
                decide_int(rep, "Int256Math.hexToUint value", "hexToUint", [(ite(ok, slot(c, ref, o[0]), C(0, 256)), ite(ok, want, C(0, 256)))] + unchanged(c, ref, guards))
            rep.guard("Int256Math.hexToUint", run, "hexToUint")
    jobs += [lambda: two("lessThan", ult), lambda: two("equalTo", eq), scalar, copy, conv, hexes]

    def consts():
        for nm, v in (("ZERO", 0), ("ONE", 1), ("FIELD_MODULUS", P)):
            def run():
                c = fork()
                k = lib().cls(I)
                if nm not in k.fields:
                    return
                r = c.it.getstatic(c.st, k.name, nm, "[I")
                decide_int(rep, "Int256Math.%s" % nm, nm, [(slot(c, r, 0), C(v, 256))])
            rep.guard("Int256Math.%s" % nm, run, nm)
    jobs.append(consts)
    rep.pmap(jobs)


def recip(rep):
    from . import recip as rc
    rc.java(rep)


def c25(rep):
    recip(rep)
    integers(rep)


# ---------------------------------------------------------------- C26

SCR = {"fieldAdd": 8, "fieldSubtract": 8, "fieldMultiply2": 8, "fieldSquare": 40, "fieldMultiply": 40}


def scratch_words(nm):
    """documented scratch size (the public constant next to the method)"""
    k = {"fieldAdd": "FIELD_ADD_TEMP_WORDS", "fieldSubtract": "FIELD_SUBTRACT_TEMP_WORDS", "fieldMultiply2": "FIELD_MULTIPLY2_TEMP_WORDS",
         "fieldSquare": "FIELD_SQUARE_TEMP_WORDS", "fieldMultiply": "FIELD_MULTIPLY_TEMP_WORDS"}.get(nm)
    return SCR[nm]


def field(rep):
    need(*["Int256Math." + n for n in SCR])
    z = lambda t: zext(t, 512)
    spec = {"fieldAdd": (2, lambda x, y: add(z(x), z(y))), "fieldSubtract": (2, lambda x, y: add(z(x), sub(C(P, 512), z(y)))),
            "fieldMultiply2": (1, lambda x: mul([C(2, 512), z(x)], 512)), "fieldSquare": (1, lambda x: mul([z(x), z(x)], 512)),
            "fieldMultiply": (2, lambda x, y: mul([z(x), z(y)], 512))}
    jobs = []
    for nm, (n, sp) in spec.items():
        names = ["x", "y"][:n] + ["z"]
        for part in partitions(n + 1):
            def go(nm=nm, n=n, sp=sp, part=part, names=names):
                tag = "%s.%s%s" % (I, nm, tagof(part, names))

                def run():
                    c, ref, o, t, scr, guards = setup(0, part, names, hooks=int_hooks(), extra=SCR[nm])
                    for v in set(t[:n]):
                        declare_ub(v, P - 1)
                    c.call(I, nm, ref, *([ci(x) for x in o] + [ci(scr)]))
                    covered(rep, c)
                    nothrow(rep, c, tag, nm)
                    out = slot(c, ref, o[n])
                    decide_mod(rep, tag, nm, out, sp(*t[:n]), P, {v: P - 1 for v in set(t[:n])})
                    rest = [(slot(c, ref, k), v) for k, v in zip(o, t) if k != o[n]] + unchanged(c, ref, guards)
                    decide_int(rep, tag + ": only output and scratch change", nm, rest)
                rep.guard(tag, run, nm)
            jobs.append(go)
    rep.pmap(jobs)


def c26(rep):
    field(rep)
    recip(rep)
    integers(rep)
