"""C22, C24, C32: effect analysis of the whole library."""
import re
from .. import build, classfile, cspec, effects
from ..report import PROVED, REFUTED, UNDECIDED, AnchorLost
from .asmabi import declarations

# public Java operations: the parameters (receiver counts as 0 for instance methods) each one documents as modified
JOUT = {
    "Int256Math": {"hexToUint": {1}, "bytesToUint": {1}, "uintToHex": (), "uintToBytes": (), "uintAdd": {0}, "uintSubtract": {0},
                   "uintShiftLeft1": {0}, "uintShiftRight1": {0}, "reciprocal": {0}, "fieldAdd": {0}, "fieldSubtract": {0}, "fieldMultiply2": {0},
                   "fieldSquare": {0}, "fieldMultiply": {0}, "copy": {2}, "replace": {0}, "swap": {0}, "equalTo": (), "lessThan": ()},
    "CurvePointMath": {"twice": {0}, "add": {0}, "multiply": {0}, "normalize": {0}, "copy": {2}, "replace": {0}, "isOnCurve": {0}, "isZero": (), "getBasePoint": ()},
    "Ecdsa": {"sign": {3, 4}, "signWithHmacNonce": {2, 3}, "verify": ()},
    "Sha256": {"getHash": (), "getDoubleHash": (), "getHmac": ()}, "Sha512": {"getHash": (), "getHmac": ()}, "Ripemd160": {"getHash": ()}, "Keccak256": {"getHash": ()},
    "Base58Check": {"bytesToBase58": (), "base58ToBytes": (), "rawBytesToBase58": (), "addCheckHash": (), "base58ToRawBytes": ()},
    "Bech32": {"segwitToBech32": (), "bech32ToSegwit": (), "bitGroupsToBech32": (), "bech32ToBitGroups": (), "checkHumanReadablePart": (), "polymod": ()},
    "Sha256Hash": {"<init>": {0}, "toBytes": (), "equals": (), "hashCode": (), "compareTo": (), "toString": ()},
    "Utils": {"hexToBytes": (), "asciiToBytes": ()},
}
# C++ public operations (by demangled prefix) the effect analysis must find, so that an empty module is not taken for a pure one
ANCHORS = ("Uint256::add(", "FieldInt::multiply(", "CurvePoint::multiply(", "Ecdsa::sign(", "Ecdsa::verify(", "Sha256::getHash(", "Sha512::getHash(",
           "Ripemd160::getHash(", "Keccak256::getHash(")
_j = []
_c = {}


def java():
    if not _j:
        _j.append(effects.Java(classfile.load_all(build.java_classes())))
    return _j[0]


def cpp(cfg, ndebug=True):
    k = (cfg, ndebug)
    if k not in _c:
        _c[k] = effects.Cpp(cspec.module(cfg, ndebug=ndebug), declarations())
    return _c[k]


def at(w):
    return "%s (%s)" % (w[1], w[0])


def show(x, r, sig=None):
    if r[0] == "arg":
        return "'%s'" % sig[r[1]][0] if sig and r[1] < len(sig) else "parameter %d" % (r[1] + 1)
    if r[0] == "g":
        return x.dem.get(r[1], r[1])
    if r[0] == "s":
        return r[1]
    if r[0] == "deref":
        return "what %s points to" % show(x, r[1], sig)
    if r[0] == "field":
        return "%s.%s" % (show(x, r[1], sig), r[2])
    return "an unknown object"


def c22(rep):
    for cfg in ("pure-cpp", "x8664"):
        for nd in (True, False):
            cpp22(rep, cfg, nd)
    java22(rep)


def cpp22(rep, cfg, nd):
    x = cpp(cfg, nd)
    pre = cfg + ("" if nd else "+assert")
    names = [x.dem[n] for n in x.sum]
    for a in ANCHORS:
        if not any(n.startswith(a) for n in names):
            raise AnchorLost("missing function: %s..." % a)
    for n in sorted(x.sum, key=lambda n: x.dem[n]):
        if x.is_init(n):
            continue
        S = x.sum[n]
        d = x.dem[n]
        rep.functions.add(d)
        nm = "%s: %s" % (pre, d)
        sig = x.signature(n)
        bad, und = [], []
        for r, w in S.mod.items():
            if r[0] == "g":
                # reported where the write happens; callers inherit it through the call
                if w[0] == d or not any(("g", r[1]) in x.sum[c].mod for c in S.calls if c in x.sum):
                    bad.append("%s writes static storage: %s" % (at(w), show(x, r)))
                else:
                    bad.append("a callee writes static storage: %s, %s" % (show(x, r), at(w)))
            elif r[0] == "arg":
                s = sig[r[1]]
                if s[2]:
                    bad.append("%s writes the object behind %s, which its declaration makes read-only" % (at(w), "'this' (a const operation)" if s[0] == "this" else "const parameter '%s'" % s[0]))
            elif r[0] == "deref":
                und.append("%s writes %s" % (at(w), show(x, r, sig)))
            elif r[0] == "unknown":
                und.append("%s writes through a pointer of unknown origin" % at(w))
        for g, (w, dep) in S.guarded.items():
            if dep:
                bad.append("%s initialises static %s once from its own arguments: later calls see the first call's value" % (at(w), x.dem.get(g, g)))
            else:
                und.append("%s initialises static %s on first use" % (at(w), x.dem.get(g, g)))
        for e, w in S.ext.items():
            if e in effects.IMPURE:
                bad.append("%s calls %s, whose result depends on hidden state" % (at(w), e))
            else:
                und.append("%s calls %s" % (at(w), e))
        for g, w in S.reads.items():
            gl = x.mod.globals[g]
            wr = [(m, T.mod[("g", g)]) for m, T in x.sum.items() if ("g", g) in T.mod and not x.is_init(m)]
            if wr:
                bad.append("%s reads %s, which %s modifies" % (at(w), x.dem.get(g, g), at(wr[0][1])))
            elif gl.decl:
                und.append("%s reads external %s" % (at(w), g))
        if bad:
            rep.ob(nm, REFUTED, S.mod and list(S.mod.values())[0][1] or "", "; ".join(bad[:4]))
        elif und:
            rep.ob(nm, UNDECIDED, "", "; ".join(und[:4]))
        else:
            rep.ob(nm, PROVED, "", "writes only %s" % (", ".join(sorted(show(x, r, sig) for r in S.mod)) or "its own locals"))


def java22(rep):
    J = java()
    for c in JOUT:
        if "io/nayuki/bitcoin/crypto/" + c not in J.classes and c != "Utils":
            raise AnchorLost("missing class " + c)
    for k in sorted(J.sum):
        if k[1] == "<clinit>":
            continue
        S = J.sum[k]
        rep.functions.add(J.name(k))
        nm = "java: %s%s" % (J.name(k), k[2].replace("io/nayuki/bitcoin/crypto/", ""))
        bad, und = outputs(J, k, S)
        if bad:
            rep.ob(nm, REFUTED, J.methods[k].where(), "; ".join(bad[:4]))
        elif und:
            rep.ob(nm, UNDECIDED, J.methods[k].where(), "; ".join(und[:4]))
        else:
            rep.ob(nm, PROVED, "", "writes only %s" % (", ".join(sorted(show(J, r) for r in S.mod)) or "its own locals"))
    for c in J.classes.values():
        for f, (acc, d, cv) in c.fields.items():
            if acc & 8 and not acc & 16:
                w = [s.mod[("s", c.name.split("/")[-1] + "." + f)] for k, s in J.sum.items() if k[1] != "<clinit>" and ("s", c.name.split("/")[-1] + "." + f) in s.mod]
                nm = "java: static field %s.%s never changes after class initialisation" % (c.name.split("/")[-1], f)
                if w:
                    rep.ob(nm, REFUTED, w[0][1], "written by %s" % at(w[0]))
                else:
                    rep.ob(nm, PROVED, "")


def outputs(J, k, S):
    m = J.methods[k]
    allowed = JOUT.get(k[0].split("/")[-1], {}).get(k[1])
    pub = bool(m.access & 1) or allowed is not None
    priv = bool(m.access & 2)
    bad, und = [], []
    for r, w in S.mod.items():
        if r[0] == "s":
            bad.append("%s writes static storage: %s" % (at(w), r[1]))
        elif r[0] == "arg":
            if allowed is not None and not priv and r[1] not in allowed and not (k[1] == "<init>" and r[1] == 0):
                bad.append("%s modifies its input parameter %d" % (at(w), r[1] + 1))
        elif r[0] == "field":
            base = r
            while base[0] == "field":
                base = base[1]
            if base[0] == "s":
                bad.append("%s writes an object held by %s" % (at(w), base[1]))
            elif not (k[1] == "<init>" and base == ("arg", 0)):
                # an array held by an argument object (e.g. a hash's bytes)
                cls = receiver_class(J, m, base)
                if cls and cls in J.classes:
                    bad.append("%s modifies %s, the state of an argument object" % (at(w), show(J, r)))
                else:
                    und.append("%s writes %s" % (at(w), show(J, r)))
        elif r[0] == "unknown":
            und.append("%s writes an object of unknown origin" % at(w))
    for e, w in S.ext.items():
        if any(e == y or e.startswith(y + ".") or (y.endswith("/") and e.startswith(y)) for y in effects.J_IMPURE):
            bad.append("%s uses %s, whose result depends on hidden state" % (at(w), e.replace("/", ".")))
        elif e == "<synchronized>":
            und.append("%s synchronises" % at(w))
        else:
            und.append("%s calls %s" % (at(w), e))
    return bad, und


def receiver_class(J, m, base):
    i = base[1]
    if not m.static:
        if i == 0:
            return m.cls.name
        i -= 1
    d = m.args[i] if i < len(m.args) else ""
    return d[1:-1] if d.startswith("L") else None


# ---------------------------------------------------------------- C24

def c24(rep):
    for cfg in ("pure-cpp", "x8664"):
        cpp24(rep, cfg)
    java24(rep)


class Lite(object):
    """a function reduced to what matters for its results: assertion failures cut, dead computations removed"""

    def __init__(self, x, n):
        self.x, self.n = x, n
        fn = x.mod.functions[n]
        x.mod.body(fn)
        self.fn = fn
        self.asserts = 0
        self.succ = {}
        fails = {b for b in fn.blocks if b.insts[-1].op == "unreachable" and any(self.callee(i) == "__assert_fail" for i in b.insts)}
        # a block all of whose successors fail, and which does nothing else, fails too
        for b in fn.blocks:
            ss = [s for s in b.succ if s not in fails]
            if len(ss) < len(b.succ):
                self.asserts += len(b.succ) - len(ss)
            self.succ[b] = ss
        order, seen, st = [], set(), [fn.blocks[0]]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            order.append(b)
            st.extend(reversed(self.succ[b]))
        self.blocks = order
        self.roots()
        self.adce()

    def callee(self, i):
        return i.x[0].v if i.op in ("call", "invoke") and i.x[0].k == "func" else None

    def roots(self):
        """memory each instruction reads and writes: sets of roots (alloca keys or outside objects)"""
        x, fn = self.x, self.fn
        S = effects.Summary()
        env, content = {}, {}
        ch = True
        while ch:
            ch = False
            for b in self.blocks:
                for i in b.insts:
                    r = x.inst(fn, i, env, content, S, False, set())
                    if r and r - env.get(i.key, frozenset()):
                        env[i.key] = env.get(i.key, frozenset()) | r
                        ch = True
        R = lambda v: x.roots(v, env)
        self.rd, self.wr = {}, {}
        for b in self.blocks:
            for i in b.insts:
                rd, wr = set(), set()
                if i.op == "load":
                    rd |= R(i.ops[0])
                elif i.op == "store":
                    wr |= R(i.ops[1])
                elif i.op in ("call", "invoke"):
                    n = self.callee(i)
                    A = [R(o) for o in i.ops]
                    if n is None:
                        for a in A:
                            rd |= a
                            wr |= a
                        wr.add(effects.UNKNOWN)
                    elif n.startswith("llvm.dbg") or n.startswith("llvm.lifetime"):
                        pass
                    elif n in x.sum:
                        for a in A:
                            rd |= a
                        for r in x.sum[n].mod:
                            if r[0] == "arg":
                                wr |= A[r[1]]
                            else:
                                wr.add(r)
                        if any(e not in effects.PURE_EXT for e in x.sum[n].ext):
                            wr.add(effects.UNKNOWN)
                    elif n.startswith(("llvm.memcpy", "llvm.memmove")) or n in ("memcpy", "memmove"):
                        wr |= A[0]
                        rd |= A[1]
                    elif n.startswith("llvm.memset") or n == "memset":
                        wr |= A[0]
                    elif n in x.asm:
                        for k, a in enumerate(A):
                            rd |= a
                            if not x.asm[n][1][k][1]:
                                wr |= a
                    elif n in effects.PURE_EXT or n in effects.EXT or n.startswith("llvm."):
                        for a in A:
                            rd |= a
                        for k in effects.EXT.get(n, ((), 0))[0]:
                            wr |= A[k]
                    else:
                        for a in A:
                            rd |= a
                            wr |= a
                        wr.add(effects.UNKNOWN)
                # loads and stores through nested pointers stay roots of their own
                self.rd[i], self.wr[i] = rd, wr

    def ipdom(self):
        """post-dominators over the reduced graph (simple set iteration)"""
        bl = self.blocks
        allb = frozenset(bl)
        pd = {b: allb for b in bl}
        for b in bl:
            if not self.succ[b]:
                pd[b] = frozenset([b])
        ch = True
        while ch:
            ch = False
            for b in reversed(bl):
                ss = self.succ[b]
                if not ss:
                    continue
                n = pd[ss[0]]
                for s in ss[1:]:
                    n = n & pd[s]
                n = n | {b}
                if n != pd[b]:
                    pd[b] = n
                    ch = True
        return pd

    def adce(self):
        pd = self.ipdom()
        # control dependence: block y depends on branch block b if y postdominates a successor of b but not b itself (strictly)
        cd = {b: set() for b in self.blocks}
        for b in self.blocks:
            if len(self.succ[b]) > 1:
                for s in self.succ[b]:
                    for y in pd[s]:
                        if y is b or y not in pd[b]:
                            cd[y].add(b)
        self.idom = {}
        for b in self.blocks:
            c = pd[b] - {b}
            self.idom[b] = next((y for y in c if pd[y] == c), None)
        live, lb, work, readroots = set(), set(), [], set()
        outside = lambda r: r[0] != "new"

        def mark(i):
            if i not in live:
                live.add(i)
                work.append(i)
        for b in self.blocks:
            for i in b.insts:
                if i.op == "ret" or (i.op == "unreachable") or any(outside(r) for r in self.wr[i]):
                    mark(i)
        writers = {}
        for b in self.blocks:
            for i in b.insts:
                for r in self.wr[i]:
                    writers.setdefault(r, []).append(i)

        def block(b):
            if b in lb:
                return
            lb.add(b)
            for c in cd[b]:
                mark(c.insts[-1])
        while work:
            i = work.pop()
            block(i.blk)
            for o in i.ops:
                if o.k == "inst" and o.v.blk in self.succ and o.v in self.rd:
                    mark(o.v)
            if i.op == "phi":
                for p in i.x:
                    if p in self.succ:
                        block(p)
                        mark_edge(p, mark, self)
            for r in self.rd[i] | (self.wr[i] if i.op in ("call", "invoke") else set()):
                if r not in readroots:
                    readroots.add(r)
                    for wi in writers.get(r, ()):
                        mark(wi)
        self.live = live

    def next(self, b):
        """live successors of a block after removing dead branches and empty blocks"""
        seen = set()
        while b is not None and b not in seen:
            seen.add(b)
            if any(i in self.live for i in b.insts):
                return b
            t = b.insts[-1]
            if len(self.succ[b]) == 1:
                b = self.succ[b][0]
            else:
                b = self.idom[b]
        return None

    def reduce(self):
        """entry, {head block: (live instructions, live branch or None, successors)} with straight-line chains merged"""
        ent = self.next(self.fn.blocks[0])
        g, st = {}, [ent]
        while st:
            b = st.pop()
            if b is None or b in g:
                continue
            t = b.insts[-1]
            if t in self.live and len(self.succ[b]) > 1:
                ss = [self.next(s) if s in self.succ[b] else None for s in b.succ]
                st.extend(ss)
                g[b] = [[i for i in b.insts if i in self.live and i.op != "br"], t, ss]
                if len(ss) == 2 and ss[0] is ss[1] and not any(i.op == "phi" and i in self.live for i in ss[0].insts):
                    g[b][1:] = [None, ss[:1]]
                continue
            elif not self.succ[b]:
                ss = []
            elif len(self.succ[b]) == 1:
                ss = [self.next(self.succ[b][0])]
            else:
                ss = [self.next(self.idom[b])] if self.idom[b] is not None else []
            ss = [x for x in ss if x is not None]
            g[b] = [[i for i in b.insts if i in self.live and not (i.op == "br")], None, ss]
            st.extend(ss)
        pred = {}
        for b, e in g.items():
            for x in e[2]:
                if x is not None:
                    pred.setdefault(x, []).append(b)
        ch = True
        while ch:
            ch = False
            for b in list(g):
                e = g.get(b)
                if e is None or len(e[2]) != 1 or e[2][0] is None:
                    continue
                x = e[2][0]
                if x is not b and x is not ent and len(pred.get(x, ())) == 1 and x in g and not any(i.op == "phi" for i in g[x][0]):
                    g[b] = [e[0] + g[x][0], g[x][1], g[x][2]]
                    for y in g[x][2]:
                        if y is not None:
                            pred[y] = [b if z is x else z for z in pred[y]]
                    del g[x]
                    ch = True
        return ent, g


def mark_edge(p, mark, L):
    t = p.insts[-1]
    if len(L.succ[p]) > 1:
        mark(t)


def effect_list(L):
    out = {}
    for b in L.blocks:
        for i in b.insts:
            if i in L.live and i.op in ("store", "call", "invoke"):
                k = i.op if i.op == "store" else "call of %s" % L.x.dem.get(L.callee(i), L.callee(i))
                out.setdefault(k, []).append(i)
    return out


def const_key(x, v):
    if v.k == "global":
        g = x.mod.globals[v.v]
        if v.v.startswith(".str") or g.linkage in (8, 9):
            return ("private", repr_init(x, g.init))
        return ("g", v.v)
    if v.k in ("int", "undef", "null", "zero", "func", "arg"):
        return (v.k, v.v, v.ty.w if v.ty is not None else None)
    if v.k == "expr":
        return ("expr", v.v[0]) + tuple(const_key(x, o) for o in v.ops)
    if v.k == "agg":
        return ("agg",) + tuple(const_key(x, o) for o in v.ops)
    return (v.k,)


def repr_init(x, v):
    return None if v is None else const_key(x, v)


def compare(A, B):
    """structural isomorphism of two reduced functions; None or (instruction of A, instruction of B, why)"""
    ba, bb = {}, {}
    im = {}
    (ea, ga), (eb, gb) = A.reduce(), B.reduce()
    if (ea is None) != (eb is None):
        e = ea or eb
        return (e.insts[0], e.insts[0], "one build does more than the other")
    st = [(ea, eb)] if ea is not None else []
    pairs = []
    while st:
        a, b = st.pop()
        if a in ba or b in bb:
            if ba.get(a) is not b or bb.get(b) is not a:
                return (a.insts[0], b.insts[0], "control flow differs")
            continue
        ba[a] = b
        bb[b] = a
        (ia, ta, na), (ib, tb, nb) = ga[a], gb[b]
        for p, q in zip(ia, ib):
            im[p] = q
            pairs.append((p, q))
        if len(ia) != len(ib):
            k = min(len(ia), len(ib))
            return (ia[k] if k < len(ia) else None, ib[k] if k < len(ib) else None, "one build does more than the other")
        if (ta is None) != (tb is None) or len(na) != len(nb):
            return (a.insts[-1], b.insts[-1], "control flow differs")
        if ta is not None:
            pairs.append((ta, tb))
        # a successor cut on one side is taken only where an assertion would have failed
        for u, v in zip(na, nb):
            if u is not None and v is None:
                return (a.insts[-1], b.insts[-1], "control flow differs")
            if u is not None:
                st.append((u, v))
    for p, q in pairs:
        if p.op != q.op or p.ty.kind != q.ty.kind or p.ty.w != q.ty.w:
            return (p, q, "different operations")
        if p.op in ("call", "invoke"):
            if const_key(A.x, p.x[0]) != const_key(B.x, q.x[0]):
                return (p, q, "different calls")
        elif p.op in ("icmp",) and p.x != q.x:
            return (p, q, "different comparisons")
        elif p.op == "gep" and (p.x.kind != q.x.kind or p.x.size != q.x.size):
            return (p, q, "different addresses")
        ops = list(zip(p.ops, q.ops))
        if p.op == "phi":
            left = list(q.ops)
            for v in [v for v, pb in zip(p.ops, p.x) if pb in A.succ]:
                for w in left:
                    if (im.get(v.v) is w.v if v.k == "inst" and w.k == "inst" else v.k != "inst" and w.k != "inst" and const_key(A.x, v) == const_key(B.x, w)):
                        left.remove(w)
                        break
                else:
                    return (p, q, "a value merged here differs between the builds")
            continue
        if p.op == "switch" and [k for k, _ in p.x[1]] != [k for k, _ in q.x[1]]:
            return (p, q, "different case values")
        if len(p.ops) != len(q.ops):
            return (p, q, "different operand counts")
        for v, w in ops:
            if v.k == "inst" or w.k == "inst":
                if v.k != w.k or im.get(v.v) is not w.v:
                    if p.op == "phi":
                        return (p, q, "a value merged here differs between the builds")
                    return (p, q, "a value used here differs between the builds")
            elif v.k == "block" or w.k == "block":
                continue
            elif const_key(A.x, v) != const_key(B.x, w):
                return (p, q, "a constant differs between the builds")
    return None


def cpp24(rep, cfg):
    on, off = cpp(cfg, False), cpp(cfg, True)
    for a in ANCHORS:
        if not any(on.dem[n].startswith(a) for n in on.sum):
            raise AnchorLost("missing function: %s..." % a)
    total = 0
    for n in sorted(on.sum, key=lambda n: on.dem[n]):
        if on.is_init(n):
            continue
        d = on.dem[n]
        rep.functions.add(d)
        nm = "%s: %s is the same with and without assertions" % (cfg, d)
        A = Lite(on, n)
        total += A.asserts
        if n not in off.sum:
            rep.ob(nm, PROVED, "", "used by assertions only; its callers are compared")
            # it must then be without effects
            S = on.sum[n]
            sig = on.signature(n)
            bad = [w for r, w in S.mod.items() if not (r[0] == "arg" and not sig[r[1]][2])]
            if bad:
                rep.ob(nm + " (effects)", REFUTED, bad[0][1], "has side effects: %s" % at(bad[0]))
            continue
        B = Lite(off, n)
        d = compare(A, B)
        if d is None:
            rep.ob(nm, PROVED, "", "%d assertions removed" % A.asserts)
            continue
        ea, eb = effect_list(A), effect_list(B)
        diff = [(k, (ea.get(k) or eb.get(k))[0], len(ea.get(k, ())), len(eb.get(k, ()))) for k in sorted(set(ea) | set(eb)) if len(ea.get(k, ())) != len(eb.get(k, ()))]
        i = d[0] or d[1]
        if diff:
            k, ins, x, y = diff[0]
            rep.ob(nm, REFUTED, ins.where(), "an effect happens only in one build: %s (%d with assertions, %d without)" % (k, x, y))
        elif "value" in d[2]:
            rep.ob(nm, REFUTED, i.where(), d[2] + ": with assertions enabled it comes from a computation inside an assertion")
        else:
            rep.ob(nm, UNDECIDED, i.where(), d[2])
    rep.extra["assertions_cpp_" + cfg] = total


def regions(m):
    """assertion regions of a method: (entry block, join pc, set of blocks)"""
    bs = classfile.blocks(m)
    out = []
    for b in bs:
        pc, n, ins = b.insts[-1]
        if ins.op in ("ifne", "ifeq") and len(b.insts) > 1:
            g = b.insts[-2][2]
            if g.op == "getstatic" and g.arg[1] == "$assertionsDisabled":
                on, offb = (b.succ[1], b.succ[0]) if ins.op == "ifne" else (b.succ[0], b.succ[1])
                seen, st = set(), [on]
                while st:
                    x = st.pop()
                    if x is None or x is offb or x in seen:
                        continue
                    seen.add(x)
                    st.extend(x.succ)
                out.append((b, offb, seen))
    return out


def java24(rep):
    J = java()
    total = 0
    for k in sorted(J.methods):
        m = J.methods[k]
        if k[1] == "<clinit>":
            continue
        rs = regions(m)
        f = J.fn[k]
        for b, join, blocks in rs:
            total += 1
            ent = b.insts[-1][2]
            nm = "java: assertion in %s at line %s" % (J.name(k), ent.line)
            inside = {pc for x in blocks for pc, n, i in x.insts}
            bad, und = [], []
            # the region must be the assertion only: every way out goes to the join or throws
            thr = any(x.insts[-1][2].op == "athrow" for x in blocks)
            ret = [x for x in blocks if x.insts[-1][2].op.endswith("return")]
            if ret:
                # blocks after the join that the region also reaches are shared code: nothing conclusive
                und.append("the code executed with assertions on rejoins elsewhere")
            for x in blocks:
                for pc, n, i in x.insts:
                    o = i.op
                    if o == "putstatic":
                        bad.append("%s assigns %s" % (i.where(), i.arg[1]))
                    if pc in f.site:
                        for r in f.site[pc]:
                            if r[0] == "const":
                                continue
                            if r[0] == "new":
                                q = re.search(r"@(\d+)$", r[1])
                                if q and int(q.group(1)) in inside:
                                    continue
                                bad.append("%s: %s modifies an array or object created outside the assertion" % (i.where(), describe(i)))
                            elif r[0] == "unknown":
                                und.append("%s: %s writes an unknown object" % (i.where(), describe(i)))
                            else:
                                bad.append("%s: %s modifies %s" % (i.where(), describe(i), show(J, r)))
                    if o.startswith("invoke") and o != "invokedynamic":
                        t = J.resolve(i.arg)
                        if t is not None:
                            for e in J.sum[t].ext:
                                und.append("%s calls %s" % (i.where(), e))
                    if o in ("istore", "lstore", "astore", "fstore", "dstore", "iinc"):
                        slot = i.arg[0] if o == "iinc" else i.arg
                        if read_after(m, join, slot, blocks):
                            bad.append("%s: the assertion assigns a local variable that is used after it" % i.where())
            if bad:
                rep.ob(nm, REFUTED, ent.where(), "; ".join(bad[:3]))
            elif und:
                rep.ob(nm, UNDECIDED, ent.where(), "; ".join(und[:3]))
            else:
                rep.ob(nm, PROVED, ent.where())
        # every use of the flag must be such a region
        uses = sum(1 for x in classfile.blocks(m) for pc, n, i in x.insts if i.op == "getstatic" and i.arg[1] == "$assertionsDisabled")
        if uses != len(rs):
            rep.ob("java: %s uses the assertion status only to guard assertions" % J.name(k), UNDECIDED, m.where(), "the flag is read in another form")
    rep.extra["assertions_java"] = total
    # desiredAssertionStatus may only initialise the flag
    for k, m in sorted(J.methods.items()):
        for x in classfile.blocks(m):
            for pc, n, i in x.insts:
                if i.op == "invokevirtual" and i.arg[1] == "desiredAssertionStatus" and k[1] != "<clinit>":
                    rep.ob("java: %s does not branch on the assertion status" % J.name(k), UNDECIDED, i.where(), "reads the assertion status")


def describe(i):
    return "call of %s" % i.arg[1] if i.op.startswith("invoke") else "array or field store"


def read_after(m, start, slot, region):
    """whether the local variable may be read after the region before being assigned again"""
    seen, st = set(), [start]
    while st:
        b = st.pop()
        if b is None or b in seen:
            continue
        seen.add(b)
        killed = False
        for pc, n, i in b.insts:
            if i.op in ("iload", "lload", "aload", "fload", "dload") and i.arg == slot:
                return True
            if i.op == "iinc" and i.arg[0] == slot:
                return True
            if i.op in ("istore", "lstore", "astore", "fstore", "dstore") and i.arg == slot:
                killed = True
                break
        if not killed:
            st.extend(b.succ)
    return False
