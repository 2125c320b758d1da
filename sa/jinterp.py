"""Abstract interpretation of JVM bytecode in the value-graph domain (the Java counterpart of cinterp).

Joins are merged at post-dominators with selections; loops are followed while their exit condition is a constant of the domain;
exceptions end the abstract path and are recorded with their path condition."""
import re
from .terms import *
from . import build, report, classfile
from .cinterp import Undecided, Dead, State, assume, known, Interp, EXIT, Frame, TABLES, stable_hash
from . import cinterp

PKG = "io/nayuki/bitcoin/crypto/"
ELEMW = {"B": 8, "Z": 8, "C": 16, "S": 16, "I": 32, "J": 64}
NEWARR = {4: "Z", 5: "C", 8: "B", 9: "S", 10: "I", 11: "J"}


class JObj(object):
    __slots__ = ("name", "kind", "elem", "length", "cls", "id", "default", "lazy")
    n = [0]

    def __init__(self, name, kind, elem=None, length=None, cls=None):
        self.name, self.kind, self.elem, self.length, self.cls = name, kind, elem, length, cls
        self.lazy = False
        self.default = C(0, ELEMW[elem]) if elem in ELEMW else None
        JObj.n[0] += 1
        self.id = JObj.n[0]

    def __repr__(self):
        return "<%s#%d>" % (self.name, self.id)


class Ref(object):
    __slots__ = ("obj",)
    w = None

    def __init__(self, obj):
        self.obj = obj

    def __repr__(self):
        return "ref(%r)" % (self.obj,)


JNULL = Ref(None)


class RefIte(object):
    __slots__ = ("c", "a", "b")
    w = None

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class JStr(object):
    """immutable string value"""
    __slots__ = ("chars",)
    w = None

    def __init__(self, chars):
        self.chars = tuple(chars)

    def __repr__(self):
        return "str(%s)" % "".join(chr(cv(c)) if c.op == "c" else "?" for c in self.chars)


class JBox(object):
    __slots__ = ("kind", "v")
    w = None

    def __init__(self, kind, v):
        self.kind, self.v = kind, v


class JBig(object):
    """non-negative BigInteger as an unsigned term"""
    __slots__ = ("v",)
    w = None

    def __init__(self, v):
        self.v = v


class JClassRef(object):
    w = None

    def __init__(self, name):
        self.name = name


def jstr(s):
    return JStr([C(ord(c), 16) for c in s])


def jsame(a, b):
    if a is b:
        return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.obj is b.obj
    if isinstance(a, JStr) and isinstance(b, JStr):
        return a.chars == b.chars
    if isinstance(a, JBox) and isinstance(b, JBox):
        return a.kind == b.kind and a.v is b.v
    if isinstance(a, JBig) and isinstance(b, JBig):
        return a.v is b.v
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(jsame(x, y) for x, y in zip(a, b))
    if isinstance(a, RefIte) and isinstance(b, RefIte):
        return a.c is b.c and jsame(a.a, b.a) and jsame(a.b, b.b)
    return a == b if isinstance(a, (int, str)) else False


def jsel(c, a, b):
    if jsame(a, b):
        return a
    if c.op == "c":
        return a if cv(c) else b
    if isinstance(a, T) and isinstance(b, T):
        if a.w != b.w:
            raise Undecided("merging different types")
        return ite(c, a, b)
    if isinstance(a, JStr) and isinstance(b, JStr) and len(a.chars) == len(b.chars):
        return JStr([ite(c, x, y) for x, y in zip(a.chars, b.chars)])
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(jsel(c, x, y) for x, y in zip(a, b))
    if isinstance(a, JBox) and isinstance(b, JBox) and a.kind == b.kind:
        return JBox(a.kind, jsel(c, a.v, b.v))
    if isinstance(a, JBig) and isinstance(b, JBig):
        w = max(a.v.w, b.v.w)
        return JBig(ite(c, zext(a.v, w), zext(b.v, w)))
    if isinstance(a, T) or isinstance(b, T) or isinstance(a, (tuple, int)) or isinstance(b, (tuple, int)):
        raise Undecided("merging different kinds of values")
    return RefIte(c, a, b)


def jipdoms(m):
    """immediate post-dominators of a method's blocks (normal control flow)"""
    r = getattr(m, "_jip", None)
    if r is None:
        class Fn(object):
            pass

        class Bk(object):
            pass
        bs = classfile.blocks(m)
        fn = Fn()
        mp = {}
        for b in bs:
            x = Bk()
            i = Bk()
            i.op = "ret" if b.insts[-1][2].op.endswith("return") else "x"
            x.insts = [i]
            x.b = b
            mp[b] = x
        for b in bs:
            seen = []
            for s in b.succ:
                if mp[s] not in seen:
                    seen.append(mp[s])
            mp[b].succ = seen
        fn.blocks = [mp[b] for b in bs]
        ip = cinterp.ipdoms(fn)
        r = m._jip = {k.b if k is not EXIT else k: (v.b if v is not EXIT else v) for k, v in ip.items()}
    return r


class Library(object):
    def __init__(self, root=None):
        self.classes = classfile.load_all(root or build.java_classes())

    def cls(self, name):
        return self.classes.get(name) or self.classes.get(PKG + name)

    def find(self, cls, name, desc=None):
        """method lookup by simple class name; unique by name unless a descriptor (or its argument part) is given"""
        c = self.cls(cls)
        if c is None:
            return None
        ms = [m for (n, d), m in c.methods.items() if n == name and m.code and (desc is None or d == desc or d.split(")")[0] + ")" == desc)]
        return ms[0] if len(ms) == 1 else None


def key(m):
    return "%s.%s%s" % (m.cls.name.split("/")[-1], m.name, m.desc.split(")")[0] + ")")


# library routines whose running time follows the contents of their arguments
SCANS = ("Arrays.equals", "Arrays.compare", "Arrays.compareUnsigned", "Arrays.mismatch", "Arrays.sort", "Arrays.binarySearch",
         "Arrays.deepEquals", "Objects.equals", "Objects.deepEquals")


class JInterp(Interp):
    def __init__(self, lib, hooks=None, budget=6000000, ea=False, forkdepth=700):
        self.lib = lib
        self.hooks = hooks or {}
        self.budget = budget
        self.forkdepth = forkdepth
        self.steps = 0
        self.undefs = 0
        self.events = []
        self.visited = set()
        self.depth = 0
        self.nfork = 0
        self.loc = None
        self.track = None
        self.onblock = None
        self.ea = ea
        self.wholes = {}       # words that were written as one value
        self.statics = {}      # class name -> JObj holding static fields
        self.params = {}       # JObj -> initial contents
        self.callstack = []
        self.onthrow = None    # called with (exception, condition or None, state)
        self.oracle = None     # called with an undecided branch condition
        self.writes = []       # (object, where) of every store, for effect analysis

    # ---- objects
    def new(self, state, name, kind, **kw):
        o = JObj(name, kind, **kw)
        state.mem[o] = [{}, True]
        return o

    def array(self, state, name, elem, vals=None, length=None):
        o = self.new(state, name, "array", elem=elem, length=C(len(vals) if vals is not None else length, 32))
        if vals is not None:
            d = state.wr(o)
            for i, v in enumerate(vals):
                d[i] = v
        return Ref(o)

    def words(self, state, ref, off, n=8):
        """n consecutive elements as one little-endian term"""
        ws = tuple([self.aget(state, ref.obj, off + i) for i in range(n)])
        r = self.wholes.get(ws)
        return cat(list(ws)) if r is None else r

    def setwords(self, state, ref, off, t, n=8):
        w = ELEMW[ref.obj.elem]
        ws = tuple([ext(t, w * i, w) for i in range(n)])
        self.wholes[ws] = t
        for i in range(0, n, 8):
            if n > 8:
                self.wholes[ws[i:i + 8]] = ext(t, w * i, w * 8)
        for i in range(n):
            self.aput(state, ref.obj, off + i, ws[i])

    def length(self, o):
        return cv(o.length) if o.length.op == "c" else None

    def aget(self, state, o, i):
        n = self.length(o)
        if i < 0 or (n is not None and i >= n):
            self.throw(state, "java/lang/ArrayIndexOutOfBoundsException", "index %d of %s" % (i, o.name))
        v = state.rd(o).get(i)
        if v is None:
            if n is None or o.lazy:
                v = V("%s[%d]" % (o.name, i), ELEMW[o.elem])
                state.wr(o)[i] = v
                if o in self.params:
                    self.params[o].setdefault(i, v)
            else:
                v = o.default if o.default is not None else JNULL
        return v

    def aput(self, state, o, i, v):
        n = self.length(o)
        if i < 0 or (n is not None and i >= n):
            self.throw(state, "java/lang/ArrayIndexOutOfBoundsException", "index %d of %s" % (i, o.name))
        if self.track:
            self.track("store", o, i)
        state.wr(o)[i] = v

    def event(self, kind, detail, state, extra=None):
        self.events.append((kind, self.loc, detail, state.pc, extra))

    def changed(self, state):
        r = []
        for o, init in self.params.items():
            d = state.rd(o)
            if d is not init and any(not jsame(d.get(k, o.default), init.get(k, o.default)) for k in set(d) | set(init)):
                r.append(o)
        return r

    def throw(self, state, cls, detail="", cond=None):
        """exception on this path; with a condition, only where it holds (the path continues under its negation)"""
        for m, pc in self.callstack:
            for st, en, h, ct in m.exc:
                if st <= pc < en and (ct is None or self.subclass(cls, ct)):
                    raise Undecided("exception %s caught by a handler" % cls)
        if cond is None:
            if self.onthrow:
                self.onthrow(cls, None, state)
            self.events.append(("throw", self.loc, cls, state.pc, (detail, self.changed(state))))
            raise Dead("throws %s (%s) at %s" % (cls.split("/")[-1], detail, self.loc))
        k = known(state, cond)
        if k is None:
            k = self.outside(state, cond)
        if k is True:
            return self.throw(state, cls, detail)
        if k is False:
            return
        if self.onthrow:
            self.onthrow(cls, cond, state)
        self.events.append(("throw", self.loc, cls, state.pc + ((cond, True),), (detail, self.changed(state))))
        assume(state, cond, False)
        self.live(state, cond)

    SUPER = {"java/lang/NumberFormatException": "java/lang/IllegalArgumentException",
             "java/lang/IllegalArgumentException": "java/lang/RuntimeException",
             "java/lang/ArrayIndexOutOfBoundsException": "java/lang/IndexOutOfBoundsException",
             "java/lang/StringIndexOutOfBoundsException": "java/lang/IndexOutOfBoundsException",
             "java/lang/IndexOutOfBoundsException": "java/lang/RuntimeException",
             "java/lang/NullPointerException": "java/lang/RuntimeException",
             "java/lang/ArithmeticException": "java/lang/RuntimeException",
             "java/lang/NegativeArraySizeException": "java/lang/RuntimeException",
             "java/lang/ClassCastException": "java/lang/RuntimeException",
             "java/lang/IllegalStateException": "java/lang/RuntimeException",
             "java/lang/RuntimeException": "java/lang/Exception", "java/io/IOException": "java/lang/Exception",
             "java/io/UnsupportedEncodingException": "java/io/IOException", "java/lang/Exception": "java/lang/Throwable",
             "java/lang/AssertionError": "java/lang/Error", "java/lang/Error": "java/lang/Throwable"}

    def subclass(self, c, base):
        while c is not None:
            if c == base:
                return True
            c = self.SUPER.get(c)
        return False

    def obj(self, state, r, what="dereference"):
        """the object of a reference; null is an exception"""
        if isinstance(r, RefIte):
            k = known(state, r.c)
            if k is not None:
                return self.obj(state, r.a if k else r.b, what)
            if isinstance(r.a, Ref) and r.a.obj is None:
                self.throw(state, "java/lang/NullPointerException", what, r.c)
                return self.obj(state, r.b, what)
            if isinstance(r.b, Ref) and r.b.obj is None:
                self.throw(state, "java/lang/NullPointerException", what, bnot(r.c))
                return self.obj(state, r.a, what)
            raise Undecided("reference to one of several objects")
        if isinstance(r, Ref):
            if r.obj is None:
                self.throw(state, "java/lang/NullPointerException", what)
            return r.obj
        if r is None:
            raise Undecided("undefined reference")
        return r

    def strval(self, state, o):
        """contents of a string created by new String(...)"""
        if isinstance(o, JObj) and o.cls == "java/lang/String":
            o = state.rd(o).get("value", o)
        return o

    # ---- statics
    def static(self, state, cname):
        o = self.statics.get(cname)
        if o is None:
            o = JObj("static " + cname.split("/")[-1], "static")
            self.statics[cname] = o
            state.mem[o] = [{}, True]
            c = self.lib.classes.get(cname)
            if c is None:
                return o
            d = state.wr(o)
            for nm, (acc, desc, cvv) in c.fields.items():
                if acc & 8:
                    if cvv is not None:
                        d[nm] = jstr(cvv[1]) if cvv[0] == 8 else C(cvv[1], 64 if cvv[0] == 5 else 32)
                    elif desc in ELEMW:
                        d[nm] = C(0, 64 if desc == "J" else 32)
                    else:
                        d[nm] = JNULL
            m = c.methods.get(("<clinit>", "()V"))
            if m is not None:
                self.call(m, [], state)
        return o

    def init_all(self, state):
        for n in sorted(self.lib.classes):
            self.static(state, n)

    # ---- calls
    def call(self, m, args, state):
        h = self.hooks.get(key(m))
        if h is not None:
            loc = self.loc
            r = h(self, state, args)
            self.loc = loc
            if r is not NotImplemented:
                return r
        if m.code is None:
            raise Undecided("no code for " + key(m))
        self.visited.add(key(m))
        self.depth += 1
        if self.depth > 60:
            raise Undecided("call depth")
        fr = Frame()
        fr.fn = m
        fr.depth = 0
        fr.env = {"sp": 0}
        i = 0
        kinds = ([] if m.static else ["L"]) + m.args
        for k, a in zip(kinds, args):
            fr.env[i] = a
            i += 2 if k in ("J", "D") else 1
        bs = classfile.blocks(m)
        self.callstack.append((m, 0))
        loc = self.loc
        try:
            r = self.run(fr, bs[0], None, None, state)
        finally:
            self.depth -= 1
            self.callstack.pop()
        self.loc = loc
        return r.get("ret")

    def invoke(self, cname, name, desc, args, state, special=False):
        c = self.lib.classes.get(cname)
        while c is not None:
            m = c.methods.get((name, desc))
            if m is not None:
                return self.call(m, args, state)
            c = self.lib.classes.get(c.super)
        return self.jdk(cname, name, desc, args, state)

    # ---- merging (overrides used by Interp.fork2)
    def sel(self, c, a, b):
        if a is None and b is None:
            return None
        return jsel(c, a, b)

    def same(self, a, b):
        return jsame(a, b)

    def phis(self, fr, block, prev, state):
        return {}

    def merge(self, c, sa, sb):
        mem = {}
        for o in set(sa.mem) | set(sb.mem):
            a, b = sa.mem.get(o), sb.mem.get(o)
            if a is None or b is None:
                mem[o] = a or b
                continue
            da, db = a[0], b[0]
            if da is db:
                mem[o] = [da, False]
                continue
            d = dict(db)
            dflt = o.default if o.default is not None else JNULL
            for k in set(da) | set(db):
                x, y = da.get(k), db.get(k)
                if x is y:
                    continue
                if x is None:
                    x = dflt
                if y is None:
                    y = dflt
                if o.kind == "array" and self.length(o) is None and (k not in da or k not in db):
                    raise Undecided("merging an array of unknown length")
                d[k] = jsel(c, x, y)
            mem[o] = [d, True]
        return mem

    def run(self, fr, block, prev, stop, state, preset=None):
        m = fr.fn
        ip = jipdoms(m)
        bypc = m.bypc
        while True:
            if block is stop:
                return {}
            if self.onblock:
                self.onblock(fr, block, state)
            self.steps += len(block.insts)
            if report.DEADLINE[0] and self.steps & 15 == 0 and report.time.time() > report.DEADLINE[0]:
                raise Undecided("time limit")
            if self.steps > self.budget:
                raise Undecided("analysis budget exhausted in " + key(m))
            nxt_block = None
            for pc, n, ins in block.insts:
                self.loc = ins
                if self.callstack:
                    self.callstack[-1] = (m, pc)
                op = ins.op
                if op in classfile.COND:
                    c = self.cond(fr, op, state)
                    bt, bf = bypc[ins.arg], bypc[pc + n]
                    k = bool(cv(c)) if c.op == "c" else known(state, c)
                    if k is None:
                        k = self.outside(state, c)
                    if k is not None:
                        nxt_block = bt if k else bf
                        break
                    if self.track:
                        self.track("branch", ins, c)
                    if bt is bf:
                        nxt_block = bt
                        break
                    nxt = ip.get(block, EXIT)
                    r = self.fork(fr, c, block, bt, bf, nxt, state)
                    if nxt is EXIT or nxt is stop:
                        return r
                    nxt_block = nxt
                    break
                if op == "goto":
                    nxt_block = bypc[ins.arg]
                    break
                if op == "switch":
                    v = self.pop(fr)
                    d, cases = ins.arg
                    if v.op == "c":
                        t = d
                        for kk, x in cases:
                            if C(kk, 32) is v:
                                t = x
                        nxt_block = bypc[t]
                        break
                    nxt = ip.get(block, EXIT)
                    if self.track:
                        self.track("branch", ins, v)

                    def go(i, st):
                        if i == len(cases):
                            return self.run(fr, bypc[d], block, nxt, st)
                        kk, x = cases[i]
                        return self.fork2(fr, eq(v, C(kk, 32)), lambda s: self.run(fr, bypc[x], block, nxt, s), lambda s: go(i + 1, s), st)
                    r = go(0, state)
                    if nxt is EXIT or nxt is stop:
                        return r
                    nxt_block = nxt
                    break
                if op == "return":
                    return {"ret": None, "void": C(1, 1)}
                if op.endswith("return"):
                    return {"ret": self.pop(fr)}
                if op == "athrow":
                    o = self.obj(state, self.pop(fr))
                    self.throw(state, o.cls if isinstance(o, JObj) else "java/lang/Throwable", "")
                self.step(fr, ins, state)
            if nxt_block is None:
                nxt_block = block.succ[0]
            prev, block = block, nxt_block

    def live(self, state, c):
        """leave a path on which no value of a character is left"""
        x = single(c)
        if x and x.w <= 16 and domain(state, x) == []:
            raise Dead()

    def fork2(self, fr, c, fa, fb, state):
        cs = list(self.callstack)

        def on(f):
            def g(s):
                self.live(s, c)
                return f(s)
            return g
        try:
            return Interp.fork2(self, fr, c, on(fa), on(fb), state)
        finally:
            self.callstack[:] = cs

    # ---- operand stack
    def push(self, fr, v):
        sp = fr.env["sp"]
        fr.env[-1 - sp] = v
        fr.env["sp"] = sp + 1

    def pop(self, fr):
        sp = fr.env["sp"] - 1
        fr.env["sp"] = sp
        return fr.env.pop(-1 - sp)

    def cond(self, fr, op, state):
        if op in ("ifnull", "ifnonnull"):
            r = self.isnull(self.pop(fr))
            return r if op == "ifnull" else bnot(r)
        if op in ("if_acmpeq", "if_acmpne"):
            b, a = self.pop(fr), self.pop(fr)
            r = self.refeq(a, b)
            return r if op == "if_acmpeq" else bnot(r)
        if op.startswith("if_icmp"):
            b, a = self.pop(fr), self.pop(fr)
            k = op[7:]
        else:
            a, b = self.pop(fr), C(0, 32)
            k = op[2:]
        return {"eq": eq, "ne": ne, "lt": slt, "ge": lambda x, y: bnot(slt(x, y)), "gt": lambda x, y: slt(y, x),
                "le": lambda x, y: bnot(slt(y, x))}[k](a, b)

    def isnull(self, r):
        if isinstance(r, RefIte):
            return ite(r.c, self.isnull(r.a), self.isnull(r.b))
        return TRUE if isinstance(r, Ref) and r.obj is None else FALSE

    def refeq(self, a, b):
        if isinstance(a, RefIte):
            return ite(a.c, self.refeq(a.a, b), self.refeq(a.b, b))
        if isinstance(b, RefIte):
            return ite(b.c, self.refeq(a, b.a), self.refeq(a, b.b))
        if isinstance(a, Ref) and isinstance(b, Ref):
            return TRUE if a.obj is b.obj else FALSE
        if a is b:
            return TRUE
        raise Undecided("identity comparison of value objects")

    def index(self, state, o, i, what):
        """concrete index, or None for a symbolic one after recording the bounds exception"""
        if not isinstance(o, JObj) or o.kind != "array":
            raise Undecided("array access on a non-array")
        if i.op == "c":
            k = cv(i)
            return k - (1 << 32) if k >> 31 else k
        n = self.length(o)
        if self.track:
            self.track("address", self.loc, i)
        if n is None:
            raise Undecided("symbolic index into an array of unknown length")
        if n == 0 or ub(i) >= n:
            self.throw(state, "java/lang/ArrayIndexOutOfBoundsException", "%s of %s" % (what, o.name), bnot(ult(i, C(n, 32))))
        return None

    def aload(self, state, r, i):
        o = self.obj(state, r, "array read")
        k = self.index(state, o, i, "read")
        if k is not None:
            if self.length(o) is None:
                self.throw(state, "java/lang/ArrayIndexOutOfBoundsException", "read of " + o.name, bnot(slt(C(k, 32), o.length)))
            return self.aget(state, o, k)
        n = self.length(o)
        vals = [self.aget(state, o, j) for j in range(min(n, ub(i) + 1))]
        if o.elem == "C" and n <= 4096 and vals and all(isinstance(v, T) and v.op == "c" for v in [self.aget(state, o, j) for j in range(n)]):
            return chartable("".join(chr(cv(self.aget(state, o, j))) for j in range(n)), i)
        if all(isinstance(v, T) and v.op == "c" for v in vals) and len(vals) > 4:
            if all(cv(v) < 128 for v in vals):
                tab = "".join(chr(cv(v)) for v in vals)
                if len(set(tab)) == len(tab):
                    return fit(chartable(tab, i), vals[0].w)
            p = asposition(state, i, [cv(v) for v in vals], vals[0].w)
            if p is not None:
                return p
            name = "table" + stable_hash(tuple(cv(v) for v in vals))
            d = dict((j, cv(v)) for j, v in enumerate(vals))
            UF_EVAL[name] = lambda x, d=d: d.get(x, 0)
            TABLES[name] = d
            return uf(name, vals[0].w, i)
        z = kz(i)
        r = None
        for j in reversed(range(len(vals))):
            if j & z:
                continue
            r = vals[j] if r is None else jsel(eq(i, C(j, 32)), vals[j], r)
        return r

    def astore(self, state, r, i, v):
        o = self.obj(state, r, "array write")
        k = self.index(state, o, i, "write")
        if k is not None:
            if self.length(o) is None:
                self.throw(state, "java/lang/ArrayIndexOutOfBoundsException", "write of " + o.name, bnot(slt(C(k, 32), o.length)))
            return self.aput(state, o, k, v)
        n = self.length(o)
        z = kz(i)
        for j in range(min(n, ub(i) + 1)):
            if not j & z:
                self.aput(state, o, j, jsel(eq(i, C(j, 32)), v, self.aget(state, o, j)))

    def step(self, fr, ins, state):
        op, a = ins.op, ins.arg
        push, pop = self.push, self.pop
        if op == "const":
            k, v = a
            push(fr, C(v, 32) if k == "int" else C(v, 64) if k == "long" else jstr(v) if k == "string" else JClassRef(v))
        elif op in ("iload", "lload", "aload"):
            v = fr.env.get(a)
            if v is None:
                raise Undecided("use of a value that differs in kind at a join")
            push(fr, v)
        elif op in ("istore", "lstore", "astore"):
            fr.env[a] = pop(fr)
        elif op == "iinc":
            fr.env[a[0]] = add(fr.env[a[0]], C(a[1], 32))
        elif op == "aconst_null":
            push(fr, JNULL)
        elif op in ("iaload", "laload", "aaload", "baload", "caload", "saload"):
            i = pop(fr)
            r = pop(fr)
            v = self.aload(state, r, i)
            if op in ("baload", "saload"):
                v = sext(v, 32)
            elif op == "caload":
                v = zext(v, 32)
            push(fr, v)
        elif op in ("iastore", "lastore", "aastore", "bastore", "castore", "sastore"):
            v = pop(fr)
            i = pop(fr)
            r = pop(fr)
            if op == "bastore":
                v = ext(v, 0, 8)
            elif op in ("castore", "sastore"):
                v = ext(v, 0, 16)
            self.astore(state, r, i, v)
        elif op == "pop":
            pop(fr)
        elif op == "pop2":
            if not self.cat2(pop(fr)):
                pop(fr)
        elif op == "dup":
            v = pop(fr)
            push(fr, v)
            push(fr, v)
        elif op in ("dup_x1", "dup_x2", "dup2", "dup2_x1", "dup2_x2", "swap"):
            self.dups(fr, op)
        elif op in ("iadd", "isub", "imul", "iand", "ior", "ixor", "ladd", "lsub", "lmul", "land", "lor", "lxor"):
            y, x = pop(fr), pop(fr)
            o = op[1:]
            if o == "add":
                r = add(x, y)
            elif o == "sub":
                r = sub(x, y)
            elif o == "mul":
                r = mul([x, y], x.w)
            else:
                r = bitop(o, [x, y], x.w)
            push(fr, r)
        elif op in ("idiv", "irem", "ldiv", "lrem"):
            y, x = pop(fr), pop(fr)
            if self.track and not (x.op == "c" and y.op == "c"):
                self.track("divide", ins, x if x.op != "c" else y)
            self.throw(state, "java/lang/ArithmeticException", "division by zero", eq(y, C(0, y.w)))
            push(fr, (sdiv if op.endswith("div") else srem)(x, y))
        elif op in ("ineg", "lneg"):
            x = pop(fr)
            push(fr, sub(C(0, x.w), x))
        elif op in ("ishl", "ishr", "iushr", "lshl", "lshr", "lushr"):
            s, x = pop(fr), pop(fr)
            s = zext(ext(s, 0, 5 if op[0] == "i" else 6), x.w)
            push(fr, {"shl": shl, "shr": ashr, "ushr": lshr}[op[1:]](x, s))
        elif op == "i2l":
            push(fr, sext(pop(fr), 64))
        elif op == "l2i":
            push(fr, ext(pop(fr), 0, 32))
        elif op == "i2b":
            push(fr, sext(ext(pop(fr), 0, 8), 32))
        elif op == "i2c":
            push(fr, zext(ext(pop(fr), 0, 16), 32))
        elif op == "i2s":
            push(fr, sext(ext(pop(fr), 0, 16), 32))
        elif op == "lcmp":
            y, x = pop(fr), pop(fr)
            push(fr, ite(slt(x, y), C(-1, 32), ite(eq(x, y), C(0, 32), C(1, 32))))
        elif op == "arraylength":
            o = self.obj(state, pop(fr), "length")
            if not isinstance(o, JObj) or o.kind != "array":
                raise Undecided("length of non-array")
            push(fr, o.length)
        elif op == "newarray":
            n = pop(fr)
            push(fr, self.newarr(state, NEWARR.get(a), n))
        elif op == "anewarray":
            n = pop(fr)
            push(fr, self.newarr(state, "L" + a, n))
        elif op == "new":
            o = JObj("new " + a.split("/")[-1], "object", cls=a)
            state.mem[o] = [{}, True]
            push(fr, Ref(o))
        elif op == "getstatic":
            cname, nm, d = a
            push(fr, self.getstatic(state, cname, nm, d))
        elif op == "putstatic":
            cname, nm, d = a
            v = pop(fr)
            o = self.static(state, cname)
            if self.track:
                self.track("store", o, nm)
            state.wr(o)[nm] = v
        elif op == "getfield":
            o = self.obj(state, pop(fr), "field read")
            v = state.rd(o).get(a[1]) if isinstance(o, JObj) else None
            if v is None:
                v = JNULL if a[2] not in ELEMW else C(0, 64 if a[2] == "J" else 32)
            push(fr, v)
        elif op == "putfield":
            v = pop(fr)
            o = self.obj(state, pop(fr), "field write")
            if self.track:
                self.track("store", o, a[1])
            state.wr(o)[a[1]] = v
        elif op in ("invokestatic", "invokespecial", "invokevirtual", "invokeinterface"):
            cname, nm, d = a
            ks, rt = classfile.parse_desc(d)
            args = [pop(fr) for _ in ks][::-1]
            if op != "invokestatic":
                r = pop(fr)
                o = self.obj(state, r, "call of " + nm)
                if isinstance(o, JObj):
                    r = Ref(o)
                elif isinstance(r, RefIte):
                    r = o
                if op == "invokevirtual" and isinstance(o, JObj) and o.cls and o.cls in self.lib.classes:
                    cname = o.cls
                args = [r] + args
            r = self.invoke(cname, nm, d, args, state)
            if rt != "V":
                if r is None:
                    raise Undecided("no result from " + nm)
                push(fr, r)
        elif op == "checkcast":
            pass
        elif op == "instanceof":
            r = pop(fr)
            push(fr, zext(self.instanceof(state, r, a), 32))
        elif op == "nop":
            pass
        else:
            raise Undecided("bytecode " + op)

    def instanceof(self, state, r, cls):
        if isinstance(r, RefIte):
            return ite(r.c, self.instanceof(state, r.a, cls), self.instanceof(state, r.b, cls))
        if isinstance(r, Ref):
            if r.obj is None:
                return FALSE
            return TRUE if r.obj.cls == cls else FALSE
        if isinstance(r, JStr):
            return TRUE if cls == "java/lang/String" else FALSE
        return FALSE

    def newarr(self, state, elem, n):
        if elem is None:
            raise Undecided("array type")
        if n.op != "c":
            raise Undecided("array of symbolic length")
        if cv(n) >> 31:
            self.throw(state, "java/lang/NegativeArraySizeException", "")
        return self.array(state, "array@%s" % (self.loc.where() if self.loc else "?"), elem, length=cv(n))

    def cat2(self, v):
        return isinstance(v, T) and v.w == 64

    def dups(self, fr, op):
        push, pop = self.push, self.pop
        if op == "swap":
            x, y = pop(fr), pop(fr)
            push(fr, x)
            push(fr, y)
            return
        x = pop(fr)
        if op == "dup_x1":
            y = pop(fr)
            seq = [x, y, x]
        elif op == "dup_x2":
            y = pop(fr)
            seq = [x, y, x] if self.cat2(y) else [x, pop(fr), y, x]
        elif op == "dup2":
            seq = [x, x] if self.cat2(x) else (lambda y: [y, x, y, x])(pop(fr))
        elif op == "dup2_x1":
            y = pop(fr)
            seq = [x, y, x] if self.cat2(x) else (lambda z: [y, x, z, y, x])(pop(fr))
        else:
            y = pop(fr)
            if self.cat2(x):
                seq = [x, y, x] if self.cat2(y) else (lambda z: [x, z, y, x])(pop(fr))
            else:
                z = pop(fr)
                seq = [y, x, z, y, x] if self.cat2(z) else (lambda w: [y, x, w, z, y, x])(pop(fr))
        for v in seq:
            push(fr, v)

    def getstatic(self, state, cname, nm, d):
        if nm == "$assertionsDisabled":
            return C(0 if self.ea else 1, 32)
        if cname == "java/math/BigInteger":
            return JBig(C({"ZERO": 0, "ONE": 1, "TWO": 2, "TEN": 10}[nm], 8))
        if cname not in self.lib.classes:
            return JClassRef(cname + "." + nm)
        o = self.static(state, cname)
        if o not in state.mem:
            raise Undecided("static initialiser not run")
        v = state.rd(o).get(nm)
        if v is None:
            raise Undecided("static field " + nm)
        return v

    # ---- JDK models
    def jdk(self, cname, name, desc, args, state):
        k = cname.split("/")[-1] + "." + name
        if self.track and (k in SCANS or cname in ("java/math/BigInteger", "java/lang/String") and name != "<init>"):
            self.track("library", self.loc, (k, args, state))
        f = getattr(self, "m_" + k.replace(".", "_").replace("<init>", "init").replace("[", "A"), None)
        if f is not None:
            return f(state, args, desc)
        if name == "<init>" and (cname == "java/lang/Object" or cname.endswith("Exception") or cname.endswith("Error")):
            return None
        if name == "clone" and cname.startswith("["):
            return self.copyarr(state, args[0])
        if name == "getClass":
            return JClassRef("?")
        if k == "System.identityHashCode" or name == "hashCode" and (cname.startswith("[") or cname == "java/lang/Object"):
            o = args[0]
            if isinstance(o, Ref) and isinstance(o.obj, JObj):
                ids = self.__class__.__dict__.get("_ids") or {}
                JInterp._ids = ids
                return uf("identityHash", 32, C(ids.setdefault(o.obj, len(ids)), 32))
        raise Undecided("call to %s.%s%s" % (cname, name, desc))

    def m_Class_desiredAssertionStatus(self, state, args, desc):
        return C(1 if self.ea else 0, 32)

    def m_Objects_requireNonNull(self, state, args, desc):
        self.throw(state, "java/lang/NullPointerException", "requireNonNull", self.isnull(args[0]))
        r = args[0]
        if isinstance(r, RefIte):
            k = known(state, r.c)
            if k is not None:
                r = r.a if k else r.b
        return r

    def vals(self, state, o):
        n = self.length(o)
        if n is None:
            raise Undecided("whole-array operation on an array of unknown length")
        if n > 1 << 20:
            raise Undecided("whole-array operation on a huge array")
        return [self.aget(state, o, i) for i in range(n)]

    def copyarr(self, state, r, lo=0, hi=None):
        o = self.obj(state, r, "clone")
        n = self.length(o)
        if n is None:
            if hi is None and lo == 0:
                # a copy of unknown length shares contents lazily: only legal while unmodified
                raise Undecided("copy of an array of unknown length")
            if hi is None:
                raise Undecided("copy of an array of unknown length")
            vals = [self.aget(state, o, i) for i in range(lo, hi)]
            raise Undecided("copy of an array of unknown length")
        hi = n if hi is None else hi
        dflt = o.default if o.default is not None else JNULL
        vals = [self.aget(state, o, i) if i < n else dflt for i in range(lo, hi)]
        return self.array(state, "copy of " + o.name, o.elem, vals)

    def cint(self, t):
        if t.op != "c":
            raise Undecided("symbolic length or offset")
        v = cv(t)
        return v - (1 << 32) if v >> 31 else v

    def m_Arrays_copyOf(self, state, args, desc):
        o = self.obj(state, args[0], "copyOf")
        n = self.cint(args[1])
        if n < 0:
            self.throw(state, "java/lang/NegativeArraySizeException", "copyOf")
        return self.copyarr(state, Ref(o), 0, n)

    def m_Arrays_copyOfRange(self, state, args, desc):
        o = self.obj(state, args[0], "copyOfRange")
        a, b = self.cint(args[1]), self.cint(args[2])
        if a > b:
            self.throw(state, "java/lang/IllegalArgumentException", "copyOfRange")
        if a < 0 or a > self.length(o):
            self.throw(state, "java/lang/ArrayIndexOutOfBoundsException", "copyOfRange")
        return self.copyarr(state, Ref(o), a, b)

    def m_Arrays_fill(self, state, args, desc):
        o = self.obj(state, args[0], "fill")
        w = ELEMW[o.elem]
        if len(args) == 2:
            lo, hi, v = 0, self.length(o), args[1]
        else:
            lo, hi, v = self.cint(args[1]), self.cint(args[2]), args[3]
            if lo > hi:
                self.throw(state, "java/lang/IllegalArgumentException", "fill")
            if lo < 0 or hi > self.length(o):
                self.throw(state, "java/lang/ArrayIndexOutOfBoundsException", "fill")
        for i in range(lo, hi):
            self.aput(state, o, i, ext(v, 0, w))

    def m_Arrays_equals(self, state, args, desc):
        na, nb = self.isnull(args[0]), self.isnull(args[1])
        if na is not FALSE or nb is not FALSE:
            raise Undecided("Arrays.equals with possible null")
        a, b = self.obj(state, args[0]), self.obj(state, args[1])
        x, y = self.vals(state, a), self.vals(state, b)
        if len(x) != len(y):
            return C(0, 32)
        if not x:
            return C(1, 32)
        return zext(eq(cat(x), cat(y)), 32)

    m_MessageDigest_isEqual = m_Arrays_equals

    def m_Arrays_hashCode(self, state, args, desc):
        o = self.obj(state, args[0])
        r = C(1, 32)
        for v in self.vals(state, o):
            r = add(mul([r, C(31, 32)], 32), fit(sext(v, 32) if v.w < 32 else v, 32))
        return r

    def m_System_arraycopy(self, state, args, desc):
        s, d = self.obj(state, args[0], "arraycopy"), self.obj(state, args[2], "arraycopy")
        so, do, n = [self.cint(args[i]) for i in (1, 3, 4)]
        if n < 0 or so < 0 or do < 0 or (self.length(s) is not None and so + n > self.length(s)) or \
                (self.length(d) is not None and do + n > self.length(d)):
            self.throw(state, "java/lang/ArrayIndexOutOfBoundsException", "arraycopy")
        for o, f in ((s, so), (d, do)):
            if self.length(o) is None:
                self.throw(state, "java/lang/ArrayIndexOutOfBoundsException", "arraycopy", slt(o.length, C(f + n, 32)))
        vs = [self.aget(state, s, so + i) for i in range(n)]
        for i, v in enumerate(vs):
            self.aput(state, d, do + i, v)

    # integers
    def rot(self, args, left):
        x, k = args
        if k.op != "c":
            raise Undecided("rotation by a symbolic amount")
        k = cv(k) % x.w
        return rotl(x, k) if left else rotr(x, k)

    def m_Integer_rotateLeft(self, state, args, desc):
        return self.rot(args, True)

    def m_Integer_rotateRight(self, state, args, desc):
        return self.rot(args, False)
    m_Long_rotateLeft, m_Long_rotateRight = m_Integer_rotateLeft, m_Integer_rotateRight

    def m_Integer_compareUnsigned(self, state, args, desc):
        x, y = args
        return ite(ult(x, y), C(-1, 32), ite(eq(x, y), C(0, 32), C(1, 32)))
    m_Long_compareUnsigned = m_Integer_compareUnsigned

    def m_Integer_compare(self, state, args, desc):
        x, y = args
        return ite(slt(x, y), C(-1, 32), ite(eq(x, y), C(0, 32), C(1, 32)))

    def m_Integer_toUnsignedLong(self, state, args, desc):
        return zext(args[0], 64)

    def m_Byte_toUnsignedInt(self, state, args, desc):
        return zext(ext(args[0], 0, 8), 32)

    def m_Integer_reverseBytes(self, state, args, desc):
        return from_le(bytes_be(args[0]))
    m_Long_reverseBytes = m_Integer_reverseBytes

    def m_Math_min(self, state, args, desc):
        return ite(slt(args[0], args[1]), args[0], args[1])

    def m_Math_max(self, state, args, desc):
        return ite(slt(args[0], args[1]), args[1], args[0])

    def m_Integer_valueOf(self, state, args, desc):
        if desc.startswith("(I)"):
            return JBox("I", args[0])
        raise Undecided("valueOf" + desc)

    def m_Byte_valueOf(self, state, args, desc):
        return JBox("B", ext(args[0], 0, 8))

    def m_Long_valueOf(self, state, args, desc):
        return JBox("J", args[0])

    def m_Character_valueOf(self, state, args, desc):
        return JBox("C", ext(args[0], 0, 16))

    def m_Integer_intValue(self, state, args, desc):
        return args[0].v

    def parse(self, state, s, radix, w):
        s = self.strval(state, self.obj(state, s, "parse"))
        if not isinstance(s, JStr):
            raise Undecided("parse")
        radix = self.cint(radix)
        n = len(s.chars)
        if n == 0:
            self.throw(state, "java/lang/NumberFormatException", "empty")
        big = w + 8
        if not 2 <= radix <= 36 or radix ** n > 1 << big - 2:
            raise Undecided("parse")
        ok_ = lambda c: digitok(c, radix)
        val_ = hexval if radix == 16 else lambda c: digitval(c)
        dw = 4 if radix == 16 else 6
        ds = []
        neg = FALSE
        for i, c in enumerate(s.chars):
            ok = ok_(c)
            k = known(state, ok)
            if ok is TRUE or k is True:
                ds.append(val_(c))
                continue
            # signs (first, before a digit) and non-ASCII digits
            other = ue("nonAsciiDigit", c)
            sign = FALSE
            if i == 0 and n > 1:
                neg = eq(c, C(ord("-"), 16))
                sign = bor(eq(c, C(ord("+"), 16)), neg)
            self.throw(state, "java/lang/NumberFormatException", "digit", band(bnot(ok), bnot(other), bnot(sign)))
            if known(state, ok) is True:
                ds.append(val_(c))
                continue
            self.event("note", "non-ASCII digits or signs reach the number parser", state)
            ds.append(ite(ok, val_(c), ite(sign, C(0, dw), uf("parseDigit", dw, c))))
        if radix == 16:
            r = zext(cat(ds[::-1]), max(big, 4 * n))
        else:
            r = lin(0, [(zext(d, big), radix ** (n - 1 - i)) for i, d in enumerate(ds)], big)
        if radix ** n > 1 << w - 1:
            self.throw(state, "java/lang/NumberFormatException", "range", ult(C((1 << w - 1) - 1, r.w), sub(r, zext(neg, r.w))))
        r = ext(r, 0, w)
        return r if neg is FALSE or known(state, neg) is False else ite(neg, sub(C(0, w), r), r)

    def m_Integer_parseInt(self, state, args, desc):
        return self.parse(state, args[0], args[1] if len(args) > 1 else C(10, 32), 32)

    def m_Long_parseLong(self, state, args, desc):
        return self.parse(state, args[0], args[1] if len(args) > 1 else C(10, 32), 64)

    # strings
    def s(self, state, r):
        o = self.strval(state, self.obj(state, r, "string"))
        if isinstance(o, JStr):
            return o
        raise Undecided("string value")

    def m_String_init(self, state, args, desc):
        if desc == "([C)V":
            o = self.obj(state, args[1], "new String")
            state.wr(args[0].obj)["value"] = JStr(self.vals(state, o))
            return None
        raise Undecided("new String" + desc)

    def m_String_length(self, state, args, desc):
        return C(len(self.s(state, args[0]).chars), 32)

    def m_String_isEmpty(self, state, args, desc):
        return C(0 if self.s(state, args[0]).chars else 1, 32)

    def m_String_charAt(self, state, args, desc):
        s = self.s(state, args[0])
        i = args[1]
        n = len(s.chars)
        if i.op == "c":
            k = self.cint(i)
            if k < 0 or k >= n:
                self.throw(state, "java/lang/StringIndexOutOfBoundsException", "charAt")
            return zext(s.chars[k], 32)
        if self.track:
            self.track("address", self.loc, i)
        if ub(i) >= n:
            self.throw(state, "java/lang/StringIndexOutOfBoundsException", "charAt", bnot(ult(i, C(n, 32))))
        if all(c.op == "c" for c in s.chars):
            return zext(chartable("".join(chr(cv(c)) for c in s.chars), i), 32)
        r = None
        for j in reversed(range(min(n, ub(i) + 1))):
            r = s.chars[j] if r is None else ite(eq(i, C(j, 32)), s.chars[j], r)
        return zext(r, 32)

    def m_String_indexOf(self, state, args, desc):
        s = self.s(state, args[0])
        if not isinstance(args[1], T) or len(args) > 2:
            raise Undecided("indexOf" + desc)
        c = args[1]
        if all(x.op == "c" for x in s.chars) and c.op != "c":
            return indextable("".join(chr(cv(x)) for x in s.chars), c)
        r = C(-1, 32)
        for j in reversed(range(len(s.chars))):
            e = eq(zext(s.chars[j], 32), c)
            k = self.decided(state, e)
            r = C(j, 32) if k is True else r if k is False else ite(e, C(j, 32), r)
        return r

    def m_String_lastIndexOf(self, state, args, desc):
        s = self.s(state, args[0])
        if not isinstance(args[1], T) or len(args) > 2:
            raise Undecided("lastIndexOf" + desc)
        r = C(-1, 32)
        for j in range(len(s.chars)):
            e = eq(zext(s.chars[j], 32), args[1])
            k = self.decided(state, e)
            r = C(j, 32) if k is True else r if k is False else ite(e, C(j, 32), r)
        return r

    def m_String_substring(self, state, args, desc):
        s = self.s(state, args[0])
        a = self.cint(args[1])
        b = self.cint(args[2]) if len(args) > 2 else len(s.chars)
        if a < 0 or b > len(s.chars) or a > b:
            self.throw(state, "java/lang/StringIndexOutOfBoundsException", "substring")
        return JStr(s.chars[a:b])

    def m_String_trim(self, state, args, desc, blank=lambda c: ult(c, C(33, 16))):
        cs = list(self.s(state, args[0]).chars)
        for end in (0, -1):
            while cs:
                k = self.decided(state, blank(cs[end]))
                if k is None:
                    raise Undecided("trim of a free character")
                if not k:
                    break
                cs.pop(end)
        return JStr(cs)

    def m_String_strip(self, state, args, desc):
        return self.m_String_trim(state, args, desc, lambda c: bor(*[eq(c, C(x, 16)) for x in (
            9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x1680, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2008, 0x2009, 0x200a, 0x2028, 0x2029, 0x205f, 0x3000)]))

    def m_String_toCharArray(self, state, args, desc):
        return self.array(state, "chars", "C", list(self.s(state, args[0]).chars))

    def m_String_concat(self, state, args, desc):
        return JStr(self.s(state, args[0]).chars + self.s(state, args[1]).chars)

    def m_String_valueOf(self, state, args, desc):
        if desc.startswith("([C)"):
            return JStr(self.vals(state, self.obj(state, args[0])))
        if desc.startswith("(C)"):
            return JStr([ext(args[0], 0, 16)])
        raise Undecided("String.valueOf" + desc)

    def lower(self, c):
        up = band(ule(C(65, 16), c), ule(c, C(90, 16)))
        ascii_ = ult(c, C(128, 16))
        return ite(up, add(c, C(32, 16)), ite(ascii_, c, uf("toLower", 16, c)))

    def m_String_toLowerCase(self, state, args, desc):
        return JStr([self.lower(c) for c in self.s(state, args[0]).chars])

    def m_String_equals(self, state, args, desc):
        a, b = self.s(state, args[0]), self.strval(state, args[1].obj if isinstance(args[1], Ref) else args[1])
        if not isinstance(b, JStr):
            raise Undecided("String.equals")
        if len(a.chars) != len(b.chars):
            return C(0, 32)
        return zext(band(TRUE, *[eq(x, y) for x, y in zip(a.chars, b.chars)]), 32)

    def m_String_matches(self, state, args, desc):
        s = self.s(state, args[0])
        p = self.s(state, args[1])
        if any(c.op != "c" for c in p.chars):
            raise Undecided("symbolic pattern")
        p = "".join(chr(cv(c)) for c in p.chars)
        m = re.match(r"^\[([^\]^]+)\](\*|\+|\{\d+\})$", p)
        if not m:
            raise Undecided("pattern " + p)
        body, q = m.groups()
        rs = []
        i = 0
        while i < len(body):
            if i + 2 < len(body) and body[i + 1] == "-":
                rs.append((body[i], body[i + 2]))
                i += 3
            else:
                rs.append((body[i], body[i]))
                i += 1
        n = len(s.chars)
        if q == "+" and n == 0 or q[0] == "{" and n != int(q[1:-1]):
            return C(0, 32)
        return zext(band(TRUE, *[inranges(c, rs) for c in s.chars]), 32)

    def m_String_format(self, state, args, desc):
        f = self.s(state, args[0])
        f = "".join(chr(cv(c)) for c in f.chars)
        o = self.obj(state, args[1])
        vs = self.vals(state, o)
        out = []
        i = k = 0
        while i < len(f):
            m = re.match(r"%(0?)(\d*)([xXs])", f[i:])
            if f[i] == "%" and m:
                v = vs[k]
                k += 1
                if not isinstance(v, JBox) or m.group(3) != "x":
                    raise Undecided("format " + f)
                digits = v.v.w // 4
                if not m.group(1) or int(m.group(2) or 0) < digits:
                    raise Undecided("format " + f)
                out += [C(48, 16)] * (int(m.group(2)) - digits)
                for j in reversed(range(digits)):
                    out.append(hexchar(ext(v.v, 4 * j, 4)))
                i += m.end()
            elif f[i] == "%":
                raise Undecided("format " + f)
            else:
                out.append(C(ord(f[i]), 16))
                i += 1
        return JStr(out)

    def m_String_getBytes(self, state, args, desc):
        s = self.s(state, args[0])
        cs = args[1] if len(args) > 1 else None
        nm = "".join(chr(cv(c)) for c in cs.chars) if isinstance(cs, JStr) else cs.name if isinstance(cs, JClassRef) else None
        if nm not in ("US-ASCII", "ASCII", "java/nio/charset/StandardCharsets.US_ASCII"):
            raise Undecided("getBytes")
        return self.array(state, "bytes", "B", [ite(ult(c, C(128, 16)), ext(c, 0, 8), C(63, 8)) for c in s.chars])

    # characters
    def chartest(self, c, name, ascii_, f):
        c = ext(c, 0, 16)
        UF_EVAL[name] = lambda x, f=f: int(bool(x > 127 and f(chr(x))))
        return zext(bor(inranges(c, ascii_), band(ult(C(127, 16), c), uf(name, 1, c))), 32)

    def m_Character_isWhitespace(self, state, args, desc):
        return self.chartest(args[0], "uniSpace", [("\t", "\r"), ("\x1c", "\x20")], lambda c: c.isspace() and c not in "\x85\xa0\u2007\u202f")

    def m_Character_isUpperCase(self, state, args, desc):
        return self.chartest(args[0], "uniUpper", [("A", "Z")], str.isupper)

    def m_Character_isLowerCase(self, state, args, desc):
        return self.chartest(args[0], "uniLower", [("a", "z")], str.islower)

    def m_Character_isLetter(self, state, args, desc):
        return self.chartest(args[0], "uniLetter", [("A", "Z"), ("a", "z")], str.isalpha)

    def m_Character_isDigit(self, state, args, desc):
        return self.chartest(args[0], "uniDigit", [("0", "9")], str.isdecimal)

    def m_Character_isLetterOrDigit(self, state, args, desc):
        return self.chartest(args[0], "uniAlnum", [("0", "9"), ("A", "Z"), ("a", "z")], lambda c: c.isalpha() or c.isdecimal())

    def m_Character_toLowerCase(self, state, args, desc):
        return zext(self.lower(ext(args[0], 0, 16)), 32)

    def m_Character_toUpperCase(self, state, args, desc):
        c = ext(args[0], 0, 16)
        low = inranges(c, [("a", "z")])
        return zext(ite(low, sub(c, C(32, 16)), ite(ult(c, C(128, 16)), c, uf("toUpper", 16, c))), 32)

    # builders
    def m_StringBuilder_init(self, state, args, desc):
        v = JStr([])
        if desc == "(Ljava/lang/String;)V":
            v = self.s(state, args[1])
        elif desc not in ("()V", "(I)V"):
            raise Undecided("StringBuilder" + desc)
        state.wr(args[0].obj)["v"] = v

    def sbv(self, state, r):
        v = state.rd(self.obj(state, r)).get("v")
        if not isinstance(v, JStr):
            raise Undecided("builder contents")
        return v

    def m_StringBuilder_append(self, state, args, desc):
        v = self.sbv(state, args[0])
        x = args[1]
        if desc.startswith("(C)"):
            x = JStr([ext(x, 0, 16)])
        elif desc.startswith("(Ljava/lang/String;)"):
            x = self.s(state, x)
        else:
            raise Undecided("append" + desc)
        state.wr(args[0].obj)["v"] = JStr(v.chars + x.chars)
        return args[0]

    def m_StringBuilder_insert(self, state, args, desc):
        v = self.sbv(state, args[0])
        k = self.cint(args[1])
        x = JStr([ext(args[2], 0, 16)]) if desc.startswith("(IC)") else self.s(state, args[2])
        state.wr(args[0].obj)["v"] = JStr(v.chars[:k] + x.chars + v.chars[k:])
        return args[0]

    def m_StringBuilder_reverse(self, state, args, desc):
        # surrogate pairs do not occur in ASCII output; a symbolic char below 0x80 is required
        v = self.sbv(state, args[0])
        state.wr(args[0].obj)["v"] = JStr(v.chars[::-1])
        return args[0]

    def m_StringBuilder_length(self, state, args, desc):
        return C(len(self.sbv(state, args[0]).chars), 32)

    def m_StringBuilder_toString(self, state, args, desc):
        return self.sbv(state, args[0])

    # byte streams
    def m_ByteArrayOutputStream_init(self, state, args, desc):
        state.wr(args[0].obj)["v"] = ()

    def m_ByteArrayOutputStream_write(self, state, args, desc):
        o = args[0].obj
        v = state.rd(o)["v"]
        if not isinstance(v, tuple):
            raise Undecided("stream contents")
        if desc == "(I)V":
            v = v + (ext(args[1], 0, 8),)
        elif desc == "([B)V":
            v = v + tuple(self.vals(state, self.obj(state, args[1])))
        elif desc == "([BII)V":
            a, n = self.cint(args[2]), self.cint(args[3])
            b = self.obj(state, args[1])
            if a < 0 or n < 0 or a + n > self.length(b):
                self.throw(state, "java/lang/IndexOutOfBoundsException", "write")
            v = v + tuple(self.vals(state, b)[a:a + n])
        state.wr(o)["v"] = v
    m_ByteArrayOutputStream_writeBytes = m_ByteArrayOutputStream_write

    def m_ByteArrayOutputStream_toByteArray(self, state, args, desc):
        v = state.rd(args[0].obj)["v"]
        if not isinstance(v, tuple):
            raise Undecided("stream contents")
        return self.array(state, "stream bytes", "B", list(v))

    def m_ByteArrayOutputStream_size(self, state, args, desc):
        return C(len(state.rd(args[0].obj)["v"]), 32)

    # big integers (non-negative)
    def big(self, state, r):
        o = self.obj(state, r)
        if isinstance(o, JObj):
            o = state.rd(o).get("v")
        if isinstance(o, JBig):
            return o
        raise Undecided("big integer")

    def trim(self, t):
        n = max(8, (ub(t).bit_length() + 7) // 8 * 8)
        return JBig(ext(t, 0, n) if n < t.w else t)

    def m_BigInteger_init(self, state, args, desc):
        if desc == "(I[B)V" and args[1] is C(1, 32):
            vs = self.vals(state, self.obj(state, args[2]))
            state.wr(args[0].obj)["v"] = JBig(cat(vs[::-1])) if vs else JBig(C(0, 8))
            return None
        raise Undecided("BigInteger" + desc)

    def m_BigInteger_valueOf(self, state, args, desc):
        t = self.resolve(state, args[0])
        if ub(t) >> 63:
            raise Undecided("possibly negative big integer")
        return self.trim(t)

    def m_BigInteger_add(self, state, args, desc):
        a, b = self.big(state, args[0]).v, self.big(state, args[1]).v
        w = max(a.w, b.w) + 8
        return self.trim(add(zext(a, w), zext(b, w)))

    def m_BigInteger_multiply(self, state, args, desc):
        a, b = self.big(state, args[0]).v, self.big(state, args[1]).v
        w = a.w + b.w
        return self.trim(mul([zext(a, w), zext(b, w)], w))

    def m_BigInteger_subtract(self, state, args, desc):
        a, b = self.big(state, args[0]).v, self.big(state, args[1]).v
        w = max(a.w, b.w)
        k = self.decided(state, ult(zext(a, w), zext(b, w)))
        if k is not False:
            raise Undecided("possibly negative big integer")
        return self.trim(sub(zext(a, w), zext(b, w)))

    def decided(self, state, c):
        if c.op == "c":
            return bool(cv(c))
        k = known(state, c)
        return self.outside(state, c) if k is None else k

    def outside(self, state, c):
        """a condition decided by the set of values its only variable can have, or by the oracle"""
        vs = overdomain(state, c)
        if vs and constant(vs[1]):
            return bool(vs[1][0])
        return self.oracle(c) if self.oracle else None

    def resolve(self, state, t):
        """a value with the selections the facts decide removed"""
        p = asposition(state, t)
        if p is not None:
            return p
        while t.op == "ite":
            k = self.decided(state, t.args[0])
            if k is None:
                break
            t = t.args[1] if k else t.args[2]
        if t.op == "cat" and any(x.op in ("ite", "ext") for x in t.args):
            # sign extension of a selection
            base = t.args[0]
            if base.op == "ite" and sext(base, t.w) is t:
                r = self.resolve(state, base)
                if r is not base:
                    return sext(r, t.w)
        return t

    def m_BigInteger_toByteArray(self, state, args, desc):
        t = self.big(state, args[0]).v
        n = max(1, (ub(t).bit_length() + 7) // 8)
        t = zext(t, 8 * n + 8)
        # minimal two's complement form
        while n > 0:
            k = self.decided(state, eq(ext(t, 8 * n - 1, 9), C(0, 9)))
            if k is None:
                raise Undecided("length of a big integer")
            if not k:
                break
            n -= 1
        return self.array(state, "magnitude", "B", [ext(t, 8 * i, 8) for i in reversed(range(n + 1))])

    def m_BigInteger_bitLength(self, state, args, desc):
        t = self.big(state, args[0]).v
        n = ub(t).bit_length()
        while n > 0:
            k = self.decided(state, eq(ext(t, n - 1, 1), C(0, 1)))
            if k is None:
                UF_EVAL["log2"] = lambda x: max(x.bit_length() - 1, 0)
                r = uf("log2", 16, ext(t, 0, n))
                declare_ub(r, n - 1)
                return ite(eq(t, C(0, t.w)), C(0, 32), add(zext(r, 32), C(1, 32)))
            if not k:
                break
            n -= 1
        return C(n, 32)

    def m_BigInteger_divide(self, state, args, desc):
        return state.rd(self.m_BigInteger_divideAndRemainder(state, args, desc).obj)[0]

    def m_BigInteger_mod(self, state, args, desc):
        return state.rd(self.m_BigInteger_divideAndRemainder(state, args, desc).obj)[1]
    m_BigInteger_remainder = m_BigInteger_mod

    def m_BigInteger_compareTo(self, state, args, desc):
        a, b = self.big(state, args[0]).v, self.big(state, args[1]).v
        w = max(a.w, b.w)
        a, b = zext(a, w), zext(b, w)
        return ite(eq(a, b), C(0, 32), ite(ult(a, b), C(-1, 32), C(1, 32)))

    def m_BigInteger_equals(self, state, args, desc):
        return zext(eq(self.m_BigInteger_compareTo(state, args, desc), C(0, 32)), 32)

    def m_BigInteger_shiftLeft(self, state, args, desc):
        t, k = self.big(state, args[0]).v, self.cint(args[1])
        if k < 0:
            raise Undecided("negative shift")
        return self.trim(cat([C(0, k), t]) if k else t)

    def m_BigInteger_shiftRight(self, state, args, desc):
        t, k = self.big(state, args[0]).v, self.cint(args[1])
        if k < 0:
            raise Undecided("negative shift")
        return JBig(C(0, 8)) if k >= t.w else self.trim(ext(t, k, t.w - k))

    def m_BigInteger_signum(self, state, args, desc):
        v = self.big(state, args[0]).v
        return zext(ne(v, C(0, v.w)), 32)

    def m_BigInteger_intValue(self, state, args, desc):
        return fit(self.big(state, args[0]).v, 32)

    def m_BigInteger_divideAndRemainder(self, state, args, desc):
        a, b = self.big(state, args[0]).v, self.big(state, args[1]).v
        if b.op != "c" or cv(b) == 0:
            raise Undecided("division by a symbolic big integer")
        w = max(a.w, b.w)
        a, b = zext(a, w), zext(b, w)
        return self.array(state, "quotrem", "LBigInteger;", [self.trim(udiv(a, b)), self.trim(urem(a, b))])


def _digit(x):
    """Character.digit(x, 16) of a character outside ASCII, or None"""
    if x < 128 or x > 0xffff:
        return None
    if 0xff21 <= x <= 0xff26 or 0xff41 <= x <= 0xff46:
        return (x & 31) + 9
    import unicodedata
    d = unicodedata.decimal(chr(x), None)
    return None if d is None or unicodedata.category(chr(x)) != "Nd" else int(d)


UF_EVAL["nonAsciiDigit"] = lambda x: int(_digit(x) is not None)
UF_EVAL["parseDigit"] = lambda x: _digit(x) or 0


def ue(name, *a):
    return uf(name, 1, *a)


def inranges(c, rs):
    return bor(FALSE, *[eq(c, C(ord(a), c.w)) if a == b else band(ule(C(ord(a), c.w), c), ule(c, C(ord(b), c.w)))
                        for a, b in sorted(set(rs))])


def hexok(c):
    return inranges(c, [("0", "9"), ("a", "f"), ("A", "F")])


def digitok(c, radix):
    """an ASCII digit of the radix"""
    if radix <= 10:
        return inranges(c, [("0", chr(47 + radix))])
    return inranges(c, [("0", "9"), ("a", chr(86 + radix)), ("A", chr(54 + radix))])


def digitval(c):
    """value of an ASCII digit or letter"""
    d = ext(c, 0, 6)
    return ite(ult(c, C(58, c.w)), sub(d, C(48, 6)), sub(d, ite(ult(c, C(91, c.w)), C(55, 6), C(87 & 63, 6))))


def hexval(c):
    """value of an ASCII hexadecimal digit"""
    return ite(ult(c, C(58, c.w)), ext(c, 0, 4), add(ext(c, 0, 4), C(9, 4)))


def hexchar(n):
    z = zext(n, 16)
    return ite(ult(n, C(10, 4)), add(z, C(48, 16)), add(z, C(87, 16)))


def indextable(s, c):
    """indexOf a character in a constant string"""
    r = C(-1, 32)
    if len(set(s)) != len(s) or len(s) > 255 or not s:
        name = "indexOf" + stable_hash(s)
        UF_EVAL[name] = lambda x, s=s: s.find(chr(x)) & 0xffffffff if x < 0x110000 else 0xffffffff
        return uf(name, 32, c)
    return ite(instring(s, c), zext(position(s, c), 32), r)


_SINGLE, _DOMAIN = {}, {}
OPAQUE = {"sha256d"}


def single(t):
    """the only variable of a small term, False if there are none or several"""
    r = _SINGLE.get(t)
    if r is None:
        seen, todo, r = set(), [t], None
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if len(seen) > 150:
                r = False
                break
            if x.op == "uf" and x.args[0] in OPAQUE:
                r = False
                break
            if x.op == "v":
                if r is not None and r is not x:
                    r = False
                    break
                r = x
            for a in x.args:
                if isinstance(a, T):
                    todo.append(a)
                elif isinstance(a, tuple):
                    todo.extend(y[0] if isinstance(y, tuple) else y for y in a if isinstance(y, T) or isinstance(y, tuple) and y and isinstance(y[0], T))
        _SINGLE[t] = r = r or False
    return r


ALPHABETS = {}


def domain(state, x):
    """the values a character can have by the facts about it, when these are few"""
    fs = frozenset((f, v) for f, v in state.facts.items() if single(f) is x)
    if not fs:
        return None
    k = (x, fs)
    if k not in _DOMAIN:
        d = None
        for f, v in fs:
            if v and f.op == "uf" and f.args[0] in ALPHABETS and f.args[1] is x:
                d = [ord(c) for c in ALPHABETS[f.args[0]]]
        if d is None:
            lo, hi = 0, ones(x.w)
            for f, v in fs:
                if f.op == "ult" and v:
                    if f.args[0] is x and f.args[1].op == "c":
                        hi = min(hi, cv(f.args[1]) - 1)
                    elif f.args[1] is x and f.args[0].op == "c":
                        lo = max(lo, cv(f.args[0]) + 1)
                elif f.op == "ult" and not v:
                    if f.args[0] is x and f.args[1].op == "c":
                        lo = max(lo, cv(f.args[1]))
                    elif f.args[1] is x and f.args[0].op == "c":
                        hi = min(hi, cv(f.args[0]))
                elif f.op == "eq" and v and f.args[0] is x and f.args[1].op == "c":
                    lo = hi = cv(f.args[1])
            if hi - lo < 512:
                d = list(range(lo, hi + 1))
            elif x.w == 16:
                d = range(1 << 16)
        if d is not None:
            sh = (tuple(d) if len(d) <= 512 else None, frozenset((shape(f), v) for f, v in fs))
            if sh not in _DOMAIN:
                if len(d) > 512:
                    d = members([(f, v) for f, v in fs], x)
                else:
                    for f, v in sorted(fs, key=lambda p: shape(p[0])):
                        ev = compile_eval([f])
                        d = [c for c in d if ev({x.args[0]: c})[0] == int(v)]
                _DOMAIN[sh] = d
            d = _DOMAIN[sh]
        _DOMAIN[k] = d
    return _DOMAIN[k]


_MASKS = {}
ANYCHAR = ones(1 << 16)


def mask(f, x):
    """the characters for which a condition on x holds, as a bit set"""
    k = shape(f)
    if k not in _MASKS:
        ev, n = compile_eval([f]), x.args[0]
        _MASKS[k] = int("".join("01"[ev({n: c})[0]] for c in reversed(range(1 << 16))), 2)
    return _MASKS[k]


def members(conds, x):
    """the characters for which every (condition, truth value) holds"""
    m = ANYCHAR
    for f, v in conds:
        m &= mask(f, x) if v else ~mask(f, x)
    return [i for i, b in enumerate(reversed(bin(m)[2:])) if b == "1"]


def somewhere(t, neg=False, memo=None):
    """a condition as 'some character is in its set': character -> bit set, or None where it has not this form"""
    memo = {} if memo is None else memo
    k = (t, neg)
    if k in memo:
        return memo[k]
    memo[k] = r = _somewhere(t, neg, memo)
    return r


def _somewhere(t, neg, memo):
    if t.op == "c":
        return {} if bool(cv(t)) == neg else None
    x = single(t)
    if x:
        return None if x.w != 16 else {x: mask(t, x) ^ (ANYCHAR if neg else 0)}
    if t.op == "xor" and len(t.args) == 2 and t.args[0].op == "c":
        return somewhere(t.args[1], not neg, memo)
    if t.op == ("and" if neg else "or"):
        r = {}
        for a in t.args:
            q = somewhere(a, neg, memo)
            if q is None:
                return None
            for v, m in q.items():
                r[v] = r.get(v, 0) | m
        return r
    if t.op == "ite":
        x = single(t.args[0])
        p, q = somewhere(t.args[1], neg, memo), somewhere(t.args[2], neg, memo)
        if not x or x.w != 16 or p is None or q is None:
            return None
        r = {v: m for v, m in p.items() if v is not x and m}
        if r != {v: m for v, m in q.items() if v is not x and m}:
            return None
        m = mask(t.args[0], x)
        r[x] = m & p.get(x, 0) | ~m & q.get(x, 0)
        return r
    return None


def implied(facts, missed=None):
    """oracle: conditions that follow from one of the given 'some character is in its set' facts; missed: (character, members) of facts left out of a condition"""
    facts = [somewhere(f) for f in facts]

    def f(c):
        for neg in (False, True):
            s = somewhere(c, neg)
            if not s:
                continue
            left = [[(v, m & ~s.get(v, 0)) for v, m in q.items() if m & ~s.get(v, 0)] for q in facts]
            if [] in left:
                return not neg
            if missed is not None and len(s) > 1:
                q = min(left, key=len)
                missed.append([(v, [i for i in range(128) if m >> i & 1]) for v, m in q])
        return None
    return f


def overdomain(state, t):
    """(domain, values of t over it) for a term in one character of few values"""
    x = single(t)
    if not x or x.w > 16:
        return None
    d = domain(state, x)
    if not d:
        return None
    return d, valuesover(t, x, d)


def constant(vs):
    """a list of values with a single member (lists from valuesover are kept, so that their identity is a key)"""
    k = id(vs)
    if k not in _CONSTANT:
        _CONSTANT[k] = (all(v == vs[0] for v in vs), vs)
    return _CONSTANT[k][0]


_CONSTANT = {}


def valuesover(t, x, d):
    k = (shape(t), id(d))
    if k not in _DOMAIN:
        ev = compile_eval([t])
        _DOMAIN[k] = ([ev({x.args[0]: c})[0] for c in d], d)
    return _DOMAIN[k][0]


def asposition(state, t, table=None, w=None):
    """position(s, x) when t (or table[t]) is that for every character of the alphabet s"""
    x = single(t)
    if not x or x.w != 16:
        return None
    d = domain(state, x)
    if not d or len(d) > 512:
        return None
    k = (t, tuple(d), tuple(table or ()))
    if k not in _DOMAIN:
        _DOMAIN[k] = None
        ev = compile_eval([t])
        vs = [ev({x.args[0]: c})[0] for c in d]
        if table is not None:
            vs = [table[i] if i < len(table) else None for i in vs]
        if len(set(vs)) > 1:
            for s in ALPHABETS.values():
                if len(s) > 4 and vs == [s.find(chr(c)) for c in d]:
                    _DOMAIN[k] = s
    s = _DOMAIN[k]
    return None if s is None else fit(zext(position(s, x), max(w or t.w, 8)), w or t.w)


_SHAPE = {}


def shape(t):
    """hash of a term in one variable, whatever the variable's name"""
    r = _SHAPE.get(t)
    if r is None:
        r = _SHAPE[t] = stable_hash((t.op, t.w) + tuple(("v",) if t.op == "v" else shape(a) if isinstance(a, T) else
                                    tuple((shape(y[0]), y[1]) if isinstance(y, tuple) else shape(y) if isinstance(y, T) else y for y in a) if isinstance(a, tuple) else a
                                    for a in t.args))
    return r


def _c16(c):
    return ext(c, 0, 16) if c.w > 16 else zext(c, 16)


def instring(s, c):
    name = "inString" + stable_hash(s)
    UF_EVAL[name] = lambda x, s=s: int(chr(x) in s)
    ALPHABETS[name] = s
    r = uf(name, 1, _c16(c))
    if c.w > 16 and ub(c) >> 16:
        r = band(r, eq(ext(c, 16, c.w - 16), C(0, c.w - 16)))
    return r


def position(s, c):
    """index of a character that occurs in s (0 for others)"""
    name = "position" + stable_hash(s)
    UF_EVAL[name] = lambda x, s=s: max(s.find(chr(x)), 0)
    r = uf(name, 8, _c16(c))
    declare_ub(r, len(s) - 1)
    return r


def chartable(s, i):
    """s[i] for a constant string (0 beyond its end)"""
    name = "charAt" + stable_hash(s)
    UF_EVAL[name] = lambda x, s=s: ord(s[x]) if x < len(s) else 0
    r = uf(name, 16, zext(i, 32))
    declare_ub(r, max([ord(x) for x in s] or [0]))
    return r


class JCtx(object):
    """setting up Java calls"""

    def __init__(self, lib, hooks=None, ea=False, budget=6000000):
        self.lib = lib
        self.it = JInterp(lib, hooks, ea=ea, budget=budget)
        self.st = State()
        h, self.it.hooks = self.it.hooks, {}
        self.it.init_all(self.st)
        self.it.hooks = h

    def fork(self, hooks=None):
        c = JCtx.__new__(JCtx)
        c.lib = self.lib
        c.it = JInterp(self.lib, hooks or {}, ea=self.it.ea, budget=self.it.budget)
        c.it.statics = self.it.statics
        c.st = self.st.fork()
        return c

    def array(self, name, elem, vals=None, length=None, param=True):
        r = self.it.array(self.st, name, elem, vals, length)
        if param:
            self.it.params[r.obj] = dict(self.st.rd(r.obj))
        return r

    def symlen(self, name, elem, lo=0, hi=(1 << 31) - 1):
        """an array of unknown length"""
        n = V(name + ".length", 32)
        declare_ub(n, hi)
        o = self.it.new(self.st, name, "array", elem=elem, length=n)
        self.it.params[o] = {}
        return Ref(o)

    def call(self, cls, name, *args, **kw):
        m = self.lib.find(cls, name, kw.get("desc"))
        if m is None:
            from .cspec import Missing
            raise Missing("%s.%s" % (cls, name))
        return self.it.call(m, list(args), self.st)

    def has(self, cls, name, desc=None):
        return self.lib.find(cls, name, desc) is not None

    def throws(self):
        return [e for e in self.it.events if e[0] == "throw"]


def _case(f):
    def g(x):
        y = f(chr(x)) if not 0xd800 <= x < 0xe000 else chr(x)
        return ord(y) & 0xffff if len(y) == 1 else x
    return g


UF_EVAL["toLower"] = _case(str.lower)
UF_EVAL["toUpper"] = _case(str.upper)
