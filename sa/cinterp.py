"""Abstract interpretation of LLVM IR in the value-graph domain.

Control flow joins are merged at post-dominators with selections (gated SSA); no path is enumerated and nothing is
solved.  Loops are followed only while their exit condition is a constant of the abstract domain."""
import hashlib
from .terms import *
from . import build, report


class Undecided(Exception):
    pass


def stable_hash(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:12]


class Dead(Exception):
    """the abstract path ends without returning (noreturn call, unreachable)"""


class Obj(object):
    __slots__ = ("name", "size", "id", "kind", "init")
    n = [0]

    def __init__(self, name, size, kind):
        self.name = name
        self.size = size
        self.kind = kind
        self.init = None    # initial contents of a global
        Obj.n[0] += 1
        self.id = Obj.n[0]

    def __repr__(self):
        return "<%s#%d>" % (self.name, self.id)


class Ptr(object):
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return "&%r+%r" % (self.obj, self.off)

    w = 64


class PtrIte(object):
    __slots__ = ("c", "a", "b")
    w = 64

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


class FnRef(object):
    w = 64

    def __init__(self, name):
        self.name = name


Z64 = C(0, 64)
NULL = Ptr(None, Z64)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj is b.obj and a.off is b.off
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, PtrIte) and isinstance(b, PtrIte):
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, FnRef) and isinstance(b, FnRef):
        return a.name == b.name
    return False


def sel(c, a, b):
    if same(a, b):
        return a
    if c.op == "c":
        return a if cv(c) else b
    if a is None or b is None:
        return None
    if isinstance(a, T) and isinstance(b, T):
        return ite(c, a, b)
    if isinstance(a, tuple):
        return tuple(sel(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
        return Ptr(a.obj, ite(c, a.off, b.off))
    return PtrIte(c, a, b)


class State(object):
    __slots__ = ("mem", "facts", "pc", "ghost")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.pc = ()
        self.ghost = {}

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.pc = self.pc
        s.ghost = dict(self.ghost)
        # contents are shared copy-on-write: mark by wrapping
        for o in s.mem:
            s.mem[o] = [s.mem[o][0], False]
        for o in self.mem:
            self.mem[o] = [self.mem[o][0], False]
        return s

    def wr(self, o):
        e = self.mem.get(o)
        if e is None:
            e = self.mem[o] = [dict(o.init or {}), True]
        elif not e[1]:
            e = self.mem[o] = [dict(e[0]), True]
        return e[0]

    def rd(self, o):
        e = self.mem.get(o)
        return e[0] if e is not None else (o.init or {})


def assume(state, c, val):
    state.pc = state.pc + ((c, val),)
    st = [(c, val)]
    while st:
        c, val = st.pop()
        state.facts[c] = val
        state.facts[bnot(c)] = not val
        if c.op == "and" and val:
            st.extend((x, True) for x in c.args if x.op != "c")
        if c.op == "or" and not val:
            st.extend((x, False) for x in c.args if x.op != "c")
        if c.op == "xor" and c.args[0].op == "c" and len(c.args) == 2:
            if c.args[1] not in state.facts:
                st.append((c.args[1], not val))


def known(state, c):
    if c.op == "c":
        return bool(cv(c))
    r = state.facts.get(c)
    if r is not None:
        return r
    if c.op == "and":
        a = [known(state, x) for x in c.args]
        if any(x is False for x in a):
            return False
        if all(x is True for x in a):
            return True
    elif c.op == "or":
        a = [known(state, x) for x in c.args]
        if any(x is True for x in a):
            return True
        if all(x is False for x in a):
            return False
    elif c.op == "xor" and c.args[0].op == "c" and len(c.args) == 2:
        r = known(state, c.args[1])
        return None if r is None else not r
    return None


def leaves(t):
    """the values of a selection between constants; None if there are others"""
    if t.op == "c":
        return {cv(t)}
    if t.op == "ite":
        a, b = leaves(t.args[1]), leaves(t.args[2])
        return None if a is None or b is None or len(a) + len(b) > 16 or max(a | b) > 4096 else a | b
    if t.op == "cat" and len(t.args) == 2 and t.args[1].op == "c":
        a = leaves(t.args[0])
        return None if a is None else {x | cv(t.args[1]) << t.args[0].w for x in a}
    return None


EXIT = "EXIT"


def ipdoms(fn):
    """immediate post-dominators; blocks that cannot reach a return map to EXIT"""
    r = getattr(fn, "_ipdom", None)
    if r is not None:
        return r
    blocks = fn.blocks
    preds = {b: [] for b in blocks}
    exits = []
    for b in blocks:
        for s in b.succ:
            preds[s].append(b)
        if b.insts[-1].op == "ret":
            exits.append(b)
    # reverse post-order on reversed graph
    order = []
    seen = set()
    for e in exits:
        if e in seen:
            continue
        stack = [(e, iter(preds[e]))]
        seen.add(e)
        while stack:
            n, it = stack[-1]
            for p in it:
                if p not in seen:
                    seen.add(p)
                    stack.append((p, iter(preds[p])))
                    break
            else:
                order.append(n)
                stack.pop()
    order.reverse()
    num = {EXIT: -1}
    for i, b in enumerate(order):
        num[b] = i
    idom = {EXIT: EXIT}

    def inter(a, b):
        while a is not b:
            while num[a] > num[b]:
                a = idom[a]
            while num[b] > num[a]:
                b = idom[b]
        return a
    ch = True
    while ch:
        ch = False
        for b in order:
            ss = [EXIT] if b.insts[-1].op == "ret" else [s for s in b.succ if s in num]
            new = None
            for s in ss:
                if s in idom:
                    new = s if new is None else inter(new, s)
            if new is not None and idom.get(b) is not new:
                idom[b] = new
                ch = True
    fn._ipdom = idom
    return idom


class Frame(object):
    __slots__ = ("fn", "env", "args", "ret", "depth")


RECORD = []         # optional receiver of events
VISITED = set()     # functions analysed by any interpreter of this process


class Interp(object):
    def __init__(self, mod, hooks=None, budget=3000000, events=None, forkdepth=700):
        self.mod = mod
        self.hooks = hooks or {}
        self.budget = budget
        self.forkdepth = forkdepth
        self.steps = 0
        self.undefs = 0
        self.gobjs = {}
        self.events = events if events is not None else []   # (kind, where, detail, path condition)
        self.visited = set()
        self.dem = build.demangle(list(mod.functions))
        self.bydem = {v: k for k, v in self.dem.items()}
        self.depth = 0
        self.nfork = 0
        self.loc = "?"
        self.callstack = []
        self.oracle = None     # optional decision of conditions from the facts of the case under analysis
        self.onblock = None    # optional callback(frame, block, state) at block entry
        self.track = None      # optional callback(kind, inst, info)

    # ---- memory
    def new(self, state, name, size, kind="stack"):
        o = Obj(name, size, kind)
        state.mem[o] = [{}, True]
        return o

    def put(self, state, obj, off, val):
        d = state.wr(obj)
        n = val.w // 8
        for i in range(n):
            d[off + i] = (val, i)

    def undef(self, w, why="undef"):
        self.undefs += 1
        return V("undef%d" % self.undefs, w)

    def get(self, state, obj, off, n, isptr=False):
        d = state.rd(obj)
        first = d.get(off)
        if first is not None and first[1] == 0 and first[0].w == 8 * n:
            v = first[0]
            for i in range(1, n):
                e = d.get(off + i)
                if e is None or e[0] is not v or e[1] != i:
                    break
            else:
                return v
        if not isptr:
            for i in range(n):
                e = d.get(off + i)
                if e is not None and not isinstance(e[0], T):
                    raise Undecided("mixed pointer bytes")
        parts = []
        i = 0
        while i < n:
            e = d.get(off + i)
            if e is None:
                u = self.undef(8, "uninitialised %s+%d" % (obj.name, off + i))
                self.event("uninit", "read of uninitialised byte %d of %s" % (off + i, obj.name), state)
                parts.append(u)
                i += 1
                continue
            v, j = e
            if not isinstance(v, T):
                raise Undecided("partial pointer load")
            k = 1
            while i + k < n:
                f = d.get(off + i + k)
                if f is None or f[0] is not v or f[1] != j + k:
                    break
                k += 1
            parts.append(ext(v, 8 * j, 8 * k))
            i += k
        return cat(parts)

    def reason(self, what):
        l = self.loc
        return "%s at %s" % (what, l.where() if hasattr(l, "where") else l)

    def event(self, kind, detail, state, cond=TRUE):
        self.events.append((kind, self.loc, detail, state.pc))
        if RECORD:
            RECORD[0](kind, self.loc, detail, state.pc, cond)

    def bounds(self, state, p, n, what):
        if p.obj is None:
            self.event("null", "%s through a null pointer" % what, state)
            raise Dead(self.reason("%s through a null pointer" % what))
        if p.obj.size is None:
            return
        if p.off.op == "c":
            o = cv(p.off)
            if o >> 63:
                o -= 1 << 64
            if o < 0 or o + n > p.obj.size:
                self.event("oob", "%s of %d bytes at offset %d of %s (size %d)" % (what, n, o, p.obj.name, p.obj.size), state)
                raise Dead(self.reason("%s of %d bytes at offset %d of an object of %d bytes" % (what, n, o, p.obj.size)))
        else:
            if ub(p.off) + n > p.obj.size:
                self.event("oob?", "%s of %d bytes at symbolic offset (bound %d) of %s (size %d)"
                           % (what, n, ub(p.off), p.obj.name, p.obj.size), state,
                           TRUE if n > p.obj.size else ult(C(p.obj.size - n, 64), p.off))

    def offsets(self, p, n):
        """possible concrete offsets of a symbolic pointer"""
        o = p.off
        lim = ub(o)
        if p.obj.size is not None:
            lim = min(lim, p.obj.size - n)
        z = kz(o)
        st = 1
        while z & st:
            st <<= 1
        base = 0
        # offset = base + st*k
        if o.op == "add":
            c, ts = o.args
            g = 0
            import math
            for t, k in ts:
                zz = 1
                while kz(t) & zz and zz < 1 << 20:
                    zz <<= 1
                if k > 1 << 63:
                    g = 1
                    break
                g = math.gcd(g, k * zz)
            if g > 1:
                st, base = g, c
        r = []
        v = base
        while v <= lim:
            if not (v & z):
                r.append(v)
            v += st
        if len(r) > 4096:
            raise Undecided("symbolic offset with too many targets")
        return r

    def load(self, state, p, n, isptr=False):
        if isinstance(p, PtrIte):
            k = known(state, p.c)
            if k is not None:
                return self.load(state, p.a if k else p.b, n, isptr)
            if self.track:
                self.track("address", self.loc, p.c)
            return sel(p.c, self.load(state, p.a, n, isptr), self.load(state, p.b, n, isptr))
        if not isinstance(p, Ptr):
            raise Undecided("load through non-pointer")
        self.bounds(state, p, n, "read")
        if p.off.op == "c":
            v = self.get(state, p.obj, cv(p.off), n, isptr)
            while isinstance(v, T) and v.op == "ite":
                k = known(state, v.args[0])
                if k is None:
                    break
                v = v.args[1 if k else 2]
            return v
        if self.track:
            self.track("address", self.loc, p.off)
        offs = self.offsets(p, n)
        vals = [self.get(state, p.obj, o, n, isptr) for o in offs]
        return self.choose(p.off, offs, vals, state)

    def choose(self, off, offs, vals, state):
        if all(isinstance(v, T) and v.op == "c" for v in vals) and len(offs) > 4:
            name = "table" + stable_hash(tuple(zip(offs, [cv(v) for v in vals])))
            d = dict((o, cv(v)) for o, v in zip(offs, vals))
            UF_EVAL[name] = lambda x, d=d: d.get(x, 0)
            TABLES[name] = d
            return uf(name, vals[0].w, off)
        r = vals[-1]
        for o, v in reversed(list(zip(offs[:-1], vals[:-1]))):
            r = sel(eq(off, C(o, 64)), v, r)
        return r

    def store(self, state, p, val):
        n = val.w // 8
        if isinstance(val, T) and val.w % 8:
            val = zext(val, (val.w + 7) // 8 * 8)
            n = val.w // 8
        if isinstance(p, PtrIte):
            k = known(state, p.c)
            if k is not None:
                return self.store(state, p.a if k else p.b, val)
            if self.track:
                self.track("address", self.loc, p.c)
            for c, q in ((p.c, p.a), (bnot(p.c), p.b)):
                if isinstance(q, Ptr) and q.obj is None:
                    raise Undecided("store through a possibly null pointer")
                old = self.load(state, q, n, not isinstance(val, T))
                self.store(state, q, sel(c, val, old))
            return
        if not isinstance(p, Ptr):
            raise Undecided("store through non-pointer")
        self.bounds(state, p, n, "write")
        if self.track:
            self.track("store", p, n)
        if p.obj.kind == "const":
            self.event("constwrite", "write to constant object %s" % p.obj.name, state)
        if p.off.op == "c":
            self.put(state, p.obj, cv(p.off), val)
            return
        if self.track:
            self.track("address", self.loc, p.off)
        for o in self.offsets(p, n):
            c = eq(p.off, C(o, 64))
            if c is FALSE:
                continue
            d = state.rd(p.obj)
            if all(o + i not in d for i in range(n)):
                # nothing there yet: selection against an undefined byte
                old = self.undef(8 * n)
            else:
                old = self.get(state, p.obj, o, n)
            self.put(state, p.obj, o, sel(c, val, old))

    def copy(self, state, dst, src, n):
        if n == 0:
            return
        if isinstance(dst, Ptr) and isinstance(src, Ptr) and dst.off.op == "c" and src.off.op == "c":
            self.bounds(state, src, n, "read")
            self.bounds(state, dst, n, "write")
            if self.track:
                self.track("store", dst, n)
            s = state.rd(src.obj)
            a, b = cv(src.off), cv(dst.off)
            tmp = [s.get(a + i) for i in range(n)]
            d = state.wr(dst.obj)
            for i in range(n):
                if tmp[i] is None:
                    d.pop(b + i, None)
                else:
                    d[b + i] = tmp[i]
            return
        i = 0
        vals = []
        while i < n:
            k = 8 if n - i >= 8 else 4 if n - i >= 4 else 1
            vals.append(self.load(state, self.padd(src, i), k))
            i += k
        i = 0
        for v in vals:
            self.store(state, self.padd(dst, i), v)
            i += v.w // 8

    def padd(self, p, k):
        if isinstance(p, PtrIte):
            return PtrIte(p.c, self.padd(p.a, k), self.padd(p.b, k))
        if isinstance(k, int):
            k = C(k, 64)
        return Ptr(p.obj, add(p.off, k))

    # ---- globals
    def gobj(self, state, name):
        o = self.gobjs.get(name)
        if o is None:
            g = self.mod.globals.get(name)
            if g is None:
                raise Undecided("unknown global " + name)
            o = Obj("global " + build.demangle([name])[name], g.ty.size if not g.decl else None, "const" if g.const else "global")
            self.gobjs[name] = o
            o_init = g.init
            if o_init is not None:
                d = {}
                self.cinit(d, 0, o_init, state)
                self.ginit_data = getattr(self, "ginit_data", {})
                self.ginit_data[o] = o.init = d
        if o not in state.mem:
            state.mem[o] = [dict(getattr(self, "ginit_data", {}).get(o, {})), True]
        return o

    def cinit(self, d, off, v, state):
        if v.k == "int":
            t = C(v.v, max(8, (v.ty.w + 7) // 8 * 8))
            for i in range(t.w // 8):
                d[off + i] = (t, i)
        elif v.k in ("zero",):
            z = C(0, 8)
            for i in range(v.ty.size):
                d[off + i] = (z, 0)
        elif v.k == "null":
            for i in range(8):
                d[off + i] = (NULL, i)
        elif v.k == "agg":
            ty = v.ty
            for i, x in enumerate(v.ops):
                o = ty.offs[i] if ty.kind == "struct" else i * ty.elem.size
                self.cinit(d, off + o, x, state)
        elif v.k == "undef":
            pass
        else:
            p = self.operand(None, v, state)
            for i in range(8):
                d[off + i] = (p, i)

    def init_globals(self, state):
        """run the static initialisers of all translation units abstractly (their inputs are constants)"""
        g = self.mod.globals.get("llvm.global_ctors")
        if g is None or g.init is None:
            return
        h, self.hooks = self.hooks, {k: v for k, v in self.hooks.items() if k.startswith("asm_")}
        try:
            for e in g.init.ops:
                f = e.ops[1]
                if f.k == "func":
                    self.call(self.mod.functions[f.v], [], state)
        finally:
            self.hooks = h

    # ---- values
    def operand(self, fr, v, state):
        k = v.k
        if k == "inst":
            try:
                return fr.env[v.v.key]
            except KeyError:
                raise Undecided("use before definition")
        if k == "int":
            return C(v.v, v.ty.w)
        if k == "arg":
            return fr.args[v.v]
        if k == "null":
            return NULL
        if k == "global":
            return Ptr(self.gobj(state, v.v), Z64)
        if k == "func":
            return FnRef(v.v)
        if k == "undef":
            if v.ty.kind == "int":
                return self.undef(v.ty.w)
            return None
        if k == "zero":
            if v.ty.kind in ("struct", "array"):
                return tuple(C(0, e.w) for e in (v.ty.elems or [v.ty.elem] * v.ty.n))
            return C(0, v.ty.size * 8)
        if k == "expr":
            op, ty = v.v
            if op == "gep":
                return self.gep(self.operand(fr, v.ops[0], state), ty, [self.operand(fr, x, state) for x in v.ops[1:]])
            if op in ("bitcast",):
                return self.operand(fr, v.ops[0], state)
            if op == "ptrtoint":
                return self.ptr2int(self.operand(fr, v.ops[0], state), v.ty.w)
            if op in ("sub", "add"):
                a, b = [self.operand(fr, x, state) for x in v.ops]
                return sub(a, b) if op == "sub" else add(a, b)
        if k == "meta":
            return None
        raise Undecided("operand kind " + k)

    def ptr2int(self, p, w):
        if isinstance(p, PtrIte):
            return ite(p.c, self.ptr2int(p.a, w), self.ptr2int(p.b, w))
        if p.obj is None:
            return fit(p.off, w)
        return fit(add(V("addr:%s#%d" % (p.obj.name, p.obj.id), 64), p.off), w)

    def gep(self, p, ty, idx):
        if isinstance(p, PtrIte):
            return PtrIte(p.c, self.gep(p.a, ty, idx), self.gep(p.b, ty, idx))
        terms = [(sext(idx[0], 64), ty.size)]
        c = 0
        for i in idx[1:]:
            if ty.kind == "struct":
                c += ty.offs[cv(i)]
                ty = ty.elems[cv(i)]
            else:
                ty = ty.elem
                terms.append((sext(i, 64), ty.size))
        if not isinstance(p, Ptr):
            raise Undecided("gep on non-pointer")
        return Ptr(p.obj, lin(c, [(p.off, 1)] + terms, 64))

    # ---- calls
    def call(self, fn, args, state):
        if isinstance(fn, str):
            fn = self.mod.functions[self.bydem.get(fn, fn)]
        h = self.hooks.get(self.dem.get(fn.name, fn.name)) or self.hooks.get(fn.name)
        if h is not None:
            r = h(self, state, args)
            if r is not NotImplemented:
                return r
        if fn.decl:
            return self.extern(fn, args, state)
        self.mod.body(fn)
        self.visited.add(self.dem.get(fn.name, fn.name))
        VISITED.add(fn.name)
        self.depth += 1
        if self.depth > 60:
            raise Undecided("call depth")
        fr = Frame()
        fr.fn = fn
        fr.env = {}
        fr.args = args
        fr.depth = 0
        self.callstack.append(fn.name)
        saved = self.loc
        try:
            r = self.run(fr, fn.blocks[0], None, EXIT, state)
        finally:
            self.depth -= 1
            self.callstack.pop()
            self.loc = saved
        return r.get("ret")

    def extern(self, fn, args, state):
        n = fn.name
        if n.startswith("llvm.dbg") or n.startswith("llvm.lifetime") or n.startswith("llvm.assume") or n.startswith("llvm.experimental.noalias"):
            return None
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove") or n in ("memcpy", "memmove"):
            c = args[2]
            if c.op != "c":
                top = leaves(c)
                if top is None:
                    raise Undecided("memcpy with symbolic length")
                k = max(top)
                if self.track:
                    self.track("length", self.loc, c)
                if k:
                    self.bounds(state, args[1], k, "read")
                    self.bounds(state, args[0], k, "write")
                vals = [(self.load(state, self.padd(args[1], i), 1), self.load(state, self.padd(args[0], i), 1)) for i in range(k)]
                for i, (new, old) in enumerate(vals):
                    self.store(state, self.padd(args[0], i), sel(ult(C(i, c.w), c), new, old))
                return args[0]
            if n.startswith("llvm.memcpy") or n == "memcpy":
                a, b = args[0], args[1]
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.off.op == "c" and b.off.op == "c" \
                        and a.off is not b.off and abs(cv(a.off) - cv(b.off)) < cv(c):
                    self.event("overlap", "memcpy of overlapping ranges", state)
            self.copy(state, args[0], args[1], cv(c))
            return args[0]
        if n.startswith("llvm.memset") or n == "memset":
            c = args[2]
            if c.op != "c":
                raise Undecided("memset with symbolic length")
            v = ext(args[1], 0, 8)
            p = args[0]
            if cv(c) and isinstance(p, Ptr) and p.off.op == "c":
                self.bounds(state, p, cv(c), "write")
                if self.track:
                    self.track("store", p, cv(c))
                d = state.wr(p.obj)
                for i in range(cv(c)):
                    d[cv(p.off) + i] = (v, 0)
            else:
                for i in range(cv(c)):
                    self.store(state, self.padd(p, i), v)
            return p
        if self.track and n in LIBSCAN:
            self.track("library", self.loc, n)
        if n == "strlen":
            p = args[0]
            k = 0
            while True:
                b = self.load(state, self.padd(p, k), 1)
                z = eq(b, C(0, 8))
                kn = known(state, z)
                if kn is None:
                    raise Undecided("strlen of unknown string")
                if kn:
                    return C(k, 64)
                k += 1
        if n in ("strchr", "memchr"):
            p, ch = args[0], ext(args[1], 0, 8)
            tbl = []
            k = 0
            lim = cv(args[2]) if n == "memchr" else None
            while lim is None or k < lim:
                b = self.load(state, self.padd(p, k), 1)
                if b.op != "c":
                    raise Undecided("strchr in unknown string")
                tbl.append(b)
                if cv(b) == 0 and lim is None:
                    break
                k += 1
            off = C(0, 64)
            found = FALSE
            idx = {}
            for k, b in enumerate(tbl):
                idx.setdefault(cv(b), k)
            if ch.op == "c":
                if cv(ch) in idx:
                    return self.padd(p, idx[cv(ch)])
                return NULL
            for v in idx:
                found = bor(found, eq(ch, C(v, 8)))
            nm = "chridx" + stable_hash(tuple(sorted(idx.items())))
            UF_EVAL[nm] = lambda x, idx=idx: idx.get(x, 0)
            TABLES[nm] = idx
            o = uf(nm, 64, ch)
            declare_ub(o, max(idx.values()))
            if known(state, found) is True:
                return self.padd(p, o)
            return PtrIte(found, self.padd(p, o), NULL)
        if n in ("__assert_fail",):
            msg = ""
            self.event("assert", "assertion can fail", state)
            raise Dead(self.reason("assertion fails"))
        if n in ("abort", "exit", "_ZSt9terminatev", "__cxa_throw", "_exit") or n.startswith("llvm.trap"):
            self.event("noreturn", n, state)
            raise Dead(self.reason(n))
        if n.startswith("llvm.ubsantrap"):
            self.event("ub", "undefined behaviour guard %s" % (cv(args[0]) if args else ""), state)
            raise Dead()
        if n.startswith("__cxa_atexit") or n.startswith("__cxa_guard"):
            raise Undecided("dynamic initialisation guard " + n)
        if ".with.overflow" in n:
            a, b = args
            w = a.w
            op = {"a": "add", "s": "sub", "m": "mul"}[n.split(".")[1][1]]
            signed = n.split(".")[1][0] == "s"
            e = sext if signed else zext
            W = 2 * w
            x, y = e(a, W), e(b, W)
            full = add(x, y) if op == "add" else sub(x, y) if op == "sub" else mul([x, y], W)
            r = add(a, b) if op == "add" else sub(a, b) if op == "sub" else mul([a, b], w)
            if not signed:
                u = ub(a) + ub(b) if op == "add" else ub(a) * ub(b) if op == "mul" else None
                if u is not None and u <= ones(w):
                    return (r, FALSE)
            else:
                h = 1 << (w - 1)

                def rng(t):
                    if ub(t) < h:
                        return 0, ub(t)
                    if t.op == "c":
                        return cv(t) - (1 << w), cv(t) - (1 << w)
                    return -h, h - 1
                (l1, h1), (l2, h2) = rng(a), rng(b)
                if op == "add":
                    lo, hi = l1 + l2, h1 + h2
                elif op == "sub":
                    lo, hi = l1 - h2, h1 - l2
                else:
                    ps = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
                    lo, hi = min(ps), max(ps)
                if -h <= lo and hi < h:
                    return (r, FALSE)
            return (r, ne(e(r, W), full))
        if n.startswith("llvm.fshl") or n.startswith("llvm.fshr"):
            a, b, s = args
            if s.op == "c":
                k = cv(s) % a.w
                ab = cat([b, a])
                return ext(ab, a.w - k if n.startswith("llvm.fshl") else k, a.w) if k else (a if n.startswith("llvm.fshl") else b)
        if n.startswith("llvm.umin") or n.startswith("llvm.umax"):
            c = ult(args[0], args[1])
            return ite(c, *((args[0], args[1]) if "umin" in n else (args[1], args[0])))
        if n.startswith("llvm.bswap"):
            return from_le(bytes_be(args[0]))
        if n.startswith("llvm.expect"):
            return args[0]
        if n == "memcmp":
            raise Undecided("memcmp")
        raise Undecided("external function " + n)

    # ---- control
    def run(self, fr, block, prev, stop, state, preset=None):
        fn = fr.fn
        ip = ipdoms(fn)
        env = fr.env
        while True:
            if block is stop:
                return self.phis(fr, block, prev, state)
            insts = block.insts
            i = 0
            if preset is not None:
                for ph, v in preset.items():
                    if ph != "ret":
                        env[ph] = v
                preset = None
                while insts[i].op == "phi":
                    i += 1
            elif insts[0].op == "phi":
                env.update(self.phis(fr, block, prev, state))
                while insts[i].op == "phi":
                    i += 1
            if self.onblock:
                self.onblock(fr, block, state)
            n = len(insts)
            while i < n - 1:
                ins = insts[i]
                i += 1
                self.loc = ins
                r = self.step(fr, ins, state)
                env[ins.key] = r
            self.steps += n
            if report.DEADLINE[0] and self.steps & 15 == 0 and report.time.time() > report.DEADLINE[0]:
                raise Undecided("time limit")
            if self.steps > self.budget:
                raise Undecided("analysis budget exhausted in " + fn.name)
            ins = insts[-1]
            self.loc = ins
            op = ins.op
            if op == "ret":
                return {"ret": self.operand(fr, ins.ops[0], state) if ins.ops else None}
            if op == "unreachable":
                raise Dead()
            if op == "invoke":
                env[ins.key] = self.docall(fr, ins, state)
                prev, block = block, ins.x[1]
                continue
            if op == "br":
                if not ins.ops:
                    prev, block = block, ins.x[0]
                    continue
                c = self.operand(fr, ins.ops[0], state)
                targets = [(c, ins.x[0], ins.x[1])]
            elif op == "switch":
                v = self.operand(fr, ins.ops[0], state)
                dflt, cases = ins.x
                if v.op == "c":
                    d = dflt
                    for k, b in cases:
                        if k == cv(v):
                            d = b
                    prev, block = block, d
                    continue
                if self.track:
                    self.track("branch", ins, v)
                r = self.switch(fr, block, v, cases, dflt, ip, state)
                nxt = ip.get(block, EXIT)
                if nxt is EXIT or nxt is stop:
                    return r
                preset = r
                prev, block = block, nxt
                continue
            else:
                raise Undecided("terminator " + op)
            c, bt, bf = targets[0]
            if not isinstance(c, T):
                raise Undecided("branch on non-boolean")
            if c.op == "c":
                prev, block = block, (bt if cv(c) else bf)
                continue
            kn = known(state, c)
            if kn is None and self.oracle:
                kn = self.oracle(c)
            if kn is not None:
                prev, block = block, (bt if kn else bf)
                continue
            if self.track:
                self.track("branch", ins, c)
            nxt = ip.get(block, EXIT)
            r = self.fork(fr, c, block, bt, bf, nxt, state)
            env = fr.env
            if nxt is EXIT or nxt is stop:
                return r
            preset = r
            prev, block = block, nxt

    def switch(self, fr, block, v, cases, dflt, ip, state):
        nxt = ip.get(block, EXIT)

        def go(i, st):
            if i == len(cases):
                return self.run(fr, dflt, block, nxt, st)
            k, b = cases[i]
            c = eq(v, C(k, v.w))
            return self.fork2(fr, c, lambda s: self.run(fr, b, block, nxt, s), lambda s: go(i + 1, s), state)
        return go(0, state)

    def fork(self, fr, c, block, bt, bf, nxt, state):
        return self.fork2(fr, c, lambda s: self.run(fr, bt, block, nxt, s), lambda s: self.run(fr, bf, block, nxt, s), state)

    def sel(self, c, a, b):
        return sel(c, a, b)

    def same(self, a, b):
        return same(a, b)

    def fork2(self, fr, c, fa, fb, state):
        self.nfork += 1
        fr.depth += 1
        if fr.depth > self.forkdepth:
            raise Undecided("unbounded symbolic control flow in " + fr.fn.name)
        saved_facts = state.facts
        saved_pc = state.pc
        sa = state.fork()
        assume(sa, c, True)
        env0 = dict(fr.env)
        ra = rb = None
        loc = self.loc
        try:
            why = ""
            try:
                ra = fa(sa)
            except Dead as e:
                why = str(e)
            enva = fr.env
            fr.env = env0
            sb = state.fork()
            assume(sb, c, False)
            self.loc = loc
            try:
                rb = fb(sb)
            except Dead as e:
                why = why and str(e) and why + "; otherwise " + str(e)
        finally:
            fr.depth -= 1
        envb = fr.env
        if ra is None and rb is None:
            raise Dead(why[:600])
        if ra is None or rb is None:
            s = sb if ra is None else sa
            fr.env = envb if ra is None else enva
            state.mem = s.mem
            state.facts = s.facts
            state.pc = s.pc
            state.ghost = s.ghost
            return rb if ra is None else ra
        # merge
        env = {}
        for k, v in envb.items():
            a = enva.get(k, self)
            if a is self:
                continue
            if a is v or self.same(a, v):
                env[k] = v
            else:
                try:
                    env[k] = self.sel(c, a, v)
                except Exception:
                    pass
        fr.env = env
        state.mem = self.merge(c, sa, sb)
        # facts common to both sides
        f = {}
        for k, v in sb.facts.items():
            if sa.facts.get(k) is v:
                f[k] = v
        state.facts = f
        # path condition: what both sides share
        pa, pb = sa.pc, sb.pc
        n = 0
        while n < len(pa) and n < len(pb) and pa[n] == pb[n]:
            n += 1
        extra = ()
        common = set(pa[n:]) & set(pb[n:])
        for x in pa[n:]:
            if x in common:
                extra += (x,)
        state.pc = pa[:n] + extra
        for k in set(sa.ghost) | set(sb.ghost):
            x, y = sa.ghost.get(k), sb.ghost.get(k)
            if x is y or x == y:
                state.ghost[k] = x
            elif isinstance(x, T) and isinstance(y, T):
                state.ghost[k] = ite(c, x, y)
            else:
                raise Undecided("ghost state differs at a join")
        return {k: self.sel(c, ra[k], rb[k]) for k in ra if k in rb}

    def merge(self, c, sa, sb):
        mem = {}
        for o in set(sa.mem) | set(sb.mem):
            a, b = sa.mem.get(o), sb.mem.get(o)
            if (a is None or b is None) and o.init is not None:
                a = a or [o.init, False]
                b = b or [o.init, False]
            if a is None or b is None:
                mem[o] = a or b
                continue
            da, db = a[0], b[0]
            if da is db:
                mem[o] = [da, False]
                continue
            d = dict(db)
            keys = sorted(k for k in set(da) | set(db) if da.get(k) != db.get(k))
            i = 0
            while i < len(keys):
                k = keys[i]
                ea, eb = da.get(k), db.get(k)
                if ea is None or eb is None:
                    # undefined on one side
                    e = ea or eb
                    if isinstance(e[0], T):
                        u = self.undef(8)
                        e8 = ext(e[0], 8 * e[1], 8)
                        d[k] = (sel(c, e8, u) if ea else sel(c, u, e8), 0)
                    else:
                        d[k] = e
                    i += 1
                    continue
                n = 1
                while i + n < len(keys) and keys[i + n] == k + n:
                    fa, fb = da.get(k + n), db.get(k + n)
                    if fa is None or fb is None or fa[0] is not ea[0] or fb[0] is not eb[0] or fa[1] != ea[1] + n or fb[1] != eb[1] + n:
                        break
                    n += 1
                if isinstance(ea[0], T) and isinstance(eb[0], T):
                    v = ite(c, ext(ea[0], 8 * ea[1], 8 * n), ext(eb[0], 8 * eb[1], 8 * n))
                    for j in range(n):
                        d[k + j] = (v, j)
                else:
                    if not (ea[1] == 0 and eb[1] == 0 and n == 8) and not same(ea[0], eb[0]):
                        raise Undecided("merging partial pointers")
                    v = sel(c, ea[0], eb[0])
                    for j in range(n):
                        d[k + j] = (v, ea[1] + j)
                i += n
            mem[o] = [d, True]
        return mem

    def phis(self, fr, block, prev, state):
        out = {}
        for ins in block.insts:
            if ins.op != "phi":
                break
            for v, b in zip(ins.ops, ins.x):
                if b is prev:
                    out[ins.key] = self.operand(fr, v, state)
                    break
            else:
                raise Undecided("phi")
        return out

    def docall(self, fr, ins, state):
        callee = ins.x[0]
        args = [self.operand(fr, v, state) for v in ins.ops]
        if callee.k == "func":
            r = self.call(self.mod.functions[callee.v], args, state)
        else:
            f = self.operand(fr, callee, state) if callee.k != "asm" else None
            if isinstance(f, FnRef):
                r = self.call(self.mod.functions[f.name], args, state)
            else:
                raise Undecided("indirect call or inline assembly")
        if isinstance(r, T) and ins.ty.kind == "int" and r.w != ins.ty.w:
            r = fit(r, ins.ty.w)
        return r

    def step(self, fr, ins, state):
        op = ins.op
        O = [self.operand(fr, v, state) for v in ins.ops] if op not in ("call",) else None
        if O:
            for i, v in enumerate(O):
                while isinstance(v, PtrIte):
                    k = known(state, v.c)
                    if k is None:
                        break
                    O[i] = v = v.a if k else v.b
        if op == "call":
            return self.docall(fr, ins, state)
        if op == "load":
            ty = ins.ty
            if ty.kind == "ptr":
                return self.load(state, O[0], 8, True)
            if ty.kind == "int":
                v = self.load(state, O[0], (ty.w + 7) // 8)
                if not isinstance(v, T):
                    raise Undecided("pointer loaded as integer")
                return fit(v, ty.w)
            raise Undecided("load of " + ty.kind)
        if op == "store":
            v = O[0]
            if v is None:
                raise Undecided("store of undefined aggregate")
            if isinstance(v, tuple):
                raise Undecided("aggregate store")
            self.store(state, O[1], v)
            return None
        if op == "gep":
            return self.gep(O[0], ins.x, O[1:])
        if op == "alloca":
            ty = ins.x
            n = cv(O[0]) if O and O[0].op == "c" else None
            if n is None:
                raise Undecided("variable-length alloca")
            o = self.new(state, fr.fn.name.split("E")[0][-20:] + ".local@%s" % ins.line, ty.size * n)
            return Ptr(o, Z64)
        if op == "icmp":
            return self.icmp(ins.x, O[0], O[1], state)
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            a, b = O
            if not (isinstance(a, T) and isinstance(b, T)):
                raise Undecided("arithmetic on pointers")
            if op == "add":
                return add(a, b)
            if op == "sub":
                return sub(a, b)
            if op == "mul":
                return mul([a, b], a.w)
            if op in ("and", "or", "xor"):
                return bitop(op, [a, b], a.w)
            if self.track and op in ("udiv", "sdiv", "urem", "srem") and not (a.op == "c" and b.op == "c"):
                self.track("divide", ins, a if a.op != "c" else b)
            return {"shl": shl, "lshr": lshr, "ashr": ashr, "udiv": udiv, "sdiv": sdiv, "urem": urem, "srem": srem}[op](a, b)
        if op == "zext":
            return zext(O[0], ins.ty.w)
        if op == "sext":
            return sext(O[0], ins.ty.w)
        if op == "trunc":
            return ext(O[0], 0, ins.ty.w)
        if op == "select":
            c, a, b = O
            kn = known(state, c)
            if kn is not None:
                return a if kn else b
            if self.track and not (isinstance(a, T) and isinstance(b, T) and a.op == "c" and b.op == "c"):
                self.track("select", ins, c)      # two constants: only a conversion of the condition to a number
            return sel(c, a, b)
        if op in ("freeze", "bitcast"):
            return O[0]
        if op == "ptrtoint":
            return self.ptr2int(O[0], ins.ty.w)
        if op == "extractvalue":
            v = O[0]
            for k in ins.x:
                v = v[k]
            return v
        if op == "insertvalue":
            a = O[0]
            if a is None:
                a = tuple([None] * len(ins.ty.elems))
            l = list(a)
            l[ins.x[0]] = O[1]
            return tuple(l)
        raise Undecided("instruction " + op)

    def icmp(self, pred, a, b, state):
        if isinstance(a, T) and isinstance(b, T):
            if pred == "eq":
                return eq(a, b)
            if pred == "ne":
                return ne(a, b)
            if pred == "ult":
                return ult(a, b)
            if pred == "ugt":
                return ult(b, a)
            if pred == "ule":
                return ule(a, b)
            if pred == "uge":
                return ule(b, a)
            if pred == "slt":
                return slt(a, b)
            if pred == "sgt":
                return slt(b, a)
            if pred == "sle":
                return sle(a, b)
            if pred == "sge":
                return sle(b, a)
        if isinstance(a, PtrIte):
            return ite(a.c, self.icmp(pred, a.a, b, state), self.icmp(pred, a.b, b, state))
        if isinstance(b, PtrIte):
            return ite(b.c, self.icmp(pred, a, b.a, state), self.icmp(pred, a, b.b, state))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj:
                return self.icmp(pred, a.off, b.off, state)
            if pred in ("eq", "ne"):
                r = FALSE
                return r if pred == "eq" else TRUE
        raise Undecided("pointer comparison")


TABLES = {}
# library routines whose running time follows the contents of memory
LIBSCAN = ("memcmp", "bcmp", "strcmp", "strncmp", "strlen", "strchr", "strrchr", "memchr", "strncpy", "strcpy")
