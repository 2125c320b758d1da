"""Interprocedural side-effect (mod/ref) and alias summaries: flow-insensitive, object-granular, over LLVM IR and JVM bytecode.

A root names where a pointer (reference) may come from:
  ("arg", i)      the object the i-th parameter points to
  ("deref", r)    whatever a pointer stored in r points to
  ("g", name)     a global / ("s", "Class.field") a static field's object
  ("new", k)      an object created inside the function
  ("const",)      an immutable literal
  ("unknown",)    anything
A summary gives: mod (root -> witness), ret (roots), reads (mutable globals read -> witness), ext (external callee -> witness).
"""
import re
from . import build
from . import classfile

UNKNOWN = ("unknown",)

# ---------------------------------------------------------------- C++ (LLVM IR)

PURE_EXT = {"strlen", "memcmp", "bcmp", "strcmp", "strncmp", "__assert_fail", "abort", "_ZSt9terminatev", "__clang_call_terminate", "__stack_chk_fail"}
# external routine -> (indices of written arguments, index of the argument it returns a pointer into)
EXT = {"strchr": ((), 0), "memchr": ((), 0), "strrchr": ((), 0), "memcpy": ((0,), 0), "memmove": ((0,), 0), "memset": ((0,), 0),
       "strcpy": ((0,), 0), "strncpy": ((0,), 0)}
ALLOC = {"malloc", "calloc", "_Znwm", "_Znam"}
FREE = {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm"}
IMPURE = {"rand", "srand", "random", "srandom", "rand_r", "drand48", "time", "clock", "clock_gettime", "gettimeofday", "getenv", "setenv",
          "strtok", "localtime", "gmtime", "ctime", "getpid", "open", "read", "write", "fopen", "fread", "fwrite", "fputs", "puts", "printf", "fprintf",
          "putchar", "getchar", "fgets", "putenv", "setlocale", "signal", "raise", "system"}


class Summary(object):
    def __init__(self):
        self.mod = {}
        self.ret = set()
        self.reads = {}
        self.ext = {}
        self.guarded = {}     # global initialised once under a guard -> (witness, depends on arguments)
        self.calls = {}       # callee -> witness

    def key(self):
        return (len(self.mod), len(self.ret), len(self.reads), len(self.ext), len(self.guarded))


class Cpp(object):
    def __init__(self, mod, asm_decls=None):
        self.mod = mod
        self.asm = asm_decls or {}
        self.dem = build.demangle(list(mod.functions) + list(mod.globals))
        self.sum = {n: Summary() for n, f in mod.functions.items() if not f.decl}
        self.written = {}
        ch = True
        while ch:
            ch = False
            for n in self.sum:
                k = self.sum[n].key()
                self.function(mod.functions[n], self.sum[n])
                if self.sum[n].key() != k:
                    ch = True

    def is_init(self, n):
        return n.startswith("__cxx_global_var_init") or n.startswith("_GLOBAL__")

    def roots(self, v, env):
        k = v.k
        if k == "inst":
            return env.get(v.v.key, frozenset())
        if k == "arg":
            return frozenset([("arg", v.v)]) if v.ty is None or v.ty.kind == "ptr" else frozenset()
        if k == "global":
            return frozenset([("g", v.v)])
        if k == "expr":
            r = frozenset()
            for o in v.ops:
                r |= self.roots(o, env)
            return r
        if k in ("func",):
            return frozenset([("fn", v.v)])
        return frozenset()

    def once_regions(self, fn):
        """blocks executed only while this thread holds a local static's initialisation guard"""
        ent = set()
        for b in fn.blocks:
            for i in b.insts:
                if i.op in ("call", "invoke") and i.x[0].k == "func" and i.x[0].v == "__cxa_guard_acquire":
                    # br (icmp ne acquire, 0), init, done
                    t = (i.x[1] if i.op == "invoke" else b).insts[-1]
                    if t.op == "br" and t.ops:
                        ent.add(t.x[0])
        r = set()
        if not ent:
            return r
        # dominated by an entry: not reachable from the start without passing it
        for e in ent:
            seen = set()
            st = [fn.blocks[0]]
            while st:
                x = st.pop()
                if x in seen or x is e:
                    continue
                seen.add(x)
                st.extend(x.succ)
            r |= {b for b in fn.blocks if b not in seen}
        return r

    def function(self, fn, S):
        self.mod.body(fn)
        env, content = {}, {}
        once = self.once_regions(fn)
        argdep = set()
        ch = True
        while ch:
            ch = False
            for b in fn.blocks:
                for i in b.insts:
                    r = self.inst(fn, i, env, content, S, b in once, argdep)
                    if r and r - env.get(i.key, frozenset()):
                        env[i.key] = env.get(i.key, frozenset()) | r
                        ch = True
                    if i.op not in ("br", "switch", "ret", "unreachable") and i.key not in argdep:
                        if any((o.k == "arg") or (o.k == "inst" and o.v.key in argdep) for o in i.ops):
                            argdep.add(i.key)
                            ch = True
        return S

    def mods(self, S, roots, w, once=False, dep=False):
        for r in roots:
            if r[0] == "new" or r[0] == "const" or r[0] == "fn":
                continue
            if r[0] == "g" and once:
                o = S.guarded.get(r[1])
                if o is None or (dep and not o[1]):
                    S.guarded[r[1]] = (w, dep)
                continue
            if r[0] == "g" and r[1].startswith("_ZGV"):
                continue
            S.mod.setdefault(r, w)

    def reads_of(self, S, roots, w):
        for r in roots:
            if r[0] == "g":
                g = self.mod.globals.get(r[1])
                if g is not None and not g.const and not r[1].startswith("_ZGV"):
                    S.reads.setdefault(r[1], w)

    def inst(self, fn, i, env, content, S, once, argdep):
        op = i.op
        R = lambda v: self.roots(v, env)
        w = (self.dem.get(fn.name, fn.name), i.where())
        dep = once and any(o.k == "arg" or (o.k == "inst" and o.v.key in argdep) for o in i.ops)
        if op == "alloca":
            return frozenset([("new", i.key)])
        if op == "load":
            p = R(i.ops[0])
            self.reads_of(S, p, w)
            if i.ty.kind != "ptr":
                return frozenset()
            out = set()
            for r in p:
                if r[0] == "new":
                    out |= content.get(r, set())
                elif r[0] == "g":
                    g = self.mod.globals.get(r[1])
                    if g is not None and g.init is not None:
                        out |= self.roots(g.init, env) if g.init.k in ("global", "expr") else (
                            set().union(*[self.roots(o, env) for o in g.init.ops]) if g.init.k == "agg" else {UNKNOWN} if r in content else set())
                    else:
                        out.add(UNKNOWN)
                    out |= content.get(r, set())
                elif r[0] == "unknown":
                    out.add(UNKNOWN)
                else:
                    out.add(("deref", r) if r[0] != "deref" else r)
            return frozenset(out)
        if op == "store":
            p = R(i.ops[1])
            v = R(i.ops[0])
            if v:
                for r in p:
                    content.setdefault(r, set()).update(v)
            self.mods(S, p, w, once, dep)
            return frozenset()
        if op in ("call", "invoke"):
            return self.docall(fn, i, env, content, S, once, dep, w)
        if op in ("gep", "bitcast", "select", "phi", "freeze", "insertvalue", "extractvalue", "addrspacecast", "inttoptr", "ptrtoint", "add", "sub",
                  "and", "or", "trunc", "zext", "sext"):
            r = frozenset()
            for o in i.ops:
                r |= R(o)
            if op == "inttoptr" and not r:
                r = frozenset([UNKNOWN])
            return r
        if op == "ret":
            for o in i.ops:
                S.ret |= R(o)
            return frozenset()
        if op.startswith("op") or op in ("cmpxchg", "atomicrmw", "va_arg"):
            for o in i.ops:
                self.mods(S, R(o), w, once, dep)
            if i.ty.kind == "ptr":
                return frozenset([UNKNOWN])
        return frozenset()

    def docall(self, fn, i, env, content, S, once, dep, w):
        R = lambda v: self.roots(v, env)
        c = i.x[0]
        if c.k != "func":
            S.ext.setdefault("<indirect call or inline assembly>", w)
            for o in i.ops:
                self.mods(S, R(o), w, once, dep)
            return frozenset([UNKNOWN]) if i.ty.kind == "ptr" else frozenset()
        n = c.v
        A = [R(o) for o in i.ops]
        if n in self.sum:
            T = self.sum[n]
            S.calls.setdefault(n, w)

            def sub(r):
                if r[0] == "arg":
                    return A[r[1]] if r[1] < len(A) else {UNKNOWN}
                if r[0] == "deref":
                    out = set()
                    for q in sub(r[1]):
                        if q[0] == "new":
                            out |= content.get(q, set())
                        elif q[0] in ("arg", "deref"):
                            out.add(("deref", q) if q[0] == "arg" else q)
                        else:
                            out.add(UNKNOWN if q[0] != "g" else q)
                    return out
                if r[0] == "new":
                    return {UNKNOWN}
                return {r}
            for r, x in T.mod.items():
                if self.is_init(n):
                    continue
                self.mods(S, sub(r), x if r[0] == "g" else w, once, dep)
            out = set()
            for r in T.ret:
                out |= set(sub(r))
            return frozenset(out)
        if n.startswith("llvm."):
            if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                self.mods(S, A[0], w, once, dep)
                if not n.startswith("llvm.memset"):
                    self.reads_of(S, A[1], w)
                    for d in A[0]:
                        for s in A[1]:
                            if s[0] == "new" and content.get(s):
                                content.setdefault(d, set()).update(content[s])
            return frozenset()
        if n in self.asm or n.startswith("asm_"):
            d = self.asm.get(n)
            for k, a in enumerate(A):
                if a and not (d and k < len(d[1]) and d[1][k][1]):
                    self.mods(S, a, w, once, dep)
                if a and d and k < len(d[1]) and d[1][k][1]:
                    self.reads_of(S, a, w)
            return frozenset()
        if n in PURE_EXT or n in FREE:
            for a in A:
                self.reads_of(S, a, w)
            return frozenset()
        if n in EXT:
            wr, ret = EXT[n]
            for k, a in enumerate(A):
                if k in wr:
                    self.mods(S, a, w, once, dep)
                else:
                    self.reads_of(S, a, w)
            return A[ret]
        if n in ALLOC:
            return frozenset([("new", i.key)])
        if n.startswith("__cxa_guard"):
            return frozenset()
        if n in ("__cxa_atexit",):
            return frozenset()
        if "threadlocal" in n or "thread.local" in n:
            return A[0]
        S.ext.setdefault(n, w)
        for a in A:
            self.mods(S, {r for r in a if r[0] != "g" or not self.mod.globals[r[1]].const}, w, once, dep)
        return frozenset([UNKNOWN]) if i.ty.kind == "ptr" else frozenset()

    # ---- signatures
    def signature(self, n):
        """[(name, pointer/reference?, pointee const?)] per IR parameter, from the demangled C++ signature"""
        fn = self.mod.functions[n]
        self.mod.body(fn)
        d = self.dem[n]
        m = re.match(r"^(.*?)\((.*)\)( const)?$", d)
        ps = split_args(m.group(2)) if m else []
        out = []
        k = 0
        for j, nm in enumerate(fn.pnames):
            if nm == "agg.result":
                out.append((nm, True, False))
            elif nm == "this":
                out.append((nm, True, bool(m and m.group(3))))
            else:
                t = ps[k] if k < len(ps) else ""
                k += 1
                ptr = fn.params[j].ty.kind == "ptr"
                out.append((nm or "parameter %d" % (j + 1), ptr, ptr and bool(re.search(r"const\s*[*&]|const\s*\(", t))))
        return out


def split_args(s):
    r, d, cur = [], 0, ""
    for ch in s:
        if ch in "(<[":
            d += 1
        elif ch in ")>]":
            d -= 1
        if ch == "," and d == 0:
            r.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        r.append(cur.strip())
    return [x for x in r if x != "void"]


# ---------------------------------------------------------------- Java (bytecode)

# JDK methods by class (or class.method): (written argument indices (receiver = 0 for instance methods), where the returned reference comes from)
#   ret: "new" fresh, "const" immutable value, int k: argument k
J_PURE_CLASSES = {"java/lang/Integer", "java/lang/Long", "java/lang/Byte", "java/lang/Short", "java/lang/Character", "java/lang/Boolean", "java/lang/Math",
                  "java/math/BigInteger", "java/lang/String", "java/lang/Object", "java/lang/Class", "java/lang/StrictMath", "java/util/Objects",
                  "java/nio/charset/StandardCharsets", "java/lang/CharSequence", "java/nio/charset/Charset", "java/lang/Comparable", "java/lang/Number", "java/util/Locale"}
J_IMPURE = ("java/lang/Math.random", "java/util/Random", "java/security/SecureRandom", "java/util/concurrent/ThreadLocalRandom", "java/lang/System.nanoTime",
            "java/lang/System.currentTimeMillis", "java/lang/System.getProperty", "java/lang/System.setProperty", "java/lang/System.getenv", "java/util/Date",
            "java/time/", "java/lang/Thread", "java/lang/Runtime", "java/io/PrintStream", "java/io/File", "java/lang/ThreadLocal", "java/lang/System.identityHashCode",
            "java/util/Calendar", "java/nio/file/", "java/net/")
J_MUTABLE_LOCAL = ("java/lang/StringBuilder", "java/lang/StringBuffer", "java/io/ByteArrayOutputStream")
ARRAYLIKE = "["


class JSummary(object):
    def __init__(self):
        self.mod = {}
        self.ret = set()
        self.reads = {}
        self.ext = {}
        self.put = {}         # (owner root, field) -> set of roots stored, with witness
        self.calls = {}

    def key(self):
        return (len(self.mod), len(self.ret), len(self.reads), len(self.ext), sum(len(v[0]) for v in self.put.values()))


class Java(object):
    def __init__(self, classes):
        self.classes = classes
        self.methods = {}
        for c in classes.values():
            for k, m in c.methods.items():
                if m.code is not None:
                    self.methods[(c.name,) + k] = m
        self.sum = {k: JSummary() for k in self.methods}
        self.fields = {}      # "Class.field" static -> roots stored by initialisers
        for n in range(30):
            before = [s.key() for s in self.sum.values()] + [sum(len(v) for v in self.fields.values())]
            self.fn = {}
            for k, m in self.methods.items():
                self.fn[k] = Jfn(self, m, self.sum[k])
                self.fn[k].run()
            if before == [s.key() for s in self.sum.values()] + [sum(len(v) for v in self.fields.values())]:
                break

    def name(self, k):
        return "%s.%s" % (k[0].split("/")[-1], k[1])

    def resolve(self, ref):
        c = ref[0]
        while c in self.classes:
            k = (c,) + tuple(ref[1:])
            if k in self.methods:
                return k
            c = self.classes[c].super
        return None


E = frozenset()


class Jfn(object):
    def __init__(self, J, m, S):
        self.J, self.m, self.S = J, m, S
        self.content = {}
        self.site = {}        # pc -> roots (created here or not) an instruction may modify

    def run(self):
        m = self.m
        bs = classfile.blocks(m)
        loc = []
        k = 0
        if not m.static:
            loc.append(frozenset([("arg", 0)]))
            k = 1
        for d in m.args:
            loc.append(frozenset([("arg", k)]) if d[0] in "[L" else E)
            if d in "JD":
                loc.append(E)
            k += 1
        loc += [E] * (m.maxlocals - len(loc))
        for rnd in range(12):
            size = sum(len(v) for v in self.content.values())
            inn = {bs[0].pc: (tuple(loc), ())}
            for st, en, h, t in m.exc:
                inn.setdefault(h, (tuple([E] * m.maxlocals), (frozenset([("new", "exc")]),)))
            work = sorted(inn)
            while work:
                pc = work.pop(0)
                b = m.bypc[pc]
                l, s = inn[pc]
                l, s = list(l), list(s)
                for p, n, ins in b.insts:
                    self.step(ins, l, s)
                    for st, en, h, t in m.exc:
                        if st <= p < en:
                            o = inn[h]
                            nl = tuple(x | y for x, y in zip(o[0], l))
                            if nl != o[0]:
                                inn[h] = (nl, o[1])
                                work.append(h)
                for x in b.succ:
                    if x is None:
                        continue
                    o = inn.get(x.pc)
                    new = (tuple(l), tuple(s))
                    if o is not None:
                        new = (tuple(a | c for a, c in zip(o[0], l)), tuple(a | c for a, c in zip(o[1], s)))
                    if o != new:
                        inn[x.pc] = new
                        if x.pc not in work:
                            work.append(x.pc)
            if sum(len(v) for v in self.content.values()) == size:
                break

    def mod(self, roots, ins):
        w = ("%s.%s" % (self.m.cls.name.split("/")[-1], self.m.name), ins.where())
        self.site.setdefault(ins.pc, set()).update(roots)
        for r in roots:
            if r[0] in ("new", "const"):
                continue
            self.S.mod.setdefault(r, w)

    def stored(self, owner, field, vals, ins):
        w = ("%s.%s" % (self.m.cls.name.split("/")[-1], self.m.name), ins.where())
        for o in owner:
            self.content.setdefault((o, field), set()).update(vals)
            if o[0] != "new":
                e = self.S.put.setdefault((o, field), (set(), w))
                e[0].update(vals)

    def fetch(self, owner, field):
        out = set()
        for o in owner:
            c = self.content.get((o, field))
            if c:
                out |= c
            if o[0] in ("new", "const"):
                continue
            if o[0] == "unknown":
                out.add(UNKNOWN)
            elif o[0] == "field" and len(repr(o)) > 200:
                out.add(UNKNOWN)
            else:
                out.add(("field", o, field))
        return frozenset(out)

    def step(self, ins, l, s):
        op, arg = ins.op, ins.arg
        pop = s.pop
        push = s.append

        def push2():
            s.append(E)
            s.append(E)
        t = op[0]
        if op in ("const",):
            if arg[0] in ("int", "other", "float"):
                push(E)
            elif arg[0] == "long":
                push2()
            else:
                push(frozenset([("const",)]))
        elif op == "aconst_null":
            push(frozenset([("const",)]))
        elif op in ("fconst_0", "fconst_1", "fconst_2"):
            push(E)
        elif op in ("dconst_0", "dconst_1"):
            push2()
        elif op in ("iload", "fload"):
            push(E)
        elif op in ("lload", "dload"):
            push2()
        elif op == "aload":
            push(l[arg])
        elif op in ("istore", "fstore"):
            pop()
            l[arg] = E
        elif op in ("lstore", "dstore"):
            pop()
            pop()
            l[arg] = l[arg + 1] = E
        elif op == "astore":
            l[arg] = pop()
        elif op in ("iaload", "baload", "caload", "saload", "faload"):
            pop()
            self.read(pop(), ins)
            push(E)
        elif op in ("laload", "daload"):
            pop()
            self.read(pop(), ins)
            push2()
        elif op == "aaload":
            pop()
            a = pop()
            self.read(a, ins)
            push(self.fetch(a, ARRAYLIKE))
        elif op in ("iastore", "bastore", "castore", "sastore", "fastore"):
            pop()
            pop()
            self.mod(pop(), ins)
        elif op in ("lastore", "dastore"):
            pop()
            pop()
            pop()
            self.mod(pop(), ins)
        elif op == "aastore":
            v = pop()
            pop()
            a = pop()
            self.mod(a, ins)
            self.stored(a, ARRAYLIKE, v, ins)
        elif op == "pop":
            pop()
        elif op == "pop2":
            pop()
            pop()
        elif op == "dup":
            push(s[-1])
        elif op == "dup_x1":
            s.insert(-2, s[-1])
        elif op == "dup_x2":
            s.insert(-3, s[-1])
        elif op == "dup2":
            s.extend(s[-2:])
        elif op == "dup2_x1":
            s[-3:-3] = s[-2:]
        elif op == "dup2_x2":
            s[-4:-4] = s[-2:]
        elif op == "swap":
            s[-1], s[-2] = s[-2], s[-1]
        elif op in ("iadd", "isub", "imul", "idiv", "irem", "iand", "ior", "ixor", "ishl", "ishr", "iushr", "fadd", "fsub", "fmul", "fdiv", "frem", "fcmpl", "fcmpg"):
            pop()
            pop()
            push(E)
        elif op in ("ladd", "lsub", "lmul", "ldiv", "lrem", "land", "lor", "lxor", "dadd", "dsub", "dmul", "ddiv", "drem"):
            del s[-4:]
            push2()
        elif op in ("lshl", "lshr", "lushr"):
            del s[-3:]
            push2()
        elif op in ("lcmp", "dcmpl", "dcmpg"):
            del s[-4:]
            push(E)
        elif op in ("ineg", "lneg", "fneg", "dneg", "iinc", "nop", "i2b", "i2c", "i2s", "i2f", "f2i", "l2d", "d2l", "goto"):
            pass
        elif op in ("i2l", "i2d", "f2l", "f2d"):
            pop()
            push2()
        elif op in ("l2i", "d2i", "l2f", "d2f"):
            pop()
            pop()
            push(E)
        elif op in ("ifeq", "ifne", "iflt", "ifge", "ifgt", "ifle", "ifnull", "ifnonnull", "switch"):
            pop()
        elif op.startswith("if_"):
            pop()
            pop()
        elif op in ("ireturn", "freturn"):
            pop()
        elif op in ("lreturn", "dreturn"):
            del s[-2:]
        elif op == "areturn":
            self.S.ret |= self.deep(pop())
        elif op in ("return", "monitorenter", "monitorexit"):
            if op == "monitorenter":
                pop()
                self.S.ext.setdefault("<synchronized>", (self.m.where(), ins.where()))
            elif op == "monitorexit":
                pop()
        elif op == "athrow":
            pop()
        elif op == "getstatic":
            d = arg[2]
            if d[0] in "[L":
                push(frozenset([("s", arg[0].split("/")[-1] + "." + arg[1])]))
            elif d in "JD":
                push2()
            else:
                push(E)
            self.sread(arg, ins)
        elif op == "putstatic":
            d = arg[2]
            v = pop()
            if d in "JD":
                pop()
            nm = ("s", arg[0].split("/")[-1] + "." + arg[1])
            self.J.fields.setdefault(nm[1], set()).update(v)
            self.S.mod.setdefault(nm, (self.m.where(), ins.where()))
            self.stored({nm}, "=", v, ins)
        elif op == "getfield":
            o = pop()
            d = arg[2]
            if d[0] in "[L":
                push(self.fetch(o, arg[1]))
            elif d in "JD":
                push2()
            else:
                push(E)
        elif op == "putfield":
            d = arg[2]
            v = pop()
            if d in "JD":
                pop()
            o = pop()
            self.mod(o, ins)
            self.stored(o, arg[1], v, ins)
        elif op in ("invokevirtual", "invokespecial", "invokestatic", "invokeinterface"):
            self.call(ins, l, s)
        elif op == "invokedynamic":
            a, r = classfile.parse_desc(arg[1])
            for d in reversed(a):
                pop()
                if d in "JD":
                    pop()
            if arg[0] != "makeConcatWithConstants" and arg[0] != "makeConcat":
                self.S.ext.setdefault("<lambda %s>" % arg[0], (self.m.where(), ins.where()))
                push(frozenset([UNKNOWN]))
            else:
                push(frozenset([("const",)]))
        elif op == "new":
            push(frozenset([("new", "%s@%d" % (arg, ins.pc))]))
        elif op in ("newarray", "anewarray"):
            pop()
            push(frozenset([("new", "array@%d" % ins.pc)]))
        elif op == "multianewarray":
            for _ in range(arg[1]):
                pop()
            r = frozenset([("new", "array@%d" % ins.pc)])
            self.content.setdefault((next(iter(r)), ARRAYLIKE), set()).update(r)
            push(r)
        elif op == "arraylength":
            pop()
            push(E)
        elif op == "checkcast":
            pass
        elif op == "instanceof":
            pop()
            push(E)
        else:
            self.S.ext.setdefault("<bytecode %s>" % op, (self.m.where(), ins.where()))

    def deep(self, roots):
        """the roots and everything reachable from fresh objects among them"""
        out = set()
        st = list(roots)
        while st:
            r = st.pop()
            if r in out:
                continue
            out.add(r)
            if r[0] == "new":
                for (o, f), v in self.content.items():
                    if o == r:
                        st.extend(v)
        return out

    def read(self, roots, ins):
        for r in roots:
            if r[0] == "s":
                self.S.reads.setdefault(r[1], (self.m.where(), ins.where()))

    def sread(self, arg, ins):
        if arg[0] in self.J.classes:
            self.S.reads.setdefault(arg[0].split("/")[-1] + "." + arg[1], (self.m.where(), ins.where()))

    def call(self, ins, l, s):
        cls, name, desc = ins.arg
        a, r = classfile.parse_desc(desc)
        A = []
        for d in reversed(a):
            v = s.pop()
            if d in "JD":
                s.pop()
            A.append(v)
        A.reverse()
        if ins.op != "invokestatic":
            A.insert(0, s.pop())
        ret = self.apply(cls, name, desc, A, ins, a)
        if r == "V":
            pass
        elif r in "JD":
            s.append(E)
            s.append(E)
        elif r[0] in "[L":
            s.append(ret)
        else:
            s.append(E)

    def apply(self, cls, name, desc, A, ins, a):
        w = (self.m.where(), ins.where())
        k = self.J.resolve(ins.arg)
        if k is not None:
            T = self.J.sum[k]
            self.S.calls.setdefault(k, w)

            def sub(x):
                if x[0] == "arg":
                    return set(A[x[1]]) if x[1] < len(A) else {UNKNOWN}
                if x[0] == "field":
                    return set(self.fetch(sub(x[1]), x[2]))
                if x[0] == "new":
                    return {("new", "call@%d" % ins.pc)}
                return {x}
            for x, wx in T.mod.items():
                if x[0] == "s" and k[1] == "<clinit>":
                    continue
                for y in sub(x):
                    self.site.setdefault(ins.pc, set()).add(y)
                    if y[0] not in ("new", "const"):
                        self.S.mod.setdefault(y, wx if x[0] == "s" else w)
            for (o, f), (vals, wx) in list(T.put.items()):
                vv = set()
                for v in vals:
                    vv |= sub(v)
                self.stored(sub(o), f, vv, ins)
            for x, wx in T.ext.items():
                self.S.ext.setdefault(x, wx)
            out = set()
            for x in T.ret:
                out |= sub(x)
            if any(x[0] == "new" for x in T.ret):
                # what a fresh result contains is already among T.ret
                for x in list(out):
                    if x[0] != "new":
                        self.content.setdefault((("new", "call@%d" % ins.pc), "?"), set()).add(x)
            return frozenset(out)
        full = cls + "." + name
        if cls.startswith("["):
            if name == "clone":
                out = ("new", "clone@%d" % ins.pc)
                for o in A[0]:
                    c = self.fetch({o}, ARRAYLIKE) if not cls[1:] in ("B", "I", "J", "S", "C", "Z", "F", "D") else ()
                    self.content.setdefault((out, ARRAYLIKE), set()).update(c)
                return frozenset([out])
            return frozenset([("const",)])
        if any(full == x or full.startswith(x + ".") or (x.endswith("/") and full.startswith(x)) or full.startswith(x + "$") for x in J_IMPURE):
            self.S.ext.setdefault(full, w)
            return frozenset([UNKNOWN])
        if full == "java/lang/System.arraycopy":
            self.mod(A[2], ins)
            return E
        if full == "java/util/Arrays.fill" or full in ("java/util/Arrays.sort", "java/util/Arrays.setAll"):
            self.mod(A[0], ins)
            return E
        if cls == "java/util/Arrays":
            if name in ("copyOf", "copyOfRange", "equals", "hashCode", "toString", "stream", "compare", "compareUnsigned", "mismatch"):
                return frozenset([("new", "copy@%d" % ins.pc)])
            return self.unknown(full, A, ins)
        if full == "java/util/Objects.requireNonNull" or full == "java/util/Objects.requireNonNullElse":
            return A[0]
        if cls in J_MUTABLE_LOCAL:
            if name != "<init>":
                if name not in ("toString", "toByteArray", "length", "size", "charAt", "indexOf", "substring", "lastIndexOf"):
                    self.mod(A[0], ins)
                if name in ("append", "reverse", "insert", "deleteCharAt", "delete", "replace"):
                    return A[0]
            return frozenset([("new", "jdk@%d" % ins.pc)])
        if cls in J_PURE_CLASSES or (name == "<init>" and (cls.endswith("Exception") or cls.endswith("Error"))) or cls.endswith("Exception") or cls.endswith("Error"):
            if full == "java/lang/String.getChars":
                self.mod(A[3], ins)
            if full == "java/lang/String.getBytes" and len(A) > 3:
                self.mod(A[3], ins)
            return frozenset([("new", "jdk@%d" % ins.pc)])
        return self.unknown(full, A, ins)

    def unknown(self, full, A, ins):
        self.S.ext.setdefault(full, (self.m.where(), ins.where()))
        for x in A:
            self.mod({r for r in x if r[0] not in ("const",)} or {("new", "x")}, ins)
        return frozenset([UNKNOWN] + [("field", r, "?") for x in A for r in x if r[0] in ("arg", "s")])
