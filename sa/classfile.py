"""Reader for JVM class files: constant pool, methods, bytecode with basic blocks."""
import os
import struct

OPS = {}
for _i, _n in enumerate("nop aconst_null iconst_m1 iconst_0 iconst_1 iconst_2 iconst_3 iconst_4 iconst_5 lconst_0 lconst_1 fconst_0 fconst_1 fconst_2 dconst_0 dconst_1 bipush sipush ldc ldc_w ldc2_w iload lload fload dload aload iload_0 iload_1 iload_2 iload_3 lload_0 lload_1 lload_2 lload_3 fload_0 fload_1 fload_2 fload_3 dload_0 dload_1 dload_2 dload_3 aload_0 aload_1 aload_2 aload_3 iaload laload faload daload aaload baload caload saload istore lstore fstore dstore astore istore_0 istore_1 istore_2 istore_3 lstore_0 lstore_1 lstore_2 lstore_3 fstore_0 fstore_1 fstore_2 fstore_3 dstore_0 dstore_1 dstore_2 dstore_3 astore_0 astore_1 astore_2 astore_3 iastore lastore fastore dastore aastore bastore castore sastore pop pop2 dup dup_x1 dup_x2 dup2 dup2_x1 dup2_x2 swap iadd ladd fadd dadd isub lsub fsub dsub imul lmul fmul dmul idiv ldiv fdiv ddiv irem lrem frem drem ineg lneg fneg dneg ishl lshl ishr lshr iushr lushr iand land ior lor ixor lxor iinc i2l i2f i2d l2i l2f l2d f2i f2l f2d d2i d2l d2f i2b i2c i2s lcmp fcmpl fcmpg dcmpl dcmpg ifeq ifne iflt ifge ifgt ifle if_icmpeq if_icmpne if_icmplt if_icmpge if_icmpgt if_icmple if_acmpeq if_acmpne goto jsr ret tableswitch lookupswitch ireturn lreturn freturn dreturn areturn return getstatic putstatic getfield putfield invokevirtual invokespecial invokestatic invokeinterface invokedynamic new newarray anewarray arraylength athrow checkcast instanceof monitorenter monitorexit wide multianewarray ifnull ifnonnull goto_w".split()):
    OPS[_i] = _n


class JInst(object):
    __slots__ = ("op", "arg", "pc", "line", "method")

    def where(self):
        return "%s:%s" % (self.method.cls.source, self.line)

    def __repr__(self):
        return "%s %s" % (self.op, self.arg)


class JBlock(object):
    __slots__ = ("insts", "succ", "pc", "idx")


class JMethod(object):
    def __init__(self):
        self._blocks = None

    def where(self):
        return "%s.%s" % (self.cls.name.split("/")[-1], self.name)


class JClass(object):
    pass


def parse_desc(d):
    """argument kinds and return descriptor"""
    args = []
    i = 1
    while d[i] != ")":
        j = i
        while d[j] == "[":
            j += 1
        if d[j] == "L":
            j = d.index(";", j)
        args.append(d[i:j + 1])
        i = j + 1
    return args, d[i + 1:]


def read(path):
    with open(path, "rb") as f:
        b = f.read()
    p = [0]

    def u(n):
        v = int.from_bytes(b[p[0]:p[0] + n], "big")
        p[0] += n
        return v
    assert u(4) == 0xCAFEBABE
    u(2), u(2)
    n = u(2)
    cp = [None] * n
    i = 1
    while i < n:
        t = u(1)
        if t == 1:
            l = u(2)
            cp[i] = (1, b[p[0]:p[0] + l].decode("utf-8", "surrogatepass"))
            p[0] += l
        elif t in (3,):
            cp[i] = (3, struct.unpack(">i", b[p[0]:p[0] + 4])[0])
            p[0] += 4
        elif t == 4:
            cp[i] = (4, u(4))
        elif t == 5:
            cp[i] = (5, struct.unpack(">q", b[p[0]:p[0] + 8])[0])
            p[0] += 8
            i += 1
        elif t == 6:
            cp[i] = (6, u(8))
            i += 1
        elif t in (7, 8, 16, 19, 20):
            cp[i] = (t, u(2))
        elif t in (9, 10, 11, 12, 17, 18):
            cp[i] = (t, u(2), u(2))
        elif t == 15:
            cp[i] = (15, u(1), u(2))
        else:
            raise ValueError("constant tag %d" % t)
        i += 1

    def utf(k):
        return cp[k][1]

    def cls(k):
        return utf(cp[k][1])

    def nt(k):
        return utf(cp[k][1]), utf(cp[k][2])

    def ref(k):
        return (cls(cp[k][1]),) + nt(cp[k][2])
    c = JClass()
    c.access = u(2)
    c.name = cls(u(2))
    s = u(2)
    c.super = cls(s) if s else None
    c.interfaces = [cls(u(2)) for _ in range(u(2))]
    c.source = os.path.basename(path).replace(".class", ".java")

    def attrs():
        r = {}
        for _ in range(u(2)):
            nm = utf(u(2))
            l = u(4)
            r[nm] = (p[0], l)
            p[0] += l
        return r
    c.fields = {}
    for _ in range(u(2)):
        acc = u(2)
        nm = utf(u(2))
        d = utf(u(2))
        a = attrs()
        cv = None
        if "ConstantValue" in a:
            k = int.from_bytes(b[a["ConstantValue"][0]:a["ConstantValue"][0] + 2], "big")
            cv = cp[k]
            if cv[0] == 8:
                cv = (8, utf(cv[1]))
        c.fields[nm] = (acc, d, cv)
    c.methods = {}
    for _ in range(u(2)):
        m = JMethod()
        m.access = u(2)
        m.name = utf(u(2))
        m.desc = utf(u(2))
        m.cls = c
        m.args, m.ret = parse_desc(m.desc)
        m.static = bool(m.access & 8)
        a = attrs()
        m.code = None
        m.exc = []
        m.lines = []
        if "Code" in a:
            save = p[0]
            p[0] = a["Code"][0]
            m.maxstack, m.maxlocals = u(2), u(2)
            l = u(4)
            m.code = b[p[0]:p[0] + l]
            p[0] += l
            for _ in range(u(2)):
                st, en, h, ct = u(2), u(2), u(2), u(2)
                m.exc.append((st, en, h, cls(ct) if ct else None))
            ca = attrs()
            if "LineNumberTable" in ca:
                p[0] = ca["LineNumberTable"][0]
                for _ in range(u(2)):
                    m.lines.append((u(2), u(2)))
                m.lines.sort()
            p[0] = save
        m.cp = (cp, utf, cls, nt, ref)
        c.methods[(m.name, m.desc)] = m
    a = attrs()
    if "SourceFile" in a:
        c.source = utf(int.from_bytes(b[a["SourceFile"][0]:a["SourceFile"][0] + 2], "big"))
    return c


COND = {"ifeq", "ifne", "iflt", "ifge", "ifgt", "ifle", "if_icmpeq", "if_icmpne", "if_icmplt", "if_icmpge", "if_icmpgt",
        "if_icmple", "if_acmpeq", "if_acmpne", "ifnull", "ifnonnull"}


def decode(m):
    cp, utf, cls, nt, ref = m.cp
    c = m.code
    out = []
    i = 0

    def s1(k):
        return c[k] - 256 if c[k] > 127 else c[k]

    def s2(k):
        return struct.unpack(">h", c[k:k + 2])[0]

    def u2(k):
        return c[k] << 8 | c[k + 1]

    def const(k):
        t = cp[k]
        if t[0] in (3, 5):
            return ("int" if t[0] == 3 else "long", t[1])
        if t[0] == 8:
            return ("string", utf(t[1]))
        if t[0] == 7:
            return ("class", utf(t[1]))
        return ("other", t)
    while i < len(c):
        ins = JInst()
        ins.pc = i
        ins.method = m
        ins.line = 0
        for pc, ln in m.lines:
            if pc <= i:
                ins.line = ln
        op = OPS[c[i]]
        arg = None
        n = 1
        base = op.rsplit("_", 1)
        if len(base) == 2 and base[1] in "0123" and base[0][1:] in ("load", "store"):
            op, arg = base[0], int(base[1])
        elif op.startswith("iconst_"):
            op, arg = "const", ("int", -1 if op.endswith("m1") else int(op[-1]))
        elif op.startswith("lconst_"):
            op, arg = "const", ("long", int(op[-1]))
        elif op == "bipush":
            op, arg, n = "const", ("int", s1(i + 1)), 2
        elif op == "sipush":
            op, arg, n = "const", ("int", s2(i + 1)), 3
        elif op == "ldc":
            op, arg, n = "const", const(c[i + 1]), 2
        elif op in ("ldc_w", "ldc2_w"):
            op, arg, n = "const", const(u2(i + 1)), 3
        elif op in ("iload", "lload", "fload", "dload", "aload", "istore", "lstore", "fstore", "dstore", "astore"):
            arg, n = c[i + 1], 2
        elif op == "iinc":
            arg, n = (c[i + 1], s1(i + 2)), 3
        elif op in COND or op == "goto":
            arg, n = i + s2(i + 1), 3
        elif op == "goto_w":
            op, arg, n = "goto", i + struct.unpack(">i", c[i + 1:i + 5])[0], 5
        elif op in ("getstatic", "putstatic", "getfield", "putfield", "invokevirtual", "invokespecial", "invokestatic"):
            arg, n = ref(u2(i + 1)), 3
        elif op == "invokeinterface":
            arg, n = ref(u2(i + 1)), 5
        elif op == "invokedynamic":
            arg, n = nt(cp[u2(i + 1)][2]), 5
        elif op in ("new", "anewarray", "checkcast", "instanceof"):
            arg, n = cls(u2(i + 1)), 3
        elif op == "newarray":
            arg, n = c[i + 1], 2
        elif op == "multianewarray":
            arg, n = (cls(u2(i + 1)), c[i + 3]), 4
        elif op == "wide":
            op = OPS[c[i + 1]]
            if op == "iinc":
                arg, n = (u2(i + 2), s2(i + 4)), 6
            else:
                arg, n = u2(i + 2), 4
        elif op in ("tableswitch", "lookupswitch"):
            k = (i + 4) & ~3
            d = i + struct.unpack(">i", c[k:k + 4])[0]
            cases = []
            if op == "tableswitch":
                lo, hi = struct.unpack(">ii", c[k + 4:k + 12])
                for j in range(hi - lo + 1):
                    cases.append((lo + j, i + struct.unpack(">i", c[k + 12 + 4 * j:k + 16 + 4 * j])[0]))
                n = k + 12 + 4 * (hi - lo + 1) - i
            else:
                cnt = struct.unpack(">i", c[k + 4:k + 8])[0]
                for j in range(cnt):
                    v, o = struct.unpack(">ii", c[k + 8 + 8 * j:k + 16 + 8 * j])
                    cases.append((v, i + o))
                n = k + 8 + 8 * cnt - i
            op, arg = "switch", (d, cases)
        ins.op = op
        ins.arg = arg
        out.append((i, n, ins))
        i += n
    return out


def blocks(m):
    if m._blocks is not None:
        return m._blocks
    code = decode(m)
    leaders = {0}
    for pc, n, ins in code:
        if ins.op in COND:
            leaders |= {ins.arg, pc + n}
        elif ins.op == "goto":
            leaders |= {ins.arg, pc + n}
        elif ins.op == "switch":
            leaders |= {ins.arg[0], pc + n} | {t for _, t in ins.arg[1]}
        elif ins.op.endswith("return") or ins.op == "athrow":
            leaders.add(pc + n)
    for st, en, h, t in m.exc:
        leaders.add(h)
    bs = {}
    cur = None
    for pc, n, ins in code:
        if pc in leaders:
            cur = JBlock()
            cur.insts = []
            cur.succ = []
            cur.pc = pc
            cur.idx = len(bs)
            bs[pc] = cur
        cur.insts.append((pc, n, ins))
    order = [bs[k] for k in sorted(bs)]
    for k, b in enumerate(order):
        pc, n, ins = b.insts[-1]
        nxt = bs.get(pc + n)
        if ins.op in COND:
            b.succ = [bs[ins.arg], nxt]
        elif ins.op == "goto":
            b.succ = [bs[ins.arg]]
        elif ins.op == "switch":
            b.succ = [bs[t] for _, t in ins.arg[1]] + [bs[ins.arg[0]]]
        elif ins.op.endswith("return") or ins.op == "athrow":
            b.succ = []
        else:
            b.succ = [nxt]
    m._blocks = order
    m.bypc = bs
    return order


def load_all(root):
    r = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".class"):
                c = read(os.path.join(d, f))
                r[c.name] = c
    return r
