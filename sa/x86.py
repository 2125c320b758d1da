"""Abstract interpretation of the disassembled x86-64 routines in the value-graph domain.

Registers hold terms or pointers, flags hold terms (None: undefined).  Registers and upper halves that the calling
convention leaves undefined start as fresh symbols, so that a result depending on them is visible in its graph."""
import re
import subprocess
from .terms import *
from .cinterp import Undecided, Dead, Ptr, Obj, sel, Z64
from . import build, cinterp

R64 = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"]
SAVED = ["rbx", "rbp", "r12", "r13", "r14", "r15", "rsp"]
ARGS = ["rdi", "rsi", "rdx", "rcx", "r8", "r9"]
REG = {}
for _r in R64:
    REG[_r] = (_r, 0, 64)
for _r in ["ax", "cx", "dx", "bx", "sp", "bp", "si", "di"]:
    REG["e" + _r] = ("r" + _r, 0, 32)
    REG[_r] = ("r" + _r, 0, 16)
for _r in "acdb":
    REG[_r + "l"] = ("r" + _r + "x", 0, 8)
    REG[_r + "h"] = ("r" + _r + "x", 8, 8)
for _r in ["sp", "bp", "si", "di"]:
    REG[_r + "l"] = ("r" + _r, 0, 8)
for _i in range(8, 16):
    REG["r%dd" % _i] = ("r%d" % _i, 0, 32)
    REG["r%dw" % _i] = ("r%d" % _i, 0, 16)
    REG["r%db" % _i] = ("r%d" % _i, 0, 8)

CC = {"o": "O", "b": "C", "c": "C", "nae": "C", "z": "Z", "e": "Z", "s": "S", "be": "CZ", "na": "CZ"}


class AInst(object):
    __slots__ = ("addr", "op", "ops", "fn", "text")

    def where(self):
        return "cpp/AsmX8664.s: %s, %s" % (self.fn, self.text)


def load_listing():
    """function name -> list of instructions, and address -> index"""
    o = build.asm_listing()
    out = build.run([build._tool("objdump"), "-d", "-M", "att,suffix", "--no-show-raw-insn", "-r", o])
    raw = {}
    cur = None
    order = []
    for l in out.split("\n"):
        m = re.match(r"^[0-9a-f]+ <(.+)>:$", l)
        if m:
            cur = m.group(1)
            continue
        m = re.match(r"^\s*([0-9a-f]+):\s+(.*)$", l)
        if m and cur:
            txt = m.group(2).strip()
            if txt.startswith("R_X86"):
                continue
            order.append((int(m.group(1), 16), cur, txt))
    nm = build.run([build._tool("nm"), "-g", o])
    glob = {}
    for l in nm.split("\n"):
        f = l.split()
        if len(f) == 3 and f[1] == "T":
            glob[f[2]] = int(f[0], 16)
    insts = []
    index = {}
    starts = sorted((a, n) for n, a in glob.items())
    for a, c, txt in order:
        fn = c
        for s, n in starts:
            if s <= a:
                fn = n
        i = AInst()
        i.addr = a
        i.fn = fn
        i.text = re.sub(r"\s+", " ", txt)
        txt = re.sub(r"\s*<.*>$", "", txt)
        txt = re.sub(r"\s*#.*$", "", txt)
        p = txt.split(None, 1)
        while p and p[0] in ("lock", "notrack", "cs", "ds", "data16", "rex.W"):
            p = p[1].split(None, 1) if len(p) > 1 else []
        i.op = p[0] if p else "nop"
        i.ops = split_ops(p[1]) if len(p) > 1 else []
        index[a] = len(insts)
        insts.append(i)
    return Asm(insts, index, glob)


def split_ops(s):
    r, d, cur = [], 0, ""
    for ch in s:
        if ch == "," and d == 0:
            r.append(cur.strip())
            cur = ""
            continue
        if ch == "(":
            d += 1
        if ch == ")":
            d -= 1
        cur += ch
    if cur.strip():
        r.append(cur.strip())
    return r


class Asm(object):
    def __init__(self, insts, index, funcs):
        self.insts = insts
        self.index = index
        self.funcs = funcs


class Machine(object):
    """one routine's activation"""

    def __init__(self, asm, it, st, limit=20000):
        self.asm = asm
        self.it = it
        self.st = st
        self.r = {}
        self.x = {}
        self.f = {"C": None, "Z": None, "S": None, "O": None}
        self.events = []
        self.limit = limit
        self.cur = None
        self.df = 0
        self.mmx = False
        self.addrs = []

    def event(self, kind, detail):
        self.events.append((kind, self.cur.where() if self.cur else "?", detail))
        self.it.events.append((kind, self.cur, detail, self.st.pc))
        if cinterp.RECORD:
            cinterp.RECORD[0](kind, self.cur, detail, self.st.pc, cinterp.TRUE)

    # -- operands
    def mem(self, s):
        m = re.match(r"^(-?(?:0x)?[0-9a-f]*)\(([^)]*)\)$", s)
        if not m:
            raise Undecided("operand " + s)
        disp = int(m.group(1), 0) if m.group(1) else 0
        parts = [x.strip().lstrip("%") for x in m.group(2).split(",")]
        base = None
        off = C(disp & ones(64), 64)
        if parts[0]:
            if parts[0] in ("rip", "eip"):
                raise Undecided("rip-relative operand")
            base = self.r[REG[parts[0]][0]]
        if len(parts) > 1 and parts[1]:
            i = self.reg(parts[1])
            sc = int(parts[2]) if len(parts) > 2 and parts[2] else 1
            if isinstance(i, Ptr):
                if sc != 1 or isinstance(base, Ptr):
                    raise Undecided("address arithmetic")
                base, i = i, base
            if i is not None:
                off = add(off, mul([C(sc, 64), i], 64))
        if isinstance(base, Ptr):
            return Ptr(base.obj, add(base.off, off))
        if base is None:
            return off
        return add(base, off)

    def reg(self, n):
        n = n.lstrip("%")
        r, lo, w = REG[n]
        v = self.r[r]
        if w == 64:
            return v
        if isinstance(v, Ptr):
            raise Undecided("partial pointer register")
        return ext(v, lo, w)

    def setreg(self, n, v):
        n = n.lstrip("%")
        r, lo, w = REG[n]
        if w == 64:
            self.r[r] = v
        elif isinstance(v, Ptr):
            raise Undecided("pointer in a narrow register")
        elif w == 32:
            self.r[r] = zext(v, 64)
        else:
            o = self.r[r]
            if isinstance(o, Ptr):
                o = self.it.undef(64)
            parts = ([ext(o, 0, lo)] if lo else []) + [v] + ([ext(o, lo + w, 64 - lo - w)])
            self.r[r] = cat(parts)

    def addr(self, s):
        p = self.mem(s)
        if not isinstance(p, Ptr):
            self.event("wild", "memory access through a non-pointer")
            raise Dead()
        if p.off.op != "c":
            self.addrs.append((self.cur, p.off))
            if self.it.track:
                self.it.track("address", self.cur, p.off)
        return p

    def rd(self, s, w):
        if s.startswith("$"):
            return C(int(s[1:], 0) & ones(w), w)
        if s.startswith("%"):
            if s[1:4] == "xmm":
                return self.xmm(s)
            v = self.reg(s)
            if not isinstance(v, Ptr) and v.w != w:
                raise Undecided("operand size")
            return v
        p = self.addr(s)
        return self.it.load(self.st, p, w // 8, w == 64 and self.isptr(p))

    def isptr(self, p):
        if p.off.op != "c":
            return False
        e = self.st.rd(p.obj).get(cv(p.off))
        return e is not None and not isinstance(e[0], T)

    def wr(self, s, v):
        if s.startswith("%"):
            if s[1:4] == "xmm":
                self.x[s[1:]] = v
            else:
                self.setreg(s, v)
            return
        self.it.store(self.st, self.addr(s), v)

    def xmm(self, s):
        n = s.lstrip("%")
        if n not in self.x:
            self.x[n] = V("entry_" + n, 128)
        return self.x[n]

    def xop(self, s, aligned=True):
        """128-bit source operand; a memory operand of a legacy SSE instruction must be 16-byte aligned"""
        if s.startswith("%"):
            return self.xmm(s)
        p = self.addr(s)
        if aligned:
            self.align(p)
        return self.it.load(self.st, p, 16)

    def align(self, p):
        al = getattr(p.obj, "kind", "") == "aligned16"
        if not (al and kz(p.off) & 15 == 15):
            self.event("align", "16-byte aligned memory operand, but the operand is only known to be 4-byte aligned")

    # -- flags
    def flag(self, k):
        v = self.f[k]
        if v is None:
            self.event("undefflag", "reads an undefined flag")
            v = self.it.undef(1)
        return v

    def cond(self, cc):
        if cc in CC:
            c = CC[cc]
            if c == "CZ":
                return bor(self.flag("C"), self.flag("Z"))
            return self.flag(c)
        if cc in ("l", "nge"):
            return bxor(self.flag("S"), self.flag("O"))
        if cc in ("le", "ng"):
            return bor(self.flag("Z"), bxor(self.flag("S"), self.flag("O")))
        n = {"ae": "b", "nb": "b", "nc": "c", "nz": "z", "ne": "e", "a": "be", "nbe": "be", "ns": "s", "no": "o", "ge": "l", "nl": "l",
             "g": "le", "nle": "le"}.get(cc)
        if n is None:
            raise Undecided("condition " + cc)
        return bnot(self.cond(n))

    def zs(self, v):
        self.f["Z"] = eq(v, C(0, v.w))
        self.f["S"] = ext(v, v.w - 1, 1)

    def run(self, name, args, hi_undefined=True):
        """args: list of (term or Ptr); 32-bit terms get an undefined upper half"""
        for r in R64:
            self.r[r] = V("entry_" + r, 64)
        stack = self.it.new(self.st, "stack of " + name, 4096)
        self.it.put(self.st, stack, 2048, V("return_address", 64))
        self.r["rsp"] = Ptr(stack, C(2048, 64))
        for r, a in zip(ARGS, args):
            if isinstance(a, T) and a.w < 64:
                self.r[r] = cat([a, V("upper_half_%s_%s" % (name, r), 64 - a.w)]) if hi_undefined else zext(a, 64)
            else:
                self.r[r] = a
        self.entry = dict(self.r)
        if name not in self.asm.funcs:
            raise Undecided("no assembly routine " + name)
        i = self.asm.index[self.asm.funcs[name]]
        n = 0
        insts = self.asm.insts
        while True:
            n += 1
            if n > self.limit:
                raise Undecided("assembly loop bound")
            if i >= len(insts):
                raise Undecided("execution falls off the code")
            ins = insts[i]
            self.cur = ins
            try:
                nx = self.step(ins)
            except (KeyError, IndexError, ValueError, AssertionError, TypeError, AttributeError):
                raise Undecided("instruction " + ins.text)
            if nx == "ret":
                break
            i = i + 1 if nx is None else nx
        return self.r["rax"]

    def abi(self):
        """violations of the calling convention at return"""
        out = []
        for r in SAVED:
            a, b = self.entry[r], self.r[r]
            same = (a is b) or (isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.off is b.off)
            if not same:
                out.append("%%%s is not preserved" % r)
        if self.df:
            out.append("direction flag left set")
        if self.mmx:
            out.append("the x87 register stack is left in MMX state (no emms)")
        return out

    def structural(self, name):
        """calling-convention rules decided from the instructions reachable in the routine, whatever they compute:
        a callee-saved register that is written must also be saved; MMX and the direction flag must be left"""
        out = []
        insts, ix = self.asm.insts, self.asm.index
        seen, todo = set(), [ix[self.asm.funcs[name]]] if name in self.asm.funcs else []
        while todo:
            i = todo.pop()
            if i in seen or i >= len(insts):
                continue
            seen.add(i)
            op = insts[i].op
            if op.startswith("ret"):
                continue
            if op[0] == "j" and insts[i].ops:
                try:
                    a = int(insts[i].ops[0], 16)
                except ValueError:
                    continue
                if a in ix:
                    todo.append(ix[a])
                if op.startswith("jmp"):
                    continue
            todo.append(i + 1)
        written, saved, mm, emms, std, cld = {}, set(), None, False, None, False
        for i in sorted(seen):
            op, O = insts[i].op, insts[i].ops
            mm = mm or (insts[i] if any(re.match(r"^%mm\d$", o) for o in O) else None)
            emms |= op in ("emms", "femms")
            std = std or (insts[i] if op == "std" else None)
            cld |= op == "cld"
            for o in O[:1] if len(O) > 1 or op.startswith("push") else []:
                r = REG.get(o.lstrip("%"), (None,))[0]
                if r in SAVED and (op.startswith("push") or (op.startswith("mov"))):
                    saved.add(r)
            if O and not re.match(r"^(cmp|test|push|bt[wlq]?$|ptest|vptest|u?comis)", op):
                dst = [O[-1]] + ([O[0]] if op.startswith("xchg") else []) + ([O[-2]] if op.startswith("mulx") else [])
                for o in dst:
                    r = REG.get(o.lstrip("%"), (None,))[0] if o.startswith("%") else None
                    if r in SAVED and r not in ("rsp",):
                        written.setdefault(r, insts[i])
        for r in sorted(written):
            if r not in saved:
                out.append("%s: %%%s is written and never saved" % (written[r].where(), r))
        if mm and not emms:
            out.append("%s: the x87 register stack is left in MMX state (no emms)" % mm.where())
        if std and not cld:
            out.append("%s: direction flag left set" % std.where())
        return out

    def mmxop(self, op, O):
        """64-bit integer moves and bitwise operations on the MMX registers (aliases of the x87 stack)"""
        self.mmx = True
        is_mm = [bool(re.match(r"^%mm\d$", o)) for o in O]

        def get(k, w=64):
            if is_mm[k]:
                return ext(self.x.setdefault(O[k][1:], V("entry_" + O[k][1:], 64)), 0, w)
            return self.rd(O[k], w)
        if op in ("movq", "movd"):
            w = 64 if op == "movq" else 32
            v = get(0, w)
            if not isinstance(v, T):
                raise Undecided("pointer in an MMX register")
            if is_mm[1]:
                self.x[O[1][1:]] = zext(v, 64)
            else:
                self.wr(O[1], v)
            return None
        if op in ("pand", "por", "pxor"):
            self.x[O[1][1:]] = bitop({"pand": "and", "por": "or", "pxor": "xor"}[op], [get(0), get(1)], 64)
            return None
        raise Undecided("instruction " + self.cur.text)

    def jump(self, t):
        a = int(t, 16)
        if a not in self.asm.index:
            raise Undecided("jump target")
        return self.asm.index[a]

    def step(self, ins):
        op, O = ins.op, ins.ops
        W = {"b": 8, "w": 16, "l": 32, "q": 64}
        if op in ("retq", "ret"):
            return "ret"
        if op in ("emms", "femms"):
            self.mmx = False
            return None
        if any(re.match(r"^%mm\d$", o) for o in O):
            return self.mmxop(op, O)
        if op in ("nop", "nopw", "nopl", "endbr64", "cs", "vzeroupper", "cld"):
            if op == "cld":
                self.df = 0
            return None
        if op == "std":
            self.df = 1
            return None
        if op in ("jmp", "jmpq"):
            return self.jump(O[0])
        if op[0] == "j":
            c = self.cond(op[1:])
            if c.op != "c":
                self.event("branch", "branch on a value that depends on the operands")
                if self.it.track:
                    self.it.track("branch", ins, c)
                raise Undecided("data-dependent branch in assembly")
            return self.jump(O[0]) if cv(c) else None
        if re.match(r"^i?div[bwlq]?$", op):
            if self.it.track:
                self.it.track("divide", ins, self.r["rax"])
            raise Undecided("division in assembly")
        if op in ("call", "callq"):
            raise Undecided("call in assembly")
        m = re.match(r"^set(\w+)$", op)
        if m:
            self.wr(O[0], zext(self.cond(m.group(1)), 8))
            return None
        m = re.match(r"^cmov(\w+?)([wlq])$", op)
        if m and (m.group(1) in CC or m.group(1) in ("l", "le", "ae", "nb", "nc", "nz", "ne", "a", "nbe", "ns", "no", "ge", "g")):
            w = W[m.group(2)]
            c = self.cond(m.group(1))
            if self.it.track and c.op != "c":
                self.it.track("select", ins, c)
            self.wr(O[1], sel(c, self.rd(O[0], w), self.rd(O[1], w)))
            return None
        if op in ("movd", "movq") and any("xmm" in o for o in O):
            w = 32 if op == "movd" else 64
            if O[1].startswith("%xmm"):
                self.x[O[1][1:]] = zext(self.rd(O[0], w) if "xmm" not in O[0] else ext(self.xmm(O[0]), 0, w), 128)
            else:
                self.wr(O[1], ext(self.xmm(O[0]), 0, w))
            return None
        m = re.match(r"^mov(z|s)([bwl])([wlq])$", op)
        if m:
            v = self.rd(O[0], W[m.group(2)])
            self.wr(O[1], (zext if m.group(1) == "z" else sext)(v, W[m.group(3)]))
            return None
        if op in ("movabsq",) or op in ("movb", "movw", "movl", "movq"):
            w = W[op[-1]]
            self.wr(O[1], self.rd(O[0], w))
            return None
        if op in ("movdqu", "movups", "movupd", "lddqu", "movdqa", "movaps", "movapd"):
            al = op in ("movdqa", "movaps", "movapd")
            if O[0].startswith("%xmm") and not O[1].startswith("%xmm"):
                p = self.addr(O[1])
                if al:
                    self.align(p)
                self.it.store(self.st, p, self.xmm(O[0]))
            else:
                self.x[O[1][1:]] = self.xop(O[0], al)
            return None
        if op == "pshufd":
            k = int(O[0][1:], 0)
            v = self.xop(O[1])
            self.x[O[2][1:]] = cat([ext(v, 32 * (k >> (2 * i) & 3), 32) for i in range(4)])
            return None
        if op in ("pand", "por", "pxor", "pandn", "andps", "orps", "xorps"):
            a, b = self.xop(O[0]), self.xmm(O[1])
            if op == "pxor" and O[0] == O[1]:
                self.x[O[1][1:]] = C(0, 128)
                return None
            if op == "pandn":
                b = bnot(b)
            k = "and" if "and" in op else "xor" if "xor" in op else "or"
            self.x[O[1][1:]] = bitop(k, [a, b], 128)
            return None
        if op == "pblendvb":
            if len(O) == 3:
                mask, O = self.xmm(O[0]), O[1:]
            else:
                mask = self.xmm("%xmm0")
            a, b = self.xop(O[0]), self.xmm(O[1])
            self.x[O[1][1:]] = cat([ite(ext(mask, 8 * i + 7, 1), ext(a, 8 * i, 8), ext(b, 8 * i, 8)) for i in range(16)])
            return None
        m = re.match(r"^pcmpeq([bwdq])$", op)
        if m:
            w = {"b": 8, "w": 16, "d": 32, "q": 64}[m.group(1)]
            a, b = self.xop(O[0]), self.xmm(O[1])
            self.x[O[1][1:]] = cat([sext(eq(ext(a, i, w), ext(b, i, w)), w) for i in range(0, 128, w)])
            return None
        m = re.match(r"^p(add|sub)([bwdq])$", op)
        if m:
            w = {"b": 8, "w": 16, "d": 32, "q": 64}[m.group(2)]
            a, b = self.xop(O[0]), self.xmm(O[1])
            if m.group(1) == "sub" and O[0] == O[1]:
                self.x[O[1][1:]] = C(0, 128)
                return None
            self.x[O[1][1:]] = cat([(add if m.group(1) == "add" else lambda x, y: sub(x, y))(ext(b, i, w), ext(a, i, w)) for i in range(0, 128, w)])
            return None
        m = re.match(r"^ps(ll|rl|ra)([wdq])$", op)
        if m and O[0].startswith("$"):
            w = {"w": 16, "d": 32, "q": 64}[m.group(2)]
            k = int(O[0][1:], 0)
            b = self.xmm(O[1])
            out = []
            for i in range(0, 128, w):
                v = ext(b, i, w)
                if m.group(1) == "ra":
                    kk = min(k, w - 1)
                    out.append(sext(ext(v, kk, w - kk), w))
                elif k >= w:
                    out.append(C(0, w))
                elif m.group(1) == "ll":
                    out.append(cat(([C(0, k)] if k else []) + [ext(v, 0, w - k)]))
                else:
                    out.append(zext(ext(v, k, w - k), w))
            self.x[O[1][1:]] = cat(out)
            return None
        if op in ("punpcklqdq", "punpckhqdq"):
            a, b = self.xop(O[0]), self.xmm(O[1])
            k = 0 if op == "punpcklqdq" else 64
            self.x[O[1][1:]] = cat([ext(b, k, 64), ext(a, k, 64)])
            return None
        if op == "ptest":
            a, b = self.xop(O[0]), self.xmm(O[1])
            self.f["Z"] = eq(bitop("and", [a, b], 128), C(0, 128))
            self.f["C"] = eq(bitop("and", [a, bnot(b)], 128), C(0, 128))
            self.f["S"] = self.f["O"] = C(0, 1)
            return None
        if op == "pmovmskb":
            v = self.xmm(O[0])
            self.wr(O[1], zext(cat([ext(v, 8 * i + 7, 1) for i in range(16)]), REG[O[1][1:]][2]))
            return None
        if op in ("leaq", "leal"):
            v = self.mem(O[0])
            if op == "leal":
                v = ext(v, 0, 32)
            self.wr(O[1], v)
            return None
        if op == "pushq":
            v = self.rd(O[0], 64)
            self.r["rsp"] = Ptr(self.r["rsp"].obj, sub(self.r["rsp"].off, C(8, 64)))
            self.it.store(self.st, self.r["rsp"], v)
            return None
        if op == "popq":
            p = self.r["rsp"]
            v = self.it.load(self.st, p, 8, self.isptr(p))
            self.r["rsp"] = Ptr(p.obj, add(p.off, C(8, 64)))
            self.wr(O[0], v)
            return None
        m = re.match(r"^(add|adc|sub|sbb|cmp|and|or|xor|test|neg|not|inc|dec|shl|sal|shr|sar|rcl|rcr|rol|ror|mul|imul|xchg|bt|mulx|adcx|adox)([bwlq])$", op)
        if not m:
            raise Undecided("instruction " + ins.text)
        k, w = m.group(1), W[m.group(2)]
        F = self.f
        if k in ("add", "adc", "adcx", "adox"):
            a, b = self.rd(O[1], w), self.rd(O[0], w)
            if k == "add" and (isinstance(a, Ptr) or isinstance(b, Ptr)):
                p, q = (a, b) if isinstance(a, Ptr) else (b, a)
                self.wr(O[1], Ptr(p.obj, add(p.off, q)))
                self.f = {x: None for x in F}
                return None
            fl = "O" if k == "adox" else "C"
            cin = self.flag(fl) if k != "add" else C(0, 1)
            full = addn([zext(a, w + 1), zext(b, w + 1), zext(cin, w + 1)], w + 1)
            v = ext(full, 0, w)
            F[fl] = ext(full, w, 1)
            if k in ("add", "adc"):
                F["O"] = band(bnot(bxor(ext(a, w - 1, 1), ext(b, w - 1, 1))), bxor(ext(a, w - 1, 1), ext(v, w - 1, 1)))
                self.zs(v)
            self.wr(O[1], v)
            return None
        if k in ("sub", "sbb", "cmp", "neg"):
            if k == "neg":
                d = O[0]
                a, b = C(0, w), self.rd(O[0], w)
            else:
                d = O[1]
                a, b = self.rd(O[1], w), self.rd(O[0], w)
            if isinstance(a, Ptr) and not isinstance(b, Ptr) and k == "sub":
                self.wr(d, Ptr(a.obj, sub(a.off, b)))
                self.f = {x: None for x in F}
                return None
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                a, b = a.off, b.off
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                raise Undecided("pointer comparison in assembly")
            if k == "sbb" and O[0] == O[1] and O[0].startswith("%"):
                v = sext(self.flag("C"), w)
                c = F["C"]
            else:
                cin = self.flag("C") if k == "sbb" else C(0, 1)
                full = sub(zext(a, w + 1), add(zext(b, w + 1), zext(cin, w + 1)))
                v = ext(full, 0, w)
                c = ult(a, b) if k != "sbb" else ext(full, w, 1)
            F["O"] = band(bxor(ext(a, w - 1, 1), ext(b, w - 1, 1)), bxor(ext(a, w - 1, 1), ext(v, w - 1, 1)))
            F["C"] = c
            self.zs(v)
            if k == "cmp":
                F["Z"] = eq(a, b)
            else:
                self.wr(d, v)
            return None
        if k in ("and", "or", "xor", "test"):
            if k == "xor" and O[0] == O[1]:
                a = b = v = C(0, w)
            else:
                a, b = self.rd(O[1], w), self.rd(O[0], w)
                if isinstance(a, Ptr) or isinstance(b, Ptr):
                    if k == "test" and O[0] == O[1]:
                        a = b = C(1, w)
                    else:
                        raise Undecided("pointer masking")
                v = bitop("and" if k == "test" else k, [a, b], w)
            F["C"] = F["O"] = C(0, 1)
            self.zs(v)
            if k != "test":
                self.wr(O[1], v)
            return None
        if k == "not":
            self.wr(O[0], bnot(self.rd(O[0], w)))
            return None
        if k in ("inc", "dec"):
            a = self.rd(O[0], w)
            one = C(1, w) if k == "inc" else C(ones(w), w)
            if isinstance(a, Ptr):
                raise Undecided("pointer increment")
            v = add(a, one)
            F["O"] = eq(v, C((1 << (w - 1)) - (k == "dec"), w))
            self.zs(v)
            self.wr(O[0], v)
            return None
        if k in ("shl", "sal", "shr", "sar", "rcl", "rcr", "rol", "ror"):
            if len(O) == 1:
                n, d = 1, O[0]
            else:
                d = O[1]
                if not O[0].startswith("$"):
                    s = self.rd(O[0], 8)
                    if s.op != "c":
                        if k not in ("shl", "sal", "shr", "sar"):
                            raise Undecided("variable rotate in assembly")
                        a = self.rd(d, w)
                        s = zext(ext(s, 0, 6 if w == 64 else 5), w)
                        self.f = {x: None for x in F}
                        self.wr(d, shl(a, s) if k in ("shl", "sal") else lshr(a, s) if k == "shr" else ashr(a, s))
                        return None
                    n = cv(s)
                else:
                    n = int(O[0][1:], 0)
            n &= 63 if w == 64 else 31
            a = self.rd(d, w)
            if isinstance(a, Ptr):
                raise Undecided("pointer shift")
            if n == 0:
                return None
            if n >= w:
                raise Undecided("shift count")
            if k in ("rcl", "rcr"):
                if n != 1:
                    raise Undecided("rotate through carry by more than 1")
                c = self.flag("C")
                if k == "rcl":
                    v = cat([c, ext(a, 0, w - 1)])
                    F["C"] = ext(a, w - 1, 1)
                else:
                    v = cat([ext(a, 1, w - 1), c])
                    F["C"] = ext(a, 0, 1)
                F["O"] = None
                self.wr(d, v)
                return None
            if k in ("rol", "ror"):
                v = rotl(a, n) if k == "rol" else rotr(a, n)
                F["C"] = ext(v, 0, 1) if k == "rol" else ext(v, w - 1, 1)
                F["O"] = None
                self.wr(d, v)
                return None
            s = C(n, w)
            if k in ("shl", "sal"):
                v = shl(a, s)
                F["C"] = ext(a, w - n, 1)
                F["O"] = bxor(ext(v, w - 1, 1), F["C"]) if n == 1 else None
            else:
                v = lshr(a, s) if k == "shr" else ashr(a, s)
                F["C"] = ext(a, n - 1, 1)
                F["O"] = (ext(a, w - 1, 1) if k == "shr" else C(0, 1)) if n == 1 else None
            self.zs(v)
            self.wr(d, v)
            return None
        if k == "mulx":
            a, b = self.r["rdx"], self.rd(O[0], w)
            if w != 64:
                raise Undecided("mulx width")
            full = mul([zext(a, 2 * w), zext(b, 2 * w)], 2 * w)
            self.wr(O[1], ext(full, 0, w))
            self.wr(O[2], ext(full, w, w))
            return None
        if k == "mul":
            A = {64: ("rax", "rdx"), 32: ("eax", "edx")}.get(w)
            if A is None:
                raise Undecided("mul width")
            a, b = self.reg(A[0]), self.rd(O[0], w)
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                raise Undecided("pointer multiply")
            full = mul([zext(a, 2 * w), zext(b, 2 * w)], 2 * w)
            self.setreg(A[0], ext(full, 0, w))
            self.setreg(A[1], ext(full, w, w))
            F["C"] = F["O"] = ne(ext(full, w, w), C(0, w))
            F["Z"] = F["S"] = None
            return None
        if k == "imul" and len(O) in (2, 3):
            a, b = (self.rd(O[1], w), self.rd(O[0], w))
            self.wr(O[-1], mul([a, b], w))
            for x in F:
                F[x] = None
            return None
        if k == "xchg":
            a, b = self.rd(O[0], w), self.rd(O[1], w)
            self.wr(O[0], b)
            self.wr(O[1], a)
            return None
        raise Undecided("instruction " + ins.text)


def hooks(asm, record=None):
    """hooks for the C++ interpreter: calls to assembly routines are interpreted on the disassembly"""
    def mk(name):
        def h(it, st, args):
            m = Machine(asm, it, st)
            r = m.run(name, args)
            if record is not None:
                record(name, m)
            return r if isinstance(r, T) else None
        return h
    return {n: mk(n) for n in asm.funcs}
