"""C20: the assembly routines against the System V calling convention and their C++ declarations."""
import glob
import os
import random
import re
from ..terms import *
from ..cinterp import *
from .. import build, cspec, x86
from ..report import PROVED, REFUTED, UNDECIDED, AnchorLost
from .cpparith import asm

FOREIGN = ("upper_half_", "entry_", "undef", "return_address")
WIDTH = {"uint8_t": 1, "uint16_t": 2, "uint32_t": 4, "uint64_t": 8, "int": 4, "bool": 1, "char": 1}
ENTRY = 2048
RED = 128


def declarations():
    """name -> (result type, [(type, const, elements or None)]) as the C++ headers and sources declare them"""
    r = {}
    for f in sorted(glob.glob(os.path.join(build.CPP, "*.hpp")) + glob.glob(os.path.join(build.CPP, "*.cpp"))):
        s = open(f).read()
        s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
        s = re.sub(r"//[^\n]*", " ", s)
        consts = {m.group(1): int(m.group(2), 0) for m in re.finditer(r"constexpr\s+\w+\s+(\w+)\s*=\s*(\d+)\s*;", s)}
        for m in re.finditer(r"\b([\w:]+)\s+(asm_\w+)\s*\(([^()]*)\)\s*;", s):
            ps = []
            for p in m.group(3).split(","):
                p = p.strip()
                if not p or p == "void":
                    continue
                const = bool(re.search(r"\bconst\b", p))
                q = re.sub(r"\bconst\b|std::", " ", p)
                a = re.search(r"\[\s*([^\]]*)\]", q)
                t = q.split()[0].rstrip("*&")
                n = None
                if a:
                    e = a.group(1).strip()
                    try:
                        n = int(eval(re.sub(r"[A-Za-z_]\w*", lambda k: str(consts[k.group(0)]), e), {"__builtins__": {}})) if e else -1
                    except Exception:
                        n = -1
                elif "*" in q or "&" in q:
                    n = -1
                ps.append((t, const, n))
            if re.match(r"^(std::)?(void|bool|uint\d+_t|int)$", m.group(1)):
                r[m.group(2)] = (m.group(1).replace("std::", ""), ps)
    return r


class Abi(x86.Machine):
    """records accesses to the caller's part of the stack"""

    def addr(self, s):
        p = x86.Machine.addr(self, s)
        if p.obj.name.startswith("stack of "):
            if p.off.op != "c":
                self.event("stack", "stack access at a computed offset")
            elif cv(p.off) >= ENTRY:
                self.event("stack", "access to the caller's part of the stack")
            else:
                sp = self.r["rsp"]
                if isinstance(sp, Ptr) and sp.obj is p.obj and sp.off.op == "c" and cv(p.off) < cv(sp.off) - RED:
                    self.event("stack", "access below the red zone")
        return p

    def step(self, ins):
        r = x86.Machine.step(self, ins)
        if r == "ret":
            e, sp = self.entry["rsp"], self.r["rsp"]
            if not (isinstance(sp, Ptr) and sp.obj is e.obj and sp.off is e.off):
                self.event("return", "returns with a moved stack pointer")
            elif self.it.get(self.st, e.obj, ENTRY, 8) is not V("return_address", 64):
                self.event("return", "returns to an overwritten address")
        return r


def foreign(t):
    return [v for v in variables([t]) if str(v.args[0]).startswith(FOREIGN)]


def varies(t, fv, seed):
    """does the value really change with the foreign symbols?"""
    vs = variables([t])
    f = compile_eval([t])
    g = random.Random(seed)
    for _ in range(60):
        e = {v.args[0]: g.getrandbits(v.w) if g.random() < .7 else g.choice([0, 1, ones(v.w)]) for v in vs}
        a = f(e)
        for v in fv:
            for x in (0, ones(v.w), g.getrandbits(v.w), 1):
                e2 = dict(e)
                e2[v.args[0]] = x
                if f(e2) != a:
                    return v
    return None


def routine(rep, name, decl):
    ret, params = decl
    c = cspec.Ctx("x8664", init=False)
    args, outs = [], []
    for i, (t, const, n) in enumerate(params):
        w = WIDTH.get(t)
        if w is None or n == -1:
            rep.ob("%s: parameter %d" % (name, i), UNDECIDED, "", "extent of the operand is not declared")
            return
        if n is None:
            v = V("arg%d" % i, 8 * w)
            args.append(v)
            if w == 4 and t == "uint32_t":
                pass
        else:
            p = c.obj("arg%d" % i, V("in%d" % i, 8 * w * n), kind="const" if const else "param")
            args.append(p)
            outs.append((i, p, const, V("in%d" % i, 8 * w * n)))
    m = Abi(asm(), c.it, c.st)
    where = "cpp/AsmX8664.s: " + name
    try:
        rax = m.run(name, args)
    except (Undecided, Dead) as e:
        rax = None
        lim = str(e)
    ev = {}
    for k, w, d in m.events:
        ev.setdefault(k, "%s: %s" % (w, d))
    for k, loc, d, pc in c.it.events:
        if k in ("oob", "oob?", "constwrite", "null"):
            ev.setdefault(k, d)

    def ob(what, kinds, ok):
        bad = [ev[k] for k in kinds if k in ev]
        if bad:
            rep.ob("%s: %s" % (name, what), REFUTED, where, "; ".join(bad))
        elif rax is None:
            rep.ob("%s: %s" % (name, what), UNDECIDED, where, lim)
        else:
            rep.ob("%s: %s" % (name, what), PROVED, where, ok)
    ob("every access stays inside the declared operands", ("oob", "oob?", "wild", "null", "stack"), "%d instructions" % len(m.asm.insts))
    ob("read-only operands are not written", ("constwrite",), "")
    ob("no access needs more alignment than the element type's", ("align",), "")
    ob("no undefined flag is used", ("undefflag",), "")
    ob("returns to its caller", ("return",), "")
    tag = "%s: callee-saved registers, stack pointer and direction flag are preserved" % name
    if rax is None:
        bad = m.structural(name)
        rep.ob(tag, REFUTED if bad else UNDECIDED, where, "; ".join(bad) if bad else lim)
        return
    bad = m.abi()
    rep.ob(tag, REFUTED if bad else PROVED, where,
           "; ".join(bad) if bad else ", ".join(x86.SAVED))
    dep = []
    for i, p, const, init in outs:
        dep.append(("operand %d" % i, c.it.get(c.st, p.obj, 0, p.obj.size)))
    if ret != "void":
        w = 8 * WIDTH[ret]
        if isinstance(rax, T):
            v = ext(rax, 0, w)
            dep.append(("result", v))
            if ret == "bool":
                if ub(v) <= 1:
                    rep.ob("%s: the boolean result is 0 or 1" % name, PROVED, where)
                else:
                    f, g = compile_eval([v]), random.Random(rep.seed)
                    hit = any(f({x.args[0]: g.getrandbits(x.w) for x in variables([v])})[0] > 1 for _ in range(200))
                    rep.ob("%s: the boolean result is 0 or 1" % name, REFUTED if hit else UNDECIDED, where, "low byte of %rax")
        else:
            rep.ob("%s: result" % name, REFUTED, where, "returns an address")
    for what, t in dep:
        if not isinstance(t, T):
            rep.ob("%s: %s is a number" % (name, what), REFUTED, where, "an address is stored")
            continue
        fv = foreign(t)
        tag = "%s: %s does not depend on undefined register contents" % (name, what)
        if not fv:
            rep.ob(tag, PROVED, where)
        else:
            v = varies(t, fv, rep.seed)
            rep.ob(tag, REFUTED if v is not None else UNDECIDED, where, "depends on " + str((v if v is not None else fv[0]).args[0]))
    rep.functions.add(name)


def c20(rep):
    mod = cspec.module("x8664")
    decl = declarations()
    used = sorted(n for n, f in mod.functions.items() if not f.blocks and n in asm().funcs)
    declared = sorted(n for n, f in mod.functions.items() if not f.blocks and not n.startswith("llvm.") and n.startswith("asm_"))
    for n in declared:
        if n not in asm().funcs:
            raise AnchorLost("assembly routine %s not defined" % n)
    names = sorted(set(used) | (set(asm().funcs) & set(decl)))
    if not names:
        raise AnchorLost("no assembly routines")
    for n in names:
        if n not in decl:
            rep.ob("%s: declaration" % n, UNDECIDED, "", "no declaration found")
            continue
        rep.guard(n, lambda: routine(rep, n, decl[n]), n, True)
    for n in sorted(set(asm().funcs) - set(names)):
        rep.ob("%s: declaration" % n, UNDECIDED, "", "routine without a C++ declaration")
