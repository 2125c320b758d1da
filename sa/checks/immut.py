"""C32: ownership of arrays in the Java API."""
from .. import classfile
from ..terms import *
from ..jinterp import *
from ..report import PROVED, REFUTED, UNDECIDED, AnchorLost
from . import purity, javahash
from .javaarith import fork

PKG = "io/nayuki/bitcoin/crypto/"
IMMUTABLE = {"java/lang/String", "java/lang/Integer", "java/lang/Byte", "java/lang/Long", "java/lang/Boolean", "java/lang/Character", "java/lang/Short",
             "java/math/BigInteger", "java/lang/Class"}


def entry(J, k):
    """public and protected operations"""
    m = J.methods[k]
    return not m.access & 0x1002 and bool(m.access & 5)


def fielddesc(J, name, owner=None):
    ds = {c.fields[name][1] for c in J.classes.values() if name in c.fields and (owner is None or c.name == owner)}
    return ds.pop() if len(ds) == 1 else None


def rootdesc(J, m, r):
    """declared type of what a root stands for"""
    if r[0] == "arg":
        i = r[1]
        if not m.static:
            if i == 0:
                return "L%s;" % m.cls.name
            i -= 1
        return m.args[i] if i < len(m.args) else None
    if r[0] == "s":
        c, f = r[1].rsplit(".", 1)
        return fielddesc(J, f, PKG + c)
    if r[0] == "field":
        if r[2] == "?" or not r[2].isidentifier():
            d = rootdesc(J, m, r[1])
            return d[1:] if d and d[0] == "[" else None
        return fielddesc(J, r[2])
    return None


def mutable(J, m, r):
    """True: an array; False: cannot change; None: not known"""
    d = rootdesc(J, m, r)
    if d is None:
        return None
    if d[0] == "[":
        return True
    if d[0] != "L":
        return False
    c = d[1:-1]
    if c in IMMUTABLE:
        return False
    if c in J.classes:
        # a library class: its instances are covered by the class rules
        return False if J.classes[c].access & 0x10 else None
    return None


def loose(J, S):
    """callees whose summaries mix fresh and shared objects, so that the mixture may be an artefact of the summary"""
    for k in S.calls:
        T = J.sum.get(k)
        if T is None:
            continue
        if any(x[0] == "new" for x in T.ret) and any(x[0] not in ("new", "const") for x in T.ret):
            return J.name(k)
        for (o, f), (vals, w) in T.put.items():
            if any(x[0] == "new" for x in vals) and any(x[0] not in ("new", "const") for x in vals):
                return J.name(k)
    return None


def c32(rep):
    J = purity.java()
    for c in ("Sha256Hash", "Sha256", "Sha512", "Ripemd160", "Keccak256", "Base58Check", "Bech32", "Ecdsa", "CurvePointMath", "Int256Math"):
        if PKG + c not in J.classes:
            raise AnchorLost("missing class " + c)
    classes(rep, J)
    for k in sorted(J.sum):
        if k[1] == "<clinit>" or not entry(J, k):
            continue
        rep.functions.add(J.name(k))
        method(rep, J, k)
    rep.guard("Java digest object shares no array with its callers", lambda: owned(rep), "Sha256Hash")
    javahash.hashobj(rep)


def classes(rep, J):
    for c in sorted(J.classes.values(), key=lambda c: c.name):
        n = c.name.split("/")[-1]
        for f, (acc, d, cv_) in sorted(c.fields.items()):
            if d[0] not in "[L" or f.startswith("$"):
                continue
            arr = d[0] == "["
            nm = "java: field %s.%s" % (n, f)
            vis = acc & 5 and c.access & 1
            if arr and vis:
                rep.ob(nm + " is not exposed", REFUTED, n, "callers outside the package can reach and modify this array")
                continue
            if d[0] == "L" and vis and not acc & 16:
                rep.ob(nm + " is not exposed", REFUTED, n, "callers outside the package can replace this field")
                continue
            rep.ob(nm + " is not exposed", PROVED, n)
            if acc & 8:
                continue
            bad, und = [], []
            for k, S in J.sum.items():
                for (o, g), (vals, w) in S.put.items():
                    if g != f or rootclass(J, J.methods[k], o) not in (c.name, None):
                        continue
                    if k[1] != "<init>" and not (J.methods[k].access & 2):
                        (bad if rootclass(J, J.methods[k], o) == c.name else und).append("%s assigns it after construction" % J.name(k))
            if not c.access & 0x10 and not acc & 2:
                und.append("a subclass or the package may reach it")
            # contents: no method writes through the field of an existing object
            for k, S in J.sum.items():
                for r, w in S.mod.items():
                    if r[0] == "field" and r[2] == f and entry(J, k) and not (k[1] == "<init>" and r[1] == ("arg", 0)):
                        (bad if rootclass(J, J.methods[k], r[1]) == c.name else und).append("%s modifies its contents" % purity.at(w))
            rep.ob(nm + " never changes after construction", REFUTED if bad else UNDECIDED if und else PROVED, n, "; ".join((bad or und)[:3]))


def rootclass(J, m, r):
    d = rootdesc(J, m, r)
    return d[1:-1] if d and d[0] == "L" else None


def method(rep, J, k):
    m, S = J.methods[k], J.sum[k]
    nm = "java: %s%s" % (J.name(k), k[2].replace(PKG, ""))
    # inputs
    bad, und = purity.outputs(J, k, S)
    bad = [b for b in bad if "modifies" in b]
    und = [u for u in und if "writes" in u]
    rep.ob(nm + " modifies no input", REFUTED if bad else UNDECIDED if und else PROVED, m.where(), "; ".join((bad or und)[:3]))
    mix = loose(J, S)
    # references kept
    bad, und = [], []
    for (o, f), (vals, w) in S.put.items():
        for v in vals:
            if v[0] in ("new", "const"):
                continue
            x = mutable(J, m, v) if v[0] != "unknown" else None
            if x is False:
                continue
            t = "%s keeps %s in %s%s" % (purity.at(w), purity.show(J, v), purity.show(J, o), "" if f == "=" else "." + f)
            (bad if x and not mix and o[0] != "unknown" else und).append(t)
    rep.ob(nm + " keeps no reference to a caller's array", REFUTED if bad else UNDECIDED if und else PROVED, m.where(), "; ".join((bad or und)[:3]))
    # references returned
    if classfile.parse_desc(k[2])[1][0] not in "[L":
        return
    bad, und = [], []
    for v in S.ret:
        if v[0] in ("new", "const"):
            continue
        x = mutable(J, m, v) if v[0] != "unknown" else None
        if x is False:
            continue
        t = "returns %s itself" % purity.show(J, v)
        (bad if x and not mix else und).append(t)
    rep.ob(nm + " returns no internal or argument array", REFUTED if bad else UNDECIDED if und else PROVED, m.where(), "; ".join((bad or und)[:3]))


def refs(r):
    """objects a reference may denote"""
    if isinstance(r, RefIte):
        return refs(r.a) | refs(r.b)
    if isinstance(r, Ref) and r.obj is not None:
        return {r.obj}
    return set()


def reach(st, r):
    out, work = set(), list(refs(r))
    while work:
        o = work.pop()
        if o in out:
            continue
        out.add(o)
        for v in st.rd(o).values():
            work.extend(refs(v))
    return out


def owned(rep):
    c = fork()
    b = c.array("b", "B", javahash.syms("b", 32))
    h = javahash.newhash(c, b, "([B)")
    inner = reach(c.st, h)
    rep.ob("Java digest object keeps a copy of the array it is built from", REFUTED if b.obj in inner else PROVED, "Sha256Hash",
           "the object holds the caller's own array" if b.obj in inner else "objects reachable from the digest: %d, the argument is none of them" % len(inner))
    r = c.call("Sha256Hash", "toBytes", h)
    out = reach(c.st, r)
    inner = reach(c.st, h)
    rep.ob("Java digest object hands out a copy of its array", REFUTED if out & inner else PROVED, "Sha256Hash.toBytes",
           "the returned array is the object's own" if out & inner else "")
    h2 = javahash.newhash(c, b, "([B)")
    rep.ob("Java digest objects share no array", REFUTED if reach(c.st, h) & reach(c.st, h2) else PROVED, "Sha256Hash")
    bad = c.it.changed(c.st)
    rep.ob("Java digest object leaves its input unchanged", REFUTED if bad else PROVED, "Sha256Hash")
    for e in c.throws():
        if any(x is TRUE for x, v in e[3]) or not e[3]:
            rep.ob("Java digest object", REFUTED, "Sha256Hash", "throws %s" % e[2])
