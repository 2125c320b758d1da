"""Hash-consed value graph: the abstract domain shared by every frontend.

A term denotes a bit vector of fixed width as a function of named inputs.
Constructors canonicalise (linear forms modulo 2^w, concatenation of slices,
conjunctions of equalities ...) so that most ways of writing the same
computation give the identical node.  No solver is involved."""
import sys
sys.setrecursionlimit(200000)

_tab = {}
_cnt = [0]


class T(object):
    __slots__ = ("op", "w", "args", "id", "_kz", "_ub", "_aux")

    def __repr__(self):
        return show(self, 4)


def mk(op, w, args):
    k = (op, w, args)
    r = _tab.get(k)
    if r is None:
        r = T()
        r.op = op
        r.w = w
        r.args = args
        _cnt[0] += 1
        r.id = _cnt[0]
        r._kz = None
        r._ub = None
        r._aux = None
        _tab[k] = r
    return r


def node_count():
    return _cnt[0]


def show(t, depth=6):
    if t.op == "c":
        return hex(t.args[0]) if t.args[0] > 9 else str(t.args[0])
    if t.op == "v":
        return str(t.args[0])
    if depth <= 0:
        return "#%d" % t.id
    d = depth - 1
    if t.op == "add":
        c, ts = t.args
        parts = []
        for n, k in ts:
            ks = k if k < (1 << (t.w - 1)) else k - (1 << t.w)
            parts.append(("" if ks == 1 else "-" if ks == -1 else "%d*" % ks) + show(n, d))
        if c:
            parts.append(hex(c))
        return "(" + " + ".join(parts) + ")"
    if t.op == "ext":
        return "%s[%d:%d]" % (show(t.args[0], d), t.args[1] + t.w - 1, t.args[1])
    if t.op == "cat":
        return "{" + ",".join(show(a, d) for a in reversed(t.args)) + "}"
    return "%s(%s)" % (t.op if t.op != "uf" else t.args[0],
                       ", ".join(show(a, d) if isinstance(a, T) else str(a)
                                 for a in (t.args if t.op != "uf" else t.args[1:])))


def C(v, w):
    return mk("c", w, (v & ((1 << w) - 1),))


def V(name, w):
    return mk("v", w, (name,))


TRUE = C(1, 1)
FALSE = C(0, 1)


def is_c(t):
    return t.op == "c"


def cv(t):
    return t.args[0]


def ones(w):
    return (1 << w) - 1


# ---- facts about terms: known-zero bits and unsigned upper bound
_range_facts = {}   # id -> ub declared for a variable/opaque term


def declare_ub(t, ub):
    """Precondition: t <= ub."""
    _range_facts[t.id] = ub
    t._ub = None
    t._kz = None


def kz(t):
    r = t._kz
    if r is not None:
        return r
    op = t.op
    m = ones(t.w)
    if op == "c":
        r = m & ~t.args[0]
    elif op == "cat":
        r = 0
        s = 0
        for a in t.args:
            r |= kz(a) << s
            s += a.w
    elif op == "and":
        r = 0
        for a in t.args:
            r |= kz(a)
    elif op in ("or", "xor"):
        r = m
        for a in t.args:
            r &= kz(a)
    elif op == "ite":
        r = kz(t.args[1]) & kz(t.args[2])
    elif op == "ext":
        r = (kz(t.args[0]) >> t.args[1]) & m
    else:
        u = ub(t)
        r = m & ~ones(u.bit_length())
    t._kz = r
    return r


def ub(t):
    r = t._ub
    if r is not None:
        return r
    op = t.op
    m = ones(t.w)
    if op == "c":
        r = t.args[0]
    elif op == "cat":
        r = 0
        s = 0
        for a in t.args:
            r |= ub(a) << s
            s += a.w
    elif op == "ite":
        r = max(ub(t.args[1]), ub(t.args[2]))
    elif op == "add":
        c, ts = t.args
        r = c
        for n, k in ts:
            if k == (1 << t.w) - 1 or k > (1 << (t.w - 1)):
                r = m
                break
            r += ub(n) * k
        if r > m:
            r = m
    elif op == "mul":
        r = 1
        for a in t.args:
            r *= ub(a)
        if r > m:
            r = m
    elif op == "and":
        r = min(ub(a) for a in t.args)
    elif op in ("or", "xor"):
        r = 0
        for a in t.args:
            r = max(r, ub(a).bit_length())
        r = ones(r)
    elif op == "ext":
        x, lo = t.args
        u = ub(x) >> lo
        r = u if u <= m else m
    elif op == "udiv":
        b = t.args[1]
        r = ub(t.args[0]) // (cv(b) if is_c(b) and cv(b) else 1)
    elif op == "urem":
        b = t.args[1]
        r = min(ub(t.args[0]), (cv(b) - 1) if is_c(b) and cv(b) else m)
    elif op == "lshr":
        r = ub(t.args[0])
    else:
        r = m
    f = _range_facts.get(t.id)
    if f is not None and f < r:
        r = f
    if r > m:
        r = m
    t._ub = r
    return r


# ---- slices
_extmemo = {}
ROT = [False]     # lane mode: rotations are kept whole and slices are not pushed through bitwise operations


class lanes(object):
    def __enter__(self):
        _extmemo.clear()
        _EQ.clear()
        ROT[0] = True

    def __exit__(self, *a):
        _extmemo.clear()
        _EQ.clear()
        ROT[0] = False


CHAIN = [False]   # sums of narrow values are kept at their narrowest width, multiply chains are joined


class chains(object):
    def __enter__(self):
        _extmemo.clear()
        _EQ.clear()
        CHAIN[0] = True

    def __exit__(self, *a):
        _extmemo.clear()
        _EQ.clear()
        CHAIN[0] = False



def ext(t, lo, w):
    """bits [lo, lo+w)"""
    if lo == 0 and w == t.w:
        return t
    k = (t, lo, w)
    r = _extmemo.get(k)
    if r is None:
        r = _extmemo[k] = _ext(t, lo, w)
    return r


def _narrow(n):
    """a summand that becomes simpler when truncated"""
    if n.op in ("c", "cat"):
        return True
    if n.op == "mul":
        return all(a.op in ("c", "cat") for a in n.args)
    if n.op == "ite":
        return _narrow(n.args[1]) and _narrow(n.args[2])
    return False


def _zx(n):
    """a zero extension"""
    return n.op == "cat" and len(n.args) == 2 and n.args[1].op == "c" and cv(n.args[1]) == 0


def _exact(t):
    """a sum that cannot wrap"""
    return t.args[0] + sum(ub(x) * q for x, q in t.args[1]) <= ones(t.w)


def _mulchain(items, w):
    """k*hi + ((k*lo + r) >> s) = (k*(hi*2^s + lo) + r) >> s, where hi and lo are adjacent parts of one sum"""
    for n, k in items:
        e = n if n.op == "ext" else n.args[0] if _zx(n) and n.args[0].op == "ext" else None
        if k != 1 or e is None or e.args[0].op != "add":
            continue
        T, s = e.args
        c, ts = T.args
        if s + e.w < T.w or not _exact(T):
            continue
        for x, q in ts:
            lo = x.args[0] if _zx(x) else None
            if lo is None or lo.w != s or lo.op != "add":
                continue
            for h, q2 in items:
                if q2 != q or h is n or not (_zx(h) and h.args[0].op == "ext"):
                    continue
                j = cat([lo, h.args[0]])
                if j.op != "add":
                    continue
                m = (c + sum(ub(y) * p for y, p in ts if y is not x) + ub(j) * q).bit_length()
                t2 = lin(c, [(fit(y, m), p) for y, p in ts if y is not x] + [(fit(j, m), q)], m)
                if m <= s:
                    r = C(0, w)
                elif m - s > w:
                    r = ext(t2, s, w)
                else:
                    r = zext(ext(t2, s, m - s), w)
                return r, [(y, p) for y, p in items if y is not n and y is not h]
    return None


def _ext(t, lo, w):
    assert lo >= 0 and w > 0 and lo + w <= t.w, (lo, w, t.w)
    op = t.op
    if op == "c":
        return C(t.args[0] >> lo, w)
    if op == "ext":
        return ext(t.args[0], t.args[1] + lo, w)
    if op == "cat":
        out = []
        p = 0
        for a in t.args:
            e = p + a.w
            if e > lo and p < lo + w:
                l = max(lo, p) - p
                h = min(lo + w, e) - p
                out.append(ext(a, l, h - l))
            p = e
            if p >= lo + w:
                break
        return cat(out)
    if op == "rot":
        x, k = t.args
        n = t.w
        l = (lo + k) % n
        if l + w <= n:
            return ext(x, l, w)
        return cat([ext(x, l, n - l), ext(x, 0, w - (n - l))])
    if op == "or" and w == 1 and lo == t.w - 1 and t.w > 1:
        r = _signidiom(t)
        if r is not None:
            return r
    if op in ("and", "or", "xor") and not ROT[0]:
        if any(a.op in ("c", "cat", "ite") for a in t.args) or all(a.op in ("v", "ext") for a in t.args):
            return bitop(op, [ext(a, lo, w) for a in t.args], w)
    if op == "ite":
        return ite(t.args[0], ext(t.args[1], lo, w), ext(t.args[2], lo, w))
    if (kz(t) >> lo) & ones(w) == ones(w):
        return C(0, w)
    if op == "add" and t.args[0]:
        c, ts = t.args
        if len(ts) == 1 and ts[0][1] == 1 and c & ((1 << lo) - 1) == 0:
            return lin((c >> lo) & ones(w), [(ext(ts[0][0], lo, w), 1)], w)
    if CHAIN[0] and op == "add" and lo + w < t.w:
        # a sum of narrow values: the bits above are not needed
        c, ts = t.args
        m = lo + w
        if all(n.op == "c" or k & ones(m) == 0 or _zx(n) for n, k in ts):
            r = lin(c, [(ext(n, 0, m), k) for n, k in ts], m)
            return r if lo == 0 else ext(r, lo, w)
    if lo == 0:
        if op == "add":
            c, ts = t.args
            if all(n.op == "c" or k & ones(w) == 0 for n, k in ts):
                return lin(c, [(ext(n, 0, w), k) for n, k in ts], w)
    elif op == "add":
        if w == 1 and lo == t.w - 1:
            r = _borrow(t)
            if r is not None:
                return r
        # an additive offset that is a multiple of 2^lo with a summand below it does not carry
        g = _split_add(t, lo)
        if g is not None:
            return ext(g, 0, w)
    # trim known-zero top bits
    z = (kz(t) >> lo) & ones(w)
    top = (z ^ ones(w)).bit_length()
    if 0 < top < w:
        return cat([mk("ext", top, (t, lo)), C(0, w - top)])
    return mk("ext", w, (t, lo))


def _borrow(t):
    """top bit of x - y (or of x - y + 2^(w-1)) for x, y below 2^(w-1)"""
    c, ts = t.args
    h = 1 << (t.w - 1)
    if len(ts) == 2 and c in (0, h) and sorted(k for _, k in ts) == [1, ones(t.w)]:
        a = [x for x, k in ts if k == 1][0]
        b = [x for x, k in ts if k != 1][0]
        if kz(a) & kz(b) & h:
            r = ult(a, b)
            return bnot(r) if c else r
    return None


def _signidiom(t):
    """top bit of x | -x (x nonzero) and of (~a & b) | (~(a ^ b) & (a - b)) (unsigned a < b)"""
    w = t.w
    for n in t.args:
        if n.op == "add" and n.args[0] == 0 and len(n.args[1]) == 1 and n.args[1][0][1] == ones(w):
            m = n.args[1][0][0]
            if bitop("or", [x for x in t.args if x is not n], w) is m:
                return ne(m, C(0, w))
        if n.op == "add" and n.args[0] == 0 and all(k in (1, ones(w)) for _, k in n.args[1]):
            m = neg(n)
            if bitop("or", [x for x in t.args if x is not n], w) is m:
                return ne(m, C(0, w))
    if len(t.args) == 2:
        for p, q in (t.args, t.args[::-1]):
            if p.op != "and" or q.op != "and" or len(q.args) != 2:
                continue
            for d in q.args:
                if d.op == "add" and d.args[0] == 0 and len(d.args[1]) == 2 and sorted(k for _, k in d.args[1]) == [1, ones(w)]:
                    a = [x for x, k in d.args[1] if k == 1][0]
                    b = [x for x, k in d.args[1] if k != 1][0]
                    other = q.args[0] if d is q.args[1] else q.args[1]
                    if other is bitop("xor", [C(-1, w), a, b], w) and p is bitop("and", [bitop("xor", [C(-1, w), a], w), b], w):
                        return ult(a, b)
    return None


def _split_add(t, lo):
    """If t = hi*2^lo + low with 0 <= low < 2^lo (no borrow), return (hi mod 2^(w-lo))."""
    c, ts = t.args
    hi, low = [], []
    m = (1 << lo) - 1
    for n, k in ts:
        if k & m == 0:
            hi.append((n, k >> lo))
        else:
            z = kz(n)
            if z & m == m and n.op == "cat":
                hi.append((ext(n, lo, n.w - lo), k))
            else:
                low.append((n, k))
    if not hi and not (c >> lo):
        return None
    if len(low) > 1:
        return None
    s = c & m
    for n, k in low:
        if k > m:
            return None
        s += ub(n) * k
    if s > m:
        return None
    w = t.w - lo
    return lin(c >> lo, [(fit(n, w), k) for n, k in hi], w)


def cat(parts):
    """parts low to high"""
    flat = []
    for p in parts:
        if p.op == "cat":
            flat.extend(p.args)
        else:
            flat.append(p)
    out = []
    for p in flat:
        if out:
            q = out[-1]
            if q.op == "c" and p.op == "c":
                out[-1] = C(cv(q) | (cv(p) << q.w), q.w + p.w)
                continue
            if p.op == "ext":
                x, lo = p.args
                if q.op == "ext" and q.args[0] is x and q.args[1] + q.w == lo:
                    out[-1] = _rawext(x, q.args[1], q.w + p.w)
                    continue
            if p.op in ("ext", "udiv") and q.op == "ext" and q.args[0].op == "udiv":
                # quotient digits of a long division
                j = _join_quot(q, p)
                if j is not None:
                    out[-1] = j
                    continue
            if p.op == "ite" and q.op == "ite" and p.args[0] is q.args[0]:
                out[-1] = ite(p.args[0], cat([q.args[1], p.args[1]]), cat([q.args[2], p.args[2]]))
                continue
            if p.op in ("xor", "and", "or") and q.op == p.op:
                j = _join_bit(q, p)
                if j is not None:
                    out[-1] = j
                    continue
            if q.op in ("add", "mul", "v", "uf") and p.op == "ext" and p.args[1] == q.w:
                # low truncation of a wider sum followed by its next bits
                x = p.args[0]
                if x.op == q.op and x.w > q.w and q.op != "v" and ext(x, 0, q.w) is q:
                    out[-1] = _rawext(x, 0, q.w + p.w)
                    continue
            if q.op == "cat":
                pass
        out.append(p)
    if len(out) == 1:
        return out[0]
    # an element may have become a cat after merging
    if any(o.op == "cat" for o in out):
        return cat(out)
    if ROT[0] and len(out) == 2 and out[0].op == "ext" and out[1].op == "ext" and out[0].args[0] is out[1].args[0]:
        x, k = out[0].args
        if k + out[0].w == x.w and out[1].args[1] == 0 and out[1].w == k:
            return mk("rot", x.w, (x, k))
    return mk("cat", sum(o.w for o in out), tuple(out))


def _join_quot(q, p):
    u, l = q.args
    x, lo = p.args if p.op == "ext" else (p, 0)
    if x.op != "udiv" or not is_c(u.args[1]) or not is_c(x.args[1]) or cv(u.args[1]) != cv(x.args[1]):
        return None
    s = l + q.w - lo
    a, b = _strip(u.args[0]), _strip(x.args[0])
    if 0 < s < a.w and ext(a, s, a.w - s) is b and s + lo + p.w <= u.w:
        return _rawext(u, l, q.w + p.w)
    return None


def _rawext(x, lo, w):
    if lo == 0 and w == x.w:
        return x
    return ext(x, lo, w)


def _join_bit(q, p):
    """Join two adjacent slices of one bitwise expression, if slice-wise adjacent."""
    if len(q.args) != len(p.args):
        return None
    rest = list(p.args)
    out = []
    for a in q.args:
        hit = None
        for b in rest:
            if a.op == "ext" and b.op == "ext" and a.args[0] is b.args[0] and a.args[1] + a.w == b.args[1]:
                hit = b
                break
            if a.op == "c" and b.op == "c":
                hit = b
                break
            if a.op in ("add", "mul") and b.op == "ext" and b.args[1] == a.w and b.args[0].op == a.op \
                    and ext(b.args[0], 0, a.w) is a:
                hit = b
                break
        if hit is None:
            return None
        rest.remove(hit)
        out.append(cat([a, hit]))
    return bitop(q.op, out, q.w + p.w)


def zext(t, w):
    if w == t.w:
        return t
    return cat([t, C(0, w - t.w)])


def sext(t, w):
    if w == t.w:
        return t
    m = ext(t, t.w - 1, 1)
    return cat([t, ite(m, C(-1, w - t.w), C(0, w - t.w))])


def fit(t, w):
    if t.w == w:
        return t
    if t.w > w:
        return ext(t, 0, w)
    return zext(t, w)


# ---- linear arithmetic modulo 2^w
def _lin_parts(t):
    if t.op == "add":
        return t.args
    if t.op == "c":
        return (t.args[0], ())
    return (0, ((t, 1),))


def lin(c, terms, w):
    """c + sum k*t modulo 2^w"""
    m = ones(w)
    if w == 1:
        odd = [t for t, k in terms if k & 1]
        return bitop("xor", odd + [C(c & 1, 1)], 1) if odd else C(c & 1, 1)
    acc = {}
    c = c & m
    stack = list(terms)
    for t, k in stack:
        k &= m
        if k == 0:
            continue
        if t.op == "add":
            c2, ts = t.args
            c += c2 * k
            for n, k2 in ts:
                acc[n] = (acc.get(n, 0) + k * k2) & m
        elif t.op == "c":
            c += t.args[0] * k
        elif CHAIN[0] and _zx(t) and t.args[0].op == "add" and _exact(t.args[0]):
            c2, ts = t.args[0].args
            c += c2 * k
            stack.extend((fit(n, w), k * k2) for n, k2 in ts)
        elif t.op == "xor" and t.args[0].op == "c" and cv(t.args[0]) == m:
            # ~y = -1 - y
            rest = bitop("xor", list(t.args[1:]), w)
            c -= k
            acc[rest] = (acc.get(rest, 0) - k) & m
        elif t.op == "cat" and t.args[0].op == "c" and cv(t.args[0]) == 0 and len(t.args) == 2:
            # x << s
            s = t.args[0].w
            n = zext(t.args[1], w)
            k2 = (k << s) & m
            # keep shifted form unless the low part is a full-width value
            if t.args[1].op == "ext" and t.args[1].args[1] == 0 and t.args[1].args[0].w == w:
                n = t.args[1].args[0]
                acc[n] = (acc.get(n, 0) + k2) & m
            elif t.args[1].op == "add" or t.args[1].op == "mul":
                acc[t] = (acc.get(t, 0) + k) & m
            else:
                acc[n] = (acc.get(n, 0) + k2) & m
        else:
            acc[t] = (acc.get(t, 0) + k) & m
    c &= m
    items = [(n, k) for n, k in acc.items() if k]
    if any(n.op in ("add", "c") for n, k in items):
        return lin(c, items, w)
    if not items:
        return C(c, w)
    if len(items) > 1:
        r = _remainder(acc, items, w)
        if r is not None:
            return lin(c, r, w)
    if CHAIN[0] and len(items) > 1:
        r = _mulchain(items, w)
        if r is not None:
            return lin(c, [(r[0], 1)] + r[1], w)
    if len(items) == 1:
        n, k = items[0]
        if c == 0 and k == 1:
            return n
        if c == 0 and k & (k - 1) == 0 and n.op != "cat":
            pass
        if not CHAIN[0] and n.op == "cat" and len(n.args) == 2 and n.args[0].w == 1 and is_c(n.args[1]) and cv(n.args[1]) == 0:
            return ite(n.args[0], C(c + k, w), C(c, w))
        if n.op == "ite" and is_c(n.args[1]) and is_c(n.args[2]):
            return ite(n.args[0], C(c + k * cv(n.args[1]), w), C(c + k * cv(n.args[2]), w))
        if c == 0 and k & (k - 1) == 0:
            # canonical shift-left
            s = k.bit_length() - 1
            return cat([C(0, s), ext(n, 0, w - s)])
    # disjoint summands: a concatenation
    if all(k == 1 or (k & (k - 1)) == 0 for n, k in items):
        seen = kzall = 0
        ok = True
        occ = c
        vals = []
        for n, k in items:
            s = k.bit_length() - 1
            nz = (((~kz(n)) & m) << s) & m
            if nz & occ:
                ok = False
                break
            occ |= nz
            vals.append(n if s == 0 else cat([C(0, s), ext(n, 0, w - s)]))
        if ok and (any(v.op == "cat" for v in vals)):
            if c:
                vals.append(C(c, w))
            return bitop("or", vals, w)
    if CHAIN[0] and all(_zx(n) for n, k in items):
        # a sum of narrow values that cannot wrap
        m = (c + sum(ub(n) * k for n, k in items)).bit_length()
        if m < w:
            return zext(lin(c, [(ext(n, 0, m), k) for n, k in items], m), w)
    items.sort(key=lambda x: x[0].id)
    return mk("add", w, (c, tuple(items)))


def add(a, b):
    return lin(0, ((a, 1), (b, 1)), a.w)


def sub(a, b):
    return lin(0, ((a, 1), (b, -1)), a.w)


def neg(a):
    return lin(0, ((a, -1),), a.w)


def addn(ts, w):
    return lin(0, [(t, 1) for t in ts], w)


def mul(fs, w):
    c = 1
    fl = []
    for f in fs:
        if f.op == "c":
            c = c * cv(f) & ones(w)
        elif f.op == "mul":
            fl.extend(f.args)
        else:
            fl.append(f)
    if c == 0:
        return C(0, w)
    if not fl:
        return C(c, w)
    # pull a constant coefficient out of a pure multiple
    out = []
    for f in fl:
        if f.op == "add" and f.args[0] == 0 and len(f.args[1]) == 1:
            c = c * f.args[1][0][1] & ones(w)
            f = f.args[1][0][0]
        out.append(f)
    fl = out
    if len(fl) == 1:
        return lin(0, ((fl[0], c),), w)
    # multiplication by a 0/1 value is selection
    for i, f in enumerate(fl):
        if f.op == "cat" and len(f.args) == 2 and f.args[0].w == 1 and is_c(f.args[1]) and cv(f.args[1]) == 0:
            rest = fl[:i] + fl[i + 1:]
            return ite(f.args[0], mul(rest + [C(c, w)], w), C(0, w))
    fl.sort(key=lambda x: x.id)
    p = mk("mul", w, tuple(fl))
    if c != 1:
        return lin(0, ((p, c),), w)
    return p


# ---- bitwise
def bnot(t):
    return bitop("xor", [t, C(-1, t.w)], t.w)


def _mask_runs(m, w):
    """[(bit, len)] runs low to high"""
    runs = []
    i = 0
    while i < w:
        b = (m >> i) & 1
        j = i
        while j < w and ((m >> j) & 1) == b:
            j += 1
        runs.append((b, i, j - i))
        i = j
    return runs


def bitop(op, xs, w):
    m = ones(w)
    c = m if op == "and" else 0
    flat = []
    for x in xs:
        if x.op == op:
            for y in x.args:
                if y.op == "c":
                    c = c & cv(y) if op == "and" else c | cv(y) if op == "or" else c ^ cv(y)
                else:
                    flat.append(y)
        elif x.op == "c":
            v = cv(x)
            c = c & v if op == "and" else c | v if op == "or" else c ^ v
        else:
            flat.append(x)
    if op == "and" and c == 0:
        return C(0, w)
    if op == "or" and c == m:
        return C(m, w)
    if op == "xor":
        cnt = {}
        for x in flat:
            cnt[x] = cnt.get(x, 0) ^ 1
        flat = [x for x in cnt if cnt[x]]
        # pull complements out
        fl = []
        for x in flat:
            if x.op == "xor":
                return bitop("xor", flat + [C(c, w)], w)
            fl.append(x)
    else:
        flat = list(dict.fromkeys(flat))
        # x & ~x, x | ~x
        s = set(flat)
        for x in flat:
            if x.op == "xor" and x.args[0].op == "c" and cv(x.args[0]) == m:
                y = x.args[1] if len(x.args) == 2 else None
                if y is not None and y in s:
                    return C(0, w) if op == "and" else C(m, w)
    if not flat:
        return C(c, w)
    # constant masks become slices
    if op in ("and", "or") and c not in (0, m):
        inner = bitop(op, flat, w)
        parts = []
        for b, lo, n in _mask_runs(c, w):
            if op == "and":
                parts.append(ext(inner, lo, n) if b else C(0, n))
            else:
                parts.append(C(-1, n) if b else ext(inner, lo, n))
        return cat(parts)
    neutral = m if op == "and" else 0
    if len(flat) == 1:
        x = flat[0]
        if c == neutral:
            return x
        # xor with constant
        if op == "xor":
            if x.op == "ite":
                a, b = x.args[1], x.args[2]
                if a.op == "c" or b.op == "c":
                    return ite(x.args[0], bitop(op, [a, C(c, w)], w), bitop(op, [b, C(c, w)], w))
            if x.op == "cat":
                parts = []
                p = 0
                for a in x.args:
                    parts.append(bitop("xor", [a, C(c >> p, a.w)], a.w))
                    p += a.w
                return cat(parts)
            if w > 1 and c == 1 << (w - 1):
                return lin(c, ((x, 1),), w)
            if c == m and w > 1 and x.op == "add":
                return lin(-1, ((x, -1),), w)
    # selection by a sign-extended condition
    if w > 1 or True:
        its = {}
        for x in flat:
            if x.op == "ite":
                its.setdefault(x.args[0], []).append(x)
        for cond, l in its.items():
            if len(l) > 1 and w > 1:
                a = bitop(op, [x.args[1] for x in l], w)
                b = bitop(op, [x.args[2] for x in l], w)
                n = ite(cond, a, b)
                rest = [y for y in flat if y not in l]
                if c != neutral:
                    rest.append(C(c, w))
                return bitop(op, rest + [n], w)
        ites = [x for x in flat if x.op == "ite" and (x.args[1].op == "c" or x.args[2].op == "c")]
        if ites:
            x = ites[0]
            good = False
            for arm in (x.args[1], x.args[2]):
                if arm.op == "c" and cv(arm) in (0, m):
                    good = True
            if good:
                rest = [y for y in flat if y is not x]
                if c != neutral:
                    rest.append(C(c, w))
                return ite(x.args[0], bitop(op, rest + [x.args[1]], w), bitop(op, rest + [x.args[2]], w))
    # split into segments if that simplifies
    if any(x.op == "cat" for x in flat):
        cuts = {0, w}
        for x in flat:
            if x.op == "cat":
                p = 0
                for a in x.args:
                    cuts.add(p)
                    p += a.w
        if op == "xor" and c:
            pass
        cuts = sorted(cuts)
        worth = False
        for i in range(len(cuts) - 1):
            lo, n = cuts[i], cuts[i + 1] - cuts[i]
            nconst = 0
            for x in flat:
                if x.op == "cat":
                    p = 0
                    for a in x.args:
                        if p <= lo and lo + n <= p + a.w:
                            if a.op == "c":
                                v = (cv(a) >> (lo - p)) & ones(n)
                                if v == 0 or v == ones(n):
                                    nconst += 1
                            break
                        p += a.w
            if nconst:
                worth = True
                break
        if worth or (not ROT[0] and all(x.op == "cat" for x in flat)):
            parts = []
            for i in range(len(cuts) - 1):
                lo, n = cuts[i], cuts[i + 1] - cuts[i]
                parts.append(bitop(op, [ext(x, lo, n) for x in flat] + ([C(c >> lo, n)] if c != neutral else []), n))
            return cat(parts)
    if op == "or" and w > 1:
        # x ^ y with disjoint bits etc. are left alone
        pass
    if w == 1 and op in ("and", "or"):
        r = _bool_simplify(op, flat, c)
        if r is not None:
            return r
    flat.sort(key=lambda x: x.id)
    if c != neutral:
        flat.insert(0, C(c, w))
    if len(flat) == 1:
        return flat[0]
    return mk(op, w, tuple(flat))


def _bool_simplify(op, flat, c):
    # merge equalities of adjacent slices (under and)
    if op == "and":
        eqs = [x for x in flat if x.op == "eq"]
        if len(eqs) > 1:
            for i in range(len(eqs)):
                for j in range(len(eqs)):
                    if i == j:
                        continue
                    r = _join_eq(eqs[i], eqs[j])
                    if r is not None:
                        rest = [x for x in flat if x is not eqs[i] and x is not eqs[j]]
                        return bitop("and", rest + [r], 1)
    if op == "or":
        # De Morgan when every operand is a negation: keep 'and' of equalities canonical
        if all(x.op == "xor" and len(x.args) == 2 and x.args[0].op == "c" for x in flat):
            return bnot(bitop("and", [x.args[1] for x in flat], 1))
        if any(x.op == "xor" and len(x.args) == 2 and x.args[0].op == "c" and
               (x.args[1].op == "eq" or x.args[1].op == "and") for x in flat):
            return bnot(bitop("and", [bnot(x) for x in flat], 1))
    return None


def _join_eq(p, q):
    """eq of a low slice and eq of the adjacent higher slice of the same pair"""
    for a, b in ((p.args[0], p.args[1]), (p.args[1], p.args[0])):
        c, d = q.args
        for x, y in ((c, d), (d, c)):
            if _adj(a, x) and _adj(b, y):
                return eq(cat([a, x]), cat([b, y]))
    return None


def _adj(a, x):
    if x.op == "c" and a.op == "c":
        return True
    if a.op == "ext" and a.args[0].op == "udiv" and x.op in ("ext", "udiv") and _join_quot(a, x) is not None:
        return True
    if x.op == "ext":
        if a.op == "ext":
            return a.args[0] is x.args[0] and a.args[1] + a.w == x.args[1]
        if a.op in ("add", "mul"):
            return x.args[1] == a.w and x.args[0].op == a.op and ext(x.args[0], 0, a.w) is a
    return False


def band(*xs):
    return bitop("and", list(xs), xs[0].w)


def bor(*xs):
    return bitop("or", list(xs), xs[0].w)


def bxor(*xs):
    return bitop("xor", list(xs), xs[0].w)


# ---- comparisons
def _negative(ts, w):
    for n, k in ts:
        if k != 1 << (w - 1):
            return k > 1 << (w - 1)
    return False


_EQ = {}


def eq(a, b):
    assert a.w == b.w
    if a is b:
        return TRUE
    if a.op in ("ite", "cat", "xor") and b.op == "c":
        k = (a, b)
        r = _EQ.get(k)
        if r is None:
            r = _EQ[k] = _eq(a, b)
        return r
    return _eq(a, b)


def _eq(a, b):
    if a.op == "c" and b.op == "c":
        return C(1 if cv(a) == cv(b) else 0, 1)
    if a.op == "c":
        a, b = b, a
    w = a.w
    if w == 1:
        if b.op == "c":
            return a if cv(b) else bnot(a)
        return bnot(bxor(a, b))
    if b.op == "c":
        v = cv(b)
        if v & kz(a) or v > ub(a):
            return FALSE
        if a.op == "cat":
            if len(a.args) == 2 and a.args[1].op == "ite":
                x = a.args[0]
                if sext(x, w) is a:
                    return eq(x, C(v, x.w)) if sext(C(v, x.w), w) is b else FALSE
            p = 0
            rs = []
            for x in a.args:
                rs.append(eq(x, C(v >> p, x.w)))
                p += x.w
            return bitop("and", rs, 1)
        if a.op == "ite":
            x, y = a.args[1], a.args[2]
            if x.op == "c" or y.op == "c" or True:
                ex, ey = eq(x, b), eq(y, b)
                if ex.op == "c" or ey.op == "c":
                    return ite(a.args[0], ex, ey)
        if a.op == "or" and v == 0:
            return bitop("and", [eq(x, b) for x in a.args], 1)
        if a.op == "and" and v == ones(w):
            return bitop("and", [eq(x, b) for x in a.args], 1)
        if a.op == "xor":
            if a.args[0].op == "c":
                return eq(bitop("xor", list(a.args[1:]), w), C(v ^ cv(a.args[0]), w))
            if len(a.args) == 2 and v == 0:
                return eq(a.args[0], a.args[1])
        if a.op == "add":
            c, ts = a.args
            if c:
                return eq(lin(0, ts, w), C(v - c, w))
            if v == 0 and len(ts) == 2 and (ts[0][1] + ts[1][1]) & ones(w) == 0 and ts[0][1] in (1, ones(w)):
                return eq(ts[0][0], ts[1][0])
            if v == 0 and len(ts) > 1 and _negative(ts, w):
                return eq(neg(a), b)
            if len(ts) == 1 and ts[0][1] == ones(w):
                return eq(ts[0][0], C(-v, w))
        # high known zero bits
        if a.op not in ("add", "mul", "uf", "v") and kz(a):
            pass
    else:
        if a.op == "cat" and b.op == "cat" and len(a.args) == 2 and len(b.args) == 2 and a.args[0].w == b.args[0].w:
            x, y = a.args[0], b.args[0]
            if a.args[1].op == "ite" and b.args[1].op == "ite" and sext(x, w) is a and sext(y, w) is b:
                return eq(x, y)
        if a.op == "cat" or b.op == "cat":
            cuts = {0, w}
            for x in (a, b):
                if x.op == "cat":
                    p = 0
                    for y in x.args:
                        cuts.add(p)
                        p += y.w
            cuts = sorted(cuts)
            return bitop("and", [eq(ext(a, cuts[i], cuts[i + 1] - cuts[i]), ext(b, cuts[i], cuts[i + 1] - cuts[i]))
                                 for i in range(len(cuts) - 1)], 1)
        if a.op == "add" or b.op == "add":
            d = sub(a, b)
            if d.op != "add":
                return eq(d, C(0, w))
            c, ts = d.args
            if not (len(ts) == 2 and c == 0):
                if c and len(ts) == 1:
                    return eq(lin(0, ts, w), C(-c, w))
                # canonical sign
                if _negative(ts, w):
                    d = neg(d)
                    c, ts = d.args
                if c:
                    return mkeq(lin(0, ts, w), C(-c, w))
                return mkeq(d, C(0, w))
    return mkeq(a, b)


def mkeq(a, b):
    if b.op != "c" and (a.op == "c" or a.id > b.id):
        a, b = b, a
    return mk("eq", 1, (a, b))


def ne(a, b):
    return bnot(eq(a, b))


def ult(a, b):
    assert a.w == b.w
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        return C(1 if cv(a) < cv(b) else 0, 1)
    w = a.w
    if b.op == "c":
        if cv(b) == 0:
            return FALSE
        if ub(a) < cv(b):
            return TRUE
        if cv(b) == 1:
            return eq(a, C(0, w))
        if cv(b) == ones(w):
            return ne(a, b)
    if a.op == "c":
        if cv(a) == ones(w) or cv(a) >= ub(b):
            return FALSE
        if cv(a) == 0:
            return ne(b, a)
    if w == 1:
        return band(bnot(a), b)
    # strip common zero extension
    if a.op == "cat" or b.op == "cat":
        za = w - (ones(w) & ~kz(a)).bit_length()
        zb = w - (ones(w) & ~kz(b)).bit_length()
        z = min(za, zb)
        if z > 0:
            return ult(ext(a, 0, w - z), ext(b, 0, w - z))
    if b.op == "c" and a.op == "cat" and len(a.args) == 2 and cv(b) & (cv(b) - 1) == 0:
        pass
    if b.op == "c":
        v = cv(b)
        if v & (v - 1) == 0:
            s = v.bit_length() - 1
            return eq(ext(a, s, w - s), C(0, w - s))
    if a.op == "c":
        v = cv(a) + 1
        if v & (v - 1) == 0:
            s = v.bit_length() - 1
            return ne(ext(b, s, w - s), C(0, w - s))
        # c < b  ==  !(b < c+1)
        return bnot(mk("ult", 1, (b, C(v, w))))
    if b.op == "c" and a.op == "ite" and (a.args[1].op == "c" or a.args[2].op == "c"):
        x, y = ult(a.args[1], b), ult(a.args[2], b)
        if x.op == "c" or y.op == "c":
            return ite(a.args[0], x, y)
    return mk("ult", 1, (a, b))


def slt(a, b):
    w = a.w
    h = 1 << (w - 1)
    if kz(a) & kz(b) & h:
        return ult(a, b)
    return ult(lin(h, ((a, 1),), w), lin(h, ((b, 1),), w))


def ule(a, b):
    return bnot(ult(b, a))


def sle(a, b):
    return bnot(slt(b, a))


# ---- selection
def ite(c, a, b):
    assert a.w == b.w and c.w == 1
    if c.op == "c":
        return a if cv(c) else b
    if a is b:
        return a
    if c.op == "xor" and c.args[0].op == "c":
        rest = c.args[1] if len(c.args) == 2 else bitop("xor", list(c.args[1:]), 1)
        return ite(rest, b, a)
    if a.op == "ite" and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == "ite" and b.args[0] is c:
        return ite(c, a, b.args[2])
    if a.op == "cat" and any(x.op == "ite" and x.args[0] is c for x in a.args):
        return ite(c, cat([x.args[1] if x.op == "ite" and x.args[0] is c else x for x in a.args]), b)
    if b.op == "cat" and any(x.op == "ite" and x.args[0] is c for x in b.args):
        return ite(c, a, cat([x.args[2] if x.op == "ite" and x.args[0] is c else x for x in b.args]))
    w = a.w
    if w == 1:
        if a.op == "c":
            return bor(c, b) if cv(a) else band(bnot(c), b)
        if b.op == "c":
            return bor(bnot(c), a) if cv(b) else band(c, a)
        if a is bnot(b):
            return bnot(bxor(c, a))
        if a is c:
            return bor(c, b)
        if b is c:
            return band(c, a)
        return mk("ite", 1, (c, a, b))
    if a.op == "c" and b.op == "c":
        x, y = cv(a), cv(b)
        if y == 0 and x == 1:
            return cat([c, C(0, w - 1)])
        if x == 0 and y == 1:
            return cat([bnot(c), C(0, w - 1)])
        # common constant prefix/suffix: turn into slices
        d = x ^ y
        lo = (d & -d).bit_length() - 1
        hi = d.bit_length()
        if hi - lo == 1 and (lo > 0 or hi < w):
            mid = c if (x >> lo) & 1 else bnot(c)
            parts = []
            if lo:
                parts.append(C(x, lo))
            parts.append(mid)
            if hi < w:
                parts.append(C(x >> hi, w - hi))
            return cat(parts)
        if lo > 0 or hi < w:
            parts = []
            if lo:
                parts.append(C(x, lo))
            parts.append(mk("ite", hi - lo, (c, C(x >> lo, hi - lo), C(y >> lo, hi - lo))))
            if hi < w:
                parts.append(C(x >> hi, w - hi))
            return cat(parts)
        return mk("ite", w, (c, a, b))
    # shared slices at either end
    if a.op == "cat" and (b.op == "cat" or b.op == "c") or b.op == "cat" and a.op == "c":
        for (x, y) in ((a, b), (b, a)):
            if x.op == "cat":
                t = x.args[-1]
                o = ext(y, w - t.w, t.w)
                if o is t:
                    return cat([ite(c, ext(a, 0, w - t.w), ext(b, 0, w - t.w)), t])
                t = x.args[0]
                o = ext(y, 0, t.w)
                if o is t:
                    return cat([t, ite(c, ext(a, t.w, w - t.w), ext(b, t.w, w - t.w))])
                break
        # leading constants agree partly
        za = kz(a)
        zb = kz(b)
        z = za & zb
        top = (ones(w) & ~z).bit_length()
        if 0 < top < w:
            return cat([ite(c, ext(a, 0, top), ext(b, 0, top)), C(0, w - top)])
    return mk("ite", w, (c, a, b))


# ---- shifts
def shl(a, s):
    if s.op == "c":
        k = cv(s)
        if k >= a.w:
            return C(0, a.w)
        if k == 0:
            return a
        return cat([C(0, k), ext(a, 0, a.w - k)])
    if a.op == "c" and cv(a) == 0:
        return a
    return mk("shl", a.w, (a, s))


def lshr(a, s):
    if s.op == "c":
        k = cv(s)
        if k >= a.w:
            return C(0, a.w)
        if k == 0:
            return a
        return zext(ext(a, k, a.w - k), a.w)
    if a.op == "c" and cv(a) == 0:
        return a
    return mk("lshr", a.w, (a, s))


def ashr(a, s):
    if s.op == "c":
        k = cv(s)
        if k == 0:
            return a
        if k >= a.w:
            k = a.w - 1
        return sext(ext(a, k, a.w - k), a.w)
    return mk("ashr", a.w, (a, s))


def rotr(a, k):
    k %= a.w
    if k == 0:
        return a
    return cat([ext(a, k, a.w - k), ext(a, 0, k)])


def rotl(a, k):
    return rotr(a, a.w - (k % a.w))


def udiv(a, b):
    if b.op == "c" and cv(b):
        d = cv(b)
        if a.op == "c":
            return C(cv(a) // d, a.w)
        if d == 1:
            return a
        if d & (d - 1) == 0:
            return lshr(a, C(d.bit_length() - 1, a.w))
        if ub(a) < d:
            return C(0, a.w)
        return _udivc(a, d)
    return mk("udiv", a.w, (a, b))


def _remainder(acc, items, w):
    """x - d * (x / d) is x mod d"""
    for n, k in items:
        q = n.args[0] if n.op == "cat" and len(n.args) == 2 and is_c(n.args[1]) and cv(n.args[1]) == 0 else n
        if q.op == "ext" and q.args[1] == 0 and q.w >= _nbits(q.args[0]):
            q = q.args[0]
        if q.op != "udiv" or not is_c(q.args[1]) or _nbits(q.args[0]) > w:
            continue
        d = cv(q.args[1])
        x = fit(q.args[0], w)
        kk = acc.get(x, 0)
        if kk and (kk * d + k) & ones(w) == 0 and d < 1 << w:
            return [(m, j) for m, j in items if m is not n and m is not x] + [(urem(x, C(d, w)), kk)]
    return None


def _nbits(t):
    return max(1, ub(t).bit_length())


def _strip(t):
    """(core, extra low-part slice start) without zero extension"""
    n = _nbits(t)
    return ext(t, 0, n) if n < t.w else t


def _udivc(a, d):
    """a / d for a constant d; canonical under zero extension, top slices, nested and long division"""
    w = a.w
    a = _strip(a)
    if ub(a) < d:
        return C(0, w)
    if a.op == "udiv" and is_c(a.args[1]):
        return fit(_udivc(a.args[0], d * cv(a.args[1])), w)
    if a.op == "ext":
        x, s = a.args
        if x.op == "udiv" and is_c(x.args[1]):
            if s == 0 and a.w >= _nbits(x):
                return fit(_udivc(x.args[0], d * cv(x.args[1])), w)
            if s + a.w >= _nbits(x):
                q = _udivc(x.args[0], d * cv(x.args[1]))
                if s < _nbits(q):
                    return fit(ext(q, s, q.w - s), w)
                return C(0, w)
        elif x.op != "cat" and s and s + a.w >= _nbits(x):
            q = _udivc(x, d)
            if s < q.w:
                return fit(ext(q, s, q.w - s), w)
    if a.op == "cat":
        r = _remhead(a, d)
        if r is None and is_c(a.args[-1]):
            # a constant head
            low, K = cat(list(a.args[:-1])), cv(a.args[-1])
            if low.op == "ext" and low.args[0].op == "udiv" and is_c(low.args[0].args[1]):
                A, c = low.args[0].args[0], cv(low.args[0].args[1])
                h = cv(A.args[-1]) if A.op == "cat" and is_c(A.args[-1]) else 0
                z = A.w - A.args[-1].w if A.op == "cat" and is_c(A.args[-1]) else A.w
                if low.args[1] + low.w == z and h < c:
                    H = K * c + h
                    q = _udivc(cat([ext(A, 0, z), C(H, max(1, H.bit_length()))]), c * d)
                    q = fit(q, max(q.w, z + w))
                    return ext(q, low.args[1], w)
            if K >= d:
                t = a.args[-1].w
                if K % d == 0:
                    lq = _udivc(low, d)
                else:
                    lq = _udivc(cat([low, C(K % d, (K % d).bit_length())]), d)
                return fit(cat([fit(lq, low.w), C(K // d, t)]), w)
        if r is not None:
            lo, p = r
            q = _udivc(cat([lo, p]), d)
            return fit(ext(fit(q, max(q.w, lo.w)), 0, lo.w), w)
    n = max(a.w, d.bit_length())
    m = mk("udiv", n, (fit(a, n), C(d, n)))
    k = max(1, (ub(a) // d).bit_length())
    return fit(ext(m, 0, k) if k < n else m, w)


def _remhead(a, d):
    """a = cat(lo, P mod d, 0): (lo, P)"""
    xs = list(a.args)
    while len(xs) > 1 and is_c(xs[-1]) and cv(xs[-1]) == 0:
        xs.pop()
    h = xs[-1]
    if len(xs) > 1:
        if h.op == "ext" and h.args[1] == 0 and h.args[0].op == "urem":
            h = h.args[0] if h.w >= _nbits(h.args[0]) else h
        if h.op == "urem" and is_c(h.args[1]) and cv(h.args[1]) == d:
            return cat(xs[:-1]), h.args[0]
        # a remainder below 2^k whose value is not reduced because it is small
        if h.op != "c" and ub(h) < d and cat(xs[:-1]).w >= 1 and h.op not in ("udiv",):
            return None
    return None


def _uremc(a, d):
    w = a.w
    b = a.args[0] if a.op == "ext" and a.args[1] == 0 and a.w >= _nbits(a.args[0]) else a
    if b.op == "add":
        r = _linrem(b, d)
        if r is not None:
            return fit(_uremc(r, d), w)
    a = _strip(a)
    if ub(a) < d:
        return fit(a, w)
    if a.op == "cat":
        r = _remhead(a, d)
        if r is not None:
            return fit(_uremc(cat(list(r)), d), w)
    if a.op == "cat" and is_c(a.args[-1]) and cv(a.args[-1]) >= d:
        K = cv(a.args[-1]) % d
        return fit(_uremc(cat(list(a.args[:-1]) + ([C(K, K.bit_length())] if K else [])), d), w)
    n = max(a.w, d.bit_length())
    m = mk("urem", n, (fit(a, n), C(d, n)))
    k = max(1, min(ub(a), d - 1).bit_length())
    return fit(ext(m, 0, k) if k < n else m, w)


def _bitmul(n):
    """n = k * bit: (bit as a 1-bit term, k)"""
    k, sh, c = 0, 0, None
    for x in (n.args if n.op == "cat" else (n,)):
        if x.op == "ite" and is_c(x.args[1]) and is_c(x.args[2]) and cv(x.args[2]) == 0 and c in (None, x.args[0]):
            c = x.args[0]
            k |= cv(x.args[1]) << sh
        elif x.w == 1 and not is_c(x) and c in (None, x):
            c = x
            k |= 1 << sh
        elif not is_c(x) or cv(x):
            return None
        sh += x.w
    return (c, k) if c is not None else None


def _linrem(a, d):
    """(k * (P mod d) + x) without overflow, with k = 2^s modulo d and x < 2^s: x + 2^s * P"""
    c, ts = a.args
    if len(ts) == 1 and ts[0][1] == 1:
        # constant head
        for s in (8, 16, 32):
            k = (1 << s) % d
            if k and c and c % k == 0 and c // k < d and ub(ts[0][0]) < (1 << s) and c + ub(ts[0][0]) <= ones(a.w):
                return cat([fit(ts[0][0], s), C(c // k, (c // k).bit_length())])
    if len(ts) == 1:
        c, ts = 0, (ts[0], (C(c, a.w), 1))
    if c or len(ts) != 2 or sum(ub(n) * k for n, k in ts) > ones(a.w):
        return None
    for (p, k), (x, j) in (ts, ts[::-1]):
        if j != 1:
            continue
        b = _bitmul(p)
        if b is not None and b[1] > 1:
            p, k = b[0], k * b[1]
        q = _strip(p)
        if q.op == "ext" and q.args[1] == 0 and q.w >= _nbits(q.args[0]):
            q = q.args[0]
        if q.op == "urem" and is_c(q.args[1]) and cv(q.args[1]) == d:
            q = q.args[0]
        elif ub(q) >= d:
            continue
        for s in (8, 16, 32):
            if (1 << s) % d == k % d and ub(x) < (1 << s) and k < d:
                return cat([fit(x, s), q])
    return None


def urem(a, b):
    if b.op == "c" and cv(b):
        d = cv(b)
        if a.op == "c":
            return C(cv(a) % d, a.w)
        if d & (d - 1) == 0:
            return band(a, C(d - 1, a.w))
        if ub(a) < d:
            return a
        return _uremc(a, d)
    return mk("urem", a.w, (a, b))


def _s(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def sdiv(a, b):
    w = a.w
    if a.op == "c" and b.op == "c" and cv(b):
        x, y = _s(cv(a), w), _s(cv(b), w)
        q = abs(x) // abs(y)
        return C(q if (x < 0) == (y < 0) else -q, w)
    if not (ub(a) >> (w - 1)) and not (ub(b) >> (w - 1)):
        return udiv(a, b)
    return mk("sdiv", w, (a, b))


def srem(a, b):
    w = a.w
    if a.op == "c" and b.op == "c" and cv(b):
        x, y = _s(cv(a), w), _s(cv(b), w)
        r = abs(x) % abs(y)
        return C(-r if x < 0 else r, w)
    if not (ub(a) >> (w - 1)) and not (ub(b) >> (w - 1)):
        return urem(a, b)
    return mk("srem", w, (a, b))


def uf(name, w, *args):
    return mk("uf", w, (name,) + tuple(args))


def bytes_be(t):
    """list of byte terms, most significant first"""
    n = t.w // 8
    return [ext(t, 8 * (n - 1 - i), 8) for i in range(n)]


def from_be(bs):
    return cat(list(reversed(bs)))


def from_le(bs):
    return cat(list(bs))


# ---- traversal
def children(t):
    op = t.op
    if op in ("c", "v"):
        return ()
    if op == "add":
        return tuple(n for n, k in t.args[1])
    return tuple(a for a in t.args if isinstance(a, T))


def topo(roots):
    seen = set()
    out = []
    for r in roots:
        if r in seen:
            continue
        stack = [(r, 0)]
        while stack:
            n, st = stack.pop()
            if st:
                out.append(n)
                continue
            if n in seen:
                continue
            seen.add(n)
            stack.append((n, 1))
            for ch in children(n):
                if ch not in seen:
                    stack.append((ch, 0))
    return out


def variables(roots):
    return [n for n in topo(roots) if n.op == "v"]


UF_EVAL = {}   # name -> python function(*ints/extras) -> int


def rebuild(t, sub, memo=None):
    """Substitute nodes (dict T->T) and re-canonicalise."""
    if memo is None:
        memo = {}
    for n in topo([t]):
        if n in sub:
            memo[n] = sub[n]
            continue
        op = n.op
        if op in ("c", "v"):
            memo[n] = n
            continue
        memo[n] = apply_op(n, [memo[c] for c in children(n)])
    return memo[t]


def apply_op(n, ch):
    op = n.op
    w = n.w
    if op == "add":
        return lin(n.args[0], [(c, k) for c, (_, k) in zip(ch, n.args[1])], w)
    if op == "mul":
        return mul(ch, w)
    if op in ("and", "or", "xor"):
        return bitop(op, ch, w)
    if op == "cat":
        return cat(ch)
    if op == "ext":
        return ext(ch[0], n.args[1], w)
    if op == "rot":
        return rotr(ch[0], n.args[1])
    if op == "eq":
        return eq(*ch)
    if op == "ult":
        return ult(*ch)
    if op == "ite":
        return ite(*ch)
    if op == "uf":
        it = iter(ch)
        return mk("uf", w, (n.args[0],) + tuple(next(it) if isinstance(a, T) else a for a in n.args[1:]))
    return {"shl": shl, "lshr": lshr, "ashr": ashr, "udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem}[op](*ch)


def compile_eval(roots, inputs=None):
    """Compile the DAG to a python function env(dict var-name->int) -> list of ints.
    This evaluates *terms* (for separating two different normal forms), not the program."""
    order = topo(roots)
    lines = []
    name = {}
    ufs = {}
    consts = {}
    for n in order:
        op = n.op
        m = hex(ones(n.w))
        if op == "c":
            name[n] = hex(n.args[0])
            continue
        nm = "t%d" % n.id
        if op == "v":
            e = "env[%r]" % (n.args[0],)
        elif op == "add":
            c, ts = n.args
            parts = []
            for x, k in ts:
                if k > ones(n.w) // 2:
                    k -= 1 << n.w
                parts.append(name[x] if k == 1 else "%d*%s" % (k, name[x]))
            if c:
                parts.append(str(c))
            e = "(%s)&%s" % ("+".join(parts), m)
        elif op == "mul":
            e = "(%s)&%s" % ("*".join(name[a] for a in n.args), m)
        elif op in ("and", "or", "xor"):
            e = {"and": "&", "or": "|", "xor": "^"}[op].join(name[a] for a in n.args)
        elif op == "cat":
            s = 0
            ps = []
            for a in n.args:
                if not (a.op == "c" and cv(a) == 0):
                    ps.append("(%s<<%d)" % (name[a], s) if s else name[a])
                s += a.w
            e = "|".join(ps) if ps else "0"
        elif op == "ext":
            x, lo = n.args
            e = "(%s>>%d)&%s" % (name[x], lo, m)
        elif op == "rot":
            x, k = n.args
            e = "((%s>>%d)|(%s<<%d))&%s" % (name[x], k, name[x], n.w - k, m)
        elif op == "eq":
            e = "1 if %s==%s else 0" % (name[n.args[0]], name[n.args[1]])
        elif op == "ult":
            e = "1 if %s<%s else 0" % (name[n.args[0]], name[n.args[1]])
        elif op == "ite":
            e = "%s if %s else %s" % (name[n.args[1]], name[n.args[0]], name[n.args[2]])
        elif op == "shl":
            e = "(%s<<%s)&%s if %s<%d else 0" % (name[n.args[0]], name[n.args[1]], m, name[n.args[1]], n.w)
        elif op == "lshr":
            e = "(%s>>%s) if %s<%d else 0" % (name[n.args[0]], name[n.args[1]], name[n.args[1]], n.w)
        elif op == "ashr":
            e = "(_s(%s,%d)>>min(%s,%d))&%s" % (name[n.args[0]], n.w, name[n.args[1]], n.w, m)
        elif op == "udiv":
            e = "(%s//%s if %s else %s)" % (name[n.args[0]], name[n.args[1]], name[n.args[1]], m)
        elif op == "urem":
            e = "(%s%%%s if %s else %s)" % (name[n.args[0]], name[n.args[1]], name[n.args[1]], name[n.args[0]])
        elif op in ("sdiv", "srem"):
            e = "_%s(%s,%s,%d)" % (op, name[n.args[0]], name[n.args[1]], n.w)
        elif op == "uf":
            fn = "u_%d" % len(ufs)
            key = n.args[0]
            if key in ufs:
                fn = ufs[key]
            else:
                ufs[key] = fn
            e = "%s(%s)&%s" % (fn, ",".join(name[a] if isinstance(a, T) else repr(a) for a in n.args[1:]), m)
        else:
            raise ValueError(op)
        lines.append("  %s=%s" % (nm, e))
        name[n] = nm
    src = "def f(env):\n" + "\n".join(lines) + "\n  return [%s]\n" % ",".join(name[r] for r in roots)

    def _sdiv(a, b, w):
        if b == 0:
            return 0
        a, b = _s(a, w), _s(b, w)
        q = abs(a) // abs(b)
        return (q if (a < 0) == (b < 0) else -q) & ones(w)

    def _srem(a, b, w):
        if b == 0:
            return a
        a, b = _s(a, w), _s(b, w)
        r = abs(a) % abs(b)
        return (-r if a < 0 else r) & ones(w)
    g = {"_s": _s, "_sdiv": _sdiv, "_srem": _srem}
    for key, fn in ufs.items():
        g[fn] = UF_EVAL.get(key) or _hashuf(key)
    exec(src, g)
    return g["f"]


def _hashuf(key):
    """An arbitrary but fixed interpretation of an uninterpreted function."""
    import hashlib

    def f(*a):
        h = hashlib.sha512(repr((key, a)).encode()).digest()
        return int.from_bytes(h + hashlib.sha512(h).digest() + hashlib.sha512(h + b"1").digest(), "big")
    return f
