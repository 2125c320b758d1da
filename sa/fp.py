"""Prime-field terms: constructors for field operations as 256-bit uninterpreted functions (their contracts are obligations of
C02/C26), a rational-function domain over F_p that evaluates such graphs under a case (symbols given as rational functions,
some polynomials known to be nonzero), and the secp256k1 group law as the reference."""
import random
from .terms import *
from .arith import P, N, GX, GY


class Unknown(Exception):
    """the case does not decide a condition, or a value leaves the domain"""


# ---------------------------------------------------------------- terms

def _comm(op, a, b):
    return uf(op, 256, a, b) if a.id <= b.id else uf(op, 256, b, a)


def fconst(t):
    return t.op == "c" and cv(t) < P


def fadd(a, b):
    if fconst(a) and fconst(b):
        return C((cv(a) + cv(b)) % P, 256)
    return _comm("f+", a, b)


def fsub(a, b):
    if fconst(a) and fconst(b):
        return C((cv(a) - cv(b)) % P, 256)
    return uf("f-", 256, a, b)


def fmul(a, b):
    if fconst(a) and fconst(b):
        return C(cv(a) * cv(b) % P, 256)
    return _comm("f*", a, b)


def finv(a):
    if fconst(a):
        return C(pow(cv(a), -1, P) if cv(a) else 0, 256)
    return uf("finv", 256, a)


UF_EVAL["f+"] = lambda a, b: (a + b) % P
UF_EVAL["f-"] = lambda a, b: (a - b) % P
UF_EVAL["f*"] = lambda a, b: a * b % P
UF_EVAL["finv"] = lambda a: pow(a, -1, P) if a % P else 0
FIELD_UF = {"f+", "f-", "f*", "finv"}


# ---------------------------------------------------------------- polynomials over F_p: {monomial (sorted (var, exp)): coef}

class FP(object):
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __add__(self, o):
        r = dict(self.d)
        for m, c in o.d.items():
            v = (r.get(m, 0) + c) % P
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return FP(r)

    def __neg__(self):
        return FP({m: P - c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    e = dict(m1)
                    for v, k in m2:
                        e[v] = e.get(v, 0) + k
                    m = tuple(sorted(e.items()))
                v = (r.get(m, 0) + c1 * c2) % P
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        if len(r) > 30000:
            raise Unknown("polynomial too large")
        return FP(r)

    def const(self):
        if not self.d:
            return 0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def __repr__(self):
        def co(c):
            return c if c < P // 2 else c - P
        s = []
        for m, c in sorted(self.d.items())[:8]:
            s.append("%d" % co(c) + "".join("*%s^%d" % v if v[1] > 1 else "*" + v[0] for v in m))
        return " + ".join(s) + (" ..." if len(self.d) > 8 else "") if s else "0"


def K(c):
    c %= P
    return FP({(): c} if c else {})


def X(name):
    return FP({((name, 1),): 1})


def divide(a, b):
    """exact quotient a/b with lexicographic division, or None"""
    if not b.d:
        return None
    vs = sorted({v for m in list(a.d) + list(b.d) for v, _ in m})

    def key(m):
        e = dict(m)
        return tuple(e.get(v, 0) for v in vs)
    lb = max(b.d, key=key)
    kb = dict(lb)
    ib = pow(b.d[lb], -1, P)
    q = FP({})
    r = a
    n = 0
    while r.d:
        n += 1
        if n > 4000:
            return None
        la = max(r.d, key=key)
        e = dict(la)
        ok = True
        for v, k in kb.items():
            if e.get(v, 0) < k:
                ok = False
                break
            e[v] -= k
            if not e[v]:
                del e[v]
        if not ok:
            return None
        t = FP({tuple(sorted(e.items())): r.d[la] * ib % P})
        q = q + t
        r = r - t * b
    return q


class Case(object):
    """an assignment of input symbols to rational functions, rewrite rules v^k -> polynomial, and nonzero polynomials"""

    def __init__(self, name, env, nonzero=(), rules=(), bools=()):
        self.name = name
        self.env = env              # symbol name -> FP
        self.nonzero = list(nonzero)
        self.rules = list(rules)    # (var, exponent, FP)
        self.bools = dict(bools)    # boolean symbols/terms -> bool

    def reduce(self, p):
        for v, k, rep in self.rules:
            while True:
                hit = None
                for m in p.d:
                    for w, e in m:
                        if w == v and e >= k:
                            hit = True
                            break
                    if hit:
                        break
                if not hit:
                    break
                keep, out = {}, FP({})
                for m, c in p.d.items():
                    e = dict(m)
                    if e.get(v, 0) >= k:
                        e[v] -= k
                        if not e[v]:
                            del e[v]
                        out = out + FP({tuple(sorted(e.items())): c}) * rep
                    else:
                        keep[m] = c
                p = FP(keep) + out
        return p

    def zero(self, p):
        """True / False / None"""
        p = self.reduce(p)
        if not p.d:
            return True
        c = p.const()
        if c is not None:
            return False
        ch = True
        while ch:
            ch = False
            for f in self.nonzero:
                q = divide(p, f)
                while q is not None:
                    p = q
                    ch = True
                    if p.const() is not None:
                        return False
                    q = divide(p, f)
        return False if p.const() is not None else None


class Eval(object):
    """lazy evaluation of field graphs under a case; values are (numerator, denominator) with nonzero denominator"""

    def __init__(self, case):
        self.case = case
        self.memo = {}
        self.bmemo = {}

    def val(self, t):
        r = self.memo.get(t)
        if r is None:
            # iterate to avoid deep recursion on long chains
            r = self.memo[t] = self._val(t)
        return r

    def _val(self, t):
        one = K(1)
        if t.op == "c":
            if cv(t) >= P:
                raise Unknown("constant not canonical")
            return K(cv(t)), one
        if t.op == "v":
            p = self.case.env.get(t.args[0])
            if p is None:
                raise Unknown("no field value for symbol %s" % t.args[0])
            return (p, one) if isinstance(p, FP) else p
        if t.op == "uf" and t.args[0] in FIELD_UF:
            op = t.args[0]
            a = self.val(t.args[1])
            if op == "finv":
                z = self.case.zero(a[0])
                if z is None:
                    raise Unknown("cannot tell whether the inverted value %r is zero" % a[0])
                return (K(0), one) if z else (a[1], a[0])
            b = self.val(t.args[2])
            if op == "f*":
                return self.case.reduce(a[0] * b[0]), self.mulden(a[1], b[1])
            sgn = (lambda x, y: x + y) if op == "f+" else (lambda x, y: x - y)
            if a[1].d == b[1].d:
                return self.case.reduce(sgn(a[0], b[0])), a[1]
            return self.case.reduce(sgn(a[0] * b[1], b[0] * a[1])), self.mulden(a[1], b[1])
        if t.op == "ite":
            c = self.boolean(t.args[0])
            if c is None:
                a = b = None
                try:
                    a = self.val(t.args[1])
                    b = self.val(t.args[2])
                except Unknown:
                    pass
                if a is not None and b is not None and self.case.zero(a[0] * b[1] - b[0] * a[1]) is True:
                    return a
                raise Unknown("undecided condition %s" % show(t.args[0], 3))
            return self.val(t.args[1] if c else t.args[2])
        raise Unknown("not a field expression: %s" % show(t, 3))

    def mulden(self, a, b):
        if a.const() == 1:
            return b
        if b.const() == 1:
            return a
        return self.case.reduce(a * b)

    def same(self, a, b):
        x, y = self.val(a), self.val(b)
        return self.case.zero(x[0] * y[1] - y[0] * x[1])

    def boolean(self, t):
        r = self.bmemo.get(t, 0)
        if r == 0:
            r = self.bmemo[t] = self._boolean(t)
        return r

    def _boolean(self, t):
        if t.op == "c":
            return bool(cv(t))
        if t in self.case.bools:
            return self.case.bools[t]
        if t.op == "eq" and t.args[0].w == 256:
            try:
                return self.same(*t.args)
            except Unknown:
                return None
        if t.op == "and":
            rs = [self.boolean(x) for x in t.args]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if t.op == "or":
            rs = [self.boolean(x) for x in t.args]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if t.op == "xor":
            r = False
            for x in t.args:
                v = self.boolean(x)
                if v is None:
                    return None
                r ^= v
            return r
        if t.op == "ite":
            c = self.boolean(t.args[0])
            if c is not None:
                return self.boolean(t.args[1] if c else t.args[2])
            a, b = self.boolean(t.args[1]), self.boolean(t.args[2])
            return a if a is not None and a == b else None
        return None


# ---------------------------------------------------------------- numeric reference

def sqrt(a):
    r = pow(a, (P + 1) // 4, P)
    return r if r * r % P == a % P else None


BETA = next(x for x in (pow(g, (P - 1) // 3, P) for g in range(2, 50)) if x != 1)


def rand_point(r):
    while True:
        x = r.choice([r.getrandbits(256) % P, r.randrange(1, 50), GX])
        if x == GX:
            return GX, r.choice([GY, P - GY])
        y = sqrt((x * x * x + 7) % P)
        if y:
            return x, r.choice([y, P - y])


def aff_add(a, b):
    """group law on affine points (None is infinity)"""
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        l = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else:
        l = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (l * l - a[0] - b[0]) % P
    return x, (l * (a[0] - x) - a[1]) % P


def aff_mul(k, a):
    r = None
    while k:
        if k & 1:
            r = aff_add(r, a)
        a = aff_add(a, a)
        k >>= 1
    return r


def rep_ok(pt, X_, Y_, Z_):
    """(X:Y:Z) represents pt"""
    if pt is None:
        return X_ % P == 0 and Z_ % P == 0 and Y_ % P != 0
    if Z_ % P == 0:
        return False
    i = pow(Z_, -1, P)
    return X_ * i % P == pt[0] and Y_ * i % P == pt[1]


# ---------------------------------------------------------------- group law obligations

def curve(v, w):
    return (w, 2, X(v) * X(v) * X(v) + K(7))


def point_case(i, kind, x=None, y=None):
    """symbols Xi, Yi, Zi for a representative of a point"""
    l = X("l%d" % i)
    if kind == "inf":
        return {"X%d" % i: K(0), "Y%d" % i: l, "Z%d" % i: K(0)}, [l]
    return {"X%d" % i: x * l, "Y%d" % i: y * l, "Z%d" % i: l}, [l]


def add_cases(selfarg=False):
    """(case, expected): expected is None for infinity, or a list of (X', Y', Z') relations given as affine fractions"""
    r = []
    x0, y0, x1, y1 = X("x0"), X("y0"), X("x1"), X("y1")
    fin0, nz0 = point_case(0, "fin", x0, y0)
    inf0, nzi = point_case(0, "inf")
    c0 = curve("x0", "y0")
    c1 = curve("x1", "y1")

    def dbl():
        n, d = K(3) * x0 * x0, K(2) * y0
        xs = n * n - K(2) * x0 * d * d             # over d^2
        ys = n * (x0 * d * d - xs) - y0 * d * d * d     # over d^3
        return (xs, d * d), (ys, d * d * d)
    if selfarg:
        r.append((Case("infinity + itself", inf0, nzi), None))
        r.append((Case("point + itself, y nonzero", fin0, nz0 + [y0, c0[2]], [c0]), dbl()))
        e, nz = point_case(0, "fin", x0, K(0))
        r.append((Case("point + itself, y zero", e, nz, [("x0", 3, K(-7))]), None))
        return r
    fin1, nz1 = point_case(1, "fin", x1, y1)
    inf1, nzj = point_case(1, "inf")
    r.append((Case("infinity + infinity", dict(inf0, **inf1), nzi + nzj), None))
    r.append((Case("infinity + point", dict(inf0, **fin1), nzi + nz1, [c1]), ((x1, K(1)), (y1, K(1)))))
    r.append((Case("point + infinity", dict(fin0, **inf1), nz0 + nzj, [c0]), ((x0, K(1)), (y0, K(1)))))
    n, d = y1 - y0, x1 - x0
    xs = n * n - (x0 + x1) * d * d
    ys = n * (x0 * d * d - xs) - y0 * d * d * d
    r.append((Case("different x", dict(fin0, **fin1), nz0 + nz1 + [x1 - x0], [c0, c1]), ((xs, d * d), (ys, d * d * d))))
    same1, nzs = point_case(1, "fin", x0, y0)
    r.append((Case("equal points, y nonzero", dict(fin0, **same1), nz0 + nzs + [y0, c0[2]], [c0]), dbl()))
    opp1, nzo = point_case(1, "fin", x0, -y0)
    r.append((Case("opposite points, y nonzero", dict(fin0, **opp1), nz0 + nzo + [y0, c0[2]], [c0]), None))
    e0, n0 = point_case(0, "fin", x0, K(0))
    e1, n1 = point_case(1, "fin", x0, K(0))
    r.append((Case("equal points, y zero", dict(e0, **e1), n0 + n1, [("x0", 3, K(-7))]), None))
    return r


def twice_cases():
    return [(Case(c.name.replace("point + itself", "double").replace("infinity + itself", "double infinity"), c.env, c.nonzero, c.rules), e)
            for c, e in add_cases(True)]


def check_sum(case, expected, out):
    """None if the output terms (X', Y', Z') represent the expected point in this case, else a reason"""
    ev = Eval(case)
    try:
        xo, yo, zo = [ev.val(t) for t in out]
        if expected is None:
            if case.zero(xo[0]) is not True or case.zero(zo[0]) is not True:
                return "result is not infinity"
            if case.zero(yo[0]) is not False:
                return "cannot show Y nonzero"
            return None
        if case.zero(zo[0]) is not False:
            return "cannot show Z nonzero"
        for v, (n, d) in ((xo, expected[0]), (yo, expected[1])):
            # v/z == n/d
            l = v[0] * zo[1] * d
            r = n * zo[0] * v[1]
            if case.zero(l - r) is not True:
                return "coordinate differs from the group law"
    except Unknown as e:
        return str(e)
    return None


def draw_points(r, kind, npts):
    """numeric representatives for a named case family; returns env, list of affine points"""
    env, pts = {}, []
    base = rand_point(r)
    for i in range(npts):
        k = kind[i]
        l = r.choice([1, 1, P - 1, 2, r.getrandbits(256) % P or 1])
        if k == "inf":
            env.update({"X%d" % i: 0, "Y%d" % i: l, "Z%d" % i: 0})
            pts.append(None)
            continue
        if k == "new":
            pt = rand_point(r)
        elif k == "same":
            pt = base
        elif k == "opp":
            pt = base[0], P - base[1]
        elif k == "endo":
            pt = base[0] * BETA % P, base[1]
        elif k == "endoneg":
            pt = base[0] * BETA % P, P - base[1]
        elif k == "endo2":
            pt = base[0] * BETA * BETA % P, base[1]
        elif k == "dbl":
            pt = aff_add(base, base)
        if r.randrange(3) == 0 and i == 1 and env["Z0"]:
            l = env["Z0"]
        env.update({"X%d" % i: pt[0] * l % P, "Y%d" % i: pt[1] * l % P, "Z%d" % i: l})
        pts.append(pt)
    return env, pts


ADD_KINDS = [("inf", "inf"), ("inf", "new"), ("new", "inf"), ("new", "new"), ("same", "same"), ("same", "opp"), ("same", "endo"),
             ("same", "endoneg"), ("same", "endo2"), ("same", "dbl")]


def separate_law(out, npts, seed, rounds, law, kinds):
    """random interpretation of the graph against the affine group law"""
    r = random.Random(seed)
    f = compile_eval(list(out))
    names = {v.args[0]: v.w for v in variables(list(out))}
    for i in range(rounds):
        for kind in kinds:
            env, pts = draw_points(r, kind, npts)
            for n, w in names.items():
                if n not in env:
                    env[n] = r.getrandbits(256) % P if w == 256 else r.getrandbits(w)
            o = f(env)
            want = law(*pts)
            if any(v >= P for v in o) or not rep_ok(want, *o):
                return "%s: (0x%x : 0x%x : 0x%x) does not represent %s at %s" % (
                    "/".join(kind), o[0], o[1], o[2], "infinity" if want is None else "(0x%x, 0x%x)" % want,
                    ", ".join("%s=0x%x" % kv for kv in sorted(env.items())))
    return None


def decide_law(rep, name, where, out, cases, npts, law, kinds):
    s = separate_law(out, npts, rep.seed, 60 if rep.thorough else 6, law, kinds)
    if s is not None:
        return rep.ob(name, "refuted", where, s)
    for case, want in cases:
        e = check_sum(case, want, out)
        rep.ob("%s: %s" % (name, case.name), "undecided" if e else "proved", where,
               e or "rational-function identity over F_p with the curve equation")
