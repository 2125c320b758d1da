"""Loops that compute a modular inverse by a binary extended Euclidean scheme.

The loop-carried 256-bit cells are replaced by unconstrained symbols at every visit of the loop header, so each pass through the body
is a transition between symbols.  For some assignment of the cells to the roles x, y, a, b the following is shown for the initial values
and for every transition, by partition in the linear domain (modulus m odd, value T < m):
  congruence   x = aT and y = bT modulo m         (the pair (x, y) and the pair (a, b) change by the same linear map)
  range        0 <= a, b < m
  gcd          x stays odd, the map is invertible over Z[1/2]: gcd(x, y) = gcd(m, T)
  progress     y' is even, and x' y' 2^h <= x y when y is even (h halvings per visit), x' y' <= x y always
  zero         y = 0 leaves x, y and a alone
Enough halvings drive the product below 1, hence y = 0, x = 1 (or T = 0 and x = m), and a is the inverse."""
import itertools
from fractions import Fraction
from .terms import *
from .linear import *

X, Y, A, B = V("gcd.x", 256), V("gcd.y", 256), V("gcd.a", 256), V("gcd.b", 256)
ROLES = (X, Y, A, B)


class Fail(Exception):
    pass


def base(M, T, zero=False):
    """modulus odd, 1 < M < 2^256 - 1, 0 <= T < M"""
    cx = Cx()
    if M.op == "c":
        m = const(cv(M))
    else:
        m = cx.symbol(M, 3, (1 << 256) - 3)
        cx = cx.refine(list(m)[0], 1)
        m = cx.env[M]
    t = cx.symbol(T)
    cx.cons.append(ladd(ladd(m, t, -1), const(-1)))
    return cx, m


def state(M, T):
    cx, m = base(M, T)
    x = cx.symbol(X)
    cx.symbol(Y)
    for s in (A, B):
        v = cx.symbol(s)
        cx.cons.append(ladd(ladd(m, v, -1), const(-1)))
    cx = cx.refine(list(x)[0], 1)
    return cx, (cx.env[M] if M in cx.env else const(cv(M)))


def pow2(q):
    q = abs(Fraction(q))
    return q != 0 and q.numerator & (q.numerator - 1) == 0 and q.denominator & (q.denominator - 1) == 0


def dyadic(q):
    d = Fraction(q).denominator
    return d & (d - 1) == 0


def modfree(l, M):
    """the form with multiples of the modulus (dyadic coefficient) removed"""
    l = dict(l)
    if M.op == "c":
        k = l.get(None, Fraction(0)) / cv(M)
        if k and dyadic(k):
            l.pop(None)
    else:
        k = l.pop(M, Fraction(0))
        if not dyadic(k):
            raise Fail("coefficient that is not dyadic")
    if not all(dyadic(c) for c in l.values()):
        raise Fail("coefficient that is not dyadic")
    return l


def linmap(lx, la, vars2, vars3, M):
    """coefficients (p, q) of lx over the first pair, equal to those of la over the second pair modulo the modulus"""
    la = modfree(la, M)
    p, q = lx.get(vars2[0], Fraction(0)), lx.get(vars2[1], Fraction(0))
    if set(lx) - set(vars2):
        raise Fail("new value is not a combination of the old pair")
    p2, q2 = la.get(vars3[0], Fraction(0)), la.get(vars3[1], Fraction(0))
    if set(la) - set(vars3) or (p, q) != (p2, q2):
        raise Fail("the pairs change by different linear maps")
    return p, q


def check_init(vals, M, T):
    x0, y0, a0, b0 = vals
    cx, m = base(M, T)

    def f(c):
        lx, ly, la, lb = [c.value(t) for t in vals]
        if not c.even(lx):
            raise Fail("x is even at the start")
        for v in (la, lb):
            if not c.decide(v) or not c.decide(ladd(ladd(c.value(M), v, -1), const(-1))):
                raise Fail("coefficient not below the modulus at the start")
        # x = a T mod m with constant a
        rows = []
        for lv, lc in ((lx, la), (ly, lb)):
            lv, lc = c.original(lv), c.original(lc)
            k = lv.pop(T, Fraction(0))
            if M.op == "c":
                mk = lv.pop(None, Fraction(0)) / cv(M)
            else:
                mk = lv.pop(M, Fraction(0))
            if lv:
                raise Fail("start value is not a combination of modulus and value")
            lc = ladd(modfree(lc, M), const(-k))
            if lc or not dyadic(k) or not dyadic(mk):
                raise Fail("start values are not congruent")
            rows.append((mk, k))
        if not pow2(rows[0][0] * rows[1][1] - rows[0][1] * rows[1][0]):
            raise Fail("start values have another gcd")
        return True
    explore(cx, f)


def check_step(vals, M, T):
    """halvings guaranteed by the transition when y is even"""
    cx, m = state(M, T)

    def f(c):
        n = [c.value(t) for t in vals]
        lx, ly, la, lb = n
        if not c.even(lx):
            raise Fail("x can become even")
        ev = c.even(ly) == 0
        for v in (la, lb):
            if not c.decide(v) or not c.decide(ladd(ladd(c.value(M), v, -1), const(-1))):
                raise Fail("coefficient can leave the range below the modulus")
        if not c.decide(ly):
            raise Fail("y can be negative")
        yeven = None
        # parity of the old y on this cell
        try:
            yeven = c.even(c.env[Y]) == 0
        except Split:
            pass
        ox, oy, oa, ob = [c.original(l) for l in n]
        r = [linmap(ox, oa, (X, Y), (A, B), M), linmap(oy, ob, (X, Y), (A, B), M)]
        if not pow2(r[0][0] * r[1][1] - r[0][1] * r[1][0]):
            raise Fail("the map is not invertible")
        # x' y' as a quadratic form in x, y
        (p, q), (s, t) = r
        xx, xy, yy = p * s, p * t + q * s, q * t
        if xx > 0 or yy > 0 or xy > 1:
            raise Fail("the product can grow")
        h = 0
        while xy <= 0 and h < 8 or xy and xy * 2 ** (h + 1) <= 1:
            h += 1
        y0 = c.ge0(ladd(const(0), c.env[Y], -1))
        return ev, yeven, h, y0
    rs = explore(cx, f)
    if not rs:
        raise Fail("no case")
    if not all(v[0] for c, v in rs):
        raise Fail("y can be odd after a step")
    h = min([v[2] for c, v in rs if v[1] is not False] or [0]), min(v[2] for c, v in rs)
    # y = 0
    cz, m = state(M, T)
    l = cz.env[Y]
    cz = cz.with_(lscale(l, -1))

    def g(c):
        for t, o in zip(vals[:3], ROLES[:3]):
            d = ladd(c.value(t), c.env[o], -1)
            if not (c.decide(d) and c.decide(lscale(d, -1))):
                raise Fail("y = 0 does not fix the state")
    explore(cz, g)
    return h


def check_final(res, M, T):
    """result term over the last state"""
    ca, cb = last(M, T)

    def same_(c, d, what):
        if not (c.decide(d) and c.decide(lscale(d, -1))):
            raise Fail(what)
    explore(ca, lambda c: same_(c, ladd(c.value(res), c.env[A], -1), "the result is not the coefficient of x = 1"))
    explore(cb, lambda c: same_(c, c.value(res), "the result for 0 is not 0"))


class Havoc(object):
    """records the transitions at the visits of one loop header"""

    def __init__(self, rd, wr):
        self.cells, self.rd, self.wr = None, rd, wr
        self.init, self.steps, self.syms = None, [], None

    def visit(self, state):
        vals = tuple(self.rd(state, c) for c in self.cells)
        if self.init is None:
            self.init = vals
            self.syms = [V("cell%d" % i, 256) for i in range(len(vals))]
        else:
            self.steps.append(vals)
        for c, s in zip(self.cells, self.syms):
            self.wr(state, c, s)


def prove(init, steps, result, syms, M, T, facts=()):
    """None, or why not"""
    if len(init) != 4:
        return "%d loop-carried cells" % len(init)
    errs = []
    for perm in itertools.permutations(range(4)):
        try:
            i = [init[k] for k in perm]
            check_init(i, M, T)
        except (Fail, Unsupported) as e:
            errs.append(str(e))
            continue
        sub = {syms[k]: ROLES[j] for j, k in enumerate(perm)}
        memo, done, total = {}, {}, 0
        try:
            for n, s in enumerate(steps):
                key = tuple(s)
                if key not in done:
                    vals = [rebuild(s[k], sub) for k in perm]
                    done[key] = check_step(vals, M, T)
                # the first visit may start from an odd y
                total += done[key][0 if n else 1]
            if total < 511:
                return "only %d halvings guaranteed" % total
            check_final(rebuild(result, sub), M, T)
            return None
        except (Fail, Unsupported) as e:
            errs.append("with the roles found: %s" % e)
            return errs[-1]
    return "no roles for the loop-carried cells: " + "; ".join(sorted(set(errs)))


def rejects(init, steps, cond, syms, M, T):
    """None when the condition holds in every state after the loop in which x = gcd(m, T) lies strictly between 1 and m; or why not"""
    errs = []
    for perm in roles(init, M, T):
        sub = {syms[k]: ROLES[j] for j, k in enumerate(perm)}
        try:
            done, total = {}, 0
            for n, s in enumerate(steps):
                key = tuple(s)
                if key not in done:
                    done[key] = check_step([rebuild(s[k], sub) for k in perm], M, T)
                total += done[key][0 if n else 1]
            if total < 511:
                return "only %d halvings guaranteed" % total
            cx, m = base(M, T)
            x = cx.symbol(X, 3, (1 << 256) - 1)
            for s in (A, B):
                v = cx.symbol(s)
                cx.cons.append(ladd(ladd(m, v, -1), const(-1)))
            cx.env[Y] = const(0)
            # x is odd, divides m and T, and T is neither 0 nor a multiple of m
            cx.cons.append(ladd(m, lscale(x, 3), -1))
            cx.cons.append(ladd(cx.env[T], x, -1))
            if all(v for c, v in explore(cx, lambda c: c.truth(rebuild(cond, sub)))):
                return None
            errs.append("the condition can be false")
        except (Fail, Unsupported) as e:
            errs.append("with the roles found: %s" % e)
    return "; ".join(errs) or "no roles for the loop-carried cells"


def roles(init, M, T):
    for perm in itertools.permutations(range(4)) if len(init) == 4 else ():
        try:
            check_init([init[k] for k in perm], M, T)
            yield perm
        except (Fail, Unsupported):
            pass


def last(M, T):
    """contexts of the state after the loop: value not zero, value zero"""
    cx, m = base(M, T)
    ca = cx.copy()
    ca.symbol(A)
    ca.symbol(B)
    ca.cons.append(ladd(ladd(m, ca.env[A], -1), const(-1)))
    ca.cons.append(ladd(ca.env[T], const(-1)))
    ca.env[X], ca.env[Y] = const(1), const(0)
    cb = cx.copy()
    cb.symbol(B)
    cb.cons.append(lscale(cb.env[T], -1))
    cb.env[X], cb.env[Y], cb.env[A] = m, const(0), const(0)
    return ca, cb


def unreachable(cond, M, T):
    """the condition is false in every state after the loop"""
    try:
        return not any(v for cx in last(M, T) for c, v in explore(cx, lambda c: c.truth(cond)))
    except (Fail, Unsupported) as e:
        return False
