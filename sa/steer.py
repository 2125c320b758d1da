"""Random interpretation with steering: from a random valuation of a graph's symbols, change one symbol slice so that a chosen
comparison or carry in the graph comes out differently.  Only used to find valuations that separate two differing graphs."""
from .terms import *


class Steer(object):
    def __init__(self, roots, g, maxnodes=9000):
        self.ok = False
        order = topo(roots)
        if len(order) > maxnodes:
            return
        self.order = order
        self.g = g
        self.r = g.r
        dep = {}
        for n in order:
            dep[n] = n.op == "v" or any(dep[c] for c in children(n))
        self.dep = dep
        goals = []
        for n in order:
            if n.op in ("eq", "ult") and n.args[0].w > 1:
                goals.append(n)
            elif n.op == "ext" and n.args[0].op in ("add", "mul") and n.args[1] > 0:
                goals.append(n)
        if not goals:
            return
        self.goals = goals
        self.f = compile_eval(order)
        self.ok = True

    def refresh(self):
        self.val = dict(zip(self.order, self.f(self.env)))

    def steer(self, env, rounds):
        self.env = env
        hist = []
        for _ in range(rounds):
            self.refresh()
            if hist and self.r.randrange(3):
                n = self.r.choice(hist[-1:] + [self.r.choice(self.goals)])
            else:
                n = self.r.choice(self.goals)
            hist.append(n)
            self.budget = 60
            self.want(n)
        return self.env

    def want(self, n):
        r = self.r
        if n.op == "ext":
            t = r.choice([0, 1, ones(n.w), ones(n.w) - 1, r.getrandbits(n.w)]) & ones(n.w)
            return self.inv(n, t)
        a, b = n.args
        if r.randrange(2):
            a, b = b, a
        if not self.dep[a]:
            a, b = b, a
        d = r.choice([0, 0, 0, 1, -1, 2, -2]) if n.op == "eq" else r.choice([0, 0, -1, 1, 1, r.getrandbits(r.randrange(1, a.w + 1)), -r.getrandbits(r.randrange(1, a.w + 1))])
        return self.inv(a, (self.val[b] + d) & ones(a.w))

    def inv(self, n, t):
        """try to give node n the value t by changing one symbol; no guarantee"""
        self.budget -= 1
        if self.budget < 0 or not self.dep[n]:
            return False
        v = self.val
        r = self.r
        op = n.op
        if v[n] == t:
            return True
        m = ones(n.w)
        if op == "v":
            self.env[n.args[0]] = t
            v[n] = t
            return True
        if op == "ext":
            x, lo = n.args
            return self.inv(x, (v[x] & ~(m << lo)) | (t << lo))
        if op == "cat":
            s = 0
            any_ = False
            for a in n.args:
                q = (t >> s) & ones(a.w)
                s += a.w
                if v[a] != q and self.dep[a]:
                    any_ = self.inv(a, q) or any_
            return any_
        if op == "add":
            c, ts = n.args
            ks = [i for i, (x, k) in enumerate(ts) if self.dep[x]]
            r.shuffle(ks)
            for i in ks:
                x, k = ts[i]
                rest = (t - v[n] + k * v[x]) & m
                z = (k & -k).bit_length() - 1
                if z >= n.w:
                    continue
                rest >>= z
                q = rest * pow(k >> z, -1, 1 << n.w) & m
                if z and r.randrange(2):
                    q |= v[x] & ~(m >> z)
                if self.inv(x, q & ones(x.w)):
                    return True
            return False
        if op == "mul":
            i = r.randrange(len(n.args))
            p = 1
            for j, a in enumerate(n.args):
                if j != i:
                    p *= v[a]
            x = n.args[i]
            pm = p & m
            if pm == 0:
                return False
            if pm & 1 and (t % p or r.randrange(4) == 0) and r.randrange(2):
                q = t * pow(pm, -1, 1 << n.w) & m
            else:
                q = t // p + r.choice([0, 0, 1])
            return self.inv(x, q & ones(x.w))
        if op == "xor":
            xs = [a for a in n.args if self.dep[a]]
            x = r.choice(xs)
            return self.inv(x, t ^ v[n] ^ v[x])
        if op in ("and", "or"):
            xs = [a for a in n.args if self.dep[a]]
            r.shuffle(xs)
            if n.w == 1:
                if (op == "and") == bool(t):
                    return any([self.inv(x, t) for x in xs])
                return self.inv(xs[0], t)
            for x in xs:
                o = ones(n.w) if op == "and" else 0
                for y in n.args:
                    if y is not x:
                        o = o & v[y] if op == "and" else o | v[y]
                q = (v[x] & ~o | t & o) if op == "and" else (v[x] & o | t & ~o)
                if q != v[x] and self.inv(x, q & m):
                    return True
            return False
        if op == "rot":
            x, k = n.args
            return self.inv(x, ((t << k) | (t >> (n.w - k))) & m)
        if op == "ite":
            c, a, b = n.args
            if self.dep[c] and r.randrange(4) == 0:
                return self.inv(c, 1 - v[c])
            return self.inv(a if v[c] else b, t)
        if op == "eq" or op == "ult":
            return self.want_bool(n, t)
        if op == "urem" and n.args[1].op == "c":
            d = cv(n.args[1])
            if t >= d:
                return False
            x = n.args[0]
            return self.inv(x, (v[x] - v[x] % d + t) & ones(x.w))
        if op == "udiv" and n.args[1].op == "c":
            d = cv(n.args[1])
            x = n.args[0]
            return self.inv(x, (t * d + v[x] % d) & ones(x.w)) if d else False
        if op in ("shl", "lshr") and not self.dep[n.args[1]]:
            s = v[n.args[1]]
            x = n.args[0]
            return self.inv(x, (t >> s if op == "shl" else t << s) & ones(x.w))
        return False

    def want_bool(self, n, t):
        a, b = n.args
        r = self.r
        if r.randrange(2):
            x, y = a, b
        else:
            x, y = b, a
        if not self.dep[x]:
            x, y = y, x
        if n.op == "eq":
            return self.inv(x, self.val[y] if t else self.val[y] ^ (1 << r.randrange(x.w)))
        d = r.choice([1, 1, r.getrandbits(r.randrange(1, x.w + 1))])
        if not t:
            d = -(d - 1)
        q = self.val[y] - d if x is a else self.val[y] + d
        if q < 0 or q > ones(x.w):
            return False
        return self.inv(x, q)
