"""Reduced ordered binary decision diagrams and bit-blasting of terms into them (canonical forms; no search)."""
from terms import *


class BDD:
    def __init__(self, limit=3000000):
        self.uniq = {}
        self.var = []
        self.lo = []
        self.hi = []
        for _ in range(2):
            self.var.append(1 << 30)
            self.lo.append(0)
            self.hi.append(0)
        self.m_ite = {}
        self.limit = limit

    def node(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.var)
            if n > self.limit:
                raise OverflowError("bdd")
            self.var.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.uniq[k] = n
        return n

    def v(self, i):
        return self.node(i, 0, 1)

    def ite(self, c, a, b):
        if c == 1:
            return a
        if c == 0:
            return b
        if a == b:
            return a
        if a == 1 and b == 0:
            return c
        k = (c, a, b)
        r = self.m_ite.get(k)
        if r is not None:
            return r
        var, lo, hi = self.var, self.lo, self.hi
        v = min(var[c], var[a], var[b])
        c0, c1 = (lo[c], hi[c]) if var[c] == v else (c, c)
        a0, a1 = (lo[a], hi[a]) if var[a] == v else (a, a)
        b0, b1 = (lo[b], hi[b]) if var[b] == v else (b, b)
        r = self.node(v, self.ite(c0, a0, b0), self.ite(c1, a1, b1))
        self.m_ite[k] = r
        return r

    def neg(self, a):
        return self.ite(a, 0, 1)

    def band(self, a, b):
        return self.ite(a, b, 0)

    def bor(self, a, b):
        return self.ite(a, 1, b)

    def bxor(self, a, b):
        return self.ite(a, self.neg(b), b)

    def witness(self, a):
        """one satisfying assignment {var: bit}"""
        out = {}
        while a > 1:
            if self.hi[a] != 0:
                out[self.var[a]] = 1
                a = self.hi[a]
            else:
                out[self.var[a]] = 0
                a = self.lo[a]
        return out


class Blast:
    """terms -> vectors of diagrams.  `order` gives, for named variables, the diagram variable of each bit; boolean
    atoms that are not bit-level (uninterpreted predicates, wide comparisons) become variables of their own."""

    def __init__(self, bdd, order):
        self.b = bdd
        self.order = order
        self.memo = {}
        self.atoms = {}
        self.next = 1 + max([max(v) for v in order.values()] or [0])

    def atom(self, t):
        n = self.atoms.get(t)
        if n is None:
            n = self.atoms[t] = []
            for _ in range(max(1, t.w)):
                n.append(self.b.v(self.next))
                self.next += 1
        return n

    def bits(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._bits(t)
        return r

    def one(self, t):
        return self.bits(t)[0]

    def addv(self, x, y, c=0):
        b = self.b
        out = []
        for p, q in zip(x, y):
            pq = b.bxor(p, q)
            out.append(b.bxor(pq, c))
            c = b.bor(b.band(p, q), b.band(pq, c))
        return out

    def eqv(self, x, y):
        r = 1
        for p, q in zip(x, y):
            r = self.b.band(r, self.b.neg(self.b.bxor(p, q)))
        return r

    def ultv(self, x, y):
        b = self.b
        r = 0
        for p, q in zip(x, y):     # from lsb
            r = b.ite(b.bxor(p, q), q, r)
        return r

    def _bits(self, t):
        b = self.b
        op = t.op
        if op == "k":
            return [t.a[0] >> i & 1 for i in range(t.w)]
        if op == "v":
            o = self.order.get(t.a[0])
            if o is None:
                return self.atom(t)
            return [b.v(i) for i in o]
        if op == "cat":
            out = []
            for p in reversed(t.a):
                out += self.bits(p)
            return out
        if op == "ex":
            return self.bits(t.a[2])[t.a[1]:t.a[0] + 1]
        if op == "sext":
            x = self.bits(t.a[0])
            return x + [x[-1]] * (t.w - len(x))
        if op == "not":
            return [b.neg(x) for x in self.bits(t.a[0])]
        if op in ("and", "or", "xor"):
            r = self.bits(t.a[0])
            f = {"and": b.band, "or": b.bor, "xor": b.bxor}[op]
            for y in t.a[1:]:
                r = [f(p, q) for p, q in zip(r, self.bits(y))]
            return r
        if op == "ite":
            c = self.one(t.a[0])
            return [b.ite(c, p, q) for p, q in zip(self.bits(t.a[1]), self.bits(t.a[2]))]
        if op == "eq":
            x, y = t.a[0], t.a[1]
            if x.w and self.small(x) and self.small(y):
                return [self.eqv(self.bits(x), self.bits(y))]
            return self.atom(t)
        if op == "ult" and self.small(t.a[0]) and self.small(t.a[1]):
            return [self.ultv(self.bits(t.a[0]), self.bits(t.a[1]))]
        if op == "slt" and self.small(t.a[0]) and self.small(t.a[1]):
            x, y = list(self.bits(t.a[0])), list(self.bits(t.a[1]))
            x[-1], y[-1] = b.neg(x[-1]), b.neg(y[-1])
            return [self.ultv(x, y)]
        if op == "sum" and self.small(t):
            r = [t.a[0] >> i & 1 for i in range(t.w)]
            for c, x in t.a[1]:
                xb = self.bits(x)
                for i in range(t.w):
                    if c >> i & 1:
                        r = self.addv(r, ([0] * i + xb)[:t.w])
            return r
        if op in ("shl", "lshr", "ashr") and self.small(t.a[0]) and self.small(t.a[1]):
            x, s = list(self.bits(t.a[0])), self.bits(t.a[1])
            for k, sb in enumerate(s):
                d = 1 << k
                if d >= t.w and sb == 0:
                    continue
                f = x[-1] if op == "ashr" else 0
                y = ([0] * min(d, t.w) + x)[:t.w] if op == "shl" else (x[d:] + [f] * min(d, t.w))[:t.w]
                x = [b.ite(sb, p, q) for p, q in zip(y, x)]
            return x
        return self.atom(t)

    def small(self, t):
        """is every leaf a bit-level variable?"""
        k = ("s", t)
        r = self.memo.get(k)
        if r is None:
            if t.op == "k":
                r = True
            elif t.op == "v":
                r = t.a[0] in self.order
            elif t.op in ("cat", "sext", "not", "and", "or", "xor", "ite", "eq", "ult", "slt", "shl", "lshr", "ashr"):
                r = all(self.small(x) for x in t.a if isinstance(x, T))
            elif t.op == "ex":
                r = self.small(t.a[2])
            elif t.op == "sum":
                r = all(self.small(x) for _, x in t.a[1])
            else:
                r = False
            self.memo[k] = r
        return r
