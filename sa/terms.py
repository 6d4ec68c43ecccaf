"""Hash-consed bit-vector / array terms with a normalising constructor layer, and an evaluator used
for value numbering by random interpretation (Gulwani & Necula) of terms the normal form leaves apart.

Bool terms are 1-bit vectors.  Array sorts have w == 0 (register file, memory)."""
import hashlib
import itertools

_tab = {}
_ctr = itertools.count()


class T:
    __slots__ = ("op", "a", "w", "id")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def mk(op, w, *a):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.w, t.id = op, a, w, next(_ctr)
        _tab[k] = t
    return t


def show(t, depth=9):
    if not isinstance(t, T):
        return str(t)
    if t.op == "k":
        v = t.a[0]
        return hex(v) if v > 9 else str(v)
    if t.op == "v":
        return t.a[0]
    if depth == 0:
        return "…"
    if t.op == "sum":
        parts = []
        for c, x in t.a[1]:
            parts.append((str(c if c < (1 << (t.w - 1)) else c - (1 << t.w)) + "*" if c != 1 else "") + show(x, depth - 1))
        if t.a[0]:
            c = t.a[0]
            parts.append(str(c if c < (1 << (t.w - 1)) else c - (1 << t.w)))
        return "(" + " + ".join(parts) + ")"
    if t.op == "ex":
        return "%s[%d:%d]" % (show(t.a[2], depth - 1), t.a[0], t.a[1])
    return "%s(%s)" % (t.op, ", ".join(show(x, depth - 1) if isinstance(x, T) else str(x) for x in t.a))


def K(v, w):
    return mk("k", w, v & ((1 << w) - 1))


def V(name, w):
    return mk("v", w, name)


TRUE = K(1, 1)
FALSE = K(0, 1)


def isk(t):
    return t.op == "k"


def kv(t):
    return t.a[0]


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


# ---------------------------------------------------------------- linear sums
def _lin(t):
    """-> (const, {atom: coef})"""
    if t.op == "k":
        return t.a[0], ()
    if t.op == "sum":
        return t.a[0], t.a[1]
    return 0, ((1, t),)


def _mksum(w, c, d):
    m = mask(w)
    c &= m
    items = []
    for x, k in d.items():
        k &= m
        if k:
            items.append((k, x))
    # power-of-two factors live in the slice normal form
    norm = None
    for i, (k, x) in enumerate(items):
        if k & 1 == 0:
            if norm is None:
                norm = True
    if norm:
        d2 = {}
        for k, x in items:
            s = (k & -k).bit_length() - 1
            if s:
                y = shl_c(x, s)
                k >>= s
                # the odd factor only matters modulo 2^(w-s); pick the sign-minimal one
                if k >= 1 << (w - s - 1):
                    k = (k - (1 << (w - s))) & m
                c0, l0 = _lin(y)
                c = (c + k * c0) & m
                for kk, xx in l0:
                    d2[xx] = (d2.get(xx, 0) + k * kk) & m
            else:
                d2[x] = (d2.get(x, 0) + k) & m
        items = [(k & m, x) for x, k in d2.items() if k & m]
    if not items:
        return K(c, w)
    if c == 0 and len(items) == 1 and items[0][0] == 1:
        return items[0][1]
    items.sort(key=lambda p: p[1].id)
    return mk("sum", w, c, tuple(items))


def add(*ts):
    w = ts[0].w
    c = 0
    d = {}
    for t in ts:
        assert t.w == w, (t, t.w, w)
        c0, l = _lin(t)
        c += c0
        for k, x in l:
            d[x] = d.get(x, 0) + k
    # x + disjoint slices: concat(hi, 0) + concat(0, lo) is a concatenation
    if len(d) == 2 and c == 0 and all(k & mask(w) == 1 for k in d.values()):
        a, b = d
        o = _disjoint_or(a, b)
        if o is not None:
            return o
    return _mksum(w, c, d)


def neg(t):
    c0, l = _lin(t)
    return _mksum(t.w, -c0, {x: -k for k, x in l})


def sub(a, b):
    assert a.w == b.w, (a, b)
    return add(a, neg(b))


def mul(a, b):
    assert a.w == b.w
    w = a.w
    if isk(b):
        a, b = b, a
    if isk(a):
        k = kv(a)
        c0, l = _lin(b)
        return _mksum(w, c0 * k, {x: kk * k for kk, x in l})
    # pull negation/constant factors of single-atom sums out
    if a.id > b.id:
        a, b = b, a
    return mk("mul", w, a, b)


# ---------------------------------------------------------------- slices
def _pieces(t):
    if t.op == "cat":
        return t.a
    return (t,)


def cat(*ps):
    """high to low"""
    out = []
    for p in ps:
        if p.w == 0:
            continue
        for q in _pieces(p):
            if out:
                l = out[-1]
                if isk(l) and isk(q):
                    out[-1] = K(kv(l) << q.w | kv(q), l.w + q.w)
                    continue
                j = _join(l, q)
                if j is not None:
                    out[-1] = j
                    continue
            out.append(q)
    if len(out) == 1:
        return out[0]
    # sign extension in the shape of a concatenation of copies of the sign bit is handled by sext()
    return mk("cat", sum(p.w for p in out), *out)


def _join(h, l):
    """join adjacent slices of the same term"""
    if h.op == "ex" and l.op == "ex" and h.a[2] is l.a[2] and h.a[1] == l.a[0] + 1:
        return ex(h.a[0], l.a[1], h.a[2])
    if h.op == "ex" and h.a[2] is l and h.a[1] == l.w:
        return ex(h.a[0], 0, l)
    if isk(h) and kv(h) == 0 and l.op == "ex" and l.a[1] == 0 and l.a[2].w == h.w + l.w and \
            l.a[2].op in ("clz", "ctz", "pop") and l.a[2].w.bit_length() <= l.w:
        return l.a[2]
    # slice of a sign extension: sext(x)[hi:w(x)] ++ x
    if h.op == "sext" and h.a[0].w == 1 and h.a[0].op == "ex":
        b = h.a[0]
        src = b.a[2]
        bit = b.a[0]
        if l.op == "ex" and l.a[2] is src and l.a[0] == bit:
            return sext(l, h.w + l.w)
        if l is src and bit == l.w - 1:
            return sext(l, h.w + l.w)
        if l.op == "sext" and False:
            pass
    if h.op == "ex" and h.a[0] == h.a[1] and l.op == "ex" and False:
        pass
    return None


_exmemo = {}


def ex(hi, lo, t):
    assert 0 <= lo <= hi < t.w, (hi, lo, t, t.w)
    if hi - lo + 1 == t.w:
        return t
    k = (hi, lo, t.id)
    r = _exmemo.get(k)
    if r is None:
        r = _exmemo[k] = _ex(hi, lo, t)
    return r


def _ex(hi, lo, t):
    w = hi - lo + 1
    op = t.op
    if op == "k":
        return K(kv(t) >> lo, w)
    if op == "ex":
        return ex(hi + t.a[1], lo + t.a[1], t.a[2])
    if op == "cat":
        out = []
        pos = t.w
        for p in t.a:
            phi, plo = pos - 1, pos - p.w
            a, b = min(hi, phi), max(lo, plo)
            if a >= b:
                out.append(ex(a - plo, b - plo, p))
            pos = plo
        return cat(*out)
    if op == "sext":
        x = t.a[0]
        if hi < x.w:
            return ex(hi, lo, x)
        if lo < x.w:
            return sext(ex(x.w - 1, lo, x), w)
        s = ex(x.w - 1, x.w - 1, x)
        return sext(s, w)
    if op in ("and", "or", "xor"):
        f = {"and": band, "or": bor, "xor": bxor}[op]
        return f(*[ex(hi, lo, x) for x in t.a])
    if op == "not":
        return bnot(ex(hi, lo, t.a[0]))
    if op == "ite":
        return ite(t.a[0], ex(hi, lo, t.a[1]), ex(hi, lo, t.a[2]))
    if lo == 0:
        if op == "sum":
            r = K(t.a[0], w)
            for k, x in t.a[1]:
                r = add(r, mul(K(k, w), ex(hi, 0, x)))
            return r
        if op == "mul":
            return mul(ex(hi, 0, t.a[0]), ex(hi, 0, t.a[1]))
        if op == "shlm" and False:
            pass
    if lo == 0 and op in ("shl", "lshr", "ashr") and w & (w - 1) == 0 and w > 1:
        x, am = t.a
        n = w.bit_length() - 1
        if am.op == "cat" and isk(am.a[0]) and kv(am.a[0]) == 0 and am.w - am.a[0].w <= n:
            if op == "shl":
                return shift("shl", ex(hi, 0, x), ex(n - 1, 0, am))
            if op == "lshr" and x.op == "cat" and isk(x.a[0]) and kv(x.a[0]) == 0 and x.w - x.a[0].w <= w:
                return shift("lshr", ex(hi, 0, x), ex(n - 1, 0, am))
            if op == "ashr" and x.op == "sext" and x.a[0].w <= w:
                return shift("ashr", ex(hi, 0, x), ex(n - 1, 0, am))
    if op == "mul":
        h = t.w // 2
        a, b = t.a
        if lo >= h and t.w == 2 * h:
            za, zb = _half(a, h), _half(b, h)
            if za and zb:
                n = None
                if za[0] == zb[0]:
                    n = "umulh" if za[0] == "u" else "smulh"
                    x, y = za[1], zb[1]
                    if x.id > y.id:
                        x, y = y, x
                else:
                    n = "sumulh"
                    x, y = (za[1], zb[1]) if za[0] == "s" else (zb[1], za[1])
                r = mk(n, h, x, y)
                return ex(hi - h, lo - h, r)
        if hi < h and lo > 0:
            return ex(hi, lo, ex(h - 1, 0, t))
    return mk("ex", w, hi, lo, t)


def _half(x, h):
    if x.op == "cat" and len(x.a) >= 2 and isk(x.a[0]) and kv(x.a[0]) == 0 and x.a[0].w >= h:
        return ("u", ex(h - 1, 0, x))
    if x.op == "sext" and x.a[0].w <= h:
        return ("s", ex(h - 1, 0, x))
    if x.op == "k":
        if kv(x) >> h == 0:
            return ("u", K(kv(x), h))
    return None


def zext(t, w):
    if w == t.w:
        return t
    assert w > t.w
    return cat(K(0, w - t.w), t)


def sext(t, w):
    if w == t.w:
        return t
    assert w > t.w
    if isk(t):
        return K(sgn(kv(t), t.w), w)
    if t.op == "sext":
        return sext(t.a[0], w)
    if t.op == "cat" and isk(t.a[0]) and kv(t.a[0]) >> (t.a[0].w - 1) == 0:
        return zext(t, w)
    return mk("sext", w, t)


def trunc(t, w):
    return t if t.w == w else ex(w - 1, 0, t)


def shl_c(t, k):
    if k == 0:
        return t
    if k >= t.w:
        return K(0, t.w)
    return cat(ex(t.w - k - 1, 0, t), K(0, k))


def lshr_c(t, k):
    if k == 0:
        return t
    if k >= t.w:
        return K(0, t.w)
    return cat(K(0, k), ex(t.w - 1, k, t))


def ashr_c(t, k):
    if k == 0:
        return t
    k = min(k, t.w - 1)
    return sext(ex(t.w - 1, k, t), t.w)


def _log2(w):
    return w.bit_length() - 1


def shift(kind, t, amt):
    """shift with the amount taken modulo the width (what RISC-V, Rust release and x86 do).
    kind in shl,lshr,ashr; width a power of two."""
    n = _log2(t.w)
    a = amt if amt.w == n else (ex(n - 1, 0, amt) if amt.w > n else zext(amt, n))
    if isk(a):
        return {"shl": shl_c, "lshr": lshr_c, "ashr": ashr_c}[kind](t, kv(a))
    if a.op == "ite" and (isk(a.a[1]) or isk(a.a[2])):
        return ite(a.a[0], shift(kind, t, a.a[1]), shift(kind, t, a.a[2]))
    if isk(t) and kv(t) == 0:
        return t
    return mk(kind, t.w, t, a)


def rot(kind, t, amt):
    """kind ror/rol; canonical form is ror"""
    n = _log2(t.w)
    a = amt if amt.w == n else (ex(n - 1, 0, amt) if amt.w > n else zext(amt, n))
    if kind == "rol":
        a = neg(a)
    if isk(a):
        k = kv(a)
        if k == 0:
            return t
        return cat(ex(k - 1, 0, t), ex(t.w - 1, k, t))
    return mk("ror", t.w, t, a)


# ---------------------------------------------------------------- bitwise
def _bounds(ts):
    """piece boundaries if some operand has a constant piece"""
    cut = False
    for t in ts:
        if t.op == "cat" and any(isk(p) for p in t.a):
            cut = True
    if not cut:
        return None
    bs = set()
    for t in ts:
        if t.op == "cat":
            pos = t.w
            for p in t.a:
                pos -= p.w
                bs.add(pos)
    bs.discard(0)
    if len(bs) > 16:
        return None     # splitting would only multiply the graph
    return sorted(bs, reverse=True)


def _kruns(v, w):
    """split constant into runs of equal bits, high to low: [(hi,lo,bit)]"""
    out = []
    i = w - 1
    while i >= 0:
        b = v >> i & 1
        j = i
        while j > 0 and (v >> (j - 1) & 1) == b:
            j -= 1
        out.append((i, j, b))
        i = j - 1
    return out


def _bitop(op, ts):
    w = ts[0].w
    flat = []
    for t in ts:
        assert t.w == w, (op, [x.w for x in ts], ts)
        if t.op == op:
            flat.extend(t.a)
        else:
            flat.append(t)
    m = mask(w)
    kacc = {"and": m, "or": 0, "xor": 0}[op]
    xs = []
    for t in flat:
        if isk(t):
            v = kv(t)
            kacc = kacc & v if op == "and" else kacc | v if op == "or" else kacc ^ v
        elif op == "xor" and t.op == "not":
            kacc ^= m
            xs.append(t.a[0])
        else:
            xs.append(t)
    if op == "and" and kacc == 0:
        return K(0, w)
    if op == "or" and kacc == m:
        return K(m, w)
    # idempotence / cancellation
    if op == "xor":
        cnt = {}
        for x in xs:
            cnt[x] = cnt.get(x, 0) ^ 1
        xs = [x for x, c in cnt.items() if c]
    else:
        xs = list(dict.fromkeys(xs))
        s = set(xs)
        for x in xs:
            if x.op == "not" and x.a[0] in s:
                return K(0 if op == "and" else m, w)
    ident = {"and": m, "or": 0, "xor": 0}[op]
    if not xs:
        return K(kacc, w)
    if kacc != ident:
        # constant operand: split into runs
        base = _bitop(op, xs) if len(xs) > 1 else xs[0]
        out = []
        for hi, lo, b in _kruns(kacc, w):
            p = ex(hi, lo, base)
            if op == "and":
                out.append(p if b else K(0, hi - lo + 1))
            elif op == "or":
                out.append(K(mask(hi - lo + 1), hi - lo + 1) if b else p)
            else:
                out.append(bnot(p) if b else p)
        return cat(*out)
    if len(xs) == 1:
        return xs[0]
    bs = _bounds(xs)
    if bs:
        out = []
        hi = w - 1
        for b in bs + [0]:
            out.append(_bitop(op, [ex(hi, b, x) for x in xs]))
            hi = b - 1
        return cat(*out)
    if w == 1 and op == "and":
        # absorb contradictory equalities
        for x in xs:
            if x.op == "eq" and isk(x.a[1]):
                for y in xs:
                    if y is not x and y.op == "eq" and y.a[0] is x.a[0] and isk(y.a[1]):
                        return FALSE
    # push xor-not outwards for canonical form handled above (not stripped from xor operands)
    xs.sort(key=lambda x: x.id)
    return mk(op, w, *xs)


def band(*ts):
    return _bitop("and", ts)


def bor(*ts):
    return _bitop("or", ts)


def bxor(*ts):
    return _bitop("xor", ts)


def bnot(t):
    if isk(t):
        return K(~kv(t), t.w)
    if t.op == "not":
        return t.a[0]
    if t.op == "cat":
        return cat(*[bnot(p) for p in t.a])
    if t.op == "sext":
        return sext(bnot(t.a[0]), t.w)
    if t.op == "ite" and (isk(t.a[1]) or isk(t.a[2])):
        return ite(t.a[0], bnot(t.a[1]), bnot(t.a[2]))
    if t.w == 1 and t.op in ("and", "or"):
        f = bor if t.op == "and" else band
        return f(*[bnot(x) for x in t.a])
    if t.op == "sum":  # ~x = -x - 1 ; keep the linear form canonical
        return sub(neg(t), K(1, t.w))
    return mk("not", t.w, t)


def _disjoint_or(a, b):
    if a.op != "cat" and b.op != "cat":
        return None
    if a.w != b.w:
        return None

    def zmask(t):
        z = 0
        pos = t.w
        for p in _pieces(t):
            pos -= p.w
            if isk(p):
                z |= (~kv(p) & mask(p.w)) << pos
        return z

    if (zmask(a) | zmask(b)) == mask(a.w):
        return bor(a, b)
    return None


# ---------------------------------------------------------------- comparisons
def eq(a, b):
    assert a.w == b.w, (a, a.w, b, b.w)
    if a is b:
        return TRUE
    if isk(a) and isk(b):
        return TRUE if kv(a) == kv(b) else FALSE
    if isk(a):
        a, b = b, a
    if a.w == 1:
        if isk(b):
            return a if kv(b) else bnot(a)
        return bnot(bxor(a, b))
    if isk(b):
        if a.op == "cat":
            pos = a.w
            for p in a.a:
                pos -= p.w
                if isk(p) and kv(p) != (kv(b) >> pos) & mask(p.w):
                    return FALSE
            if any(isk(p) for p in a.a):
                rest = [(p, None) for p in a.a]
                pos = a.w
                parts, vals = [], []
                for p in a.a:
                    pos -= p.w
                    if not isk(p):
                        parts.append(p)
                        vals.append(K(kv(b) >> pos, p.w))
                if len(parts) == 1:
                    return eq(parts[0], vals[0])
                return eq(cat(*parts), cat(*vals))
        if a.op == "sext":
            x = a.a[0]
            v = kv(b)
            lo = v & mask(x.w)
            if sgn(lo, x.w) & mask(a.w) != v:
                return FALSE
            return eq(x, K(lo, x.w))
        if a.op == "ite":
            if isk(a.a[1]) or isk(a.a[2]):
                return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
        if a.op == "not":
            return eq(a.a[0], bnot(b))
        if a.op == "sum":
            # k*x + c == v
            if a.a[0] or (len(a.a[1]) == 1 and a.a[1][0][0] == mask(a.w)):
                rest = _mksum(a.w, 0, {x: k for k, x in a.a[1]})
                v = (kv(b) - a.a[0]) & mask(a.w)
                if len(a.a[1]) == 1 and a.a[1][0][0] == mask(a.w):
                    return eq(a.a[1][0][1], K(-v, a.w))
                if rest is not a:
                    return eq(rest, K(v, a.w))
            if kv(b) == 0 and len(a.a[1]) == 2:
                (k1, x1), (k2, x2) = a.a[1]
                if (k1 + k2) & mask(a.w) == 0 and k1 & 1:
                    return eq(x1, x2)
        if a.op == "xor" and kv(b) == 0 and len(a.a) == 2:
            return eq(a.a[0], a.a[1])
    else:
        if a.op == "cat" and b.op == "cat":
            # narrow equal constant high pieces
            if isk(a.a[0]) and isk(b.a[0]):
                n = min(a.a[0].w, b.a[0].w)
                if kv(a.a[0]) >> (a.a[0].w - n) != kv(b.a[0]) >> (b.a[0].w - n):
                    return FALSE
                return eq(ex(a.w - n - 1, 0, a), ex(b.w - n - 1, 0, b))
            if isk(a.a[-1]) and isk(b.a[-1]):
                n = min(a.a[-1].w, b.a[-1].w)
                if kv(a.a[-1]) & mask(n) != kv(b.a[-1]) & mask(n):
                    return FALSE
                return eq(ex(a.w - 1, n, a), ex(b.w - 1, n, b))
        if a.op == "sext" and b.op == "sext" and a.a[0].w == b.a[0].w:
            return eq(a.a[0], b.a[0])
        if a.op == "sum" or b.op == "sum":
            d = sub(a, b)
            if isk(d):
                return TRUE if kv(d) == 0 else FALSE
    if not isk(b) and a.id > b.id:
        a, b = b, a
    return mk("eq", 1, a, b)


def ne(a, b):
    return bnot(eq(a, b))


def ubound(t):
    """(lo, hi) unsigned bounds, cheap"""
    if isk(t):
        return kv(t), kv(t)
    if t.op == "cat" and isk(t.a[0]):
        lw = t.w - t.a[0].w
        h = kv(t.a[0]) << lw
        lo, hi = ubound(ex(lw - 1, 0, t)) if lw and len(t.a) == 2 else (0, mask(lw))
        return h + lo, h + hi
    if t.op == "ite":
        a, b = ubound(t.a[1]), ubound(t.a[2])
        return min(a[0], b[0]), max(a[1], b[1])
    if t.op in ("clz", "ctz", "pop"):
        return 0, t.a[0].w
    return 0, mask(t.w)


def ult(a, b):
    assert a.w == b.w, (a, b)
    if a is b:
        return FALSE
    al, ah = ubound(a)
    bl, bh = ubound(b)
    if ah < bl:
        return TRUE
    if al >= bh:
        return FALSE
    if isk(b) and kv(b) == 1:
        return eq(a, K(0, a.w))
    if isk(a) and kv(a) == 0:
        return ne(b, K(0, b.w))
    # x < 2^k  <=>  the high bits are zero
    if isk(b) and kv(b) & (kv(b) - 1) == 0:
        k = kv(b).bit_length() - 1
        return eq(ex(a.w - 1, k, a), K(0, a.w - k))
    if isk(a) and (kv(a) + 1) & kv(a) == 0:  # 2^k-1 < x
        k = kv(a).bit_length()
        if k < a.w:
            return ne(ex(b.w - 1, k, b), K(0, b.w - k))
    n = 0
    if a.op in ("cat", "k") and b.op in ("cat", "k"):
        def lead(t):
            p = _pieces(t)[0]
            if not isk(p):
                return 0
            return t.w - kv(p).bit_length() - (t.w - p.w) if kv(p) else (p.w if t.op == "cat" else t.w)
        n = min(lead(a), lead(b))
    if 0 < n < a.w:
        return ult(ex(a.w - n - 1, 0, a), ex(b.w - n - 1, 0, b))
    if a.w == 1:
        return band(bnot(a), b)
    return mk("ult", 1, a, b)


def ule(a, b):
    return bnot(ult(b, a))


def slt(a, b):
    if a is b:
        return FALSE
    if isk(a) and isk(b):
        return TRUE if sgn(kv(a), a.w) < sgn(kv(b), b.w) else FALSE
    if isk(b) and kv(b) == 0:
        return ex(a.w - 1, a.w - 1, a)
    if isk(a) and kv(a) == mask(a.w):
        return bnot(ex(b.w - 1, b.w - 1, b))

    def nar(t):
        if t.op == "sext":
            return t.a[0].w
        if t.op == "cat" and isk(t.a[0]) and kv(t.a[0]) == 0:
            return t.w - t.a[0].w + 1
        if isk(t):
            v = sgn(kv(t), t.w)
            return (v if v >= 0 else ~v).bit_length() + 1
        return t.w
    n = max(nar(a), nar(b))
    if n < a.w:
        return slt(ex(n - 1, 0, a), ex(n - 1, 0, b))
    if a.op == "cat" and isk(a.a[0]) and kv(a.a[0]) >> (a.a[0].w - 1) == 0 and \
            b.op == "cat" and isk(b.a[0]) and kv(b.a[0]) >> (b.a[0].w - 1) == 0:
        return ult(a, b)
    return mk("slt", 1, a, b)


def sle(a, b):
    return bnot(slt(b, a))


# ---------------------------------------------------------------- ite
def ite(c, a, b):
    assert c.w == 1
    assert a.w == b.w, (c, a, a.w, b, b.w)
    if isk(c):
        return a if kv(c) else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a.w == 1:
        if isk(a) and isk(b):
            return c if kv(a) else bnot(c)
        if isk(a):
            return bor(c, b) if kv(a) else band(bnot(c), b)
        if isk(b):
            return bor(bnot(c), a) if kv(b) else band(c, a)
    a = _assume(a, c, True)
    b = _assume(b, c, False)
    if a is b:
        return a
    if a.w > 1:
        if a.op == "ite" and a.a[1] is b:
            return ite(band(c, bnot(a.a[0])), a.a[2], b)
        if a.op == "ite" and a.a[2] is b:
            return ite(band(c, a.a[0]), a.a[1], b)
        if b.op == "ite" and b.a[1] is a:
            return ite(bor(c, b.a[0]), a, b.a[2])
        if b.op == "ite" and b.a[2] is a:
            return ite(bor(c, bnot(b.a[0])), a, b.a[1])
        # ite(x==k, k, x) is x
        if c.op == "eq":
            x, y = c.a
            if (a is y and b is x) or (a is x and b is y):
                return b
        # hoist common structure
        if a.op == "cat" or b.op == "cat":
            bs = _bounds([a, b])
            if bs and (isk(a) or a.op == "cat") and (isk(b) or b.op == "cat"):
                out = []
                hi = a.w - 1
                for p in bs + [0]:
                    out.append(ite(c, ex(hi, p, a), ex(hi, p, b)))
                    hi = p - 1
                return cat(*out)
        if a.op == "sext" and b.op == "sext" and a.a[0].w == b.a[0].w:
            return sext(ite(c, a.a[0], b.a[0]), a.w)
    return mk("ite", a.w, c, a, b)


_facts = {}


def _assume(t, c, val):
    """shallow simplification of t knowing condition c"""
    if t.op == "ite":
        cc = t.a[0]
        if cc is c:
            return t.a[1] if val else t.a[2]
        if cc.op == "not" and cc.a[0] is c:
            return t.a[2] if val else t.a[1]
        if val and c.op == "and" and cc in c.a:
            return t.a[1]
        if not val and c.op == "or" and cc in c.a:
            return t.a[2]
        if val and c.op == "and" and cc.op == "not" and False:
            pass
        if val and c.op == "and" and bnot(cc) in c.a:
            return t.a[2]
        if not val and c.op == "or" and bnot(cc) in c.a:
            return t.a[1]
    return t


# ---------------------------------------------------------------- misc ops
def un(op, t):
    """clz ctz pop bswap: same width result"""
    if isk(t):
        return K(_ev1(op, kv(t), t.w), t.w)
    if op == "pop" and t.op == "cat" and isk(t.a[0]) and kv(t.a[0]) == 0:
        n = t.w - t.a[0].w
        if n.bit_length() <= n:
            return zext(un("pop", ex(n - 1, 0, t)), t.w)
    return mk(op, t.w, t)


def bin2(op, a, b):
    """udiv urem sdiv srem clmul clmulh clmulr umulh ..."""
    assert a.w == b.w
    if isk(a) and isk(b):
        return K(_ev2(op, kv(a), kv(b), a.w), a.w)
    return mk(op, a.w, a, b)


def uf(name, w, *args):
    return mk("uf", w, name, *args)


# arrays ------------------------------------------------------------
def arr_var(name):
    return mk("av", 0, name)


_RR = {}


def rr(arr, i):
    """read register file"""
    a = arr
    while a.op == "rw":
        c = eq(a.a[1], i)
        if c is TRUE:
            return a.a[2]
        if c is FALSE:
            a = a.a[0]
            continue
        if a is arr:
            break
        break
    if a.op == "rw" and a.op != "aite":
        return ite(eq(a.a[1], i), a.a[2], rr(a.a[0], i))
    if a.op == "aite":
        k = (a.id, i.id)
        v = _RR.get(k)
        if v is None:
            v = _RR[k] = ite(a.a[0], rr(a.a[1], i), rr(a.a[2], i))
        return v
    if a.op == "av" and isk(i) and kv(i) == 0:
        return K(0, 64)      # initial register files have x0 = 0
    return mk("rr", 64, a, i)


def rw(arr, i, v):
    if arr.op == "rw" and arr.a[1] is i:
        return mk("rw", 0, arr.a[0], i, v)
    if v.op == "rr" and v.a[0] is arr and v.a[1] is i:
        return arr
    return mk("rw", 0, arr, i, v)


def aite(c, a, b):
    if isk(c):
        return a if kv(c) else b
    if a is b:
        return a
    if c.op == "not":
        return aite(c.a[0], b, a)
    return mk("aite", 0, c, a, b)


def mst(mem, n, addr, val):
    assert val.w == 8 * n, (val, n)
    return mk("mst", 0, mem, n, addr, val)


def mld(mem, n, addr):
    if mem.op == "mst" and mem.a[1] == n and mem.a[2] is addr:
        return mem.a[3]
    return mk("mld", 8 * n, mem, n, addr)


# ---------------------------------------------------------------- evaluation
M64 = mask(64)


def _h(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=16).digest(), "little")


def _clmul_full(a, b, w):
    r = 0
    for i in range(w):
        if b >> i & 1:
            r ^= a << i
    return r


def _ev1(op, v, w):
    if op == "clz":
        return w - v.bit_length()
    if op == "ctz":
        return w if v == 0 else (v & -v).bit_length() - 1
    if op == "pop":
        return bin(v).count("1")
    if op == "bswap":
        return int.from_bytes(v.to_bytes(w // 8, "little"), "big")
    raise KeyError(op)


def _ev2(op, a, b, w):
    m = mask(w)
    if op == "udiv":
        return m if b == 0 else a // b
    if op == "urem":
        return a if b == 0 else a % b
    if op in ("sdiv", "srem"):
        sa, sb = sgn(a, w), sgn(b, w)
        if sb == 0:
            return m if op == "sdiv" else a
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0):
            q = -q
        return (q if op == "sdiv" else sa - q * sb) & m
    if op == "umulh":
        return (a * b) >> w
    if op == "smulh":
        return ((sgn(a, w) * sgn(b, w)) >> w) & m
    if op == "sumulh":
        return ((sgn(a, w) * b) >> w) & m
    if op == "clmul":
        return _clmul_full(a, b, w) & m
    if op == "clmulh":
        return _clmul_full(a, b, w) >> w & m
    if op == "clmulr":
        return _clmul_full(a, b, w) >> (w - 1) & m
    if op == "shl":
        return (a << (b % w)) & m
    if op == "lshr":
        return a >> (b % w)
    if op == "ashr":
        return (sgn(a, w) >> (b % w)) & m
    if op == "ror":
        b %= w
        return ((a >> b) | (a << (w - b))) & m
    raise KeyError(op)


class Valuation:
    """assigns variables; arrays are functions"""

    def __init__(self, seed, assign):
        self.seed = seed
        self.assign = assign  # callable (name, w) -> int
        self.vars = {}
        self.memo = {}

    def var(self, n, w):
        if n not in self.vars:
            self.vars[n] = self.assign(n, w) & mask(w)
        return self.vars[n]

    def reg0(self, name, i):
        if i == 0:
            return 0
        return self.var("%s[%d]" % (name, i), 64)

    def byte0(self, name, a):
        return _h(self.seed, name, a) & 255

    def ev(self, t):
        memo = self.memo
        if t in memo:
            return memo[t]
        stack = [t]
        while stack:
            x = stack[-1]
            if x in memo:
                stack.pop()
                continue
            # lazy ite
            if x.op in ("ite", "aite"):
                c = memo.get(x.a[0])
                if c is None:
                    stack.append(x.a[0])
                    continue
                br = x.a[1] if c else x.a[2]
                r = memo.get(br)
                if r is None:
                    stack.append(br)
                    continue
                memo[x] = r
                stack.pop()
                continue
            need = [y for y in self._kids(x) if y not in memo]
            if need:
                stack.extend(need)
                continue
            memo[x] = self._ev(x)
            stack.pop()
        return memo[t]

    def _kids(self, x):
        if x.op == "sum":
            return [y for _, y in x.a[1]]
        return [y for y in x.a if isinstance(y, T)]

    def _ev(self, x):
        m = self.memo
        op, a, w = x.op, x.a, x.w
        if op == "k":
            return a[0]
        if op == "v":
            return self.var(a[0], w)
        if op == "sum":
            r = a[0]
            for k, y in a[1]:
                r += k * m[y]
            return r & mask(w)
        if op == "mul":
            return m[a[0]] * m[a[1]] & mask(w)
        if op == "cat":
            r = 0
            for p in a:
                r = r << p.w | m[p]
            return r
        if op == "ex":
            return m[a[2]] >> a[1] & mask(w)
        if op == "sext":
            return sgn(m[a[0]], a[0].w) & mask(w)
        if op == "and":
            r = mask(w)
            for y in a:
                r &= m[y]
            return r
        if op == "or":
            r = 0
            for y in a:
                r |= m[y]
            return r
        if op == "xor":
            r = 0
            for y in a:
                r ^= m[y]
            return r
        if op == "not":
            return ~m[a[0]] & mask(w)
        if op == "eq":
            return int(m[a[0]] == m[a[1]])
        if op == "ult":
            return int(m[a[0]] < m[a[1]])
        if op == "slt":
            return int(sgn(m[a[0]], a[0].w) < sgn(m[a[1]], a[1].w))
        if op in ("clz", "ctz", "pop", "bswap"):
            return _ev1(op, m[a[0]], w)
        if op == "av":
            return ("base", a[0])
        if op == "rw":
            return ("w", m[a[0]], m[a[1]], m[a[2]])
        if op == "rr":
            arr, i = m[a[0]], m[a[1]]
            while arr[0] == "w":
                if arr[2] == i:
                    return arr[3]
                arr = arr[1]
            return self.reg0(arr[1], i)
        if op == "mst":
            return ("m", m[a[0]], a[1], m[a[2]], m[a[3]])
        if op == "mld":
            mem, n, ad = m[a[0]], a[1], m[a[2]]
            r = 0
            for i in range(n):
                r |= self.mbyte(mem, (ad + i) & M64) << (8 * i)
            return r
        if op == "uf":
            args = tuple(m[y] if isinstance(y, T) else y for y in a[1:])
            return self.ufval(a[0], args, w)
        return _ev2(op, m[a[0]], m[a[1]], w)

    def mbyte(self, mem, ad):
        while mem[0] == "m":
            o = (ad - mem[3]) & M64
            if o < mem[2]:
                return mem[4] >> (8 * o) & 255
            mem = mem[1]
        return self.byte0(mem[1], ad)

    def ufval(self, name, args, w):
        v = _h(self.seed, name, args)
        if w == 1:
            # predicates are biased towards true: most are "this access is allowed"
            return int(v % 8 != 0)
        return v & mask(w)

    def memview(self, mem):
        """canonical contents of a memory value: written bytes -> value"""
        d = {}
        chain = []
        while mem[0] == "m":
            chain.append(mem)
            mem = mem[1]
        for _, _, n, ad, v in reversed(chain):
            for i in range(n):
                d[(ad + i) & M64] = v >> (8 * i) & 255
        base = mem[1]
        return (base, tuple(sorted((k, v) for k, v in d.items() if v != self.byte0(base, k))))

    def regview(self, arr):
        d = {}
        chain = []
        while arr[0] == "w":
            chain.append(arr)
            arr = arr[1]
        for c in reversed(chain):
            d[c[2]] = c[3]
        return (arr[1], tuple(sorted((k, v) for k, v in d.items() if v != self.reg0(arr[1], k))))

    def view(self, t):
        v = self.ev(t)
        if t.w == 0:
            # decide by content
            x = v
            while x[0] in ("w", "m"):
                if x[0] == "w":
                    return self.regview(v)
                return self.memview(v)
            return (v[1], ())
        return v


def size(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "sum":
            st.extend(y for _, y in x.a[1])
        else:
            st.extend(y for y in x.a if isinstance(y, T))
    return len(seen)


def leaves(t, ops=("v",)):
    seen = set()
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ops:
            out.append(x)
        if x.op == "sum":
            st.extend(y for _, y in x.a[1])
        else:
            st.extend(y for y in x.a if isinstance(y, T))
    return out


# ------------------------------------------------------------------ rebuilding
def rebuild(t, f, memo):
    """rebuild t bottom-up through the normalising constructors; f(t) may return a replacement or None"""
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        op, a = t.op, t.a
        if op in ("k", "v"):
            r = t
        elif op == "sum":
            r = K(a[0], t.w)
            for c, x in a[1]:
                y = rebuild(x, f, memo)
                r = add(r, mul(K(c, t.w), y) if c != 1 else y)
        else:
            n = tuple(rebuild(x, f, memo) if isinstance(x, T) else x for x in a)
            if all(p is q for p, q in zip(n, a)):
                r = t
            elif op == "cat":
                r = cat(*n)
            elif op == "ex":
                r = ex(*n)
            elif op == "sext":
                r = sext(n[0], t.w)
            elif op == "not":
                r = bnot(*n)
            elif op == "and":
                r = band(*n)
            elif op == "or":
                r = bor(*n)
            elif op == "xor":
                r = bxor(*n)
            elif op == "eq":
                r = eq(*n)
            elif op == "ult":
                r = ult(*n)
            elif op == "slt":
                r = slt(*n)
            elif op == "ite":
                r = ite(*n)
            elif op == "aite":
                r = aite(*n)
            elif op in ("shl", "lshr", "ashr"):
                r = shift(op, *n)
            elif op in ("rol", "ror"):
                r = rot(op, *n)
            elif op == "rr":
                r = rr(*n)
            elif op == "rw":
                r = rw(*n)
            elif op == "mld":
                r = mld(*n)
            elif op == "mst":
                r = mst(*n)
            elif op == "mul":
                r = n[0]
                for y in n[1:]:
                    r = mul(r, y)
            elif op in ("clz", "ctz", "pop", "bswap"):
                r = un(op, *n)
            elif op in ("udiv", "sdiv", "urem", "srem"):
                r = bin2(op, *n)
            else:
                r = mk(op, t.w, *n)
    memo[t] = r
    return r


def subst(t, m):
    return rebuild(t, lambda x: m.get(x), {})


def first_cond(t):
    """some undecided condition of a gate inside t, outermost first"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("ite", "aite"):
            c = x.a[0]
            while c.op == "not":
                c = c.a[0]
            st2 = [c]
            while st2:
                c = st2.pop()
                if c.op in ("and", "or", "xor", "not") and c.w == 1:
                    st2 += c.a
                else:
                    return c
        if x.op == "sum":
            st += [y for _, y in x.a[1]]
        else:
            st += [y for y in x.a if isinstance(y, T)]
    return None


def cases(t, limit=512):
    """the values t takes when every gate condition is decided: set of terms"""
    out, st = set(), [t]
    n = 0
    while st:
        x = st.pop()
        c = None if isk(x) else first_cond(x)
        if c is None:
            out.add(x)
            continue
        n += 1
        if n > limit:
            raise OverflowError("cases")
        st.append(subst(x, {c: TRUE}))
        st.append(subst(x, {c: FALSE}))
    return out
