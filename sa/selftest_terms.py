"""Differential self-test of the normaliser: every constructor must preserve the value of a term."""
import random
import sys
import os
sys.path.insert(0, os.path.dirname(__file__))
from terms import *
from terms import _ev2


def main(n=20000, seed=1):
    random.seed(seed)
    bad = 0
    for it in range(n):
        w = random.choice([8, 16, 32, 64])
        names = ['a', 'b', 'c']
        env = {n: random.choice([0, 1, mask(64), 1 << 63, random.getrandbits(64), random.getrandbits(8)]) for n in names}

        def gen(d, w):
            if d == 0 or random.random() < .15:
                if random.random() < .35:
                    v = random.choice([0, 1, mask(w), 1 << (w - 1), random.getrandbits(w), 255 & mask(w), (1 << random.randrange(w)) - 1])
                    return K(v, w), v & mask(w)
                n = random.choice(names)
                t = V(n, 64)
                v = env[n]
                if w < 64:
                    return ex(w - 1, 0, t), v & mask(w)
                return t, v
            o = random.choice(['add', 'sub', 'neg', 'mul', 'and', 'or', 'xor', 'not', 'shlc', 'lshrc', 'ashrc', 'sv', 'ite', 'zx', 'sx', 'ex', 'rot', 'mulw'])
            m = mask(w)
            if o in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
                (a, x), (b, y) = gen(d - 1, w), gen(d - 1, w)
                f = {'add': (add, x + y), 'sub': (sub, x - y), 'mul': (mul, x * y), 'and': (band, x & y), 'or': (bor, x | y), 'xor': (bxor, x ^ y)}[o]
                return f[0](a, b), f[1] & m
            if o == 'mulw':
                (a, x), (b, y) = gen(d - 1, w), gen(d - 1, w)
                e1, e2 = random.choice([zext, sext]), random.choice([zext, sext])
                p = mul(e1(a, 2 * w), e2(b, 2 * w))
                xv = x if e1 is zext else sgn(x, w)
                yv = y if e2 is zext else sgn(y, w)
                return ex(2 * w - 1, w, p), (xv * yv) >> w & m
            a, x = gen(d - 1, w)
            if o == 'neg':
                return neg(a), -x & m
            if o == 'not':
                return bnot(a), ~x & m
            k = random.randrange(w)
            if o == 'shlc':
                return shl_c(a, k), x << k & m
            if o == 'lshrc':
                return lshr_c(a, k), x >> k
            if o == 'ashrc':
                return ashr_c(a, k), (sgn(x, w) >> k) & m
            if o == 'sv':
                b, y = gen(d - 1, w)
                kind = random.choice(['shl', 'lshr', 'ashr'])
                return shift(kind, a, b), _ev2(kind, x, y % w, w)
            if o == 'rot':
                b, y = gen(d - 1, w)
                kind = random.choice(['ror', 'rol'])
                return rot(kind, a, b), _ev2('ror', x, (y if kind == 'ror' else -y) % w, w)
            if o == 'ite':
                w2 = random.choice([8, 16, 32, 64])
                (c1, v1), (c2, v2) = gen(d - 1, w2), gen(d - 1, w2)
                kind = random.choice(['eq', 'ult', 'slt', 'ule', 'sle', 'ne'])
                f = {'eq': (eq, v1 == v2), 'ne': (ne, v1 != v2), 'ult': (ult, v1 < v2), 'ule': (ule, v1 <= v2),
                     'slt': (slt, sgn(v1, w2) < sgn(v2, w2)), 'sle': (sle, sgn(v1, w2) <= sgn(v2, w2))}[kind]
                c = f[0](c1, c2)
                if random.random() < .3:
                    return zext(c, w), int(f[1])
                b, y = gen(d - 1, w)
                return ite(c, a, b), x if f[1] else y
            w2 = random.choice([v for v in (1, 4, 7, 8, 12, 16, 20, 32) if v < w] or [1])
            if o == 'zx':
                return zext(ex(w2 - 1, 0, a), w), x & mask(w2)
            if o == 'sx':
                return sext(ex(w2 - 1, 0, a), w), sgn(x & mask(w2), w2) & m
            lo = random.randrange(w)
            hi = random.randrange(lo, w)
            return zext(ex(hi, lo, a), w), x >> lo & mask(hi - lo + 1)
        t, v = gen(random.choice([2, 3, 4, 5]), w)
        r = Valuation(0, lambda n, w: env[n]).ev(t)
        if r != v:
            bad += 1
            if bad < 5:
                print(t, w, hex(r), hex(v), {k: hex(x) for k, x in env.items()})
    return bad


if __name__ == "__main__":
    b = main(int(sys.argv[1]) if len(sys.argv) > 1 else 20000)
    print("bad", b)
    sys.exit(1 if b else 0)
