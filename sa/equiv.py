"""Deciding whether two value graphs denote the same function.

1. identical normal forms                                   -> equal (proved)
2. propositional structure over the same atoms compared as (multi-terminal) decision diagrams -> equal (proved)
3. otherwise the graphs are compared by random interpretation (Gulwani & Necula): leaves get values drawn from a pool
   that favours aliasing operands and boundary values, plus values solved backwards from the comparisons that occur in
   the graphs.  A difference yields a concrete witness (the graphs do denote different functions); agreement on every
   interpretation is reported as `agreed`, never as proved.
"""
import panics
import random
from terms import *
import terms as TM


# ------------------------------------------------------------------ decision diagrams over atoms
class DD:
    def __init__(self, limit=60000):
        self.uniq = {}
        self.memo = {}
        self.order = {}
        self.limit = limit

    def node(self, v, hi, lo):
        if hi is lo:
            return hi
        k = (v, id(hi), id(lo))
        n = self.uniq.get(k)
        if n is None:
            if len(self.uniq) > self.limit:
                raise OverflowError
            n = self.uniq[k] = ("n", v, hi, lo)
        return n

    def leaf(self, t):
        k = ("l", t.id)
        n = self.uniq.get(k)
        if n is None:
            n = self.uniq[k] = ("l", t)
        return n

    def var(self, t):
        if t not in self.order:
            self.order[t] = len(self.order)
        return self.order[t]

    def ite(self, c, a, b):
        if c[0] == "l":
            return a if c[1] is TRUE else b
        if a is b:
            return a
        k = ("i", id(c), id(a), id(b))
        r = self.memo.get(k)
        if r is not None:
            return r
        v = min(x[1] for x in (c, a, b) if x[0] == "n")
        f = lambda x, s: (x[2] if s else x[3]) if x[0] == "n" and x[1] == v else x
        r = self.node(v, self.ite(f(c, 1), f(a, 1), f(b, 1)), self.ite(f(c, 0), f(a, 0), f(b, 0)))
        self.memo[k] = r
        return r

    def build(self, t):
        """t -> diagram; propositional operators on width-1 terms, ite/aite at the top of wider ones"""
        m = self.memo
        k = ("b", t.id)
        if k in m:
            return m[k]
        T1, T0 = self.leaf(TRUE), self.leaf(FALSE)
        if t.op in ("ite", "aite"):
            r = self.ite(self.build(t.a[0]), self.build(t.a[1]), self.build(t.a[2]))
        elif t.w == 1 and t.op == "not":
            r = self.ite(self.build(t.a[0]), T0, T1)
        elif t.w == 1 and t.op in ("and", "or", "xor"):
            r = self.build(t.a[0])
            for x in t.a[1:]:
                y = self.build(x)
                if t.op == "and":
                    r = self.ite(r, y, T0)
                elif t.op == "or":
                    r = self.ite(r, T1, y)
                else:
                    r = self.ite(r, self.ite(y, T0, T1), y)
        elif isk(t) or t.w != 1:
            r = self.leaf(t)
        else:
            r = self.node(self.var(t), T1, T0)
        m[k] = r
        return r

    def pairs(self, c, a, b, out, seen):
        """leaf pairs reachable under c"""
        k = (id(c), id(a), id(b))
        if k in seen:
            return
        seen.add(k)
        if len(seen) > self.limit:
            raise OverflowError
        if c[0] == "l":
            if c[1] is FALSE:
                return
            if a is b:
                return
            if a[0] == "l" and b[0] == "l":
                out.add((a[1], b[1]))
                return
        v = min(x[1] for x in (c, a, b) if x[0] == "n")
        f = lambda x, s: (x[2] if s else x[3]) if x[0] == "n" and x[1] == v else x
        for s in (1, 0):
            self.pairs(f(c, s), f(a, s), f(b, s), out, seen)


# ------------------------------------------------------------------ directed random interpretation
SPECIAL = [0, 1, 2, 3, 7, 8, 31, 32, 33, 63, 64, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000,
           0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0xfffffffffffffffe,
           0xffffffff80000000, 0xffffffff7fffffff, 0x1000, 0xfff]


class Draw:
    def __init__(self, rng):
        self.rng = rng
        self.pool = [rng.getrandbits(64), rng.choice(SPECIAL), rng.choice(SPECIAL), sgn(rng.getrandbits(32), 32) & mask(64)]
        self.regpool = [0, rng.randrange(1, 32), rng.randrange(1, 32)]
        self.regmode = rng.random()

    def __call__(self, name, w):
        r = self.rng
        if w == 5:
            return r.choice(self.regpool) if self.regmode < 0.5 else r.randrange(32)
        x = r.random()
        if x < 0.35:
            return r.getrandbits(w)
        if x < 0.6:
            return r.choice(self.pool) & mask(w)
        if x < 0.7:
            return (1 << r.randrange(w)) - r.randrange(2) & mask(w)
        return r.choice(SPECIAL) & mask(w)


class Val(Valuation):
    def __init__(self, seed, assign, fixed=None, fbytes=None):
        super().__init__(seed, assign)
        self.vars.update(fixed or {})
        self.fbytes = fbytes or {}

    def byte0(self, name, a):
        if a in self.fbytes:
            return self.fbytes[a]
        return super().byte0(name, a)


def atoms(ts):
    out, seen, st = [], set(), list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ("eq", "ult", "slt"):
            out.append(t)
        if t.op == "sum":
            st.extend(y for _, y in t.a[1])
        else:
            st.extend(y for y in t.a if isinstance(y, T))
    out.sort(key=lambda x: x.id)
    return out


def force(v, t, val, rng, fixed, fb, depth=0):
    """try to make t evaluate to val by fixing leaf values (v is the current valuation)"""
    val &= mask(t.w)
    if depth > 12:
        return False
    op = t.op
    if op == "v":
        fixed[t.a[0]] = val
        return True
    if op == "rr":
        arr = v.ev(t.a[0])
        if arr[0] != "base":
            return False
        i = v.ev(t.a[1])
        if i == 0:
            return False
        fixed["%s[%d]" % (arr[1], i)] = val
        return True
    if op == "mld":
        mem = v.ev(t.a[0])
        if mem[0] == "m":
            return False
        ad = v.ev(t.a[2])
        for i in range(t.a[1]):
            fb[(ad + i) & mask(64)] = val >> (8 * i) & 255
        return True
    if op == "sum":
        c = [(k, x) for k, x in t.a[1] if k & 1]
        if not c:
            return False
        k, x = rng.choice(c)
        rest = (v.ev(t) - k * v.ev(x)) & mask(t.w)
        return force(v, x, (val - rest) * pow(k, -1, 1 << t.w), rng, fixed, fb, depth + 1)
    if op == "cat":
        pos = t.w
        ok = True
        for p in t.a:
            pos -= p.w
            if not isk(p):
                ok = force(v, p, val >> pos, rng, fixed, fb, depth + 1) and ok
        return ok
    if op == "ex":
        x = t.a[2]
        cur = v.ev(x)
        m = mask(t.w) << t.a[1]
        if x.op == "v" and x.a[0] in fixed:
            cur = fixed[x.a[0]]
        return force(v, x, cur & ~m | val << t.a[1], rng, fixed, fb, depth + 1)
    if op == "sext":
        return force(v, t.a[0], val, rng, fixed, fb, depth + 1)
    if op in ("urem", "udiv") and isk(t.a[1]) and kv(t.a[1]):
        n, cur = kv(t.a[1]), v.ev(t.a[0])
        want = cur - cur % n + val % n if op == "urem" else val * n + cur % n
        return force(v, t.a[0], want, rng, fixed, fb, depth + 1)
    if op == "not":
        return force(v, t.a[0], ~val, rng, fixed, fb, depth + 1)
    if op in ("xor", "and", "or"):
        x = rng.choice(t.a)
        if isk(x):
            return False
        if op == "xor":
            return force(v, x, val ^ v.ev(t) ^ v.ev(x), rng, fixed, fb, depth + 1)
        return force(v, x, val, rng, fixed, fb, depth + 1)
    if op == "ite":
        return force(v, t.a[1] if v.ev(t.a[0]) else t.a[2], val, rng, fixed, fb, depth + 1)
    return False


def interpret(pairs, under, seed, trials):
    """pairs: [(name, a, b)].  -> (name, valuation dict, va, vb) of a difference, or None; and the number of
    interpretations on which `under` held"""
    rng = random.Random(repr(seed))
    ats = atoms([x for p in pairs for x in p[1:3]] + [under])
    held = 0
    for n in range(trials * 6):
        if held >= trials:
            break
        d = Draw(random.Random(rng.getrandbits(64)))
        s = rng.getrandbits(32)
        v = Val(s, d)
        if ats and n % 3:
            fixed, fb = {}, {}
            for at in rng.sample(ats, min(len(ats), rng.choice((1, 1, 2, 3)))):
                x, y = at.a[0], at.a[1]
                if rng.random() < 0.5:
                    x, y = y, x
                delta = rng.choice((0, 0, 0, 1, -1)) if at.op != "eq" else 0
                force(v, x, v.ev(y) + delta, rng, fixed, fb)
            base = dict(v.vars)
            base.update(fixed)
            v = Val(s, d, base, fb)
        if not v.ev(under):
            continue
        held += 1
        for name, a, b in pairs:
            x, y = v.view(a), v.view(b)
            if x != y:
                return (name, dict(v.vars), x, y, v), held
    return None, held


# ------------------------------------------------------------------ interpretations aimed at the comparisons in the terms
HELD = {"memory_size", "pslot", "cslot", "pkey", "tlen", "probe", "generic", "tok"}


def directed(val, terms, extremes=False, share=.3):
    """val (a constructor of interpretations from a random source), with some 64-bit variables chosen so that comparisons
    in the terms just hold or just fail; variables whose domain the interpretation limits itself stay as they are"""
    ats = atoms(terms)
    names = wide(terms) - HELD

    def make(rng):
        s = rng.getrandbits(64)
        v = val(random.Random(s))
        if not ats or rng.random() > share:
            return v
        fixed = {}
        if extremes:
            for n in rng.sample(sorted(names), min(len(names), rng.choice((0, 1, 1, 2)))):
                fixed[n] = rng.choice((mask(64) - rng.randrange(40), rng.randrange(4), (1 << 63) - 20 + rng.randrange(40), (1 << 64) - 4096 * rng.randrange(1, 3), 1 << 62))
        if not extremes or rng.random() < .5:
            got = {}
            for at in rng.sample(ats, min(len(ats), rng.choice((1, 1, 2, 3)))):
                x, y = at.a[0], at.a[1]
                if rng.random() < 0.5:
                    x, y = y, x
                force(v, x, v.ev(y) + (rng.choice((0, 0, 0, 1, -1)) if at.op != "eq" else 0), rng, got, {})
            fixed.update({k: z for k, z in got.items() if k in names or "[" in k})
        if not fixed:
            return v
        v = val(random.Random(s))
        v.vars.update(fixed)
        return v
    return make


def wide(ts):
    """names of the 64-bit variables in the terms"""
    out, seen, st = set(), set(), list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "v" and t.w == 64:
            out.add(t.a[0])
        elif t.op == "sum":
            st.extend(y for _, y in t.a[1])
        else:
            st.extend(y for y in t.a if isinstance(y, T))
    return out


class Verdict:
    def __init__(self, kind, detail=None, held=0):
        self.kind, self.detail, self.held = kind, detail, held


def bitdiff(obs, under, order, opaque_ok=False):
    """bit-level diagrams over the variables in `order`; other boolean atoms become variables of their own.
    -> {name: 'diagram' | ('differs', assignment) | None}"""
    from bdd import BDD, Blast
    b = BDD()
    bl = Blast(b, order)
    out = {}
    try:
        u = bl.one(under)
        for name, x, y in obs:
            d = 0
            for p, q in zip(bl.bits(x), bl.bits(y)):
                d = b.bor(d, b.bxor(p, q))
            d = b.band(d, u)
            if d == 0:
                out[name] = "diagram"
            else:
                w = b.witness(d)
                # definite only if no opaque atom takes part
                sup, st, seen = set(), [d], set()
                while st:
                    n = st.pop()
                    if n < 2 or n in seen:
                        continue
                    seen.add(n)
                    sup.add(b.var[n])
                    st += [b.lo[n], b.hi[n]]
                known = set(v for vs in order.values() for v in vs)
                if sup <= known:
                    asg = {n: sum(w.get(v, 0) << i for i, v in enumerate(vs)) for n, vs in order.items()}
                    out[name] = ("differs", asg)
                else:
                    out[name] = None
    except (OverflowError, RecursionError):
        pass
    return out


def literals(under):
    """substitution implied by the conjuncts of a condition"""
    m = {}
    cs = list(under.a) if under.op == "and" and under.w == 1 else [under]
    for c in cs:
        if c.op == "v" and c not in m:
            m[c] = TRUE
        elif c.op == "not" and c.a[0].op == "v" and c.a[0] not in m:
            m[c.a[0]] = FALSE
        elif c.op == "eq":
            a, b = c.a
            if a.op != "v":
                a, b = b, a
            if a.op == "v" and a not in m and (isk(b) or b.op == "v" and b not in m):
                m[a] = b
                break
        elif c.op == "uf" and c.w == 1:
            m[c] = TRUE
    return m


def specialise(obs, under):
    for _ in range(40):
        m = literals(under)
        if not m:
            break
        memo = {}
        f = lambda x: m.get(x)
        obs = [(n, TM.rebuild(a, f, memo), TM.rebuild(b, f, memo)) for n, a, b in obs]
        under = TM.rebuild(under, f, memo)
    return obs, under


def compare(obs, under=TRUE, seed=0, trials=300, order=None):
    """obs: [(name, a, b)] -> {name: Verdict}; kinds: normal, diagram, agreed, differs"""
    out = {}
    rest = []
    if panics.ON:
        out = {o[0]: Verdict("normal") for o in obs if o[0] != "panic"}
        obs = [o for o in obs if o[0] == "panic"]
        if not obs:
            return out
    if under is not TRUE:
        obs, under = specialise(obs, under)
    if order:
        same = [(n, a, b) for n, a, b in obs if a is b]
        r = bitdiff([o for o in obs if o[1] is not o[2]], under, order)
        for n, a, b in same:
            out[n] = Verdict("normal")
        for n, a, b in obs:
            if r.get(n) == "diagram":
                out[n] = Verdict("diagram")
            elif r.get(n):
                v = Val(1, lambda nm, w: 0, dict(r[n][1]))
                out[n] = Verdict("differs", (n, r[n][1], v.view(a), v.view(b), v), 1)
        obs = [o for o in obs if o[0] not in out]
    for name, a, b in obs:
        if a is b:
            out[name] = Verdict("normal")
            continue
        try:
            dd = DD()
            ps = set()
            dd.pairs(dd.build(under), dd.build(a), dd.build(b), ps, set())
            if all(x is y for x, y in ps):
                out[name] = Verdict("diagram")
                continue
        except (OverflowError, RecursionError):
            pass
        rest.append((name, a, b))
    if rest:
        r, held = interpret(rest, under, seed, trials)
        for name, a, b in rest:
            out[name] = Verdict("agreed", None, held)
        if r:
            out[r[0]] = Verdict("differs", r, held)
    return out


def hexval(x):
    if isinstance(x, int):
        return hex(x)
    return repr(x)[:300]
