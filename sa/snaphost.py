"""Snapshots: taking and resuming both kinds, and the tracking of pages that come from a data source.  The machine's
memory is a functional byte array with a functional flag array; the program's data source is an uninterpreted function."""
import containers
import memworld
from containers import SArr
from hostworld import *
from loops import where_of
from memworld import follow
from terms import rebuild

BY, FL, LR, CTX, SNAP = ("O", "bytes"), ("O", "flags"), ("O", "lr"), ("O", "ctx"), ("O", "snap")
ME = "memory::Memory::"
PG = 4096
DIRTY = 4
PP, AA = V("page", 64), V("at", 64)
MEMF = lambda ix: uf("mem", 8, ix)
FLAGF = lambda ix: uf("flag", 8, ix)
k64 = lambda n: K(n, 64)


def shr12(v):
    return lshr_c(v, 12)


def shl12(v):
    return cat(ex(51, 0, v), K(0, 12))


class HMap:
    """HashMap from page numbers: guarded writes over an arbitrary initial map"""

    def __init__(self, ws=(), empty=False):
        self.ws, self.empty = tuple(ws), empty

    def get(self, k):
        pr = FALSE if self.empty else uf("tracked", 1, k)
        val = (uf("tid", 64, k), uf("toff", 64, k), uf("tflag", 8, k))
        for c, key, v in self.ws:
            if key is None:
                pr = ite(c, FALSE, pr)
                continue
            h = band(c, eq(key, k))
            if h is FALSE:
                continue
            if v is None:
                pr = ite(h, FALSE, pr)
            else:
                pr = ite(h, TRUE, pr)
                val = tuple(ite(h, a, b) for a, b in zip(v, val))
        return pr, val

    def put(self, k, v, c=TRUE):
        return HMap(self.ws + ((c, k, v),), self.empty)

    def merge_with(self, c, o):
        if self.empty != o.empty:
            a = self if not self.empty else HMap(((TRUE, None, None),) + self.ws)
            b = o if not o.empty else HMap(((TRUE, None, None),) + o.ws)
            return a.merge_with(c, b)
        k = 0
        while k < len(self.ws) and k < len(o.ws) and self.ws[k] is o.ws[k]:
            k += 1
        return HMap(self.ws[:k] + tuple((band(c, g), i, v) for g, i, v in self.ws[k:]) + tuple((band(bnot(c), g), i, v) for g, i, v in o.ws[k:]), self.empty)


class Mem:
    """the machine's memory on its own: contents, flags; used by the hooks and by the reference"""

    def __init__(self, by, fl, np):
        self.by, self.fl, self.np = by, fl, np
        self.size = shl12(np)

    def copy(self):
        return Mem(self.by, self.fl, self.np)

    def fits(self, addr, n):
        return band(ule(n, self.size), ule(addr, sub(self.size, n)))

    def flagup(self, lo, cnt, fn, c):
        old = self.fl
        self.fl = old.setrange(lo, cnt, lambda i: fn(old.index(None, None, add(lo, i))), c)

    def store(self, addr, n, fn, c=TRUE):
        """-> stored"""
        good = band(c, bor(eq(n, k64(0)), self.fits(addr, n)))
        w = band(good, bnot(eq(n, k64(0))))
        self.by = self.by.setrange(addr, n, fn, w)
        first, last = shr12(addr), shr12(sub(add(addr, n), k64(1)))
        self.flagup(first, add(sub(last, first), k64(1)), lambda v: bor(v, K(DIRTY, 8)), w)
        return bor(bnot(c), good)

    def setflag(self, page, flag, c=TRUE, clear=False):
        good = band(c, ult(page, self.np))
        self.flagup(page, k64(1), (lambda v: band(v, bnot(flag))) if clear else (lambda v: bor(v, flag)), good)
        return bor(bnot(c), good)

    def flag(self, page):
        return self.fl.index(None, None, page)

    def byte(self, at):
        return self.by.index(None, None, at)


def wide(t):
    return zext(t, 64) if t.w < 64 else t


class SnapHost(Host):
    def __init__(self, p, np, unroll=4, xl=64):
        super().__init__(p, False, 0, unroll)
        self.np = np if isinstance(np, T) else k64(np)
        self.xl = xl
        if xl == 32:
            self.disp = memworld.Dispatch(p, "u32")
            self.widths = {n: 32 if n in ("pc", "next_pc") else w for n, w in self.widths.items()}

    def reg(self, n):
        """a register-sized quantity of the machine, as a 64-bit number"""
        return V(n, 64) if self.xl == 64 else zext(V(n, self.xl), 64)

    def cut(self, t):
        return t if self.xl == 64 else zext(ex(self.xl - 1, 0, t), 64)

    def start(self):
        st = super().start()
        r, pth = self.corepath("registers")
        st.env[BY] = SArr(shl12(self.np), MEMF, (), "bytes")
        st.env[FL] = SArr(self.np, FLAGF, (), "flags")
        st.env[LR] = V("lr", self.xl)
        return st

    def regs(self, x, st):
        x.store(st, *self.corepath("registers"), Agg([V("reg%d" % i, self.xl) for i in range(32)]))

    def mem(self, st):
        return Mem(st.env[BY], st.env[FL], self.np)

    def keep(self, st, m):
        st.env[BY], st.env[FL] = m.by, m.fl

    def oob(self, c, v=UNIT):
        return En(zext(bnot(c), 64), {0: (v,), 1: (En(self.codes["MemOutOfBound"], {}, "error::Error"),)}, RES)

    def hooks(self):
        H = super().hooks()
        uf0 = H["unknown_first"]

        def val(x, st, v, w=64):
            n = 0
            while isinstance(v, Ref) and n < 8:
                v = x.load(st, v.root, v.path)
                n += 1
            return wide(x.term(st, v, w)) if w == 64 else x.term(st, v, w)

        def mop(fn):
            def h(x, st, a, i, f, t):
                m = self.mem(st)
                r = fn(x, st, m, a)
                self.keep(st, m)
                return r
            return h
        H[ME + "store_bytes"] = mop(lambda x, st, m, a: self.oob(m.store(val(x, st, a[1]), memworld.length(x, st, a[2]), frozen(x, st, a[2]))))
        for n in (8, 16, 32, 64):
            H[ME + "store%d" % n] = mop(lambda x, st, m, a, n=n: self.oob(m.store(val(x, st, a[1]), k64(n // 8), memworld.byte_of(ex(n - 1, 0, val(x, st, a[2]))))))

            def load(x, st, m, a, n=n):
                ad = val(x, st, a[1])
                v = cat(*[m.byte(add(ad, k64(j))) for j in reversed(range(n // 8))]) if n > 8 else m.byte(ad)
                return self.oob(m.fits(ad, k64(n // 8)), zext(v, self.xl) if n <= self.xl else ex(self.xl - 1, 0, v))
            H[ME + "load%d" % n] = mop(load)

        def load_bytes(x, st, m, a):
            ad, n = val(x, st, a[1]), val(x, st, a[2])
            by = m.by
            return self.oob(bor(eq(n, k64(0)), m.fits(ad, n)), SArr(n, lambda ix: by.index(None, None, add(ad, ix)), (), "loaded"))
        H[ME + "load_bytes"] = mop(load_bytes)
        H[ME + "set_flag"] = mop(lambda x, st, m, a: self.oob(m.setflag(val(x, st, a[1]), val(x, st, a[2], 8))))
        H[ME + "clear_flag"] = mop(lambda x, st, m, a: self.oob(m.setflag(val(x, st, a[1]), val(x, st, a[2], 8), clear=True)))
        H[ME + "fetch_flag"] = mop(lambda x, st, m, a: self.oob(ult(val(x, st, a[1]), self.np), m.flag(val(x, st, a[1]))))
        H[ME + "memory_pages"] = lambda x, st, a, i, f, t: self.np
        H[ME + "memory_size"] = lambda x, st, a, i, f, t: shl12(self.np)
        H[ME + "lr"] = lambda x, st, a, i, f, t: Ref(LR)

        def set_lr(x, st, a, i, f, t):
            st.env[LR] = ex(self.xl - 1, 0, val(x, st, a[1]))
            return UNIT
        H[ME + "set_lr"] = set_lr

        def source(x, st, a, i, f, t):
            d, o, l = val(x, st, a[1]), val(x, st, a[2]), val(x, st, a[3])
            b = SArr(uf("dlen", 64, d, o, l), lambda ix: uf("src", 8, d, add(o, ix)), (), "data")
            return En(zext(uf("has", 1, d, o, l), 64), {0: (), 1: (Agg((b, uf("full", 64, d, o))),)}, OPT)
        H["snapshot2::DataSource::load_data"] = source

        def hmap(x, st, v):
            r = follow(x, st, v)
            m = x.load(st, r.root, r.path) if isinstance(r, Ref) else r
            if not isinstance(m, HMap):
                raise Unsupported("map %r" % (m,))
            return r, m

        def boxed(x, st, v):
            x.heap += 1
            st.env[("H", x.heap)] = v
            return Ref(("H", x.heap))

        def entry(x, st, m, k):
            pr, (d, o, fl) = m.get(k)
            return pr, Agg((d, o, fl))

        def unknown_first(x, st, a, i, f, t):
            path = (i.get("res") or i)["path"]
            nm = i["name"]
            tr = i.get("trait") or ""
            if "HashMap" in path or (tr.startswith("core::ops::index::Index") and self.ismap(x, st, a[0])):
                if nm == "default" or nm == "new" or nm.startswith("with_capacity"):
                    return HMap((), True)
                r, m = hmap(x, st, a[0])
                key = lambda: val(x, st, a[1])
                if nm == "insert":
                    v = a[2]
                    vs = tuple(val(x, st, e, w) for e, w in zip(v.f, (64, 64, 8)))
                    pr, old = entry(x, st, m, key())
                    x.store(st, r.root, r.path, m.put(key(), vs))
                    return En(zext(pr, 64), {0: (), 1: (old,)}, OPT)
                if nm == "remove":
                    pr, old = entry(x, st, m, key())
                    x.store(st, r.root, r.path, m.put(key(), None))
                    return En(zext(pr, 64), {0: (), 1: (old,)}, OPT)
                if nm == "clear":
                    x.store(st, r.root, r.path, HMap((), True))
                    return UNIT
                if nm == "contains_key":
                    return m.get(key())[0]
                if nm == "get":
                    pr, v = entry(x, st, m, key())
                    return En(zext(pr, 64), {0: (), 1: (boxed(x, st, v),)}, OPT)
                if nm == "index":
                    pr, v = entry(x, st, m, key())
                    if memworld.panic_if(st, bnot(pr)):
                        return UNDEF
                    return boxed(x, st, v)
                if nm in ("keys", "into_keys"):
                    return Agg((m,), "Keys")
                raise Unsupported("HashMap::" + nm)
            if a and isinstance(a[0], Agg) and a[0].d == "Keys":
                if nm in ("copied", "cloned", "into_iter"):
                    return a[0]
                if nm == "collect":
                    return Agg(a[0].f, "KeyList")
                raise Unsupported("keys of a map, " + nm)
            if nm in ("sort", "sort_unstable") and a:
                r = follow(x, st, a[0])
                v = x.load(st, r.root, r.path) if isinstance(r, Ref) else None
                if isinstance(v, Agg) and v.d == "KeyList":
                    if not isk(self.np):
                        raise Unsupported("keys of an unbounded memory")
                    l = Agg((), "Vec")
                    for k in range(kv(self.np)):
                        l = merge(v.f[0].get(k64(k))[0], memworld.grow(l, k64(k)), l)
                    x.store(st, r.root, r.path, l)
                    return UNIT
            if tr == "core::default::Default" and path.startswith("<alloc::vec::Vec<T"):
                return fresh_vec()
            if path.startswith("alloc::vec::Vec::<T") and nm in ("new", "with_capacity"):
                return fresh_vec()
            if path.startswith("alloc::vec::Vec::<T") and nm == "append":
                r, s = follow(x, st, a[0]), follow(x, st, a[1])
                o = x.load(st, s.root, s.path)
                memworld.vec_extend(x, st, [a[0], o], i, f, t)
                x.store(st, s.root, s.path, fresh_vec())
                return UNIT
            if nm in ("last_mut", "last") and path.startswith("core::slice::<impl [T]>"):
                r = follow(x, st, a[0])
                n = memworld.length(x, st, r)
                return En(zext(bnot(eq(n, k64(0))), 64), {0: (), 1: (Ref(r.root, tuple(r.path) + (("i", sub(n, k64(1))),)),)}, OPT)
            if tr == "core::convert::Into" and a and isinstance(a[0], SArr) and nm == "into":
                return a[0]
            if tr == "core::clone::Clone" and nm == "clone" and a and isinstance(a[0], Ref):
                v = x.load(st, a[0].root, a[0].path)
                n = 0
                while isinstance(v, Ref) and n < 4:
                    v = x.load(st, v.root, v.path)
                    n += 1
                if isinstance(v, T):
                    return v
            if tr == "core::cmp::PartialEq" and nm in ("eq", "ne") and len(a) == 2:
                try:
                    u, v = val(x, st, a[0], None), val(x, st, a[1], None)
                except (Unsupported, AttributeError, TypeError):
                    return uf0(x, st, a, i, f, t)
                if isinstance(u, T) and isinstance(v, T) and u.w == v.w:
                    return eq(u, v) if nm == "eq" else bnot(eq(u, v))
            if tr.startswith("core::ops::arith::Rem") and isinstance(a[0], Ref):
                return x.rem(val(x, st, a[0]), val(x, st, a[1]), False)
            return uf0(x, st, a, i, f, t)
        H["unknown_first"] = unknown_first
        return H

    def ismap(self, x, st, v):
        try:
            r = follow(x, st, v)
            return isinstance(x.load(st, r.root, r.path) if isinstance(r, Ref) else r, HMap)
        except (Unsupported, AttributeError, KeyError):
            return False


def frozen(x, st, v):
    """the bytes of a slice as they are now"""
    fn = memworld.reader(x, st.copy(), v)
    return fn


def fresh_vec():
    return SArr(k64(0), lambda ix: UNDEF, (), "vec")


class NVal(equiv.Val):
    DIRECTED = False

    """small memories, addresses around pages, all flags"""

    def __init__(self, rng):
        np = rng.choice((3, 4, 8, 16))
        fixed = {"npages": np, "page": rng.randrange(np), "version": rng.choice((0, 1, 2)), "sversion": rng.choice((0, 1, 2))}
        self.np = np
        if rng.getrandbits(2):
            fixed["sversion"] = fixed["version"]
        pgs = list(range(np))
        rng.shuffle(pgs)
        for k in range(3):
            q = pgs[k] * PG
            fixed["addr%d" % k] = rng.choice((q, q, q, q + rng.randrange(PG), rng.getrandbits(64)))
            left = np * PG - fixed["addr%d" % k]
            fixed["len%d" % k] = rng.choice((PG, PG, 2 * PG, 0, rng.randrange(3 * PG), rng.randrange(2 * PG), rng.getrandbits(64)))
            if 0 <= left < fixed["len%d" % k] and rng.getrandbits(2):
                fixed["len%d" % k] = left
            fixed["skip%d" % k] = rng.choice((0, 0, rng.randrange(PG), rng.randrange(2 * PG)))
            fixed["size%d" % k] = rng.choice((PG, 2 * PG, 3 * PG))
            if rng.getrandbits(1):
                # segments side by side
                fixed["addr%d" % k] = q
                fixed["size%d" % k] = PG
                fixed["skip%d" % k] = rng.choice((0, 0, rng.randrange(PG)))
            a = rng.choice((0, rng.randrange(PG), rng.getrandbits(40)))
            fixed["from%d" % k] = a
            fixed["to%d" % k] = a + rng.choice((0, rng.randrange(PG), PG, rng.randrange(2 * PG)))
            fixed["sflag%d" % k] = rng.randrange(8)
            fixed["spage%d" % k] = pgs[k]
        fixed["sizeaddr"] = rng.choice((fixed["addr0"] + rng.randrange(PG) & mask(64), rng.randrange(np * PG), rng.getrandbits(64)))
        near = rng.choice((fixed["addr0"], fixed["addr1"], fixed["sizeaddr"], rng.randrange(np * PG)))
        if rng.getrandbits(1):
            fixed["page"] = (near >> 12) % np if rng.getrandbits(1) else ((near >> 12) + 1) % np
        fixed["at"] = (fixed["page"] * PG + rng.choice((0, PG - 1, rng.randrange(PG), near % PG))) & mask(64)
        super().__init__(rng.getrandbits(32), equiv.Draw(random.Random(rng.getrandbits(64))), fixed)

    def ufval(self, name, args, w):
        v = super().ufval(name, args, w)
        h = super().ufval(name + "#", args, 32)
        if name == "has":
            return int(h % 8 != 0)
        if name == "dlen":
            l = args[2] if len(args) > 2 else v
            return l if h % 8 and l < 1 << 40 else (l // PG * PG if l < 1 << 40 and h & 8 else min(l, v % (3 * PG)))
        if name in ("flag", "tflag"):
            # mostly modified or not, tracked with the flags they have
            f = super().ufval("flag", args, w) & 7
            return f & 3 if name == "tflag" else (f & 4 if h & 1 else f)
        if name == "tid":
            return h & 1
        if name == "toff" and h % 8:
            return (self.seed % 64 + args[0] * PG) & mask(64)
        return v


def fieldof(h, v, adt, n):
    return v.f[h.ix(adt, n)]


S1, S2 = "snapshot::Snapshot", "snapshot2::Snapshot2"
C2 = "snapshot2::Snapshot2Context"


def okval(h, x, st, rv):
    """(ok condition, value when ok) of a Result value"""
    if isinstance(rv, Mux):
        c1, v1 = okval(h, x, st, rv.a)
        c2, v2 = okval(h, x, st, rv.b)
        return ite(rv.c, c1, c2), (v2 if v1 is UNDEF else v1 if v2 is UNDEF else merge(rv.c, v1, v2))
    return eq(rv.vidx, k64(0)), rv.v.get(0, (UNDEF,))[0]


def at(x, st, l, k):
    return x.walk(st, l, (("i", k64(k)),))


def flatlen(x, st, v):
    return memworld.length(x, st, v)


def machine_obs(h, x, st, s, adt, ok, extra=()):
    """the processor part of a snapshot"""
    obs = []
    m = lambda v: ite(ok, v, K(0, v.w))
    regs = fieldof(h, s, adt, "registers")
    for i in range(32):
        v = x.term(st, x.walk(st, regs, (("i", k64(i)),)), 64)
        obs.append(("register %d" % i, m(v), m(h.reg("reg%d" % i))))
    for n, w in (("pc", 64), ("version", 32)) + tuple(extra):
        obs.append((n, m(x.term(st, fieldof(h, s, adt, n), w)), m(h.reg(n) if n == "pc" else V(n, w))))
    obs.append(("reservation", m(x.term(st, fieldof(h, s, adt, "load_reservation_address"), 64)), m(h.reg("lr"))))
    return obs


def make1(ctx, p, n, trials, xl=64):
    fn = "snapshot::make_snapshot"
    name = "%s, %d pages%s" % (fn, n, ", 32-bit machine" if xl == 32 else "")
    f = p.fn(fn)
    if f is None:
        return ctx.und(name, "not found")
    try:
        h = SnapHost(p, n, 8, xl)
        st = h.start()
        x = h.executor()
        h.regs(x, st)
        rv = x.run_body(st, f, [h.me(True)])
        ok, s = okval(h, x, st, rv)
        obs = [("succeeds", ok, TRUE), ("panic", st.panic, FALSE)] + machine_obs(h, x, st, s, S1, ok)
        li, lf, lp = (fieldof(h, s, S1, k) for k in ("page_indices", "page_flags", "pages"))
        cnt = flatlen(x, st, li)
        obs += [("as many flags as pages", flatlen(x, st, lf), cnt), ("as many contents as pages", flatlen(x, st, lp), cnt)]
        tot = k64(0)
        cov = [[] for _ in range(n)]
        for k in range(n):
            i, fl, by = at(x, st, li, k), at(x, st, lf, k), at(x, st, lp, k)
            there = ult(k64(k), cnt)
            if i is UNDEF:
                continue
            obs.append(("contents %d are a page" % k, ite(there, flatlen(x, st, by), k64(PG)), k64(PG)))
            for P in range(n):
                hit = band(there, eq(i, k64(P)))
                if hit is not FALSE:
                    cov[P].append((hit, fl, by))
        todo = range(PG)
        for P in range(n):
            d = bnot(eq(band(uf("flag", 8, k64(P)), K(DIRTY, 8)), K(0, 8)))
            c = k64(0)
            fv = K(0, 8)
            for hit, fl, by in cov[P]:
                c = add(c, zext(hit, 64))
                fv = ite(hit, fl, fv)
            obs.append(("page %d saved once, if modified" % P, c, zext(d, 64)))
            obs.append(("page %d flags" % P, fv, ite(d, uf("flag", 8, k64(P)), K(0, 8))))
            rd = [(hit, memworld.reader(x, st, by)) for hit, fl, by in cov[P]]
            miss = []
            for q in todo:
                want = ite(d, uf("mem", 8, k64(P * PG + q)), K(0, 8))
                got = K(0, 8)
                for hit, r in rd:
                    got = ite(hit, r(k64(q)), got)
                if got is not want:
                    miss.append((q, got, want))
            # decided for every combination of modified pages; what does not agree is left to the general procedure
            asg = [{ex(2, 2, uf("flag", 8, k64(j))): K((c >> j) & 1, 1) for j in range(n)} for c in range(1 << n)]
            memos = [({}, m) for m in asg]
            differ = []
            for q, got, want in miss:
                if any(rebuild(got, lambda t, m=m: m.get(t), memo) is not rebuild(want, lambda t, m=m: m.get(t), memo) for memo, m in memos):
                    differ.append((q, got, want))
            obs.append(("page %d: %d bytes by cases" % (P, PG - len(differ)), TRUE, TRUE))
            for q, got, want in differ[:8] + differ[-8:]:
                obs.append(("page %d byte %d" % (P, q), got, want))
        decide(ctx, name, where_of(p, fn), obs, bnot(st.cut), trials, NVal)
    except Unsupported as e:
        ctx.und(name, str(e)[:200])


def make2(ctx, p, n, trials):
    fn = "snapshot2::Snapshot2Context::<I, D>::make_snapshot"
    name = "data-source snapshot, %d pages" % n
    f = p.fn(fn)
    if f is None:
        return ctx.und(name, "not found")
    try:
        h = SnapHost(p, n, 8)
        st = h.start()
        x = h.executor()
        h.regs(x, st)
        st.env[CTX] = h.agg(C2, {"pages": HMap(), "data_source": Opq("source")})
        rv = x.run_body(st, f, [Ref(CTX), h.me(True)])
        ok, s = okval(h, x, st, rv)
        obs = [("succeeds", ok, TRUE), ("panic", st.panic, FALSE)]
        obs += machine_obs(h, x, st, s, S2, ok, (("cycles", 64), ("max_cycles", 64)))
        ld, ls = fieldof(h, s, S2, "dirty_pages"), fieldof(h, s, S2, "pages_from_source")
        under = bnot(st.cut)
        Q = V("q12", 12)
        q = zext(Q, 64)
        for P in range(n):
            tr, (ti, to, tf) = HMap().get(k64(P))
            fl = uf("flag", 8, k64(P))
            dirty = bnot(eq(band(fl, K(DIRTY, 8)), K(0, 8)))
            # tracked pages were tracked with the flags they have
            under = band(under, bor(bnot(tr), eq(tf, band(fl, K(0xff ^ DIRTY, 8)))))
            base = k64(P * PG)
            c, fv, bv = k64(0), K(0, 8), K(0, 8)
            for k in range(n):
                e = at(x, st, ld, k)
                if e is UNDEF:
                    continue
                ad, ef, by = e.f
                ln = flatlen(x, st, by)
                hit = band(ult(k64(k), flatlen(x, st, ld)), ule(ad, base), ule(add(base, k64(PG)), add(ad, ln)))
                c = add(c, zext(hit, 64))
                fv = ite(hit, ef, fv)
                bv = ite(hit, memworld.reader(x, st, by)(add(sub(base, ad), q)), bv)
            obs += [("page %d saved once, if modified" % P, c, zext(dirty, 64)), ("page %d flags" % P, fv, ite(dirty, fl, K(0, 8))),
                    ("page %d contents" % P, bv, ite(dirty, uf("mem", 8, add(base, q)), K(0, 8)))]
            c, fv, iv, ov = k64(0), K(0, 8), k64(0), k64(0)
            for k in range(n):
                e = at(x, st, ls, k)
                if e is UNDEF:
                    continue
                ad, ef, ei, eo, ln = e.f
                hit = band(ult(k64(k), flatlen(x, st, ls)), ule(ad, base), ule(add(base, k64(PG)), add(ad, ln)))
                c = add(c, zext(hit, 64))
                fv, iv, ov = ite(hit, ef, fv), ite(hit, ei, iv), ite(hit, add(eo, sub(base, ad)), ov)
            want = band(tr, bnot(dirty))
            obs += [("page %d named once, if from the source" % P, c, zext(want, 64)), ("page %d source flags" % P, fv, ite(want, tf, K(0, 8))),
                    ("page %d source" % P, iv, ite(want, ti, k64(0))), ("page %d source offset" % P, ov, ite(want, to, k64(0)))]
        for l, nm in ((ld, "saved"), (ls, "named")):
            obs.append(("at most %d %s entries" % (n, nm), ult(k64(n), flatlen(x, st, l)), FALSE))
        decide(ctx, name, where_of(p, fn), obs, under, trials, NVal)
    except Unsupported as e:
        ctx.und(name, str(e)[:200])


def start_obs(h, x, st, ok, adt, extra=()):
    """the processor after resuming"""
    m = lambda v: ite(ok, v, K(0, v.w))
    obs = []
    if h.xl == 32:
        get = lambda n, *q: x.term(st, x.walk(st, x.load(st, *h.corepath(n)), q), 32)
        f = {"pc": wide(get("pc"))}
        reg = lambda i: wide(get("registers", ("i", k64(i))))
    else:
        f = h.fields(x, st)
        reg = lambda i: rr(f["regs"], K(i, 5))
    for i in range(32):
        obs.append(("register %d" % i, m(reg(i)), m(h.cut(V("sreg%d" % i, 64)))))
    obs.append(("pc", m(f["pc"]), m(h.cut(V("spc", 64)))))
    for n in extra:
        obs.append((n, m(f[n]), m(V("s" + n, 64))))
    obs.append(("reservation", m(wide(st.env[LR])), m(h.cut(V("slr", 64)))))
    obs.append(("version unchanged", x.term(st, x.load(st, *h.corepath("version")), 32), V("version", 32)))
    return obs


def mem_obs(h, x, st, m, ok):
    g = h.mem(st)
    k = lambda v: ite(ok, v, K(0, v.w))
    return [("contents", k(g.byte(AA)), k(m.byte(AA))), ("page flags", k(g.flag(PP)), k(m.flag(PP)))]


def resume1(ctx, p, n, trials, xl=64):
    fn = "snapshot::resume"
    name = "%s, %d saved pages%s" % (fn, n, ", 32-bit machine" if xl == 32 else "")
    f = p.fn(fn)
    if f is None:
        return ctx.und(name, "not found")
    try:
        h = SnapHost(p, V("npages", 64), 4, xl)
        st = h.start()
        x = h.executor()
        h.regs(x, st)
        data = [SArr(k64(PG), lambda ix, k=k: uf("saved%d" % k, 8, ix), (), "page") for k in range(n)]
        st.env[SNAP] = h.agg(S1, {"version": V("sversion", 32), "registers": Agg([V("sreg%d" % i, 64) for i in range(32)]), "pc": V("spc", 64),
                                  "page_indices": Agg([V("spage%d" % k, 64) for k in range(n)], "Vec"), "page_flags": Agg([V("sflag%d" % k, 8) for k in range(n)], "Vec"),
                                  "pages": Agg(data, "Vec"), "load_reservation_address": V("slr", 64)})
        rv = x.run_body(st, f, [h.me(True), Ref(SNAP)])
        ok, _ = okval(h, x, st, rv)
        code, _, _ = h.result(x, st, rv)
        m = Mem(SArr(shl12(h.np), MEMF), SArr(h.np, FLAGF), h.np)
        same = eq(V("version", 32), V("sversion", 32))
        good = same
        under = bnot(st.cut)
        for k in range(n):
            pg = V("spage%d" % k, 64)
            good = band(good, m.store(shl12(pg), k64(PG), lambda ix, k=k: uf("saved%d" % k, 8, ix)), m.setflag(pg, V("sflag%d" % k, 8)))
            # what a snapshot holds: pages of this memory, each once, marked modified
            under = band(under, ult(pg, h.np), bnot(eq(band(V("sflag%d" % k, 8), K(DIRTY, 8)), K(0, 8))), *[bnot(eq(pg, V("spage%d" % j, 64))) for j in range(k)])
        under = band(under, ult(h.np, k64(1 << 40)), ult(PP, h.np), ult(AA, shl12(h.np)))
        obs = [("succeeds", ok, good), ("other version refused", bor(same, eq(code, k64(h.codes["InvalidVersion"]))), TRUE), ("panic", st.panic, FALSE)]
        obs += start_obs(h, x, st, band(ok, good), S1) + mem_obs(h, x, st, m, band(ok, good))
        decide(ctx, name, where_of(p, fn), obs, under, trials, NVal)
    except Unsupported as e:
        ctx.und(name, str(e)[:200])


class RefCtx:
    """reference bookkeeping of the data source: page -> source"""

    def __init__(self, m, mp):
        self.m, self.map = m, mp

    def track(self, start, ln, did, off, c):
        """every page wholly inside [start, start+ln)"""
        lo = band(add(start, k64(PG - 1)), K(mask(64) ^ (PG - 1), 64))
        end = add(start, ln)
        hi = band(end, K(mask(64) ^ (PG - 1), 64))
        c = band(c, ult(lo, hi), ule(start, end))
        first, cnt = shr12(lo), shr12(sub(hi, lo))
        good = bor(bnot(c), ule(shr12(hi), self.m.np))
        c = band(c, good)
        self.m.flagup(first, cnt, lambda v: band(v, K(0xff ^ DIRTY, 8)), c)
        self.map = RangeMap(self.map, c, first, cnt, did, add(off, sub(lo, start)), self.m.copy())
        return good


class RangeMap:
    def __init__(self, old, c, first, cnt, did, off, m):
        self.old, self.c, self.first, self.cnt, self.did, self.off, self.m = old, c, first, cnt, did, off, m

    def get(self, k):
        pr, (d, o, f) = self.old.get(k)
        i = sub(k, self.first)
        h = band(self.c, ult(i, self.cnt))
        if self.did is None:
            return ite(h, FALSE, pr), (d, o, f)
        return ite(h, TRUE, pr), (ite(h, self.did, d), ite(h, add(self.off, shl12(i)), o), ite(h, self.m.flag(k), f))


def map_obs(h, x, st, ref, m, ok):
    """what is tracked and not modified since"""
    got = x.load(st, CTX, (("f", h.ix(C2, "pages")),))
    if not isinstance(got, HMap):
        raise Unsupported("tracked pages %r" % (got,))
    gp, gv = got.get(PP)
    rp, rvv = ref.get(PP)
    dirty = lambda mm: bnot(eq(band(mm.flag(PP), K(DIRTY, 8)), K(0, 8)))
    g, r = band(ok, gp, bnot(dirty(h.mem(st)))), band(ok, rp, bnot(dirty(m)))
    obs = [("tracked", g, r)]
    for n, a, b in zip(("source", "source offset", "flags kept"), gv, rvv):
        both = band(g, r)
        obs.append((n, ite(both, a, K(0, a.w)), ite(both, b, K(0, b.w))))
    return obs


def ctx_env(h, st, mp=None):
    st.env[CTX] = h.agg(C2, {"pages": mp or HMap(), "data_source": Opq("source")})


def span(k, cap=2):
    """pages k's range touches are few"""
    return ule(V("len%d" % k, 64), k64(cap * PG))


def ctxop(ctx, p, kind, trials, n=1):
    """store_bytes, mark_program, track_pages, untrack_pages"""
    fn = "snapshot2::Snapshot2Context::<I, D>::" + kind
    name = "data source, " + kind + (", %d actions" % n if kind == "mark_program" else "")
    f = p.fn(fn)
    if f is None:
        return ctx.und(name, "not found")
    try:
        h = SnapHost(p, V("npages", 64), 5)
        st = h.start()
        x = h.executor()
        h.regs(x, st)
        ctx_env(h, st)
        st.env[("O", "id")] = V("sid", 64)
        rid = Ref(("O", "id"))
        A, L, O = V("addr0", 64), V("len0", 64), V("from0", 64)
        m = Mem(SArr(shl12(h.np), MEMF), SArr(h.np, FLAGF), h.np)
        r = RefCtx(m, HMap())
        size = shl12(h.np)
        under = band(ult(h.np, k64(1 << 40)), ult(PP, h.np), ult(AA, size), ult(O, k64(1 << 62)))
        me = Ref(CTX)
        obs = []
        val = None
        if kind == "store_bytes":
            rv = x.run_body(st, f, [me, h.me(True), A, rid, O, L, V("sizeaddr", 64)])
            d = (V("sid", 64), O, L)
            has, dl = uf("has", 1, *d), uf("dlen", 64, *d)
            full = uf("full", 64, V("sid", 64), O)
            good = band(has, m.store(V("sizeaddr", 64), k64(8), memworld.byte_of(full), has))
            c = band(good, bnot(eq(dl, k64(0))))
            first, last = shr12(A), shr12(sub(add(A, dl), k64(1)))
            inside = m.fits(A, dl)
            good = band(good, bor(eq(dl, k64(0)), inside))
            c = band(c, inside)
            r.map = RangeMap(r.map, c, first, add(sub(last, first), k64(1)), None, k64(0), None)
            m.store(A, dl, lambda ix: uf("src", 8, V("sid", 64), add(O, ix)), c)
            r.track(A, dl, V("sid", 64), O, c)
            under = band(under, ule(dl, k64(2 * PG)), ule(dl, L), ult(A, k64(1 << 60)))
            val = (dl, full)
        elif kind in ("track_pages", "untrack_pages"):
            rv = x.run_body(st, f, [me, h.me(True), A, L] + ([rid, O] if kind == "track_pages" else []))
            under = band(under, ule(L, k64(2 * PG)), m.fits(A, L))
            good = TRUE
            if kind == "track_pages":
                r.track(A, L, V("sid", 64), O, TRUE)
            else:
                c = bnot(eq(L, k64(0)))
                first, last = shr12(A), shr12(sub(add(A, L), k64(1)))
                cnt = add(sub(last, first), k64(1))
                m.flagup(first, cnt, lambda v: bor(v, K(DIRTY, 8)), c)
                r.map = RangeMap(r.map, c, first, cnt, None, k64(0), None)
        else:
            acts = []
            good = TRUE
            LA, PM = "elf::LoadingAction", "elf::ProgramMetadata"
            for k in range(n):
                v = lambda s: V("%s%d" % (s, k), 64)
                rng = Agg((v("from"), v("to")), "core::ops::range::Range")
                acts.append(h.agg(LA, {"addr": v("addr"), "size": v("size"), "flags": K(0, 8), "source": rng, "offset_from_addr": v("skip")}))
                start = add(v("addr"), v("skip"))
                sl, room = sub(v("to"), v("from")), sub(v("size"), v("skip"))
                ln = ite(ult(room, sl), room, sl)
                # what load_elf produces: whole pages in memory, the segment's bytes inside them
                under = band(under, ule(v("from"), v("to")), ult(v("to"), k64(1 << 62)), ule(v("skip"), v("size")), ule(v("size"), k64(3 * PG)), m.fits(v("addr"), v("size")),
                             eq(band(v("addr"), k64(PG - 1)), k64(0)), eq(band(v("size"), k64(PG - 1)), k64(0)), ult(V("poff", 64), k64(1 << 62)))
                r.track(start, ln, V("sid", 64), add(V("poff", 64), v("from")), TRUE)
                for j in range(k):
                    w = lambda s: V("%s%d" % (s, j), 64)
                    under = band(under, bor(ule(add(v("addr"), v("size")), w("addr")), ule(add(w("addr"), w("size")), v("addr"))))
            st.env[("O", "meta")] = h.agg(PM, {"actions": Agg(acts, "Vec")}, lambda n: V("meta_" + n, 64))
            rv = x.run_body(st, f, [me, h.me(True), Ref(("O", "meta")), rid, V("poff", 64)])
        ok, v = okval(h, x, st, rv)
        obs += [("succeeds", ok, good)]
        both = band(ok, good)
        if val:
            g = [x.term(st, e, 64) for e in v.f]
            obs += [("bytes written", ite(both, g[0], k64(0)), ite(both, val[0], k64(0))), ("full length", ite(both, g[1], k64(0)), ite(both, val[1], k64(0)))]
        obs += mem_obs(h, x, st, m, both) + map_obs(h, x, st, r.map, m, both)
        fld = h.fields(x, st)
        obs += [("registers unchanged", rr(fld["regs"], PROBE), regs0()), ("pc unchanged", fld["pc"], V("pc", 64)), ("reservation unchanged", st.env[LR], V("lr", 64))]
        obs += [("panic", band(st.panic, good), FALSE)]
        decide(ctx, name, where_of(p, fn), obs, band(under, bnot(st.cut)), trials, NVal)
    except Unsupported as e:
        ctx.und(name, str(e)[:200])


def regs0():
    v = arr_var("regs")
    for i in range(32):
        v = rw(v, K(i, 5), V("reg%d" % i, 64))
    return rr(v, PROBE)


def resume2(ctx, p, ns, nd, trials):
    fn = "snapshot2::Snapshot2Context::<I, D>::resume"
    name = "data source, resume with %d source and %d saved entries" % (ns, nd)
    f = p.fn(fn)
    if f is None:
        return ctx.und(name, "not found")
    try:
        h = SnapHost(p, V("npages", 64), 3)
        st = h.start()
        x = h.executor()
        h.regs(x, st)
        ctx_env(h, st)
        size = shl12(h.np)
        under = band(ult(h.np, k64(1 << 40)), ult(PP, h.np), ult(AA, size))
        m = Mem(SArr(size, MEMF), SArr(h.np, FLAGF), h.np)
        r = RefCtx(m, HMap((), True))
        v = lambda s, k, w=64: V("%s%d" % (s, k), w)
        src, dirt = [], []
        same = eq(V("version", 32), V("sversion", 32))
        good = same
        aligned = lambda t: eq(band(t, k64(PG - 1)), k64(0))
        spans = []

        def put(k, n, fn, good):
            ok = band(aligned(v("addr", k)), aligned(n))
            good = band(good, ok, bor(eq(n, k64(0)), m.fits(v("addr", k), n)))
            m.store(v("addr", k), n, fn, good)
            cnt = shr12(n)
            m.flagup(shr12(v("addr", k)), cnt, lambda z: bor(z, v("sflag", k, 8)), good)
            spans.append((v("addr", k), n))
            return good
        for k in range(ns):
            did, off, ln = v("id", k), v("from", k), v("len", k)
            src.append(Agg((v("addr", k), v("sflag", k, 8), did, off, ln)))
            dl = uf("dlen", 64, did, off, ln)
            under = band(under, ule(dl, k64(2 * PG)), ult(off, k64(1 << 62)), eq(band(v("sflag", k, 8), K(DIRTY, 8)), K(0, 8)))
            good = band(good, uf("has", 1, did, off, ln))
            good = put(k, dl, lambda ix, did=did, off=off: uf("src", 8, did, add(off, ix)), good)
            r.track(v("addr", k), dl, did, off, good)
        for k in range(ns, ns + nd):
            ln = v("len", k)
            dirt.append(Agg((v("addr", k), v("sflag", k, 8), SArr(ln, lambda ix, k=k: uf("saved%d" % k, 8, ix), (), "saved"))))
            under = band(under, ule(ln, k64(2 * PG)), bnot(eq(band(v("sflag", k, 8), K(DIRTY, 8)), K(0, 8))))
            good = put(k, ln, lambda ix, k=k: uf("saved%d" % k, 8, ix), good)
        for i, (a, n) in enumerate(spans):
            under = band(under, ult(a, k64(1 << 60)))
            for b, mm in spans[:i]:
                under = band(under, bor(ule(add(a, n), b), ule(add(b, mm), a)))
        st.env[SNAP] = h.agg(S2, {"pages_from_source": Agg(src, "Vec"), "dirty_pages": Agg(dirt, "Vec"), "version": V("sversion", 32),
                                  "registers": Agg([V("sreg%d" % i, 64) for i in range(32)]), "pc": V("spc", 64), "cycles": V("scycles", 64),
                                  "max_cycles": V("smax_cycles", 64), "load_reservation_address": V("slr", 64)})
        rv = x.run_body(st, f, [Ref(CTX), h.me(True), Ref(SNAP)])
        ok, _ = okval(h, x, st, rv)
        code, _, _ = h.result(x, st, rv)
        both = band(ok, good)
        obs = [("succeeds", ok, good), ("other version refused", bor(same, eq(code, k64(h.codes["InvalidVersion"]))), TRUE), ("panic", st.panic, FALSE)]
        obs += start_obs(h, x, st, both, S2, ("cycles", "max_cycles")) + mem_obs(h, x, st, m, both) + map_obs(h, x, st, r.map, m, both)
        decide(ctx, name, where_of(p, fn), obs, band(under, bnot(st.cut)), trials, NVal)
    except Unsupported as e:
        ctx.und(name, str(e)[:200])


def serde(ctx, p, adt):
    """a written and re-read snapshot has every field"""
    a = p.adt(adt)
    fs = [f["name"] for f in a["variants"][0]["fields"]]
    short = adt.rsplit("::", 1)[-1]
    for f in p.vm.fns.values():
        if f["name"] != "serialize" or "impltrait" not in f or not f["impltrait"].endswith("Serialize"):
            continue
        if not p.vm.ty(f["implself"])["s"].startswith(adt):
            continue
        names = []
        for b in f["bbs"]:
            t = b["t"]
            if t["k"] == "call" and "c" in t["f"] and t["f"]["c"].get("fn", {}).get("name") in ("serialize_field", "skip_field"):
                if t["f"]["c"]["fn"]["name"] == "skip_field":
                    continue
                c = t["a"][1].get("c", {})
                s = c.get("slice", {}).get("bytes")
                if s is not None:
                    names.append(bytes.fromhex(s).decode("utf8", "replace"))
                else:
                    names.append(None)
        if None in names:
            return ctx.und(short + " serialisation", "field names not constant")
        for n in fs:
            ctx.check(n in names, "%s/serialised/%s" % (short, n), where_of(p, f["path"]), "%s: field %s is not written" % (short, n))
        return
    ctx.und(short + " serialisation", "no serializer found")
