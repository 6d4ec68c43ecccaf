"""The memory implementations (Rust MIR) against one definition: a flat, zero-initialised byte array with page flags.

Every operation of the Memory trait becomes a value graph of its result and of a probed byte / page flag afterwards; the
probe is symbolic, so one comparison speaks about every byte."""
import panics
import random
import re
from terms import *
from mirexec import *
import terms as TM
import containers
import equiv
import memworld
from memworld import SArr, Dispatch, bytes_var, write_range
from world import merr, result

DATA, FLAGS, LRM = ("O", "data"), ("O", "pflags"), ("O", "mlr")
PB = 22            # page-number bits of the configured size
PAGE = 4096
DIRTY, FREEZED, EXEC, WXORX = 4, 1, 2, 2
FRESH_U = TRUE
A, SIZE, Q, P = V("A", 64), V("size", 64), V("q", 64), V("p", 64)
SRC = arr_var("src")
# operations: name -> (kind, bytes)
LOADS = {"load8": 1, "load16": 2, "load32": 4, "load64": 8, "execute_load16": 2, "execute_load32": 4}
STORES = {"store8": 1, "store16": 2, "store32": 4, "store64": 8}


def page_of(a):
    return lshr_c(a, 12)


class Impl:
    """one implementation: how to set up its state and how to read it back"""
    name = ""
    perm = False       # enforces page permissions itself
    lazy = False       # initialises memory on first touch
    unroll = 5
    budget = 600000

    def __init__(self, p):
        self.p = p
        self.pages = zext(V("pages", PB), 64)
        self.msz = cat(K(0, 64 - PB - 12), V("pages", PB), K(0, 12))
        self.codes = {v["name"]: i for i, v in enumerate(p.adt("error::Error")["variants"])}
        self.kinds = {v["name"]: i for i, v in enumerate(p.adt("error::OutOfBoundKind")["variants"])}
        self.disp = Dispatch(p)

    def fieldvals(self, adt, vals):
        a = self.p.adt(adt)
        out = []
        for f in a["variants"][0]["fields"]:
            n = f["name"]
            if n not in vals:
                if n == "_inner":
                    out.append(UNIT)
                    continue
                raise Unsupported("%s has an unknown field %s" % (adt, n))
            out.append(vals[n])
        return Agg(out, adt)

    def fieldix(self, adt, n):
        for i, f in enumerate(self.p.adt(adt)["variants"][0]["fields"]):
            if f["name"] == n:
                return i
        raise Unsupported("no field " + n)

    def fn(self, name):
        for s, g in self.p.impl_methods.get(("memory::Memory", name), []):
            if self.is_self(s):
                return g
        return self.p.trait_defaults.get(("memory::Memory", name))

    def executor(self):
        h = dict(memworld.hooks())
        h.update(self.hooks())
        consts = {}
        for n, c in self.p.vm.consts.items():
            if n.startswith("<u64 as instructions::register::Register>::") and "bits" in c:
                consts[("instructions::register::Register", n.rsplit("::", 1)[1])] = int(c["bits"])
        return Exec(self.p, hooks=h, unroll=self.unroll, consts=consts, method_select=self.disp, max_blocks=self.budget)

    def hooks(self):
        return {}

    def run(self, op, args, unroll=None):
        g = self.fn(op)
        if g is None:
            raise Unsupported("no %s of %s" % (op, self.name))
        st = St()
        self_ref = self.setup(st)
        st.env[("O", "oob")] = FALSE
        x = self.executor()
        if unroll:
            x.unroll = unroll
        a = []
        for i, v in enumerate(args):
            if isinstance(v, tuple):     # by reference
                st.env[("O", "arg%d" % i)] = v[0]
                a.append(Ref(("O", "arg%d" % i)))
            else:
                a.append(v)
        r = x.run_body(st, g, [self_ref] + a)
        return g, x, st, r

    def invariant(self):
        return TRUE


class Raw(Impl):
    def is_self(self, s):
        return s.startswith(self.adt + "<")

    def old_flag(self, p):
        return TM.mld(arr_var("flags"), 1, p)

    def flag(self, x, st, p):
        return x.term(st, x.walk(st, self.get(x, st, "flags"), (("i", p),)), 8)

    def get(self, x, st, f):
        return x.load(st, ("O", "m"), (("f", self.fieldix(self.adt, f)),))

    def lr(self, x, st):
        return x.term(st, self.get(x, st, "load_reservation_address"), 64)


class Flat(Raw):
    name = "flat memory"
    adt = "memory::flat::FlatMemory"

    def setup(self, st):
        st.env[("O", "m")] = self.fieldvals(self.adt, {
            "data": bytes_var("data", self.msz), "flags": bytes_var("flags", self.pages), "memory_size": self.msz,
            "riscv_pages": self.pages, "load_reservation_address": V("lr", 64)})
        return Ref(("O", "m"))

    def old_byte(self, q):
        return TM.mld(arr_var("data"), 1, q)

    def byte(self, x, st, q):
        return x.term(st, x.walk(st, self.get(x, st, "data"), (("i", q),)), 8)

    def kept(self, x, st):
        return [(n, x.term(st, self.get(x, st, n), 64), o) for n, o in (("memory_size", self.msz), ("riscv_pages", self.pages))] + [
            ("length of data", memworld.length(x, st, self.get(x, st, "data")), self.msz),
            ("length of flags", memworld.length(x, st, self.get(x, st, "flags")), self.pages)]


def wide(t):
    return zext(t, 64) if t.w < 64 else t


class Sparse(Raw):
    name = "sparse memory"
    adt = "memory::sparse::SparseMemory"

    def slot(self, p):
        """index of page p initially: a permutation of what is present"""
        pr = ne(TM.mld(arr_var("present"), 1, p), K(0, 8))
        return ite(pr, zext(TM.mld(arr_var("slots"), 1, p), self.iw), self.none)

    def __init__(self, p):
        super().__init__(p)
        # how wide a page number of the store is, as the type says; all ones stands for "none yet"
        cr = p.vm if self.adt in p.vm.adts else p.defs
        ty = next((cr.ty(f["ty"]) for f in p.adt(self.adt)["variants"][0]["fields"] if f["name"] == "indices"), {})
        el = [cr.ty(t) for t in ty.get("args", ()) if isinstance(t, int)]
        self.iw = el[0]["bits"] if el and el[0].get("bits") else 16
        self.none = K(mask(self.iw), self.iw)

    def setup(self, st):
        av = arr_var("pagedata")

        def page(ix):
            return SArr(K(PAGE, 64), lambda i: TM.mld(av, 1, add(shl_c(wide(ix), 12), i)), (), "page")
        self.npages = V("npages", 64)
        st.env[("O", "m")] = self.fieldvals(self.adt, {
            "indices": SArr(self.pages, self.slot, (), "indices"), "pages": SArr(self.npages, page, (), "pages"),
            "flags": bytes_var("flags", self.pages), "memory_size": self.msz,
            "riscv_pages": self.pages, "load_reservation_address": V("lr", 64)})
        return Ref(("O", "m"))

    def old_byte(self, q):
        s = self.slot(page_of(q))
        return ite(eq(s, self.none), K(0, 8),
                   TM.mld(arr_var("pagedata"), 1, add(shl_c(wide(s), 12), zext(ex(11, 0, q), 64))))

    def byte(self, x, st, q):
        idx = x.term(st, x.walk(st, self.get(x, st, "indices"), (("i", page_of(q)),)), self.iw)
        pg = self.get(x, st, "pages")
        v = x.walk(st, pg, (("i", wide(idx)), ("i", zext(ex(11, 0, q), 64))))
        return ite(eq(idx, self.none), K(0, 8), x.term(st, v, 8))

    def kept(self, x, st):
        out = [(n, x.term(st, self.get(x, st, n), 64), o) for n, o in (("memory_size", self.msz), ("riscv_pages", self.pages))]
        out.append(("length of indices", memworld.length(x, st, self.get(x, st, "indices")), self.pages))
        # two pages never share storage, and every index in use is valid
        ix = lambda p: x.term(st, x.walk(st, self.get(x, st, "indices"), (("i", p),)), self.iw)
        P2 = V("p2", 64)
        n = memworld.length(x, st, self.get(x, st, "pages"))
        used = ne(ix(P), self.none)
        inr = band(ult(P, self.pages), ult(P2, self.pages))
        out.append(("index of a page in range", band(inr, used, bnot(ult(wide(ix(P)), n))), FALSE))
        out.append(("pages sharing storage", band(inr, used, ne(P, P2), eq(ix(P), ix(P2))), FALSE))
        return out


class InnerModel:
    """the memory a wrapper wraps, as the definition: used through the Memory trait"""

    def __init__(self, impl):
        self.impl = impl
        self.log = []

    def hooks(self):
        ME = "memory::Memory::"
        im = self.impl
        h = {}

        def mine(x, st, a):
            v = a[0]
            n = 0
            while isinstance(v, Ref) and n < 6:
                v = x.load(st, v.root, v.path)
                n += 1
            return isinstance(v, Opq) and v.n == "inner"

        def oob(addr):
            return En(im.codes["MemOutOfBound"], {im.codes["MemOutOfBound"]: (addr, En(im.kinds["Memory"], {im.kinds["Memory"]: ()}, "error::OutOfBoundKind"))}, "error::Error")

        def inr(a, n):
            return in_range(a, n, im.msz)

        def load(n):
            def f(x, st, a, i, fo, t):
                if not mine(x, st, a):
                    return NotImplemented
                ad = x.term(st, a[1], 64)
                ok = inr(ad, K(n, 64))
                fn = memworld.reader(x, st, Ref(DATA))
                bs = [x.term(st, fn(add(ad, K(k, 64))), 8) for k in range(n)]
                v = cat(*reversed(bs)) if n > 1 else bs[0]
                if "execute" not in i["name"]:
                    v = zext(v, 64)
                return result(ok, v, oob(ad))
            return f

        def dirty(x, st, ok, ad, n):
            fl = st.env[FLAGS]
            lo, hi = page_of(ad), page_of(sub(add(ad, n), K(1, 64)))
            cnt = add(sub(hi, lo), K(1, 64))
            old = fl
            st.env[FLAGS] = fl.setrange(lo, cnt, lambda k: bor(old.index(x, st, add(lo, k)), K(DIRTY, 8)), band(ok, ne(n, K(0, 64))))

        def store(n):
            def f(x, st, a, i, fo, t):
                if not mine(x, st, a):
                    return NotImplemented
                ad, v = x.term(st, a[1], 64), x.term(st, a[2], 64)
                ok = inr(ad, K(n, 64))
                write_range(x, st, Ref(DATA), K(n, 64), lambda k: memworld.byte_of(trunc(v, 8 * n))(k), ok)
                self.moved(st, v, x)
                dirty(x, st, ok, ad, K(n, 64))
                return result(ok, UNIT, oob(ad))
            return f

        def wr(x, st, ad, n, fn):
            ok = bor(eq(n, K(0, 64)), inr(ad, n))
            st.env[DATA] = st.env[DATA].setrange(ad, n, fn, ok)
            dirty(x, st, ok, ad, n)
            return result(ok, UNIT, oob(ad))

        def storen(n):
            def f(x, st, a, i, fo, t):
                if not mine(x, st, a):
                    return NotImplemented
                v = x.term(st, a[2], 64)
                return wr(x, st, x.term(st, a[1], 64), K(n, 64), memworld.byte_of(trunc(v, 8 * n)))
            return f

        def store_bytes(x, st, a, i, fo, t):
            if not mine(x, st, a):
                return NotImplemented
            return wr(x, st, x.term(st, a[1], 64), memworld.length(x, st, a[2]), memworld.reader(x, st, a[2]))

        def store_byte(x, st, a, i, fo, t):
            if not mine(x, st, a):
                return NotImplemented
            v = x.term(st, a[3], 8)
            return wr(x, st, x.term(st, a[1], 64), x.term(st, a[2], 64), lambda k: v)

        def load_bytes(x, st, a, i, fo, t):
            if not mine(x, st, a):
                return NotImplemented
            ad, n = x.term(st, a[1], 64), x.term(st, a[2], 64)
            fn = memworld.reader(x, st, Ref(DATA))
            return result(bor(eq(n, K(0, 64)), inr(ad, n)), SArr(n, lambda k: fn(add(ad, k)), (), "loaded"), oob(ad))

        def flagop(kind):
            def f(x, st, a, i, fo, t):
                if not mine(x, st, a):
                    return NotImplemented
                p = x.term(st, a[1], 64)
                ok = ult(p, im.pages)
                fl = st.env[FLAGS]
                old = x.term(st, fl.index(x, st, p), 8)
                if kind == "fetch":
                    return result(ok, old, oob(shl_c(p, 12)))
                m = x.term(st, a[2], 8)
                new = bor(old, m) if kind == "set" else band(old, bnot(m))
                st.env[FLAGS] = fl.setrange(p, K(1, 64), lambda k: new, ok)
                return result(ok, UNIT, oob(shl_c(p, 12)))
            return f

        def init_pages(x, st, a, i, fo, t):
            if not mine(x, st, a):
                return NotImplemented
            ad, n, off = x.term(st, a[1], 64), x.term(st, a[2], 64), x.term(st, a[5], 64)
            im.inner_flags = x.term(st, a[3], 8)
            return wr(x, st, ad, n, fill_value(x, st, a[4], off))

        def msize(x, st, a, i, fo, t):
            return im.msz if mine(x, st, a) else NotImplemented

        def mpages(x, st, a, i, fo, t):
            return im.pages if mine(x, st, a) else NotImplemented

        def lr(x, st, a, i, fo, t):
            return Ref(LRM) if mine(x, st, a) else NotImplemented

        def set_lr(x, st, a, i, fo, t):
            if not mine(x, st, a):
                return NotImplemented
            st.env[LRM] = x.term(st, a[1], 64)
            return UNIT

        def reset(x, st, a, i, fo, t):
            if not mine(x, st, a):
                return NotImplemented
            st.env[DATA] = SArr(im.msz, lambda k: K(0, 8), (), "zero")
            st.env[FLAGS] = SArr(im.pages, lambda k: K(0, 8), (), "zero")
            st.env[LRM] = K(mask(64), 64)
            return Ok(UNIT)
        for nm, n in LOADS.items():
            h[ME + nm] = load(n)
        for nm, n in STORES.items():
            h[ME + nm] = storen(n)
        h.update({ME + "store_bytes": store_bytes, ME + "store_byte": store_byte, ME + "load_bytes": load_bytes,
                  ME + "fetch_flag": flagop("fetch"), ME + "set_flag": flagop("set"), ME + "clear_flag": flagop("clear"),
                  ME + "init_pages": init_pages, ME + "memory_size": msize, ME + "memory_pages": mpages, ME + "lr": lr,
                  ME + "set_lr": set_lr, ME + "reset_memory": reset})
        return h


def fill_value(x, st, source, off):
    """byte k of an initialised page range"""
    if isinstance(source, En):
        some = eq(source.vidx, K(1, 64))
        pay = source.v.get(1)
        if pay and pay[0] is not UNDEF:
            n, fn = memworld.length(x, st, pay[0]), memworld.reader(x, st, pay[0])
            return lambda k: ite(band(some, bnot(ult(k, off)), ult(sub(k, off), n)), x.term(st, fn(sub(k, off)), 8), K(0, 8))
    return lambda k: K(0, 8)


def in_range(a, n, msz):
    """n > 0 bytes at a inside memory"""
    e = add(a, n)
    return band(ult(a, msz), bnot(ult(e, a)), ule(e, msz))


class WX(Impl):
    name = "permission memory"
    adt = "memory::wxorx::WXorXMemory"
    perm = True

    def is_self(self, s):
        return s.startswith(self.adt + "<")

    def setup(self, st):
        st.env[("O", "m")] = self.fieldvals(self.adt, {"inner": Opq("inner")})
        st.env[DATA] = bytes_var("data", self.msz)
        st.env[FLAGS] = bytes_var("flags", self.pages)
        st.env[LRM] = V("lr", 64)
        return Ref(("O", "m"))

    def hooks(self):
        return InnerModel(self).hooks()

    def old_byte(self, q):
        return TM.mld(arr_var("data"), 1, q)

    def old_flag(self, p):
        return TM.mld(arr_var("flags"), 1, p)

    def byte(self, x, st, q):
        return x.term(st, st.env[DATA].index(x, st, q), 8)

    def flag(self, x, st, p):
        return x.term(st, st.env[FLAGS].index(x, st, p), 8)

    def lr(self, x, st):
        return st.env[LRM]

    def kept(self, x, st):
        return []


class Asm(Impl):
    name = "assembly memory"
    adt = "ckb_vm_definitions::asm::AsmCoreMachine"
    perm = True
    lazy = True
    PTR = {"memory_ptr": "mem", "flags_ptr": "pflags", "frames_ptr": "frames"}

    def __init__(self, p):
        super().__init__(p)
        self.frames = zext(V("frames_size", PB - 6), 64)
        self.pages = cat(K(0, 64 - PB), V("frames_size", PB - 6), K(0, 6))
        self.msz = cat(K(0, 64 - PB - 12), V("frames_size", PB - 6), K(0, 18))
        self.size = {"mem": self.msz, "pflags": self.pages, "frames": self.frames}

    def is_self(self, s):
        return s.startswith("alloc::boxed::Box<" + self.adt)

    def setup(self, st):
        a = self.p.adt(self.adt)
        vals = {}
        cr = self.p.vm if self.adt in self.p.vm.adts else self.p.defs
        for f in a["variants"][0]["fields"]:
            t = cr.ty(f["ty"])
            n = f["name"]
            if t["k"] == "array":
                vals[n] = arr_var("regs")
            else:
                vals[n] = V(n, t["bits"])
        vals.update({"memory_size": self.msz, "frames_size": self.frames, "flags_size": self.pages, "chaos_mode": K(0, 8),
                     "load_reservation_address": V("lr", 64)})
        self.v0 = vals
        st.env[("O", "m")] = self.fieldvals(self.adt, vals)
        st.env[("O", "box")] = Ref(("O", "m"))
        st.env[("O", "mem")] = bytes_var("data", self.msz)
        st.env[("O", "pflags")] = bytes_var("flags", self.pages)
        st.env[("O", "frames")] = bytes_var("frames", self.frames)
        return Ref(("O", "box"))

    def hooks(self):
        bases = {V(k, 64): v for k, v in self.PTR.items()}

        def region(x, st, p, n):
            for b, r in bases.items():
                off = sub(p, b)
                if b not in leaves(p):
                    continue
                if b in leaves(off):
                    continue
                e = add(off, n)
                bad = band(ne(n, K(0, 64)), bor(ult(e, off), bnot(ule(e, self.size[r]))))
                st.env[("O", "oob")] = bor(st.env[("O", "oob")], bad)
                return memworld.subslice(x, st, Ref(("O", r)), off, n)
            raise Unsupported("host address " + show(p, 3))
        return {"host_region": region}

    def raw(self, x, st, r, i):
        return x.term(st, st.env[("O", r)].index(x, st, i), 8)

    def old_byte(self, q):
        return ite(eq(TM.mld(arr_var("frames"), 1, lshr_c(q, 18)), K(0, 8)), K(0, 8), TM.mld(arr_var("data"), 1, q))

    def old_flag(self, p):
        return TM.mld(arr_var("flags"), 1, p)

    def byte(self, x, st, q):
        return ite(eq(self.raw(x, st, "frames", lshr_c(q, 18)), K(0, 8)), K(0, 8), self.raw(x, st, "mem", q))

    def flag(self, x, st, p):
        return self.raw(x, st, "pflags", p)

    def field(self, x, st, n):
        return x.load(st, ("O", "m"), (("f", self.fieldix(self.adt, n)),))

    def lr(self, x, st):
        return x.term(st, self.field(x, st, "load_reservation_address"), 64)

    def kept(self, x, st):
        out = []
        for n, v in self.v0.items():
            if n in ("load_reservation_address", "last_read_frame", "last_write_page", "registers", "error_arg0"):
                continue
            out.append((n, x.term(st, self.field(x, st, n)), v))
        return out

    def cache_ok(self, flag, frame, lrf, lwp):
        """what the engine may conclude from its two cached numbers"""
        M = K(mask(64), 64)
        r = bor(eq(lrf, M), band(ult(lrf, self.frames), ne(frame(lrf), K(0, 8))))
        f = flag(lwp)
        w = bor(eq(lwp, M), band(ult(lwp, self.pages), ne(frame(lshr_c(lwp, 6)), K(0, 8)), eq(band(f, K(DIRTY, 8)), K(DIRTY, 8)),
                                 eq(band(f, K(WXORX, 8)), K(0, 8))))
        return r, w

    def invariant(self):
        r, w = self.cache_ok(self.old_flag, lambda i: TM.mld(arr_var("frames"), 1, i), V("last_read_frame", 64), V("last_write_page", 64))
        return band(r, w)

    def cache_after(self, x, st):
        g = lambda n: x.term(st, self.field(x, st, n), 64)
        return self.cache_ok(lambda p: self.flag(x, st, p), lambda i: self.raw(x, st, "frames", i), g("last_read_frame"), g("last_write_page"))


IMPLS = (Flat, Sparse, WX, Asm)


# ------------------------------------------------------------------ obligations
def err_code(im, r):
    """variant number of the error, 255 when Ok"""
    if not isinstance(r, En):
        raise Unsupported("result %r" % (r,))
    ok = eq(r.vidx, K(0, 64))
    e = r.v.get(1, (UNDEF,))[0]
    if e is UNDEF:
        return ok, K(255, 64), None

    def go(e):
        if isinstance(e, Mux):
            return ite(e.c, go(e.a), go(e.b))
        if isinstance(e, En):
            return e.vidx
        return K(254, 64)
    return ok, ite(ok, K(255, 64), go(e)), e


class Judge:
    def __init__(self, ctx, im, only, trials):
        self.ctx, self.im, self.only, self.trials, self.width = ctx, im, only, trials, 0

    def want(self, g):
        return g in self.only

    def decide(self, op, where, obs, under, cut):
        """obs: (group, name, a, b, condition, message)"""
        under = band(under, bnot(cut))
        todo = []
        if panics.ON:
            obs = [(None, n, a, b, TRUE, "panics") for n, a, b in panics.take()]
        for g, n, a, b, c, msg in obs:
            if g is not None and not self.want(g):
                continue
            key = "%s %s/%s" % (self.im.name, op, n)
            u = band(under, c)
            if a is b or u is FALSE:
                self.ctx.ok(key, "identical normal form")
                continue
            todo.append((key, a, b, u, msg))
        rest = []
        for key, a, b, u, msg in todo:
            try:
                dd = equiv.DD()
                ps = set()
                dd.pairs(dd.build(u), dd.build(a), dd.build(b), ps, set())
                if all(s is t for s, t in ps):
                    self.ctx.ok(key, "decision diagram")
                    continue
            except (OverflowError, RecursionError):
                pass
            rest.append((key, a, b, u, msg))
        if not rest:
            return
        bad, held = self.interpret(rest, (self.ctx.seed, self.im.name, op))
        for key, a, b, u, msg in rest:
            if key in bad:
                asg, va, vb = bad[key]
                self.ctx.bad(key, where, "%s %s: %s: %s, required %s; for %s" % (
                    self.im.name, op, msg, equiv.hexval(va), equiv.hexval(vb),
                    {n: hex(v) for n, v in sorted(asg.items())[:14] if isinstance(v, int)}), {"assignment": {n: str(v) for n, v in asg.items()}})
            elif held.get(key, 0) < 20:
                self.ctx.und(key, "condition met by only %d interpretations" % held.get(key, 0))
            else:
                self.ctx.ok(key, "random interpretation only")

    def interpret(self, rest, seed):
        rng = random.Random(repr(seed))
        bad, held = {}, {}
        n = 0
        while n < self.trials or n < 16 * self.trials and any(held.get(k[0], 0) < 40 for k in rest):
            n += 1
            if n > self.trials:
                rest = [k for k in rest if held.get(k[0], 0) < 40]
            v = MemVal(self.im, random.Random(rng.getrandbits(64)), self.width)
            for key, a, b, u, msg in rest:
                if key in bad or not v.ev(u):
                    continue
                held[key] = held.get(key, 0) + 1
                x, y = v.ev(a), v.ev(b)
                if x != y:
                    bad[key] = (dict(v.vars), x, y)
        return bad, held


class MemVal(equiv.Val):
    """addresses, sizes and probes that meet the boundaries that matter"""

    def __init__(self, im, rng, width=0):
        fs = rng.choice((1, 1, 2, 3))
        pages = fs * 64 if im.lazy else rng.choice((1, 2, 3, 4, 6, 9))
        many = not im.lazy and rng.random() < 0.15
        if many:
            # more pages in use than a narrow page number can tell apart
            pages = rng.choice((0xffff, 0x10000, 0x10001, 0x1ffff, 0x40000)) + rng.randrange(1, 4)
        msz = pages * PAGE
        near = lambda x, d=10: (x + rng.randrange(-d, d + 1)) & mask(64)
        bnd = [rng.randrange(pages + 1) * PAGE, msz, 0, rng.randrange(fs + 1) << 18 if im.lazy else msz]
        a = rng.choice((near(rng.choice(bnd)), near(rng.choice(bnd)), rng.choice(bnd), rng.randrange(msz), near(0, 4 * PAGE), rng.getrandbits(64)))
        al = rng.random()
        if width:
            al = 0.5
            if rng.random() < 0.5:
                a = (rng.choice(bnd + ([rng.randrange(1, fs) << 18] if fs > 1 else [])) - rng.randrange(width)) & mask(64)
        if al < 0.4:
            a &= ~(PAGE - 1)
        size = rng.choice((0, 1, 2, 3, 8, rng.randrange(3 * PAGE), near(PAGE, 3), near(2 * PAGE, 3), PAGE, 2 * PAGE, 3 * PAGE,
                           (msz - a) & mask(64), near(msz - a, 2), near(0 - a, 2), rng.getrandbits(64)))
        if rng.random() < 0.12:
            size = rng.randrange(9) * PAGE
            al = 0
            a = max(0, (rng.randrange(pages + 1) * PAGE - size)) if rng.random() < 0.8 else a & ~(PAGE - 1)
        if al < 0.25 or al > 0.9:
            size &= ~(PAGE - 1)
        if width:
            size = width
        if not width and im.lazy and rng.random() < 0.25:
            a &= ~((1 << 18) - 1)
        q = rng.choice(((a & ~((1 << 18) - 1)) + rng.randrange(1 << 18), near(a, 2), near(a + size, 2), near(a + size - 1, 1), a + (rng.randrange(size) if 0 < size < 1 << 30 else 0), rng.randrange(msz),
                        near(rng.choice(bnd), 2))) & mask(64)
        p = rng.choice((q >> 12, a >> 12, (a + max(size, 1) - 1 & mask(64)) >> 12, (a >> 12) + 1, rng.randrange(pages), pages, pages - 1))
        d = equiv.Draw(random.Random(rng.getrandbits(64)))
        fixed = {"A": a, "size": size, "q": q, "p": p, "p2": rng.choice((p, rng.randrange(pages), (a >> 12) + 1, a >> 12)),
                 "pages": pages, "frames_size": fs, "npages": rng.choice((0xffff, 0x10000, 0xfffe, pages - 2)) if many else 7 * (pages + 6) % 251, "pageno": rng.choice((rng.randrange(pages), pages, p, pages - 1, rng.getrandbits(64), rng.getrandbits(52))),
                 "offset": rng.choice((0, 0, 1, 5, PAGE, rng.randrange(3 * PAGE), size, near(size, 1), rng.getrandbits(64))),
                 "srclen": rng.choice((0, 1, PAGE, rng.randrange(3 * PAGE), 3 * PAGE, size if size < 1 << 30 else 4)),
                 "some": rng.randrange(2),
                 "last_read_frame": rng.choice((mask(64), mask(64), a >> 18, (a + 8) >> 18, rng.randrange(fs))),
                 "last_write_page": rng.choice((mask(64), mask(64), mask(64), a >> 12, p, (a + 8) >> 12, rng.randrange(pages)))}
        fixed["offset"] &= mask(64)
        super().__init__(rng.getrandbits(32), d, fixed)
        self.rng = rng
        self.tab = {}
        self.pages = pages
        self.many = many
        self.mode = rng.random()
        self.fl = rng.choice(((0, 0, 0, 4), (0, 2, 4, 6, 1, 3), (2, 2, 2, 6), (0, 4, 1), (0, 0, 0, 2)))
        # cached numbers mostly as the engine keeps them
        lrf, lwp = fixed["last_read_frame"], fixed["last_write_page"]
        if rng.random() < 0.9:
            if lrf < fs:
                self.tab[("frames", lrf)] = 1
            if lwp < pages:
                self.tab[("frames", lwp >> 6)] = 1
                self.tab[("flags", lwp)] = rng.choice((DIRTY, DIRTY | FREEZED))

    def byte0(self, name, a):
        if name == "frames":
            return self.tab.setdefault(("frames", a), int(self.rng.random() < 0.4 + self.mode / 2))
        if name == "flags":
            return self.tab.setdefault((name, a), self.rng.choice(self.fl))
        if name == "present":
            return self.tab.setdefault((name, a), int(self.rng.random() < self.mode))
        if name == "slots":
            # a permutation of the page numbers of this memory
            if self.many:
                return self.tab.setdefault((name, a), sum(1 for k in self.tab if k[0] == name) * 5 % 256)
            return (a * 7 + 3) % (self.pages + 6) if (self.pages + 6) % 7 else (a * 5 + 3) % (self.pages + 6)
        return super().byte0(name, a)


def reg_of(w, v):
    return v


def judge_memory(ctx, im, groups, ops=None):
    import report
    trials = 10000 if ctx.thorough else 2500

    def one(c, op):
        try:
            j = Judge(c, im, groups, trials)
            j.width = STORES.get(op) or (LOADS[op][0] if op in LOADS and isinstance(LOADS[op], tuple) else LOADS.get(op, 0))
            if op in LOADS:
                load_op(j, op, LOADS[op])
            elif op in STORES or op in ("store_bytes", "store_byte"):
                store_op(j, op)
            elif op == "load_bytes":
                load_bytes_op(j)
            elif op.endswith("_flag"):
                flag_op(j, op)
            elif op == "init_pages":
                init_op(j)
            elif op == "reset_memory":
                reset_op(j)
            elif op in ("lr", "set_lr", "memory_size", "memory_pages"):
                small_op(j, op)
        except (Unsupported, KeyError, AttributeError, TypeError) as e:
            import traceback
            c.und("%s %s" % (im.name, op), "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-200:] if not isinstance(e, Unsupported) else ""))
    todo = list(LOADS) + list(STORES) + ["store_bytes", "store_byte", "load_bytes", "fetch_flag", "set_flag", "clear_flag",
                                         "init_pages", "reset_memory", "lr", "set_lr", "memory_size", "memory_pages"]
    todo = [o for o in todo if ops is None or o in ops]
    todo.sort(key=lambda o: o not in ("init_pages", "store_bytes", "store_byte", "load_bytes"))
    report.pmap(ctx, one, todo)


def where_of(g):
    return "%s (%s)" % (g["path"], g["span"])


def changed_pages_dirty(im, x, st):
    """a changed byte lies on a dirty page"""
    ch = ne(im.byte(x, st, Q), im.old_byte(Q))
    return ch, eq(band(im.flag(x, st, page_of(Q)), K(DIRTY, 8)), K(DIRTY, 8))


def refuse_ok(im, code, e, first, last, wantexec):
    """the permission error: for a page of the range that really has the wrong kind"""
    c = im.codes["MemWriteOnExecutablePage"]
    isp = eq(code, K(c, 64))

    def pg(e):
        if isinstance(e, Mux):
            return ite(e.c, pg(e.a), pg(e.b))
        if isinstance(e, En) and c in e.v and isinstance(e.v[c][0], T):
            return e.v[c][0]
        return K(mask(64), 64)
    n = pg(e) if e is not None else K(mask(64), 64)
    bit = eq(band(im.old_flag(n), K(WXORX, 8)), K(EXEC, 8))
    wrong = bnot(bit) if wantexec else bit
    return isp, n, band(ule(first, n), ule(n, last), wrong)


def common(im, x, st, obs, ok, data=True, flags=True):
    obs.append(("frame", "no panic", st.panic, FALSE, TRUE, "panics"))
    obs.append(("bounds", "no panic", st.panic, FALSE, TRUE, "panics"))
    obs.append(("bounds", "host accesses inside the buffers", st.env[("O", "oob")], FALSE, TRUE, "accesses host memory outside the guest's"))
    for n, a, b in im.kept(x, st):
        obs.append(("frame", n, a, b, TRUE, "changes " + n))
    if im.lazy:
        r, w = im.cache_after(x, st)
        obs.append(("cache", "last_read_frame", r, TRUE, TRUE, "leaves last_read_frame naming uninitialised memory"))
        obs.append(("cache", "last_write_page", w, TRUE, TRUE, "leaves last_write_page naming a page that is not writable, dirty and initialised"))


def same_lr(im, x, st, obs):
    obs.append(("frame", "reservation", im.lr(x, st), V("lr", 64), TRUE, "changes the reservation"))


def load_op(j, op, n):
    im = j.im
    exe = op.startswith("execute")
    g, x, st, r = im.run(op, [A] if exe else [(A,)], unroll=n + 1)
    ok, code, e = err_code(im, r)
    inr = in_range(A, K(n, 64), im.msz)
    last = page_of(sub(add(A, K(n, 64)), K(1, 64)))
    obs = []
    okref = inr
    if exe and im.perm:
        ex_ = lambda p: eq(band(im.old_flag(p), K(WXORX, 8)), K(EXEC, 8))
        okref = band(inr, ex_(page_of(A)), ex_(last))
        isp, pg, good = refuse_ok(im, code, e, page_of(A), last, True)
        obs += [("perm", "executes only executable pages", ok, FALSE, bnot(bor(bnot(inr), okref)), "fetches from a page that is not executable"),
                ("perm", "permission error", band(isp, bnot(good)), FALSE, TRUE, "refuses a page that may be executed"),
                ("perm", "fetch allowed", ok, TRUE, okref, "refuses a fetch from executable pages")]
    obs += [("bounds", "range", ok, FALSE, bnot(inr), "succeeds out of range"),
            ("bounds", "kind of error", code, K(im.codes["MemOutOfBound"], 64), band(bnot(ok), bnot(inr)) if not (exe and im.perm) else band(bnot(ok), bnot(inr), bnot(eq(code, K(im.codes["MemWriteOnExecutablePage"], 64)))), "wrong error out of range"),
            ("bounds", "not refused", ok, TRUE, okref, "refuses an access inside memory")]
    v = x.term(st, r.v[0][0]) if 0 in r.v and r.v[0][0] is not UNDEF else None
    if v is not None:
        bs = [im.old_byte(add(A, K(k, 64))) for k in range(n)]
        ref = cat(*reversed(bs)) if n > 1 else bs[0]
        ref = zext(ref, v.w)
        for gr in ("content", "init"):
            obs.append((gr, "value", v, ref, ok, "loads another value than was stored"))
    for gr in ("content", "init"):
        obs.append((gr, "memory unchanged", im.byte(x, st, Q), im.old_byte(Q), ult(Q, im.msz), "a load changes memory"))
    obs.append(("flags", "flags unchanged", im.flag(x, st, P), im.old_flag(P), ult(P, im.pages), "a load changes a page flag"))
    common(im, x, st, obs, ok)
    same_lr(im, x, st, obs)
    j.decide(op, where_of(g), obs, im.invariant(), st.cut)


def store_op(j, op):
    im = j.im
    if op in STORES:
        n = K(STORES[op], 64)
        val = V("value", 64)
        g, x, st, r = im.run(op, [(A,), (val,)], unroll=STORES[op] + 1)
        want = memworld.byte_of(trunc(val, 8 * STORES[op]))
        zero = FALSE
        small = TRUE
    else:
        n = SIZE
        zero = eq(n, K(0, 64))
        small = TRUE
        if op == "store_byte":
            b = V("value", 8)
            g, x, st, r = im.run(op, [A, n, b])
            want = lambda k: b
        else:
            st0 = SArr(n, lambda i: TM.mld(SRC, 1, i), (), "src")
            g, x, st, r = im.run(op, [A, (st0,)])
            want = lambda k: TM.mld(SRC, 1, k)
    ok, code, e = err_code(im, r)
    inr = bor(zero, in_range(A, n, im.msz))
    d = sub(Q, A)
    hit = ult(d, n)
    last = page_of(sub(add(A, n), K(1, 64)))
    first = page_of(A)
    touched = lambda p: band(bnot(zero), ule(first, p), ule(p, last))
    qin = ult(Q, im.msz)
    new, old = im.byte(x, st, Q), im.old_byte(Q)
    obs = [("bounds", "range", ok, FALSE, bnot(inr), "succeeds out of range"),
           ("bounds", "nothing outside the range written", new, old, band(qin, bnot(hit)), "changes a byte outside the range")]
    for gr in ("content", "init"):
        obs.append((gr, "bytes", new, ite(hit, want(d), old), band(qin, ok), "leaves other bytes than were stored"))
    if im.perm:
        exq = lambda p: eq(band(im.old_flag(p), K(WXORX, 8)), K(EXEC, 8))
        obs += [("perm", "refused on executable page", ok, FALSE, band(inr, touched(P), exq(P)), "writes to an executable page"),
                ("perm", "executable page unchanged", new, old, band(qin, exq(page_of(Q)), bnot(ok)), "a refused write changes the refusing page"),
                ("bounds", "refused only for bounds or permission", bor(eq(code, K(im.codes["MemOutOfBound"], 64)), eq(code, K(im.codes["MemWriteOnExecutablePage"], 64))), TRUE, bnot(ok), "reports another error"),
                ("bounds", "not refused for bounds", eq(code, K(im.codes["MemOutOfBound"], 64)), FALSE, inr, "refuses an access inside memory")]
        isp, pg, good = refuse_ok(im, code, e, first, last, False)
        obs.append(("perm", "permission error", band(isp, bnot(good)), FALSE, TRUE, "refuses a page that may be written"))
    else:
        obs += [("bounds", "not refused", ok, TRUE, inr, "refuses an access inside memory"),
                ("bounds", "kind of error", code, K(im.codes["MemOutOfBound"], 64), bnot(ok), "wrong error out of range")]
    nf, of = im.flag(x, st, P), im.old_flag(P)
    obs.append(("dirty", "every page dirty", band(nf, K(DIRTY, 8)), K(DIRTY, 8), band(ok, touched(P)), "leaves a written page without dirty mark"))
    ch, dd = changed_pages_dirty(im, x, st)
    obs.append(("dirty", "changed bytes on dirty pages", dd, TRUE, band(qin, ch), "changes a byte of a page without marking it"))
    obs.append(("flags", "other flags unchanged", band(nf, K(0xff & ~DIRTY, 8)), band(of, K(0xff & ~DIRTY, 8)), ult(P, im.pages), "changes a page flag other than the dirty mark"))
    obs.append(("dirty", "dirty marks kept", band(of, K(DIRTY, 8), bnot(nf)), K(0, 8), ult(P, im.pages), "clears a dirty mark"))
    common(im, x, st, obs, ok)
    same_lr(im, x, st, obs)
    j.decide(op, where_of(g), obs, im.invariant(), st.cut)


def load_bytes_op(j):
    im = j.im
    g, x, st, r = im.run("load_bytes", [A, SIZE])
    ok, code, e = err_code(im, r)
    zero = eq(SIZE, K(0, 64))
    inr = bor(zero, in_range(A, SIZE, im.msz))
    obs = [("bounds", "range", ok, inr, TRUE, "wrong decision about the range"),
           ("bounds", "kind of error", code, K(im.codes["MemOutOfBound"], 64), bnot(ok), "wrong error out of range")]
    v = r.v.get(0, (UNDEF,))[0]
    if v is UNDEF:
        raise Unsupported("load_bytes result")
    n, fn = memworld.length(x, st, v), memworld.reader(x, st, v)
    for gr in ("content", "init"):
        obs += [(gr, "length", n, SIZE, ok, "returns another number of bytes"),
                (gr, "bytes", x.term(st, fn(sub(Q, A)), 8), im.old_byte(Q), band(ok, ult(sub(Q, A), SIZE)), "returns other bytes than memory holds"),
                (gr, "memory unchanged", im.byte(x, st, Q), im.old_byte(Q), ult(Q, im.msz), "a load changes memory")]
    obs.append(("flags", "flags unchanged", im.flag(x, st, P), im.old_flag(P), ult(P, im.pages), "a load changes a page flag"))
    common(im, x, st, obs, ok)
    same_lr(im, x, st, obs)
    j.decide("load_bytes", where_of(g), obs, im.invariant(), st.cut)


def flag_op(j, op):
    im = j.im
    PN, M = V("pageno", 64), V("mask8", 8)
    g, x, st, r = im.run(op, [PN] + ([M] if op != "fetch_flag" else []))
    ok, code, e = err_code(im, r)
    inr = ult(PN, im.pages)
    obs = [("bounds", "range", ok, inr, TRUE, "wrong decision about the page number"),
           ("bounds", "kind of error", code, K(im.codes["MemOutOfBound"], 64), bnot(ok), "wrong error out of range")]
    of = im.old_flag(P)
    new = of
    if op == "set_flag":
        new = ite(eq(P, PN), bor(of, M), of)
    elif op == "clear_flag":
        new = ite(eq(P, PN), band(of, bnot(M)), of)
    else:
        v = x.term(st, r.v[0][0], 8)
        obs.append(("flags", "value", v, im.old_flag(PN), ok, "returns another flag"))
    obs.append(("flags", "flags", im.flag(x, st, P), new, band(ok, ult(P, im.pages)), "leaves other flags"))
    obs.append(("flags", "flags unchanged on error", im.flag(x, st, P), of, band(bnot(ok), ult(P, im.pages)), "changes flags although it fails"))
    for gr in ("content", "init"):
        obs.append((gr, "memory unchanged", im.byte(x, st, Q), im.old_byte(Q), ult(Q, im.msz), "changes memory"))
    common(im, x, st, obs, ok)
    same_lr(im, x, st, obs)
    j.decide(op, where_of(g), obs, im.invariant(), st.cut)


def init_op(j):
    im = j.im
    off, sl, fl = V("offset", 64), V("srclen", 64), V("mask8", 8)
    src = En(zext(V("some", 1), 64), {0: (), 1: (SArr(sl, lambda i: TM.mld(SRC, 1, i), (), "src"),)}, OPT)
    g, x, st, r = im.run("init_pages", [A, SIZE, fl, src, off], unroll=9 if im.perm else None)
    ok, code, e = err_code(im, r)
    end = add(A, SIZE)
    al = band(eq(ex(11, 0, A), K(0, 12)), eq(ex(11, 0, SIZE), K(0, 12)))
    rng = band(ule(A, im.msz), bnot(ult(end, A)), ule(end, im.msz))
    offok = ule(off, SIZE)
    inp = band(ule(page_of(A), P), ult(P, page_of(end)))
    frz = lambda p: ne(band(im.old_flag(p), K(FREEZED, 8)), K(0, 8))
    some = eq(V("some", 1), K(1, 1))
    d = sub(Q, A)
    val = ite(band(some, bnot(ult(d, off)), ult(sub(d, off), sl)), TM.mld(SRC, 1, sub(d, off)), K(0, 8))
    hit = ult(d, SIZE)
    qin = ult(Q, im.msz)
    new, old = im.byte(x, st, Q), im.old_byte(Q)
    obs = []
    pre = TRUE
    if im.perm:
        C = lambda n: eq(code, K(im.codes[n], 64))
        obs += [("frozen", "aligned, in memory, offset inside", ok, FALSE, bnot(band(al, rng, offok)), "succeeds although the range is not acceptable"),
                ("frozen", "frozen page refused", ok, FALSE, band(al, rng, offok, inp, frz(P)), "re-initialises a frozen page"),
                ("frozen", "frozen page keeps its bytes", new, old, band(qin, frz(page_of(Q))), "changes bytes of a frozen page"),
                ("frozen", "alignment error", band(C("MemPageUnalignedAccess"), al), FALSE, TRUE, "reports an unaligned range that is aligned"),
                ("frozen", "alignment reported", ok, FALSE, bnot(al), "accepts an unaligned range"),
                ("frozen", "bound error", band(C("MemOutOfBound"), rng, offok), FALSE, TRUE, "reports an out-of-bound range that is inside"),
                ("frozen", "known errors", bor(C("MemPageUnalignedAccess"), C("MemOutOfBound"), C("MemWriteOnFreezedPage")), TRUE, bnot(ok), "reports another error"),
                ("bounds", "range", ok, FALSE, bnot(rng), "initialises outside memory")]

        c = im.codes["MemWriteOnFreezedPage"]

        def pg(e):
            if isinstance(e, Mux):
                return ite(e.c, pg(e.a), pg(e.b))
            if isinstance(e, En) and c in e.v and isinstance(e.v[c][0], T):
                return e.v[c][0]
            return K(mask(64), 64)
        fp = pg(e) if e is not None else K(mask(64), 64)
        obs.append(("frozen", "frozen page named", band(ule(page_of(A), fp), ult(fp, page_of(end)), frz(fp)), TRUE,
                    C("MemWriteOnFreezedPage"), "names a page that is not frozen"))
        obs.append(("frozen", "flags set", band(im.flag(x, st, P), fl), fl, band(ok, inp), "leaves a page without the requested flags"))
        obs.append(("frozen", "flags kept", band(im.old_flag(P), bnot(im.flag(x, st, P))), K(0, 8), band(ult(P, im.pages)), "clears flags"))
        obs.append(("frozen", "no other flags", band(im.flag(x, st, P), bnot(bor(im.old_flag(P), fl, K(DIRTY, 8)))), K(0, 8), ult(P, im.pages), "sets flags that were not requested"))
        obs.append(("frozen", "flags outside", band(im.flag(x, st, P), K(0xff & ~DIRTY, 8)), band(im.old_flag(P), K(0xff & ~DIRTY, 8)), band(ult(P, im.pages), bnot(inp)), "changes flags of a page outside the range"))
    else:
        pre = band(al, offok)
        obs.append(("bounds", "range", ok, FALSE, band(bnot(rng), ne(SIZE, K(0, 64))), "initialises outside memory"))
        obs.append(("bounds", "not refused", ok, TRUE, rng, "refuses a range inside memory"))
    obs.append(("bounds", "nothing outside the range written", new, old, band(qin, bnot(hit)), "changes a byte outside the range"))
    for gr in ("content", "init", "frozen"):
        obs.append((gr, "bytes", new, ite(hit, val, old), band(qin, ok), "leaves other bytes than the data surrounded by zeroes"))
    obs.append(("dirty", "every page dirty", band(im.flag(x, st, P), K(DIRTY, 8)), K(DIRTY, 8), band(ok, inp), "leaves a written page without dirty mark"))
    common(im, x, st, obs, ok)
    same_lr(im, x, st, obs)
    j.decide("init_pages", where_of(g), obs, band(pre, im.invariant()), st.cut)


def reset_op(j):
    im = j.im
    g, x, st, r = im.run("reset_memory", [])
    ok, code, e = err_code(im, r)
    obs = [("reset", "succeeds", ok, TRUE, TRUE, "fails"),
           ("reset", "memory zero", im.byte(x, st, Q), K(0, 8), ult(Q, im.msz), "leaves bytes in memory"),
           ("init", "memory zero", im.byte(x, st, Q), K(0, 8), ult(Q, im.msz), "leaves bytes in memory"),
           ("reset", "flags zero", im.flag(x, st, P), K(0, 8), ult(P, im.pages), "leaves page flags"),
           ("reset", "reservation dropped", im.lr(x, st), K(mask(64), 64), TRUE, "keeps the reservation")]
    common(im, x, st, obs, ok)
    j.decide("reset_memory", where_of(g), obs, im.invariant(), st.cut)


def small_op(j, op):
    im = j.im
    obs = []
    if op == "set_lr":
        g, x, st, r = im.run(op, [(V("newlr", 64),)])
        obs.append(("frame", "reservation", im.lr(x, st), V("newlr", 64), TRUE, "stores another reservation"))
    else:
        g, x, st, r = im.run(op, [])
        v = x.term(st, r, 64)
        ref = {"lr": V("lr", 64), "memory_size": im.msz, "memory_pages": im.pages}[op]
        obs.append(("frame", "value", v, ref, TRUE, "returns another value"))
        same_lr(im, x, st, obs)
    for gr in ("content", "init"):
        obs.append((gr, "memory unchanged", im.byte(x, st, Q), im.old_byte(Q), ult(Q, im.msz), "changes memory"))
    common(im, x, st, obs, TRUE)
    j.decide(op, where_of(g), obs, im.invariant(), st.cut)
