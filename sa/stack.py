"""initialize_stack: the stack a program starts with, for 0 to 3 arguments of any length and content."""
import containers
import memworld
from hostworld import *
from loops import where_of

MEM = ("O", "bytes")
Q = V("q", 64)
MSZ = V("memory_size", 64)
START, SIZE = V("stack_start", 64), V("stack_size", 64)
ME = "memory::Memory::"


def lenv(k):
    return V("len%d" % k, 64)


class StackHost(Host):
    def __init__(self, p, xl=64):
        super().__init__(p, False, 0, 12)
        self.xl = xl
        if xl == 32:
            self.disp = memworld.Dispatch(p, "u32")
            self.consts = {**CONSTS, ("instructions::register::Register", "BITS"): 32}
            self.widths = {n: 32 if n in ("pc", "next_pc") else w for n, w in self.widths.items()}

    zeros = staticmethod(lambda ix: FALSE)

    def old(self, ix):
        """memory before: anything, but for the bytes documented to rely on fresh memory"""
        return ite(self.zeros(ix), K(0, 8), uf("old", 8, ix))

    def start(self):
        st = super().start()
        st.env[MEM] = containers.SArr(MSZ, self.old, (), "bytes")
        st.env[("O", "refused")] = FALSE
        return st

    def write(self, x, st, addr, n, fn):
        bad = bor(ult(MSZ, n), ult(sub(MSZ, n), addr))
        good = band(bnot(bad), bnot(eq(n, K(0, 64))))
        st.env[MEM] = st.env[MEM].setrange(addr, n, fn, good)
        st.env[("O", "refused")] = bor(st.env[("O", "refused")], bad)
        return En(zext(bad, 64), {0: (UNIT,), 1: (En(EVERR, {EVERR: (K(0, 64),)}, "error::Error"),)}, RES)

    def hooks(self):
        H = super().hooks()

        def val(x, st, v, w=64):
            while isinstance(v, Ref):
                v = x.load(st, v.root, v.path)
            v = x.term(st, v, w)
            return zext(v, 64) if w == 64 and v.w < 64 else v

        def store_bytes(x, st, a, i, f, t):
            r = memworld.as_bytes(x, st, a[2]) if hasattr(memworld, "as_bytes") else None
            n = memworld.length(x, st, a[2])
            fn = memworld.reader(x, st, a[2])
            return self.write(x, st, val(x, st, a[1]), n, fn)
        H[ME + "store_bytes"] = store_bytes

        def store_byte(x, st, a, i, f, t):
            b = val(x, st, a[3], 8)
            return self.write(x, st, val(x, st, a[1]), val(x, st, a[2]), lambda k: b)
        H[ME + "store_byte"] = store_byte
        for n in (8, 16, 32, 64):
            def sn(x, st, a, i, f, t, n=n):
                v = ex(n - 1, 0, val(x, st, a[2]))   # what a 32-bit register holds has no upper half
                return self.write(x, st, val(x, st, a[1]), K(n // 8, 64), memworld.byte_of(v))
            H[ME + "store%d" % n] = sn
        H[ME + "memory_size"] = lambda x, st, a, i, f, t: MSZ
        return H


class SVal(equiv.Val):
    def __init__(self, rng):
        msz = rng.choice((1 << 22, 1 << 12, rng.getrandbits(20)))
        size = rng.choice((rng.getrandbits(6), rng.getrandbits(12), 1 << 20, rng.getrandbits(64)))
        start = rng.choice((msz - size, msz - size, rng.getrandbits(12), 0, rng.getrandbits(64))) & mask(64)
        fixed = {"memory_size": msz, "stack_start": start, "stack_size": size, "version": rng.randrange(4), "probe": rng.choice((2, rng.randrange(32)))}
        for k in range(4):
            fixed["len%d" % k] = rng.choice((0, 1, rng.randrange(9), rng.randrange(64), rng.getrandbits(12)))
        if rng.getrandbits(1):
            size = (size + (-(start + size) & 15)) & mask(64)
            fixed["stack_size"] = size
            if rng.getrandbits(1):
                fixed["memory_size"] = (start + size) & mask(64)
        top = start + size
        fixed["q"] = (top - rng.choice((1, rng.getrandbits(5), rng.getrandbits(7), rng.getrandbits(9)))) & mask(64)
        super().__init__(rng.getrandbits(32), equiv.Draw(random.Random(rng.getrandbits(64))), fixed)


def run(ctx, p, n, ver, trials, xl=64):
    name = "stack with %d argument%s, version %d%s" % (n, "" if n == 1 else "s", ver, ", 32-bit machine" if xl == 32 else "")
    W = xl // 8
    f = p.trait_defaults.get(("machine::SupportMachine", "initialize_stack"))
    if f is None:
        return ctx.und(name, "initialize_stack not found")
    try:
        h = StackHost(p, xl)
        new = TRUE if ver else FALSE
        top = add(START, SIZE)
        # the definition
        ptr, cur = [], top
        total = K(0, 64)
        for k in range(n):
            l = add(lenv(k), K(1, 64))
            cur = sub(cur, l)
            total = add(total, l)
            ptr.append(cur)
        low1 = band(sub(cur, K(W * (n + 2), 64)), K(mask(64) ^ 15, 64)) if n else band(sub(top, K(W, 64)), K(mask(64) ^ 15, 64))
        low0 = sub(cur, K(W * (n + 1), 64))
        sp = ite(new, low1, low0)
        need = ite(new, sub(top, low1), sub(top, low0))
        fits = ule(need, SIZE)
        # version 0 writes 4 bytes of each word, and without arguments argc is not written at all
        words = (n + 1 if not ver else (1 if not n else 0)) if W == 8 or ver else 0
        part = 4 if not ver else 0
        h.zeros = lambda ix: bor(*[band(ult(sub(ix, add(sp, K(W * k, 64))), K(W, 64)), ule(K(part, 64), sub(ix, add(sp, K(W * k, 64))))) for k in range(words)]) if words else FALSE
        st = h.start()
        x = h.executor()
        was = arr_var("regs")
        if xl == 32:
            x.store(st, *h.corepath("registers"), Agg([V("reg%d" % i, 32) for i in range(32)]))
            for i in range(32):
                was = rw(was, K(i, 5), zext(V("reg%d" % i, 32), 64))
        data = [containers.SArr(lenv(k), lambda ix, k=k: uf("arg%d" % k, 8, ix), (), "arg") for k in range(n)]
        st.env[("O", "args")] = Agg(data, "Vec")
        me = Ref(h.dm[0], h.dm[1] + (("f", h.ix(DMT, "inner")),))
        x.store(st, me.root, me.path + (("f", h.ix("machine::DefaultCoreMachine", "version")),), K(ver, 32))
        rv = x.run_body(st, f, [me, Ref(("O", "args")), START, SIZE])
        code, pay, val = h.result(x, st, rv)
        if xl == 32:
            at = lambda i: zext(x.term(st, x.walk(st, x.load(st, *h.corepath("registers")), (("i", K(i, 64)),)), 32), 64)
            regs = arr_var("regs")
            for i in range(32):
                regs = rw(regs, K(i, 5), at(i))
        else:
            regs = h.fields(x, st)["regs"]
        byte = st.env[MEM].index(x, st, Q)
        want = h.old(Q)
        for k in range(n):
            want = ite(eq(Q, add(ptr[k], lenv(k))), K(0, 8), want)
            h_ = ult(sub(Q, ptr[k]), lenv(k))
            want = ite(h_, uf("arg%d" % k, 8, sub(Q, ptr[k])), want)
        for k, v in enumerate([K(n, 64)] + ptr + ([K(0, 64)] if ver and n else [])):
            for b in range(W):
                bv = ex(8 * b + 7, 8 * b, v)
                if b >= 4 and W == 8:
                    bv = ite(new, bv, K(0, 8))
                want = ite(eq(Q, add(sp, K(W * k + b, 64))), bv, want)
        # sane arguments: the stack lies in memory, nothing wraps around
        sane = band(ule(START, MSZ), ule(SIZE, sub(MSZ, START)), *[ult(lenv(k), K(1 << 40, 64)) for k in range(n)])
        sane = band(sane, ule(K(64, 64), START), ule(add(total, K(64, 64)), top))
        if xl == 32:
            sane = band(sane, ult(START, K(1 << 31, 64)), ult(SIZE, K(1 << 31, 64)))
        ok = eq(code, K(255, 64))
        # without arguments and with an unaligned top, where exactly argc lies is left open
        plain = TRUE if n else eq(band(top, K(15, 64)), K(0, 64))
        sure = band(fits, plain)
        m = lambda v: ite(sure, v, K(0, v.w))
        obs = [("fits", bor(bnot(plain), ok), bor(bnot(plain), fits)), ("error", ite(bor(fits, bnot(plain)), K(0, 64), code), ite(bor(fits, bnot(plain)), K(0, 64), K(h.codes["MemOutOfStack"], 64))),
               ("stack pointer", m(rr(regs, K(2, 5))), m(sp)), ("other registers", ite(eq(PROBE, K(2, 5)), K(0, 64), rr(regs, PROBE)), ite(eq(PROBE, K(2, 5)), K(0, 64), rr(was, PROBE))),
               ("bytes used", m(val), m(sub(top, sp))), ("in the stack area", band(ok, ult(rr(regs, K(2, 5)), START)), FALSE), ("aligned", ite(band(ok, new), band(rr(regs, K(2, 5)), K(15, 64)), K(0, 64)), K(0, 64)),
               ("contents", m(byte), m(want)), ("panic", st.panic, FALSE)]
        decide(ctx, name, where_of(p, f["path"]), obs, band(sane, bnot(st.cut)), trials, SVal)
        # arguments larger than the memory below: an error, whichever
        obs = [("too large", band(ok, ult(top, add(total, K(W * (n + 1), 64)))), FALSE)]
        decide(ctx, name, where_of(p, f["path"]), obs, band(ule(START, MSZ), ule(SIZE, sub(MSZ, START)), bnot(st.cut), ule(MSZ, K(1 << 32, 64)) if xl == 32 else TRUE, *[ult(lenv(k), K(1 << 40, 64)) for k in range(n)]), trials, SVal)
    except Unsupported as e:
        ctx.und(name, str(e)[:200])


class ProgHost(Host):
    """load_program: loading, handlers, stack"""

    def __init__(self, p, asm, nh):
        super().__init__(p, asm, nh, 6)

    def hooks(self):
        H = super().hooks()

        def val(x, st, v, w=64):
            while isinstance(v, Ref):
                v = x.load(st, v.root, v.path)
            if isinstance(v, Opq):
                return V("object_" + str(self.oname(v)), 64)
            return zext(x.term(st, v), 64)

        def ev(name, k, clobber):
            def h(x, st, a, i, f, t):
                e = self.fire(x, st, name, [val(x, st, v) for v in a[k:]], clobber)
                if name == "stack":
                    r, pth = self.corepath("registers")
                    regs = x.load(st, r, pth)
                    x.store(st, r, pth, rw(regs, K(2, 5), band(rr(regs, K(2, 5)), K(mask(64) ^ 15, 64))))
                return self.res(e, uf("val", 64, e) if name in ("load", "stack") else UNIT)
            return h
        for n in ("load_elf", "load_binary"):
            H["machine::SupportMachine::" + n] = ev("load", 1, True)
        H["machine::SupportMachine::initialize_stack"] = ev("stack", 1, True)

        def inits(x, st, a, i, f, t):
            def one(st, v):
                n = 0
                while isinstance(v, Ref) and n < 8:
                    v = x.load(st, v.root, v.path)
                    n += 1
                nm = self.oname(v)
                if not str(nm).startswith("handler"):
                    raise Unsupported("handler %r" % (v,))
                return self.res(self.fire(x, st, "init", [K(int(nm[7:]), 8)], True))
            return one(st, a[0])
        H["syscalls::Syscalls::initialize"] = inits

        def dbg(x, st, a, i, f, t):
            if self.opq(x, st, a[0]) != "debugger":
                return NotImplemented
            return self.res(self.fire(x, st, "init_debugger", [], True))
        H["debugger::Debugger::initialize"] = dbg
        H[ME + "memory_size"] = lambda x, st, a, i, f, t: MSZ
        return H


class PVal(HVal):
    def __init__(self, rng):
        super().__init__(rng)
        self.vars["memory_size"] = rng.choice((1 << 22, 1 << 12, 4, rng.getrandbits(24)))
        self.vars["hasdebugger"] = rng.getrandbits(1)

    def ufval(self, name, args, w):
        if name == "ok":
            return int(super().ufval(name, args, 4) != 0)
        return super().ufval(name, args, w)


def program(ctx, p, asm, nh, meta, trials):
    fn = "machine::DefaultMachine::<Inner>::load_program" + ("_with_metadata" if meta else "")
    name = "%s, %d handlers, %s" % (fn.rsplit("::", 1)[-1], nh, "assembly machine" if asm else "interpreter")
    g = p.fn(fn)
    if g is None:
        return ctx.und(name, "not found")
    try:
        h = ProgHost(p, asm, nh)
        st = h.start()
        x = h.executor()
        args = []
        for k in ("program",) + (("metadata",) if meta else ()) + ("args",):
            st.env[("O", k)] = Opq(k)
            args.append(Ref(("O", k)))
        rv = x.run_body(st, g, [h.me(True)] + args)
        r = Ref_(h)
        obj = lambda n: V("object_" + n, 64)
        t1 = r.ev("load", [obj("program")] + ([obj("metadata")] if meta else []) + [K(1, 64)], True)
        for i in range(nh):
            r.live(lambda s, i=i: s.ev("init", [K(i, 8)], True))
        r.live(lambda s: s.when(V("hasdebugger", 1), lambda s: s.ev("init_debugger", [], True)))
        quarter = lshr_c(MSZ, 2)
        hold = {}

        def last(s):
            t2 = s.ev("stack", [obj("args"), sub(MSZ, quarter), quarter], True)
            s.f["regs"] = rw(s.f["regs"], K(2, 5), band(rr(s.f["regs"], K(2, 5)), K(mask(64) ^ 15, 64)))
            hold["t2"] = t2

            def fin(s):
                a, b = uf("val", 64, t1), uf("val", 64, t2)
                tot = add(a, b)
                s.when(ult(tot, a), lambda s: s.err("Unexpected"), lambda s: s.ok(tot))
            s.live(fin)
        r.live(last)
        judge(ctx, h, name, where_of(p, fn), x, st, rv, r, {"": TRUE}, trials, [("panic", st.panic, FALSE)], interp=PVal)
    except Unsupported as e:
        ctx.und(name, str(e)[:200])
