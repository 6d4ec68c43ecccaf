"""The decoder's instruction cache: whatever it returns for pc is what was decoded for pc, and after a reset nothing is
remembered. Cache contents are symbolic (any 4096 entries in which an entry for address a holds the instruction decoded
at a); fetching and the factories are opaque."""
import containers
from hostworld import *
from loops import where_of

DECODER = "decoder::Decoder"
SLOT = V("cslot", 64)
MEMSZ = V("memory_size", 64)
TRUE_INST = lambda a: uf("decoded", 64, a)


class CacheHost:
    def __init__(self, p, nf=2):
        self.p, self.nf = p, nf
        self.codes = {v["name"]: i for i, v in enumerate(p.adt("error::Error")["variants"])}

    def start(self):
        st = St()
        vals = {"factories": Agg([Opq("factory%d" % k) for k in range(self.nf)], "Vec"), "mop": V("mop", 1), "version": V("version", 32)}
        out = []
        self.cf = None
        for k, f in enumerate(self.p.adt(DECODER)["variants"][0]["fields"]):
            t = self.p.vm.ty(f["ty"])["s"]
            if f["name"] in vals:
                out.append(vals[f["name"]])
            elif "Vec<(u64, u64)" in t or "[(u64, u64)" in t:
                self.cf = k
                out.append(containers.SArr(K(4096, 64), lambda ix: Agg([uf("c:addr", 64, ix), TRUE_INST(uf("c:addr", 64, ix))], "tuple"), (), "cache"))
            else:
                raise Unsupported("decoder field %s: %s" % (f["name"], t))
        if self.cf is None:
            raise Unsupported("no instruction cache")
        st.env[("O", "d")] = Agg(out, DECODER)
        st.env[("O", "memory")] = Opq("memory")
        st.env[("O", "ev")] = K(0, 8)
        st.env[("O", "evpc")] = K(0, 64)
        return st

    def cache(self, x, st):
        return x.load(st, ("O", "d"), (("f", self.cf),))

    def executor(self):
        def memsize(x, st, a, i, f, t):
            return MEMSZ

        def bits(x, st, a, i, f, t):
            pc = x.term(st, a[2], 64)
            st.env[("O", "ev")] = add(st.env[("O", "ev")], K(1, 8))
            st.env[("O", "evpc")] = pc
            return En(zext(bnot(V("fetched", 1)), 64), {0: (V("bits", 32),), 1: (En(EVERR, {EVERR: (V("fetcherr", 64),)}, "error::Error"),)}, RES)

        def factory(x, st, v, a, *r):
            n = Host.oname(v)
            if not str(n).startswith("factory"):
                raise Unsupported("call of %r" % (v,))
            k, b, ver = int(n[7:]), x.term(st, a[0], 32), x.term(st, a[1], 32)
            return En(zext(uf("fac%d:some" % k, 1, b, ver), 64), {0: (), 1: (uf("fac%d" % k, 64, b, ver),)}, OPT)
        H = {"memory::Memory::memory_size": memsize, DECODER + "::decode_bits": bits, "call_opaque": factory,
             "unknown_first": memworld.unknown, "deref_term": memworld.deref_term}
        H.update({k: v for k, v in containers.HOOKS.items()})
        return Exec(self.p, hooks=H, unroll=6, method_select=Dispatch(self.p))


def outcome(h, x, st, rv):
    hh = Host.__new__(Host)
    return Host.result(hh, x, st, rv)


class CVal(equiv.Val):
    def __init__(self, rng):
        pc = rng.choice((rng.getrandbits(64), rng.getrandbits(22)))
        self.pc = pc
        fixed = {"pc": pc, "memory_size": rng.choice((1 << 22, pc, pc + 1 & mask(64), mask(64))), "fetched": rng.choice((0, 1, 1, 1)),
                 "cslot": rng.choice((((pc >> 1 & 255) | (pc >> 13 << 8)) % 4096, rng.getrandbits(12)))}
        super().__init__(rng.getrandbits(32), equiv.Draw(random.Random(rng.getrandbits(64))), fixed)

    def ufval(self, name, args, w):
        v = super().ufval(name, args, w)
        h = super().ufval(name + "#", args, 32)
        if name == "c:addr":
            return (self.pc, self.pc, self.pc ^ 1 << 13 + h % 12, self.pc ^ 1 << 32 + h % 20, mask(64), v)[h % 6]
        return v


def run(ctx, p, trials):
    fn = DECODER + "::decode_raw"
    name = "instruction cache"
    try:
        h = CacheHost(p)
        st = h.start()
        x = h.executor()
        pc = V("pc", 64)
        rv = x.run_body(st, p.fn(fn), [Ref(("O", "d")), Ref(("O", "memory")), pc])
        code, pay, val = outcome(h, x, st, rv)
        ok = eq(code, K(255, 64))
        ev, evpc = st.env[("O", "ev")], st.env[("O", "evpc")]
        used = bnot(eq(ev, K(0, 8)))
        b, ver = V("bits", 32), V("version", 32)
        want, some = K(0, 64), FALSE
        for k in reversed(range(h.nf)):
            s = uf("fac%d:some" % k, 1, b, ver)
            want, some = ite(s, uf("fac%d" % k, 64, b, ver), want), bor(s, some)
        e = h.cache(x, st).index(x, st, SLOT)
        o = Agg([uf("c:addr", 64, SLOT), TRUE_INST(uf("c:addr", 64, SLOT))], "tuple")
        same = band(eq(e.f[0], o.f[0]), eq(e.f[1], o.f[1]))
        new = band(ok, used, eq(e.f[0], pc), eq(e.f[1], val))
        # an entry nobody can hit
        dead = eq(e.f[0], K(mask(64), 64))
        m = lambda c, v: ite(c, v, K(0, v.w))
        oob = bnot(ult(pc, MEMSZ))
        obs = [("instruction from the cache", m(band(ok, bnot(used)), val), m(band(ok, bnot(used)), TRUE_INST(pc))),
               ("fetch address", m(used, evpc), m(used, pc)), ("fetches", ult(K(1, 8), ev), FALSE),
               ("decoded instruction", m(band(ok, used), val), m(band(ok, used), want)),
               ("accepted", m(used, ok), m(used, band(V("fetched", 1), some))),
               ("outside memory", m(oob, code), m(oob, K(h.codes["MemOutOfBound"], 64))),
               ("entry kept", bor(same, new, dead), TRUE), ("panic", st.panic, FALSE)]
        decide(ctx, name, where_of(p, fn), obs, bnot(st.cut), trials, CVal)
    except Unsupported as e:
        ctx.und(name, str(e)[:200])
    rs = "<%s as decoder::InstDecoder>::reset_instructions_cache" % DECODER
    for nm, fn, mk in (("reset", rs, None), ("fresh", DECODER + "::new", 1)):
        try:
            h = CacheHost(p)
            st = h.start()
            x = h.executor()
            if mk:
                v = x.run_body(st, p.fn(fn), [V("mop", 1), V("version", 32)])
                c = v.f[h.cf]
                more = [("version", v.f[[f["name"] for f in p.adt(DECODER)["variants"][0]["fields"]].index("version")], V("version", 32))]
            else:
                rv = x.run_body(st, p.fn(fn), [Ref(("O", "d"))])
                c = h.cache(x, st)
                more = [("result", outcome(h, x, st, rv)[0], K(255, 64))]
            a = c.index(x, st, SLOT).f[0]
            decide(ctx, "instruction cache " + nm, where_of(p, fn), [("an entry that cannot be hit", a, K(mask(64), 64)), ("size", c.n, K(4096, 64)), ("panic", st.panic, FALSE)] + more,
                   ult(SLOT, K(4096, 64)), trials, CVal)
        except Unsupported as e:
            ctx.und("instruction cache " + nm, str(e)[:200])
