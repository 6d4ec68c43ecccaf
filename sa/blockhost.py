"""The block decoders of the assembly engine (machine/asm/traces.rs): what a decoded block holds, which table slot it
goes to, and what the decoders' own caches remember, against a reference built from the same decode events."""
import panics
import containers
from hostworld import *
from loops import where_of
from tracehost import opc, ilen, block_end, TVal
from world import opcodes

FT = "asm::FixedTrace"
MOD = "machine::asm::traces::"
N = 16
TABLE = 8192


def label(p, op):
    return uf("label", 64, zext(ex(7, 0, op), 64))


class BlockHost(Host):
    def __init__(self, p, unroll=18):
        super().__init__(p, True, 0, unroll)
        self.ft = FT if FT in p.vm.adts else "ckb_vm_definitions::" + FT
        self.ends = {n: opcodes(p)[n] for n in ("CUSTOM_TRACE_END", "CUSTOM_ASM_TRACE_JUMP")}

    def hooks(self):
        H = super().hooks()

        def lab(x, st, a, i, f, t):
            return label(self.p, x.term(st, a[0], 16))
        H[MOD + "label_from_fastpath_opcode"] = lab
        return H


def decode_ref(s, h, lim):
    """decode up to lim instructions at pc: s.more gets cur, cnt, cycles, i0..i15"""
    p = h.p
    s.more = {"cur": s.f["pc"], "cnt": K(0, 8), "cycles": K(0, 64), "ended": eq(lim, K(0, 64))}
    for k in range(N):
        def item(s, k=k):
            t = s.ev("decode", [s.more["cur"]])
            inst = uf("inst", 64, t)

            def good(s):
                s.more = dict(s.more)
                s.more["i%d" % k] = inst
                s.more["cur"] = add(s.more["cur"], ilen(inst))
                s.more["cnt"] = K(k + 1, 8)
                s.more["ended"] = bor(block_end(p, inst), ule(lim, K(k + 1, 64)))
                c = uf("cyclefn", 64, inst)
                tot = add(s.more["cycles"], c)
                over = ult(tot, c)
                s.more["cycles"] = tot
                s.when(over, lambda s: s.err("CyclesOverflow"))
            s.live(good)
        s.live(lambda s: s.when(s.more["ended"], lambda s: None, item))


def fixed(ctx, p, groups, trials):
    """decode_fixed_trace"""
    name, fn = "fixed block decoder", MOD + "decode_fixed_trace"
    try:
        h = BlockHost(p)
        st = h.start()
        x = h.executor()
        lim = En(zext(V("haslim", 1), 64), {0: (), 1: (V("lim", 64),)}, OPT)
        rv = x.run_body(st, p.fn(fn), [Ref(("O", "decoder")), Ref(h.dm[0], h.dm[1]), lim])
        r = Ref_(h)
        n = ite(V("haslim", 1), ite(ult(V("lim", 64), K(N, 64)), V("lim", 64), K(N, 64)), K(N, 64))
        decode_ref(r, h, n)
        r.live(lambda s: s.ok())
        tr, cnt = okpair(x, st, rv)
        g = lambda n: field(h, tr, n)
        good = eq(r.code, K(255, 64))
        m = r.more
        extra = [("block address", g("address"), V("pc", 64)), ("block length", zext(g("length"), 64), band(sub(m["cur"], V("pc", 64)), K(mask(32), 64))),
                 ("block cycles", g("cycles"), m["cycles"]), ("block items", x.term(st, cnt, 64), add(zext(m["cnt"], 64), K(1, 64)))]
        th = g("_threads").f
        for k in range(N + 1):
            inst = m.get("i%d" % k, K(0, 64)) if k < N else K(0, 64)
            live, last = ult(K(k, 8), m["cnt"]), eq(K(k, 8), m["cnt"])
            end = h.ends["CUSTOM_TRACE_END"]
            want_i = ite(live, inst, K((end & 255) | (end >> 8) << 16, 64))
            want_l = ite(live, label(p, opc(inst)), label(p, K(end, 16)))
            extra.append(("item %d instruction" % k, ite(bor(live, last), th[2 * k + 1], K(0, 64)), ite(bor(live, last), want_i, K(0, 64))))
            extra.append(("item %d handler" % k, ite(bor(live, last), th[2 * k], K(0, 64)), ite(bor(live, last), want_l, K(0, 64))))
        extra = [(n, ite(good, a, K(0, a.w)), ite(good, b, K(0, b.w))) for n, a, b in extra]
        gr = groups(h, r, name)
        if gr:
            judge(ctx, h, name, where_of(p, fn), x, st, rv, r, gr, trials, extra, interp=BVal)
    except Unsupported as e:
        ctx.und(name, str(e)[:200])


class BVal(TVal):
    def __init__(self, rng):
        super().__init__(rng)
        self.vars.update({"haslim": rng.choice((0, 0, 1)), "lim": rng.choice((0, 1, 2, 5, 15, 16, 17, rng.getrandbits(64)))})


def okpair(x, st, rv):
    if isinstance(rv, Mux):
        a, b = okpair(x, st, rv.a), okpair(x, st, rv.b)
        return tuple(q if p is UNDEF else p if q is UNDEF else merge(rv.c, p, q) for p, q in zip(a, b))
    v = rv.v.get(0, (UNDEF,))[0]
    if v is UNDEF:
        return UNDEF, UNDEF
    if isinstance(v, Mux):
        return tuple(merge(v.c, p, q) for p, q in zip(v.a.f, v.b.f))
    return v.f


def field(h, e, n):
    fs = [f["name"] for f in h.p.adt(h.ft)["variants"][0]["fields"]]
    return e.f[fs.index(n)] if isinstance(e, Agg) else merge(e.c, field(h, e.a, n), field(h, e.b, n))


# ---- the decoders around it: table of blocks, caches
PSLOT, PKEY = V("pslot", 64), V("pkey", 64)
DECS = ("SimpleFixedTraceDecoder", "MemoizedFixedTraceDecoder", "MemoizedDynamicTraceDecoder")
BASE = V("alloc", 64)
GIDX = V("generic", 64)


def block_of(h, pre, ix, address=None):
    d = {"address": uf(pre + "address", 64, ix) if address is None else address, "length": uf(pre + "length", 32, ix),
         "cycles": uf(pre + "cycles", 64, ix), "_threads": Agg([uf("%sword%d" % (pre, k), 64, ix) for k in range(2 * (N + 1))], "arr")}
    fs = [f["name"] for f in h.p.adt(h.ft)["variants"][0]["fields"]]
    if sorted(fs) != sorted(d):
        raise Unsupported("fields of FixedTrace: %s" % fs)
    return Agg([d[n] for n in fs], h.ft)


def blank(h):
    d = {"address": K(0, 64), "length": K(0, 32), "cycles": K(0, 64), "_threads": Agg([K(0, 64)] * (2 * (N + 1)), "arr")}
    return Agg([d[f["name"]] for f in h.p.adt(h.ft)["variants"][0]["fields"]], h.ft)


class DecHost(BlockHost):
    """one of the block decoders as receiver; decode_fixed_trace (and the long-block builder) as opaque events"""

    def __init__(self, p, dec, opaque=True, plan=None, unroll=20):
        super().__init__(p, unroll)
        self.dec, self.opaque, self.plan = dec, opaque, plan
        self.old = {}

    def start(self):
        st = super().start()
        h = self
        st.env[("O", "dec")] = self.build(st, MOD + self.dec)
        st.env[("O", "ndec")] = K(0, 8)
        return st

    def table0(self, ix):
        return block_of(self, "t:", ix)

    def build(self, st, adt):
        out = []
        for f in self.p.adt(adt)["variants"][0]["fields"]:
            t = self.p.vm.ty(f["ty"])["s"]
            if "HashMap<u64" in t and "FixedTrace" in t:
                v = self.smap("fc", lambda k: block_of(self, "fc:", k, k))
            elif "HashMap<u64" in t and "DynamicTrace" in t:
                v = self.smap("dc", lambda k: uf("dynp", 64, k))
            elif "[ckb_vm_definitions::asm::FixedTrace" in t or "[asm::FixedTrace" in t or "FixedTrace;" in t:
                st.env[("O", "blocks")] = containers.SArr(K(TABLE, 64), self.table0, (), "traces")
                v = Ref(("O", "blocks")) if "Box<" in t else st.env[("O", "blocks")]
            elif t == "D" or t.startswith("D/#"):
                v = Opq("decoder")
            else:
                m = [d for d in DECS if MOD + d + "<" in t]
                if not m:
                    raise Unsupported("field %s: %s of %s" % (f["name"], t, adt))
                v = self.build(st, MOD + m[0])
            out.append(v)
        return Agg(out, adt)

    def smap(self, nm, val):
        s = containers.SArr(K(0, 64), lambda k: Agg([panics.low(k, uf(nm + ":has", 1, k)), val(k)], "entry"), (), "map")
        return s

    def find(self, x, st, pred, root=("O", "dec"), path=()):
        """containers inside the decoder: [value]"""
        v = x.load(st, root, path)
        if isinstance(v, Ref):
            return self.find(x, st, pred, v.root, tuple(v.path))
        if isinstance(v, containers.SArr):
            return [v] if pred(v) else []
        out = []
        if isinstance(v, Agg):
            for k in range(len(v.f)):
                out += self.find(x, st, pred, root, path + (("f", k),))
        return out

    def hooks(self):
        H = super().hooks()
        base, dec0 = H["unknown_first"], H["decoder::InstDecoder::decode"]

        def decode(x, st, a, i, f, t):
            r = dec0(x, st, a, i, f, t)
            if r is NotImplemented or self.plan is None:
                return r
            k = kv(st.env[("O", "ndec")])
            st.env[("O", "ndec")] = K(k + 1, 8)
            op = self.plan[k] if k < len(self.plan) else self.plan[-1]
            return self.res(st.env[TOK], self.planned(st.env[TOK], op), x.term(st, a[2], 64))
        H["decoder::InstDecoder::decode"] = decode
        if self.opaque:
            def block(x, st, a, i, f, t):
                if self.opq(x, st, a[0]) != "decoder":
                    return NotImplemented
                lim = a[2]
                if not (isinstance(lim, En) and lim.vidx is K(0, 64)):
                    raise Unsupported("limited block")
                e = self.fire(x, st, "block", [], False)
                return self.res(e, Agg([block_of(self, "b:", e, V("pc", 64)), uf("b:count", 64, e)], "tuple"), V("pc", 64))
            H[MOD + "decode_fixed_trace"] = block

            def dyn(x, st, a, i, f, t):
                e = self.fire(x, st, "long block", [x.term(st, a[1], 64)], False)
                return self.res(e, uf("dynptr", 64, e))
            H[MOD + "MemoizedDynamicTraceDecoder::<D>::find_or_build_dynamic_trace"] = dyn

        def mapof(x, st, v):
            r = memworld.follow(x, st, v)
            if isinstance(r, Ref):
                m = x.load(st, r.root, r.path)
                if isinstance(m, containers.SArr) and m.name == "map":
                    return r, m
            raise Unsupported("map behind %r" % (v,))

        def key(x, st, v):
            while isinstance(v, Ref):
                v = x.load(st, v.root, v.path)
            return x.term(st, v, 64)

        def unknown_first(x, st, a, i, f, t):
            p = (i.get("res") or i)["path"]
            nm = p.rsplit("::", 1)[-1]
            if p.startswith("std::collections::hash::map::HashMap"):
                r, m = mapof(x, st, a[0])
                if nm == "clear":
                    x.store(st, r.root, r.path, containers.SArr(K(0, 64), lambda k: Agg([FALSE, m.index(x, None, k).f[1]], "entry"), (), "map"))
                    return UNIT
                if nm in ("get", "contains_key", "remove", "insert"):
                    k = key(x, st, a[1])
                    e = m.index(x, None, k)
                    if nm == "contains_key":
                        return e.f[0]
                    if nm == "get":
                        root = ("O", "got%d" % len(st.env))
                        st.env[root] = e.f[1]
                        return En(zext(e.f[0], 64), {0: (), 1: (Ref(root),)}, OPT)
                    n = Agg([TRUE if nm == "insert" else FALSE, a[2] if nm == "insert" else e.f[1]], "entry")
                    x.store(st, r.root, r.path, m.setindex(x, None, k, (), n))
                    return En(zext(e.f[0], 64), {0: (), 1: (e.f[1],)}, OPT)
            if p in ("core::mem::size_of", "core::mem::align_of"):
                for k in (i.get("res") or i).get("args") or []:
                    ty = f["crate"].ty(k) if isinstance(k, int) else None
                    ad = ty and self.p.adt(ty["s"].split("<")[0])
                    if ad and ad.get("layout"):
                        return K(ad["layout"]["size" if nm == "size_of" else "align"], 64)
            if p == "alloc::alloc::alloc" or p == "alloc::alloc::alloc_zeroed":
                if ("O", "dynmem") in st.env:
                    raise Unsupported("second allocation")
                st.env[("O", "dynmem")] = containers.SArr(K(64, 64), lambda k: V("garbage", 64), (), "dynmem")
                st.env[("O", "dynstruct")] = Agg([V("garbage", 64), V("garbage32", 32), V("garbage", 64)], MOD + "DynamicTrace")
                st.env[("O", "size")] = x.term(st, a[0], 64) if isinstance(a[0], T) else V("layout", 64)
                return BASE
            if nm in ("array", "new") and "alloc::layout::Layout" in p:
                n = x.term(st, a[0], 64) if a else V("layout", 64)
                return En(K(0, 64), {0: (n,)}, RES) if nm == "array" else n
            if p.startswith("core::ptr::mut_ptr::<impl *mut T>::") and isinstance(a[0], T):
                if nm == "write":
                    off = sub(a[0], BASE)
                    if not isk(off) or kv(off) % 8:
                        raise Unsupported("write at %r" % (off,))
                    m = st.env[("O", "dynmem")]
                    st.env[("O", "dynmem")] = m.setindex(x, st, K(kv(off) // 8, 64), (), x.term(st, a[1], 64))
                    return UNIT
            if p.startswith("alloc::boxed::Box::<T>::from_raw") or p.startswith("alloc::boxed::Box::<T, A>::from_raw") or nm == "into_raw":
                return a[0]
            if nm in ("as_ref", "as_mut", "borrow") and "alloc::boxed::Box" in p:
                v = a[0]
                if isinstance(v, T):
                    return v
                v = x.load(st, v.root, v.path)
                return v if isinstance(v, T) else NotImplemented
            if i.get("name") == "next" and i.get("trait") == "core::iter::traits::iterator::Iterator":
                r = self.generic(x, st, a[0])
                if r is not None:
                    return r
            return base(x, st, a, i, f, t)
        H["unknown_first"] = unknown_first
        dt = H["deref_term"]

        def deref(x, st, v):
            if v is BASE and ("O", "dynstruct") in st.env:
                return Ref(("O", "dynstruct"))
            return dt(x, st, v)
        H["deref_term"] = deref
        return H

    def generic(self, x, st, it):
        """a counted pass over the block table: the body is run on one generic element"""
        if not isinstance(it, Ref):
            return None
        v = x.load(st, it.root, it.path)
        sl = isinstance(v, Agg) and v.d == "SliceIter" and isinstance(v.f[0], Ref) and isk(v.f[1]) and isk(v.f[2])
        if sl:
            arr = x.load(st, v.f[0].root, v.f[0].path)
            if not (isinstance(arr, containers.SArr) and arr.name == "traces"):
                return None
            base, v = v.f[0], Agg(v.f[1:], v.d)
        elif not (isinstance(v, Agg) and len(v.f) >= 2 and ("range::Range" in str(v.d) or str(v.d).endswith("RangeInclusive")) and all(isinstance(q, T) and isk(q) for q in v.f[:2])):
            return None
        lo, hi = kv(v.f[0]), kv(v.f[1]) + ("RangeInclusive" in str(v.d))
        k = ("O", "pass", it.root, it.path)
        if k not in st.env:
            if hi - lo <= self.unroll - 2:
                return None
            st.env[k] = Agg(self.find(x, st, lambda s: s.name == "traces") + [st.env[TOK]], "pass")
            self.gdom = band(ule(K(lo, 64), GIDX), ult(GIDX, K(hi, 64)))
            return Some(Ref(base.root, tuple(base.path) + (("i", GIDX),)) if sl else GIDX)
        before = st.env[k]
        if before is UNDEF:
            return None
        arrs = self.find(x, st, lambda s: s.name == "traces")
        if len(arrs) != 1 or len(before.f) != 2 or st.env[TOK] is not before.f[1]:
            raise Unsupported("a pass over the block table that does something else")
        b, a = before.f[0], arrs[0]
        new = a.ws[len(b.ws):]
        if a.ws[:len(b.ws)] != b.ws or len(new) != 1 or new[0][0] is not TRUE or new[0][1] is not GIDX or new[0][2] is not None:
            raise Unsupported("a pass over the block table that is not one write per slot")
        val = new[0][3](GIDX)
        from tracehost import str_vars
        if "generic" in str_vars(val):
            raise Unsupported("a pass over the block table that depends on the slot")
        self.put(x, st, containers.SArr(b.n, b.rd, b.ws, "traces").setrange(K(lo, 64), K(hi - lo, 64), lambda i: val))
        st.env[k] = UNDEF
        return NONE()

    def put(self, x, st, arr, root=("O", "dec"), path=()):
        v = x.load(st, root, path)
        if isinstance(v, Ref):
            return self.put(x, st, arr, v.root, tuple(v.path))
        if isinstance(v, containers.SArr):
            if v.name == "traces":
                x.store(st, root, path, arr)
        elif isinstance(v, Agg):
            for k in range(len(v.f)):
                self.put(x, st, arr, root, path + (("f", k),))

    @staticmethod
    def planned(t, op):
        i = uf("inst", 64, t)
        return cat(ex(63, 24, i), K(op >> 8, 8), ex(15, 8, i), K(op & 255, 8))


def words(h, e):
    return field(h, e, "_threads").f


def blockobs(h, pre, a, b, mask_=TRUE):
    m = lambda v: ite(mask_, v, K(0, v.w))
    obs = [("%s address" % pre, m(field(h, a, "address")), m(field(h, b, "address"))), ("%s length" % pre, m(field(h, a, "length")), m(field(h, b, "length"))),
           ("%s cycles" % pre, m(field(h, a, "cycles")), m(field(h, b, "cycles")))]
    for k, (p, q) in enumerate(zip(words(h, a), words(h, b))):
        obs.append(("%s word %d" % (pre, k), m(p), m(q)))
    return obs


def prepare(ctx, p, dec, groups, trials):
    """prepare_traces: exactly slot(pc) of the table changes, to the block at pc; caches keep block(key) at key"""
    tn = "<%s%s<D> as %sTraceDecoder>::prepare_traces" % (MOD, dec, MOD)
    name = dec + " prepare"
    try:
        h = DecHost(p, dec)
        st = h.start()
        x = h.executor()
        has = bool(h.find(x, st, lambda s: s.name == "map" and isinstance(s.index(x, None, PKEY).f[1], Agg)))
        rv = x.run_body(st, p.fn(tn), [Ref(("O", "dec")), Ref(h.dm[0], h.dm[1])])
        r = Ref_(h)
        pc = V("pc", 64)
        cached = uf("fc:has", 1, pc) if has else FALSE
        old = block_of(h, "fc:", pc, pc)
        r.more = {"new": old}

        def fresh(s):
            t = s.ev("block")
            blk = block_of(h, "b:", t, pc)
            s.more = {"new": blk}
            if not dec.endswith("DynamicTraceDecoder"):
                return

            def more(s):
                cnt = uf("b:count", 64, t)
                th = words(h, blk)
                last = th[1]
                for k in range(1, N):
                    last = ite(eq(cnt, K(k + 2, 64)), th[2 * k + 1], last)

                def cont(s):
                    t2 = s.ev("long block", [add(pc, zext(field(h, blk, "length"), 64))])

                    def link(s):
                        w = list(th)
                        for k in range(1, N + 1):
                            c = eq(cnt, K(k + 1, 64))
                            w[2 * k] = ite(c, label(p, K(h.ends["CUSTOM_ASM_TRACE_JUMP"], 16)), w[2 * k])
                            w[2 * k + 1] = ite(c, uf("dynptr", 64, t2), w[2 * k + 1])
                        fs = [f["name"] for f in p.adt(h.ft)["variants"][0]["fields"]]
                        s.more = {"new": Agg([Agg(w, "arr") if n == "_threads" else v for n, v in zip(fs, blk.f)], h.ft)}
                    s.live(link)
                s.when(block_end(p, last), lambda s: None, cont)
            s.live(more)
        r.when(cached, lambda s: None, fresh)
        r.live(lambda s: s.ok())
        good = eq(r.code, K(255, 64))
        tabs = h.find(x, st, lambda s: s.name == "traces")
        if len(tabs) != 1:
            raise Unsupported("block table")
        slot = band(shift("lshr", pc, K(2, 64)), K(TABLE - 1, 64))
        a = tabs[0].index(x, st, PSLOT)
        b = merge(band(good, eq(PSLOT, slot)), r.more["new"], h.table0(PSLOT))
        # a failed decode may leave the slot empty
        am = ite(bor(good, bnot(eq(PSLOT, slot))), TRUE, bnot(eq(field(h, a, "length"), K(0, 32))))
        extra = blockobs(h, "table", a, b, am)
        for m in h.find(x, st, lambda s: s.name == "map"):
            e = m.index(x, None, PKEY)
            if not isinstance(e.f[1], Agg):
                extra.append(("long cache", ite(e.f[0], e.f[1], K(0, 64)), ite(e.f[0], uf("dynp", 64, PKEY), K(0, 64))))
                continue
            want = merge(uf("fc:has", 1, PKEY), block_of(h, "fc:", PKEY, PKEY), r.more["new"])
            okk = bor(uf("fc:has", 1, PKEY), band(good, eq(PKEY, pc)))
            extra.append(("cache key", band(e.f[0], bnot(okk)), FALSE))
            extra += blockobs(h, "cache", e.f[1], want, band(e.f[0], okk))
        gr = groups(h, r, name)
        if gr:
            cnt = None
            hints = [("pslot", w[1]) for w in tabs[0].ws]
            for m in h.find(x, st, lambda s: s.name == "map"):
                hints += [("pkey", w[1]) for w in m.ws]
            judge(ctx, h, name, where_of(p, tn), x, st, rv, r, gr, trials, extra, under=ult(PSLOT, K(TABLE, 64)), interp=hinted(PVal, hints))
    except Unsupported as e:
        ctx.und(name, str(e)[:200])


def hinted(cls, hints):
    """probes are often placed where the code wrote"""
    hints = [(n, t) for n, t in hints if isinstance(t, T)]

    def make(rng):
        v = cls(rng)
        if hints and rng.random() < .7:
            n, t = rng.choice(hints)
            v.vars[n] = v.ev(t)
        return v
    return make


class PVal(TVal):
    def __init__(self, rng):
        super().__init__(rng)
        pc = self.vars["pc"]
        self.vars["pkey"] = rng.choice((pc, pc, pc + 1 & mask(64), rng.getrandbits(64)))

    def ufval(self, name, args, w):
        v = super().ufval(name, args, w)
        h = super().ufval(name + "#", args, 32)
        if name.endswith(":has"):
            return int(h % 3 == 0)
        if name == "b:count":
            return 2 + h % 16
        if name.startswith("b:word") and int(name[6:]) & 1 and h & 3 == 0:
            return v & ~0xff00ff | (0x9c, 0xa7, 0xab, 0xac, 0x9b, 0x0f)[h >> 4 & 3]
        if name.startswith("b:word") and int(name[6:]) & 1:
            return TVal.ufval(self, "t:inst" + name[6:], args, w)
        return v


def reset(ctx, p, dec, groups, trials):
    """reset: every table slot empty, every cache empty, the instruction decoder's own cache reset"""
    tn = "<%s%s<D> as %sTraceDecoder>::reset" % (MOD, dec, MOD)
    name = dec + " reset"
    try:
        h = DecHost(p, dec)
        st = h.start()
        x = h.executor()
        rv = x.run_body(st, p.fn(tn), [Ref(("O", "dec"))])
        r = Ref_(h)
        r.ev("reset_cache")
        r.live(lambda s: s.ok())
        a = h.find(x, st, lambda s: s.name == "traces")[0].index(x, st, PSLOT)
        extra = blockobs(h, "table", a, blank(h))
        for k, m in enumerate(h.find(x, st, lambda s: s.name == "map")):
            extra.append(("cache %d entry" % k, m.index(x, None, PKEY).f[0], FALSE))
        # nothing is promised about a reset that failed
        good = eq(r.code, K(255, 64))
        extra = [(n, ite(good, a, K(0, a.w)), ite(good, b, K(0, b.w))) for n, a, b in extra]
        gr = groups(h, r, name)
        if gr:
            hints = [("pslot", K(v, 64)) for v in (0, 1, TABLE - 1)]
            for w in h.find(x, st, lambda s: s.name == "traces")[0].ws:
                if w[2] is not None:
                    hints += [("pslot", w[1]), ("pslot", sub(w[1], K(1, 64))), ("pslot", add(w[1], w[2])), ("pslot", add(w[1], sub(w[2], K(1, 64))))]
            judge(ctx, h, name, where_of(p, tn), x, st, rv, r, gr, trials, extra, under=ult(PSLOT, K(TABLE, 64)), interp=hinted(PVal, hints))
    except Unsupported as e:
        ctx.und(name, str(e)[:200])


def longblock(ctx, p, groups, trials, lengths=(1, 2, 3, 5)):
    """find_or_build_dynamic_trace and the builder, for blocks of a few instructions"""
    fn = MOD + "MemoizedDynamicTraceDecoder::<D>::find_or_build_dynamic_trace"
    ops = opcodes(p)
    for n in lengths:
        name = "long block of %d" % n
        try:
            plan = [(ops["ADD"], ops["LW_VERSION1"], ops["SD"], ops["ADD"])[k % 4] for k in range(n - 1)] + [ops["JALR_VERSION1"]]
            h = DecHost(p, "MemoizedDynamicTraceDecoder", False, plan)
            st = h.start()
            x = h.executor()
            start = V("start", 64)
            rv = x.run_body(st, p.fn(fn), [Ref(("O", "dec")), start, Ref(h.dm[0], h.dm[1])])
            r = Ref_(h)
            r.more = {"cur": start, "cyc": K(0, 64)}
            for k in range(n):
                r.more = dict(r.more)
                r.more["i%d" % k] = K(0, 64)

            def build(s):
                for k in range(n):
                    def item(s, k=k):
                        t = s.ev("decode", [s.more["cur"]])
                        i = h.planned(t, plan[k])
                        s.more = dict(s.more)
                        s.more["i%d" % k] = i
                        # the builder counts lengths in 32 bits
                        s.more["cur"] = add(s.more["cur"], ilen(i))
                        tot = add(s.more["cyc"], uf("cyclefn", 64, i))
                        over = ult(tot, uf("cyclefn", 64, i))
                        s.more["cyc"] = tot
                        s.live(lambda s: s.when(over, lambda s: s.err("CyclesOverflow")))
                    s.live(item)
                s.live(lambda s: s.ok(BASE))
            r.when(uf("dc:has", 1, start), lambda s: s.ok(uf("dynp", 64, start)), build)
            good = band(eq(r.code, K(255, 64)), bnot(uf("dc:has", 1, start)))
            m = r.more
            d, mem = st.env[("O", "dynstruct")], st.env[("O", "dynmem")]
            fs = [f["name"] for f in p.adt(MOD + "DynamicTrace")["variants"][0]["fields"]]
            g = lambda nm: d.f[fs.index(nm)]
            extra = [("block address", g("address"), start), ("block length", zext(g("length"), 64), sub(m["cur"], start)), ("block cycles", g("cycles"), m["cyc"])]
            end = h.ends["CUSTOM_TRACE_END"]
            ft = p.adt(h.ft)
            w0 = ft["layout"]["offsets"][[f["name"] for f in ft["variants"][0]["fields"]].index("_threads")] // 8
            for k in range(n + 1):
                wi = m["i%d" % k] if k < n else K((end & 255) | (end >> 8) << 16, 64)
                wl = label(p, opc(m["i%d" % k])) if k < n else label(p, K(end, 16))
                wl = label(p, K(plan[k], 16)) if k < n else wl
                extra.append(("item %d handler" % k, mem.index(x, None, K(w0 + 2 * k, 64)), wl))
                extra.append(("item %d instruction" % k, mem.index(x, None, K(w0 + 1 + 2 * k, 64)), wi))
            extra = [(nm, ite(good, a, K(0, a.w)), ite(good, b, K(0, b.w))) for nm, a, b in extra]
            for mm in h.find(x, st, lambda s: s.name == "map"):
                e = mm.index(x, None, PKEY)
                if isinstance(e.f[1], T):
                    had = uf("dc:has", 1, PKEY)
                    okk = bor(had, band(good, eq(PKEY, start)))
                    extra.append(("long cache key", band(e.f[0], bnot(okk)), FALSE))
                    extra.append(("long cache", ite(band(e.f[0], okk), e.f[1], K(0, 64)), ite(band(e.f[0], okk), ite(had, uf("dynp", 64, PKEY), BASE), K(0, 64))))
            gr = groups(h, r, "long block")
            if gr:
                judge(ctx, h, name, where_of(p, fn), x, st, rv, r, gr, trials, extra, interp=LVal)
        except Unsupported as e:
            ctx.und(name, str(e)[:200])


def grown(ctx, p, groups, trials):
    """the same, with the builder in an arbitrary state: one more part of a block that is already long"""
    fn = MOD + "MemoizedDynamicTraceDecoder::<D>::find_or_build_dynamic_trace"
    name, B = "long block, already grown", MOD + "DynamicTraceBuilder"
    ops = opcodes(p)
    try:
        plan = [ops["ADD"], ops["LW_VERSION1"], ops["JALR_VERSION1"]]
        if not p.adt(B) or not p.fn(B + "::new") or not p.fn(B + "::build"):
            raise Unsupported("builder not found")
        fs = [f["name"] for f in p.adt(B)["variants"][0]["fields"]]
        if sorted(fs) != ["cycles", "insts", "length", "start_address"]:
            raise Unsupported("fields of the builder: %s" % fs)
        h = DecHost(p, "MemoizedDynamicTraceDecoder", False, plan)
        st = h.start()
        st.env[("O", "grown")] = FALSE
        x = h.executor()
        start, L0, C0, N0, JX = V("start", 64), V("grownlen", 32), V("growncyc", 64), V("grownnum", 64), V("grownix", 64)
        pair = lambda ix: Agg([uf("g:inst", 64, ix), uf("g:label", 64, ix)], "")
        x.hooks[B + "::new"] = lambda x, st, a, i, f, t: Agg([{"start_address": a[0], "length": L0, "cycles": C0, "insts": containers.SArr(N0, pair, (), "insts")}[n] for n in fs], B)
        final = {}

        def built(x, st, a, i, f, t):
            v = a[0]
            while isinstance(v, Ref):
                v = x.load(st, v.root, v.path)
            st.env[("O", "final")] = v
            st.env[("O", "grown")] = TRUE
            return BASE
        x.hooks[B + "::build"] = built
        rv = x.run_body(st, p.fn(fn), [Ref(("O", "dec")), start, Ref(h.dm[0], h.dm[1])])
        cur, cyc, over, insts, evs = add(start, zext(L0, 64)), C0, FALSE, [], []
        fin = st.env.get(("O", "final"))
        if fin is None:
            raise Unsupported("the builder is not used as expected")
        good = band(st.env[("O", "grown")], bnot(st.cut))
        r = Ref_(h)
        for k in range(len(plan)):
            t = r.ev("decode", [cur])
            i = h.planned(t, plan[k])
            insts.append(i)
            cur = add(cur, ilen(i))
            tot = add(cyc, uf("cyclefn", 64, i))
            over = bor(over, ult(tot, cyc))
            cyc = tot
        g = lambda n: fin.f[fs.index(n)]
        ins = g("insts")
        e = ins.index(x, None, JX)
        want = [uf("g:inst", 64, JX), uf("g:label", 64, JX)]
        for k, i in enumerate(insts):
            at = eq(JX, add(N0, K(k, 64)))
            want = [ite(at, i, want[0]), ite(at, label(p, K(plan[k], 16)), want[1])]
        obs = [("start", g("start_address"), start), ("length", zext(g("length"), 64), sub(cur, start)), ("cost", g("cycles"), cyc), ("number of instructions", ins.length(x, None), add(N0, K(len(plan), 64))),
               ("instruction", e.f[0], want[0]), ("handler", e.f[1], want[1]), ("cost overflow accepted", over, FALSE)]
        obs = [(n, ite(good, a, K(0, a.w)), ite(good, b, K(0, b.w))) for n, a, b in obs]
        decide(ctx, name, where_of(p, fn), obs, band(ult(L0, K(1 << 31, 32)), ult(N0, K(1 << 31, 64)), ule(JX, add(N0, K(4, 64)))), trials, LVal)
    except Unsupported as e:
        ctx.und(name, str(e)[:200])


class LVal(PVal):
    def __init__(self, rng):
        super().__init__(rng)
        self.vars["start"] = rng.choice((self.vars["pkey"], rng.getrandbits(64)))
        self.vars["grownlen"] = rng.choice((rng.randrange(64), rng.getrandbits(12), rng.getrandbits(31)))
        self.vars["grownnum"] = n = rng.choice((rng.randrange(40), rng.getrandbits(9), rng.getrandbits(30)))
        self.vars["grownix"] = (n + rng.randrange(-2, 4)) & mask(64)


def layout(ctx, p):
    """the assembly reads both kinds of block through one layout"""
    a, b = p.adt("asm::FixedTrace") or p.adt("ckb_vm_definitions::asm::FixedTrace"), p.adt(MOD + "DynamicTrace")
    if not a or not b or not (a.get("layout") or {}).get("offsets") or not (b.get("layout") or {}).get("offsets"):
        return ctx.und("layout of long blocks", "no layout")
    na, nb = ([f["name"] for f in q["variants"][0]["fields"]] for q in (a, b))
    for n in nb:
        if n in na:
            ctx.check(a["layout"]["offsets"][na.index(n)] == b["layout"]["offsets"][nb.index(n)], "layout/" + n, MOD + "DynamicTrace",
                      "field %s of DynamicTrace is at %d, of FixedTrace at %d" % (n, b["layout"]["offsets"][nb.index(n)], a["layout"]["offsets"][na.index(n)]))
