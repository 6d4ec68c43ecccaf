"""The interpreter that caches decoded blocks (TraceMachine): its run loop over opaque decode/execute events and a
symbolic table of cached blocks, against a reference loop."""
import containers
from hostworld import *
from loops import *
from world import opcodes

TM, TR = "machine::trace::TraceMachine", "machine::trace::Trace"
TABLE = 8192
FN = "machine::trace::TraceMachine::<Inner>::run_with_decoder"
PSLOT = V("pslot", 64)


def opc(inst):
    return cat(ex(23, 16, inst), ex(7, 0, inst))


def ilen(inst):
    return cat(K(0, 59), ex(27, 24, inst), K(0, 1))


def block_end(p, inst):
    """control transfers, environment calls, fences and everything outside the fast path end a block"""
    lo, hi, first = (opcodes(p)[n] for n in ("AUIPC", "FAR_JUMP_ABS", "UNLOADED"))
    o = opc(inst)
    return bor(band(ule(K(lo, 16), o), ule(o, K(hi, 16))), ult(zext(ex(7, 0, inst), 16), K(first, 16)))


def thread_of(p, op):
    """element of the handler table an opcode selects"""
    return uf("thread", 64, sub(zext(op, 64), K(opcodes(p)["UNLOADED"], 64)))


class TraceHost(Host):
    def __init__(self, p, single=False, unroll=18):
        super().__init__(p, False, 1, unroll)
        self.single = single
        self.cap = 16
        fs = p.adt(TR)["variants"][0]["fields"]
        self.tf = [f["name"] for f in fs]
        for n in ("address", "instruction_count", "instructions", "threads"):
            if n not in self.tf:
                raise Unsupported("cached block without field " + n)

    def entry0(self, ix):
        d = {"address": uf("t:address", 64, ix), "length": uf("t:length", 64, ix), "instruction_count": uf("t:count", 8, ix),
             "instructions": Agg([uf("t:inst%d" % k, 64, ix) for k in range(16)], "arr"),
             "threads": Agg([uf("t:thr%d" % k, 64, ix) for k in range(16)], "arr")}
        return Agg([d[n] for n in self.tf], TR)

    def entry(self, address, count, insts, thrs):
        d = {"address": address, "length": K(0, 64), "instruction_count": count, "instructions": Agg(insts, "arr"), "threads": Agg(thrs, "arr")}
        return Agg([d[n] for n in self.tf], TR)

    def get(self, e, n):
        return e.f[self.tf.index(n)] if isinstance(e, Agg) else merge(e.c, self.get(e.a, n), self.get(e.b, n))

    def start(self):
        st = super().start()
        tm = {"machine": st.env[DM], "factory": Opq("factory"), "traces": containers.SArr(V("tlen", 64), self.entry0, (), "traces")}
        st.env[("O", "tm")] = self.agg(TM, tm)
        del st.env[DM]
        self.dm = (("O", "tm"), (("f", self.ix(TM, "machine")),))
        return st

    def table(self, x, st):
        return x.load(st, ("O", "tm"), (("f", self.ix(TM, "traces")),))

    def thr(self, v):
        if isinstance(v, Mux):
            return ite(v.c, self.thr(v.a), self.thr(v.b))
        if isinstance(v, Fn):
            return uf("fn:" + v.info["path"], 64)
        if isinstance(v, T):
            return v
        if isinstance(v, Opq) and v.n[0] == "i" and v.n[1] == ("f", "factory", 0):
            return uf("thread", 64, v.n[2])
        raise Unsupported("thread %r" % (v,))

    def hooks(self):
        H = super().hooks()
        base = H["unknown_first"]

        def execute(x, st, a, i, f, t):
            th = a[2]
            n = 0
            while isinstance(th, Ref) and n < 6:
                th = x.load(st, th.root, th.path)
                n += 1
            e = self.fire(x, st, "execute", [x.term(st, a[0], 64), self.thr(th)], True)
            return self.res(e)
        H["instructions::execute::execute_with_thread"] = execute

        def running(x, st, a, i, f, t):
            r, pth = self.corepath("running")
            n = st.env.get(("O", "nrun"), K(0, 8))
            st.env[("O", "nrun")] = add(n, K(1, 8))
            v = x.term(st, x.load(st, r, pth), 1)
            if self.single:
                return v
            return ite(eq(n, K(0, 8)), v, FALSE)
        H["machine::SupportMachine::running"] = running

        def unknown_first(x, st, a, i, f, t):
            p = (i.get("res") or i)["path"]
            nm = p.rsplit("::", 1)[-1]
            tr = i.get("trait") or ""
            if tr.startswith("core::ops::index::Index") and self.opq(x, st, a[0]) == "factory":
                return self.thread_ref(x, st, x.term(st, a[1], 16))
            if p.startswith("instructions::execute::ThreadFactory") and nm in ("get", "get_cloned", "index") and self.opq(x, st, a[0]) == "factory":
                r = self.thread_ref(x, st, x.term(st, a[1], 16))
                return r if nm == "index" else Some(r if nm == "get" else x.load(st, r.root, r.path))
            if p.startswith("alloc::vec::Vec") and nm == "resize_with":
                v = memworld.follow(x, st, a[0])
                tb = x.load(st, v.root, v.path)
                if isinstance(tb, containers.SArr):
                    d = self.default(x, st, a[2])
                    n = x.term(st, a[1], 64)
                    old, on = tb, tb.n
                    x.store(st, v.root, v.path, containers.SArr(n, lambda ix: merge(ult(ix, on), old.index(x, None, ix), d), (), "traces"))
                    return UNIT
            if p.startswith("alloc::vec::Vec") and nm == "clear":
                v = memworld.follow(x, st, a[0])
                tb = x.load(st, v.root, v.path)
                if isinstance(tb, containers.SArr):
                    x.store(st, v.root, v.path, containers.SArr(K(0, 64), tb.rd, (), "traces"))
                    return UNIT
            if nm in ("iter_mut",) or (i.get("name") == "into_iter" and isinstance(a[0], Ref)):
                v = memworld.follow(x, st, a[0])
                if isinstance(v, Ref):
                    tb = x.load(st, v.root, v.path)
                    if isinstance(tb, containers.SArr):
                        root = ("O", "titer%d" % len(st.env))
                        st.env[root] = Agg([Opq(("tblit", v)), K(0, 8)], "titer")
                        return Ref(root)
            if i.get("name") in ("next", "into_iter"):
                r = a[0]
                n = 0
                while isinstance(r, Ref) and n < 4:
                    w = x.load(st, r.root, r.path)
                    if isinstance(w, Agg) and w.d == "titer":
                        if i.get("name") == "into_iter":
                            return r
                        return self.each(x, st, r, w)
                    r, n = w, n + 1
            return base(x, st, a, i, f, t)
        H["unknown_first"] = unknown_first
        return H

    def each(self, x, st, r, w):
        """an element-wise pass over the whole table: the body is run on one generic element"""
        v = w.f[0].n[1]
        k = kv(w.f[1])
        gen = ("O", "generic")
        if k == 0:
            tb = x.load(st, v.root, v.path)
            st.env[gen] = tb.index(x, None, V("generic", 64))
            st.env[("O", "before")] = Agg([st.env[TOK]] + list(self.fields(x, st).values()), "before")
            x.store(st, r.root, r.path, Agg([w.f[0], K(1, 8)], "titer"))
            return Some(Ref(gen))
        b = st.env[("O", "before")]
        if not all(p is q for p, q in zip(b.f, [st.env[TOK]] + list(self.fields(x, st).values()))):
            raise Unsupported("a pass over the table that does something else")
        val = st.env[gen]
        if "generic" in str_vars(val):
            raise Unsupported("a pass over the table that depends on its elements")
        tb = x.load(st, v.root, v.path)
        x.store(st, v.root, v.path, containers.SArr(tb.n, lambda ix: val, (), "traces"))
        return NONE()

    def default(self, x, st, fn):
        g = None
        if isinstance(fn, Fn):
            g = x.resolve_fn(fn) if hasattr(x, "resolve_fn") else None
        g = g or self.p.fn("<%s<Inner> as core::default::Default>::default" % TR)
        s2 = st.copy()
        return x.run_body(s2, g, [])

    def thread_ref(self, x, st, op):
        root = ("O", "thr%d" % op.id)
        st.env[root] = thread_of(self.p, op)
        return Ref(root)


def str_vars(v, seen=None):
    out = set()
    if isinstance(v, T):
        st, done = [v], set()
        while st:
            t = st.pop()
            if t.id in done:
                continue
            done.add(t.id)
            if t.op == "v":
                out.add(t.a[0])
            st.extend(c for c in t.a if isinstance(c, T))
    elif isinstance(v, Agg):
        for c in v.f:
            out |= str_vars(c)
    elif isinstance(v, Mux):
        out |= str_vars(v.c) | str_vars(v.a) | str_vars(v.b)
    return out


class TVal(HVal):
    """opcodes near the class boundaries, blocks that match"""

    def __init__(self, rng):
        super().__init__(rng)
        pc = rng.choice((rng.getrandbits(64), rng.getrandbits(14), (1 << 32) + rng.getrandbits(13) * 2, rng.getrandbits(20)))
        self.vars.update({"pc": pc, "tlen": rng.choice((0, TABLE, TABLE)), "pslot": rng.choice((pc >> 2 & (TABLE - 1), rng.randrange(TABLE))),
                         "pauseb": rng.choice((0, 0, 0, 1)), "reset_signal": rng.choice((0, 0, 0, 1))})
        self.pc0 = pc

    def ufval(self, name, args, w):
        v = super().ufval(name, args, w)
        h = super().ufval(name + "#", args, 32)
        if name == "t:address":
            k = h & 7
            return self.pc0 if k < 4 else self.pc0 & mask(32) if k < 6 else v
        if name == "t:count":
            return (h >> 3) % 6 if h & 7 else h >> 8 & 15
        if name == "inst" or name.startswith("t:inst"):
            op = (0x11, 0x12, 0x25, 0x9b, 0x9c, 0x9d, 0xa7, 0xa9, 0xaa, 0xab, 0x8f, 0x10, 0x0f, 0xac, 0x62, 0x4d)[h & 15]
            if h & 0x700:
                op = (0x11, 0x12, 0x62, 0x9b)[h & 3]
            return v & ~0xf0000ff & mask(64) | op | (1, 2, 2, 4, 6, 2, 1, 2)[h >> 12 & 7] << 24
        if name == "ok":
            return int(h % 24 != 0)
        if name == "cyclefn":
            return v if h % 11 == 0 else v % 3
        return v


def ref_trace(h, n):
    p = h.p
    s = Ref_(h)
    x0 = None
    d = h.entry(K(0, 64), K(0, 8), [K(0, 64)] * 16, [K(0, 64)] * 16)
    gate(s)
    tlen = V("tlen", 64)
    t0 = containers.SArr(tlen, h.entry0, (), "t")
    s.more = {"table": t0}

    def begin(s):
        s.f["running"] = one(h, 1)
        s.more = {"table": containers.SArr(K(TABLE, 64), lambda ix: merge(ult(ix, tlen), h.entry0(ix), d), (), "t")}
    s.live(begin)

    def body(s):
        pause_check(s)

        def rst(s):
            s.ev("reset_cache")

            def clr(s):
                s.more = {"table": containers.SArr(K(TABLE, 64), lambda ix: d, (), "t")}
            s.live(clr)
        s.live(lambda s: take_reset(s, rst))
        s.live(block)

    def block(s):
        pc = s.f["pc"]
        slot = band(shift("lshr", pc, K(2, 64)), K(TABLE - 1, 64))
        e = s.more["table"].index(None, None, slot)
        key = ite(ult(V("version", 32), K(2, 32)), band(pc, K(mask(32), 64)), pc)
        hit = band(eq(h.get(e, "address"), key), bnot(eq(h.get(e, "instruction_count"), K(0, 8))))

        def build(s):
            # dropped first: a failed decode leaves no block behind
            s.more = {"table": s.more["table"].setindex(None, None, slot, (), d)}
            cur = pc
            toks = []
            s.more["ended"] = FALSE
            s.more["cur"], s.more["cnt"] = pc, K(0, 8)
            ins = []
            for k in range(h.cap):
                def item(s, k=k):
                    t = s.ev("decode", [s.more["cur"]])
                    s.more = dict(s.more)
                    s.more["i%d" % k] = uf("inst", 64, t)

                    def good(s):
                        i = s.more["i%d" % k]
                        s.more = dict(s.more)
                        s.more["cur"] = add(s.more["cur"], ilen(i))
                        s.more["cnt"] = K(k + 1, 8)
                        s.more["ended"] = block_end(p, i)
                    s.live(good)
                s.live(lambda s: s.when(s.more["ended"], lambda s: None, item))

            def install(s):
                ii = [s.more.get("i%d" % k, K(0, 64)) for k in range(16)]
                ii = [ite(ult(K(k, 8), s.more["cnt"]), i, K(0, 64)) for k, i in enumerate(ii)]
                en = h.entry(pc, s.more["cnt"], ii, [thread_of(p, opc(i)) for i in ii])
                s.more = {"table": s.more["table"].setindex(None, None, slot, (), en)}
            s.live(install)

        def run(s):
            e = s.more["table"].index(None, None, slot)
            cnt = h.get(e, "instruction_count")
            for k in range(16):
                def item(s, k=k):
                    i = h.get(e, "instructions").f[k]
                    charge(s, uf("cyclefn", 64, i))
                    s.live(lambda s: s.ev("execute", [i, h.get(e, "threads").f[k]], True))
                s.live(lambda s: s.when(ult(K(k, 8), cnt), item))
        s.when(hit, lambda s: None, build)
        s.more = {"table": s.more["table"]}
        s.live(run)
    for k in range(n):
        s.live(lambda s: s.when(running(s) if h.single or k == 0 else FALSE, body, finish))
    s.live(lambda s: s.when(running(s) if h.single else FALSE, lambda s: None, finish))
    return s


def judge_trace(ctx, p, groups, trials=TRIALS):
    try:
        f = p.fn(FN)
        h = TraceHost(p)
        st = h.start()
        x = h.executor()
        rv = x.run_body(st, f, [Ref(("O", "tm")), Ref(("O", "decoder"))])
        r = ref_trace(h, 1)
        a, b = h.table(x, st).index(x, st, PSLOT), r.more["table"].index(None, None, PSLOT)
        ca, cb = h.get(a, "instruction_count"), h.get(b, "instruction_count")
        extra = [("block count", ca, cb), ("block address", ite(eq(ca, K(0, 8)), K(0, 64), h.get(a, "address")), ite(eq(cb, K(0, 8)), K(0, 64), h.get(b, "address")))]
        for k in range(16):
            ma, mb = ult(K(k, 8), ca), ult(K(k, 8), cb)
            extra.append(("block instruction %d" % k, ite(ma, h.get(a, "instructions").f[k], K(0, 64)), ite(mb, h.get(b, "instructions").f[k], K(0, 64))))
            extra.append(("block handler %d" % k, ite(ma, h.thr(h.get(a, "threads").f[k]), K(0, 64)), ite(mb, h.get(b, "threads").f[k], K(0, 64))))
        g = groups(h, r, "block interpreter loop")
        if g:
            judge(ctx, h, "block interpreter loop", where_of(p, FN), x, st, rv, r, g, trials, extra,
                  under=ult(PSLOT, K(TABLE, 64)), interp=TVal)
    except Unsupported as e:
        ctx.und("block interpreter loop", str(e)[:200])
