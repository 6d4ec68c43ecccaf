"""C31: a newly built machine starts in the initial state, with the configuration it was given."""
from facts import Program
from newhost import *
from world import opcodes

LEVEL = "other"
IX = V("ix", 64)
CORE = "machine::CoreMachine"
SUP = "machine::SupportMachine"


def obsv(fa, key, got, want):
    """pairs of terms that have to agree"""
    got = fa.look(got)
    if isinstance(want, T):
        if isinstance(got, (Opq, Ref, Agg)):
            raise Unsupported("%s: %r" % (key, got))
        return [(key, fa.x.term(fa.st, got, want.w), want)]
    if isinstance(want, Opq):
        return [(key, K(int(isinstance(got, Opq) and got.n == want.n), 1), TRUE)]
    raise Unsupported("%s: %r" % (key, want))


def regs(fa, v):
    v = fa.look(v)
    if isinstance(v, Agg) and len(v.f) == 32:
        return [("register x%d" % k, fa.x.term(fa.st, c, 64), K(0, 64)) for k, c in enumerate(v.f)]
    raise Unsupported("registers %r" % (v,))


def settle(ctx, fa, name, where, obs, panic=FALSE, under=TRUE, trials=400, interp=HVal):
    obs = [("refuses", fa.st.panic, panic)] + obs
    decide(ctx, name, where, obs[:1], band(under, bnot(fa.st.cut)), trials, interp)
    decide(ctx, name, where, obs[1:], band(under, bnot(panic), bnot(fa.st.panic), bnot(fa.st.cut)), trials, interp)


def guard(ctx, name, go):
    try:
        go()
    except Unsupported as e:
        ctx.und(name, str(e)[:200])


def method(p, impl, trait, n):
    for k in p.vm.fns:
        if k.endswith(">::" + n) and impl in k and (k == "<%s as %s>::%s" % (impl, trait, n) or k.endswith("<impl %s for %s>::%s" % (trait, impl, n))):
            return k
    raise Unsupported("no %s::%s for %s" % (trait, n, impl))


def core_obs(fa, impl, m, isa, version, maxc):
    C = lambda n: method(fa.p, impl, CORE, n)
    S = lambda n: method(fa.p, impl, SUP, n)
    o = regs(fa, fa.run(C("registers"), [m]))
    for n, w in (("pc", K(0, 64)),):
        o += obsv(fa, n, fa.run(C(n), [m]), w)
    o += obsv(fa, "isa", fa.run(C("isa"), [m]), isa)
    o += obsv(fa, "version", fa.run(C("version"), [m]), version)
    o += obsv(fa, "cycles", fa.run(S("cycles"), [m]), K(0, 64))
    o += obsv(fa, "max_cycles", fa.run(S("max_cycles"), [m]), maxc)
    o += obsv(fa, "running", fa.run(S("running"), [m]), FALSE)
    o += obsv(fa, "reset pending", fa.run(S("reset_signal"), [m]), FALSE)
    return o


DCM = "machine::DefaultCoreMachine"
ISA, VER, MAXC = V("isa", 8), V("version", 32), V("max_cycles", 64)


def core(ctx, p):
    impl = DCM + "<R, M>"
    base = DCM + "::<R, M>::"
    for fn, args, mem in (("new_with_memory", [ISA, VER, MAXC, Opq("memory")], "memory"), ("new", [ISA, VER, MAXC], "default M")):
        def go():
            fa = Factory(p)
            m = fa.root(fa.run(base + fn, args))
            o = core_obs(fa, impl, m, ISA, VER, MAXC)
            o += obsv(fa, "memory", fa.run("<%s as %s>::memory" % (impl, CORE), [m]), Opq(mem))
            settle(ctx, fa, "DefaultCoreMachine::" + fn, where_of(p, p.fn(base + fn)), o)
        guard(ctx, "DefaultCoreMachine::" + fn, go)




def engine(ctx, p):
    crate = "ckb_vm_definitions"
    impl = "alloc::boxed::Box<ckb_vm_definitions::asm::AsmCoreMachine>"
    SIZE = V("size", 64)
    FR, PG = 1 << 18, 4096
    for fn, args, size in (("new_with_memory", [ISA, VER, MAXC, SIZE], SIZE), ("new", [ISA, VER, MAXC], None)):
        def go():
            fa = Factory(p)
            path = "asm::AsmCoreMachine::" + fn
            if size is None:
                size_ = K(default_memory(p), 64)
            else:
                size_ = size
            box = fa.run(path, args, crate)
            m = fa.root(box)
            o = core_obs(fa, impl, m, ISA, VER, MAXC)
            g = lambda n, w=64: fa.x.term(fa.st, fa.field(box, n), w)
            o += [("memory_size", g("memory_size"), size_), ("frames_size", g("frames_size"), lshr_c(size_, 18)), ("flags_size", g("flags_size"), lshr_c(size_, 12)),
                  ("no reservation", g("load_reservation_address"), K(mask(64), 64)), ("no page checked for writing", g("last_write_page"), K(mask(64), 64)),
                  ("no frame checked for reading", g("last_read_frame"), K(mask(64), 64)), ("chaos mode off", g("chaos_mode", 8), K(0, 8))]
            seen = {}
            for n, s, z in (("memory_ptr", size_, None), ("flags_ptr", g("flags_size"), True), ("frames_ptr", g("frames_size"), True)):
                v = g(n)
                k = [e for e in fa.allocs if e[0] is v]
                if len(k) != 1:
                    (ctx.bad if isk(v) else lambda k, c, m: ctx.und(k, m))("AsmCoreMachine::%s/%s" % (fn, n), where_of(p, p.fn(path, crate)), "%s is not a fresh allocation: %r" % (n, v))
                    continue
                o.append((n + " has that many bytes", k[0][1], s))
                o.append((n + " is its own allocation", K(int(v not in seen), 1), TRUE))
                seen[v] = n
                if z:
                    o.append((n + " starts zeroed", K(int(k[0][2]), 1), TRUE))
            bad = bor(eq(size_, K(0, 64)), bnot(eq(band(size_, K(FR - 1, 64)), K(0, 64))), bnot(ule(size_, K(mask(64) >> 1, 64))))
            settle(ctx, fa, "AsmCoreMachine::" + fn, where_of(p, p.fn(path, crate)), o, bad)
        guard(ctx, "AsmCoreMachine::" + fn, go)


def default_memory(p):
    return 4 << 20


SIZE, ADDR, PAGE = V("size", 64), V("addr", 64), V("page", 64)
MEM = "memory::Memory"


def memories(ctx, p):
    """flat and sparse memory: sized as asked, no flags, no reservation, every byte zero"""
    for kind in ("flat::FlatMemory", "sparse::SparseMemory"):
        impl = "memory::" + kind + "<R>"
        pre = "memory::" + kind + "::<R>::new_with_memory"
        for fn, args, size in ((pre, [SIZE], SIZE), (method(p, impl, "core::default::Default", "default"), [], K(default_memory(p), 64))):
            name = fn.split("::")[2].split("<")[0] + "::" + fn.rsplit("::", 1)[-1]

            def go():
                fa = Factory(p)
                m = fa.root(fa.run(fn, args))
                made = fa.st.panic
                M = lambda n, *a: fa.run(method(p, impl, MEM, n), [m] + list(a))
                o = obsv(fa, "memory_size", M("memory_size"), size)
                o += obsv(fa, "no reservation", M("lr"), K(mask(64), 64))
                bad = bnot(eq(band(size, K(4095, 64)), K(0, 64)))

                def ask(n, arg, inside):
                    r = M(n, arg)
                    v = payload(fa, r)
                    return [(n + " succeeds inside", ite(inside, okbit(r), TRUE), TRUE), (n + " reads zero", ite(inside, v, K(0, v.w)), K(0, v.w))]
                inside = ule(ADDR, sub(size, K(8, 64)))
                big = ule(K(4096, 64), size)
                o += ask("fetch_flag", PAGE, ult(PAGE, lshr_c(size, 12)))
                for n in ("load8", "load64"):
                    r = M(n, fa.root(ADDR))
                    v = payload(fa, r)
                    o += [(n + " succeeds inside", ite(band(big, inside), okbit(r), TRUE), TRUE), (n + " reads zero", ite(band(big, inside), v, K(0, v.w)), K(0, v.w))]
                o.append(("accesses do not panic", ite(band(big, inside), band(fa.st.panic, bnot(made)), FALSE), FALSE))
                fa.st.panic = made
                settle(ctx, fa, name, where_of(p, p.fn(fn)), o, bad, ule(size, K(1 << 40, 64)), interp=MVal)
            guard(ctx, name, go)

    def wx():
        impl = "memory::wxorx::WXorXMemory"
        for n, args, want in (("memory::wxorx::WXorXMemory::<M>::new", [Opq("inner")], "inner"), (method(p, impl + "<M>", "core::default::Default", "default"), [], "default M")):
            fa = Factory(p)
            m = fa.root(fa.run(n, args))
            o = obsv(fa, "wrapped memory", fa.run("memory::wxorx::WXorXMemory::<M>::inner_mut", [m]), Opq(want))
            settle(ctx, fa, "WXorXMemory::" + n.rsplit("::", 1)[-1], where_of(p, p.fn(n)), o)
    guard(ctx, "WXorXMemory", wx)


class MVal(HVal):
    def __init__(self, rng):
        super().__init__(rng)
        s = rng.choice((4096, 8192, 1 << 18, 4 << 20, 4096 * rng.randrange(1, 3000), rng.randrange(1 << 20)))
        self.vars.update({"size": s, "addr": rng.choice((0, s - 8, s - 9, rng.randrange(s + 16), 4095, 4093)) & mask(64), "page": rng.choice((0, s // 4096, s // 4096 - 1, rng.randrange(s // 4096 + 2))) & mask(64)})


def okbit(r):
    if isinstance(r, Mux):
        return ite(r.c, okbit(r.a), okbit(r.b))
    return eq(r.vidx, K(0, 64))


def payload(fa, r):
    if isinstance(r, Mux):
        a, b = payload(fa, r.a), payload(fa, r.b)
        return a if b is None else b if a is None else ite(r.c, a, b)
    v = r.v.get(0, (UNDEF,))
    v = v[0] if v else UNDEF
    return None if v is UNDEF else fa.x.term(fa.st, fa.look(v))


def bit(b):
    return K(int(bool(b)), 1)


BM, BLD = "machine::DefaultMachine", "machine::DefaultMachineBuilder::<Inner>::"
PAU = "machine::Pause::"


def builder(ctx, p):
    def go(full):
        fa = Factory(p)
        b = fa.run(BLD + "new", [Opq("inner")])
        cell = None
        if full:
            cell = fa.run(PAU + "new", [])
            steps = [("instruction_cycle_func", Opq("func")), ("syscall", Opq("first")), ("pause", cell), ("syscall", Opq("second")),
                     ("debugger", Opq("debugger")), ("syscall", Opq("third"))]
            if full >= 2:
                steps = steps[::-1]
            if full == 3:
                steps += [("syscall", Opq("h%d" % i)) for i in range(37)]
            for n, v in steps:
                b = fa.run(BLD + n, [b, v])
        m = fa.run(BLD + "build", [b])
        r = fa.root(m)
        o = obsv(fa, "inner machine", fa.run(BM + "::<Inner>::inner_mut", [r]), Opq("inner"))
        o += obsv(fa, "exit code", fa.run(BM + "::<Inner>::exit_code", [r]), K(0, 8))
        sysc = fa.look(fa.field(m, "syscalls"))
        names = [c.n if isinstance(c, Opq) else repr(c) for c in map(fa.look, sysc.f)]
        want = [] if not full else ["first", "second", "third"][::1 if full == 1 else -1] + (["h%d" % i for i in range(37)] if full == 3 else [])
        o.append(("system call handlers in the order given (%s)" % names, bit(names == want), TRUE))
        d = fa.field(m, "debugger")
        if full:
            o.append(("debugger kept", eq(d.vidx, K(1, 64)) if isinstance(d, En) and isinstance(fa.look(d.v[1][0]), Opq) and fa.look(d.v[1][0]).n == "debugger" else FALSE, TRUE))
            o += obsv(fa, "cost function", fa.run(BM + "::<Inner>::instruction_cycle_func", [r]), Opq("func"))
            fa.run(PAU + "interrupt", [fa.root(cell)])
            o.append(("pause handle kept", fa.x.term(fa.st, fa.run(PAU + "has_interrupted", [ref_field(fa, r, "pause")]), 1), TRUE))
        else:
            o.append(("no debugger", eq(d.vidx, K(0, 64)), TRUE))
            fn = fa.look(fa.run(BM + "::<Inner>::instruction_cycle_func", [r]))
            o.append(("no cost", fa.x.term(fa.st, fa.x.call_value(fa.st, fn, [V("inst", 64)]), 64), K(0, 64)))
            o.append(("no pause requested", fa.x.term(fa.st, fa.run(PAU + "has_interrupted", [ref_field(fa, r, "pause")]), 1), FALSE))
        settle(ctx, fa, "DefaultMachineBuilder" + ("", "/configured", "/configured in another order", "/40 handlers")[full], where_of(p, p.fn(BLD + "build")), o)
    for k in (0, 1, 2, 3):
        guard(ctx, "DefaultMachineBuilder %d" % k, lambda: go(k))


def ref_field(fa, r, n):
    v = fa.x.load(fa.st, r.root, r.path)
    fs = [f["name"] for f in p_fields(fa.p, v.d)]
    return Ref(r.root, tuple(r.path) + (("f", fs.index(n)),))


def p_fields(p, adt):
    return p.adt(adt)["variants"][0]["fields"]


def pause(ctx, p):
    """a request made through any handle is seen, and taken back, through all of them"""
    B = V("pauseb", 8)

    def go():
        fa = Factory(p)
        one = lambda v: fa.x.term(fa.st, v, 1)
        a = fa.root(fa.run(PAU + "new", []))
        has = lambda h: one(fa.run(PAU + "has_interrupted", [h]))
        o = [("new: nothing requested", has(a), FALSE)]
        b = fa.root(fa.run("<machine::Pause as core::clone::Clone>::clone", [a]))
        c = fa.root(fa.run("<machine::Pause as core::clone::Clone>::clone", [b]))
        fresh = fa.root(fa.run("<machine::Pause as core::default::Default>::default", []))
        raw = fa.run(PAU + "get_raw_ptr", [a])
        byte = lambda: fa.x.term(fa.st, fa.look(raw), 8)
        o.append(("the engine's pointer reads 0 first", byte(), K(0, 8)))
        fa.run(PAU + "interrupt", [c])
        o += [("seen through every handle", band(has(a), has(b), has(c)), TRUE), ("seen by the engine", eq(byte(), K(0, 8)), FALSE), ("not seen by another machine", has(fresh), FALSE)]
        fa.run(PAU + "free", [a])
        o += [("taken back everywhere", bor(has(a), has(b), has(c)), FALSE), ("taken back for the engine", byte(), K(0, 8))]
        fa.run(PAU + "interrupt", [b])
        fa.run(PAU + "interrupt", [b])
        o += [("requested again", band(has(a), has(c)), TRUE)]
        m = Agg([{"pause": fa.x.load(fa.st, c.root, c.path)}.get(f["name"], Opq("other")) for f in p_fields(p, BM)], BM)
        r = fa.root(m)
        h = fa.root(fa.run(BM + "::<Inner>::pause", [r]))
        fa.run(PAU + "free", [h])
        o.append(("the machine hands out its own handle", has(a), FALSE))
        fa.run(BM + "::<Inner>::set_pause", [r, fa.x.load(fa.st, fresh.root, fresh.path)])
        fa.run(PAU + "interrupt", [fresh])
        o.append(("the machine listens to the handle it is given", has(ref_field(fa, r, "pause")), TRUE))
        o.append(("and no longer to the old one", has(a), FALSE))
        settle(ctx, fa, "Pause", where_of(p, p.fn(PAU + "interrupt")), o)
    guard(ctx, "Pause", go)


def drop(ctx, p):
    """the engine's three buffers are released exactly once each, with the size they were allocated with"""
    path = "<asm::AsmCoreMachine as core::ops::drop::Drop>::drop"

    def go():
        fa = Factory(p)
        v = fa.run("asm::AsmCoreMachine::new_with_memory", [ISA, VER, MAXC, SIZE], "ckb_vm_definitions")
        bad = fa.st.panic
        fa.run(path, [v], "ckb_vm_definitions")
        bufs = {a: n for a, n, z in fa.allocs if isinstance(a, T)}
        o = [("as many buffers released as allocated", K(len(fa.freed), 8), K(len(bufs), 8))]
        for k, (t, n) in enumerate(fa.freed):
            o.append(("release %d is of a live buffer" % k, bit(t in bufs), TRUE))
            if t in bufs:
                o.append(("release %d has the size allocated" % k, n, bufs.pop(t)))
        settle(ctx, fa, "AsmCoreMachine::drop", where_of(p, p.fn(path, "ckb_vm_definitions")), o, bad)
    guard(ctx, "AsmCoreMachine::drop", go)


TRM = "machine::asm::traces::"
DECS = ("SimpleFixedTraceDecoder", "MemoizedFixedTraceDecoder", "MemoizedDynamicTraceDecoder")
TABLE = 8192


def decoders(ctx, p):
    """a new block decoder knows no block; the table it hands to the engine is its own"""
    for d in DECS:
        def go():
            fa = Factory(p)
            v = fa.run(TRM + d + "::<D>::new", [Opq("decoder")])
            r = fa.root(v)
            TD = lambda n: fa.run("<%s%s<D> as machine::asm::traces::TraceDecoder>::%s" % (TRM, d, n), [r])
            ptr = TD("fixed_traces")
            o = [("the table given to the engine has 8192 slots", fa.x.term(fa.st, TD("fixed_trace_size"), 64), K(TABLE, 64))]
            n = 0
            while isinstance(ptr, Ref) and isinstance(fa.x.load(fa.st, ptr.root, ptr.path), Ref) and n < 4:
                ptr, n = fa.x.load(fa.st, ptr.root, ptr.path), n + 1
            pth = ptr.path
            if pth and pth[-1][0] == "i" and isk(pth[-1][1]):
                o.append(("the engine is given the first slot", pth[-1][1], K(0, 64)))
                pth = pth[:-1]
            tab = fa.x.load(fa.st, ptr.root, pth)
            if not isinstance(tab, containers.SArr):
                raise Unsupported("table %r" % (tab,))
            o.append(("that many blocks are allocated", tab.n, K(TABLE, 64)))
            e = tab.index(fa.x, fa.st, IX)
            o.append(("every slot empty", fa.x.term(fa.st, fa.field(e, "length"), 32), K(0, 32)))
            o.append(("no cycles", fa.x.term(fa.st, fa.field(e, "cycles"), 64), K(0, 64)))
            for k, a in enumerate(fa.allocs):
                o.append(("allocation %d starts zeroed" % k, bit(a[2]), TRUE))
            seen = []

            def walk(v, name):
                v = fa.look(v)
                if isinstance(v, containers.SArr) and v.name == "empty map":
                    o.append((name + " is empty", bit(not v.ws), TRUE))
                elif isinstance(v, Opq):
                    seen.append(v.n)
                elif isinstance(v, Agg) and v.d and p.adt(v.d):
                    for f, c in zip(p_fields(p, v.d), v.f):
                        walk(c, f["name"])
            walk(v, d)
            o.append(("keeps the decoder it is given", bit("decoder" in seen), TRUE))
            settle(ctx, fa, d + "::new", where_of(p, p.fn(TRM + d + "::<D>::new")), o)
        guard(ctx, d + "::new", go)


def starts(ctx, p):
    """run(): a decoder for the machine's own extensions and version, then the run loop with it"""
    for name, path, adt in (("DefaultMachine::run", "machine::DefaultMachine::<Inner>::run", None),
                            ("TraceMachine::run", "machine::trace::TraceMachine::<Inner>::run", "machine::trace::TraceMachine"),
                            ("AsmMachine::run", "machine::asm::AsmMachine::run", "machine::asm::AsmMachine")):
        def go():
            asm = "Asm" in name
            h = Host(p, asm)
            st = h.start()
            base = h.hooks()["unknown_first"]
            log = []
            me = h.me()
            if not asm and adt:
                st.env[("O", "tm")] = h.agg(adt, {"machine": st.env[DM]}, lambda n: Opq(n))
                me = Ref(("O", "tm"))
                h.dm = (("O", "tm"), (("f", h.ix(adt, "machine")),))
            fa = Factory(p)
            fa.st = st
            x = h.executor()
            fa.x = x

            def build(x, st, a, i, f, t):
                ts = fa.tyargs(i, f)
                log.append(("build", x.term(st, a[0], 8), x.term(st, a[1], 32), ts[0]["s"] if ts else ""))
                return Opq("decoder")

            def loop(x, st, a, i, f, t):
                names = []

                def walk(v, n=0):
                    v = fa.look(v)
                    if isinstance(v, Opq):
                        names.append(v.n)
                    elif isinstance(v, Agg) and n < 4:
                        for c in v.f:
                            walk(c, n + 1)
                walk(a[1])
                log.append(("run", a[0], names))
                c = V("loop failed", 1)
                return En(zext(c, 64), {0: (V("loop value", 8),), 1: (Opq("loop error"),)}, RES)
            x.hooks["decoder::build_decoder"] = build
            for q in p.vm.fns:
                if q.endswith("::run_with_decoder"):
                    x.hooks[q] = loop

            def uf_(x, st, a, i, f, t):
                r = fa.unknown(x, st, a, i, f, t)
                return base(x, st, a, i, f, t) if r is NotImplemented else r
            x.hooks["unknown_first"] = uf_
            rv = fa.run(path, [me])
            o = [("one decoder is built, then run", bit([l[0] for l in log] == ["build", "run"]), TRUE)]
            if [l[0] for l in log] == ["build", "run"]:
                b, r = log
                o += [("built for the machine's extensions", b[1], V("isa", 8)), ("built for the machine's version", b[2], V("version", 32))]
                o.append(("built for the machine's registers (%s)" % b[3], bit(b[3] == "u64" if asm else b[3] not in ("u32", "u64")), TRUE))
                same = isinstance(r[1], Ref) and r[1].root == me.root
                o.append(("the loop runs this machine", bit(same), TRUE))
                o.append(("with that decoder", bit("decoder" in r[2]), TRUE))
            ok = isinstance(rv, En) and rv.vidx is zext(V("loop failed", 1), 64)
            o.append(("its outcome is returned", fa.x.term(st, rv.v[0][0], 8) if ok else K(0, 8), V("loop value", 8)))
            f = h.fields(x, st)
            o += [(n, f[n], V(n, w)) for n, w in h.widths.items()]
            settle(ctx, fa, name, where_of(p, p.fn(path)), o)
        guard(ctx, name, go)


TMA = "machine::trace::TraceMachine"


def trace(ctx, p):
    """a caching interpreter starts without cached blocks; its table maps each opcode to that opcode's handler"""
    def go():
        fa = Factory(p, unroll=300)
        v = fa.run(TMA + "::<Inner>::new", [Opq("machine")])
        r = fa.root(v)
        o = obsv(fa, "keeps the machine", fa.field(v, "machine"), Opq("machine"))
        t = fa.look(fa.field(v, "traces"))
        n = K(len(t.f), 64) if isinstance(t, Agg) else t.n
        o.append(("no cached block", n, K(0, 64)))
        fac = ref_field(fa, r, "factory")
        ops = opcodes(p)
        for n, k in sorted(ops.items(), key=lambda q: q[1]):
            if n.startswith("CUSTOM_") or p.fn("instructions::execute::handle_" + n.lower()) is None:
                continue
            e = fa.run("instructions::execute::ThreadFactory::<Mac>::get", [fac, K(k, 16)])
            c = okbit(e) if isinstance(e, (En, Mux)) else None
            h = e.v.get(1, (UNDEF,))[0] if isinstance(e, En) else UNDEF
            h = fa.look(h)
            nm = h.info["path"] if isinstance(h, Fn) else repr(h)
            o.append(("handler of %s (%s)" % (n, nm.rsplit("::", 1)[-1]), band(bnot(c), bit(nm == "instructions::execute::handle_" + n.lower())), TRUE))
        if len(o) < 100:
            ctx.und("handler table", "only %d opcodes with a handler" % (len(o) - 2))
        settle(ctx, fa, "TraceMachine::new", where_of(p, p.fn(TMA + "::<Inner>::new")), o)
    guard(ctx, "TraceMachine::new", go)

    def go():
        fa = Factory(p)
        v = fa.run("machine::asm::AsmMachine::new", [Opq("machine")])
        o = obsv(fa, "keeps the machine", fa.field(v, "machine"), Opq("machine"))
        settle(ctx, fa, "AsmMachine::new", where_of(p, p.fn("machine::asm::AsmMachine::new")), o)
    guard(ctx, "AsmMachine::new", go)

    def go():
        fa = Factory(p)
        path = "snapshot2::Snapshot2Context::<I, D>::new"
        v = fa.run(path, [Opq("source")])
        o = obsv(fa, "keeps the data source", fa.field(v, "data_source"), Opq("source"))
        m = fa.look(fa.field(v, "pages"))
        o.append(("tracks no page", bit(isinstance(m, containers.SArr) and m.name == "empty map" and not m.ws), TRUE))
        settle(ctx, fa, "Snapshot2Context::new", where_of(p, p.fn(path)), o)
    guard(ctx, "Snapshot2Context::new", go)


def library(ctx, p):
    """ckb_vm::run: all extensions, the latest version, no cycle limit, write-xor-execute memory; load, then run"""
    for path, args, mem in (("run", [Opq("program"), Opq("args")], "default M"), ("run_with_memory", [Opq("program"), Opq("args"), Opq("memory")], "memory")):
        def go():
            log = []
            o = []
            bad, lost = V("load fails", 1), V("run fails", 1)

            fa = Factory(p)

            def load(x, st, a, i, f, t):
                log.append(("load", a[0].root, [fa.look(v).n if isinstance(fa.look(v), Opq) else "?" for v in a[1:]]))
                tm = fa.look(a[0])
                dm = fa.field(tm, "machine")
                inner = fa.root(fa.look(fa.field(dm, "inner")))
                o.extend(core_obs(fa, DCM + "<R, M>", inner, K(7, 8), K(2, 32), K(mask(64), 64)))
                w = fa.look(fa.run("<%s<R, M> as %s>::memory" % (DCM, CORE), [inner]))
                o.append(("write-xor-execute memory", bit(isinstance(w, Agg) and w.d == "memory::wxorx::WXorXMemory"), TRUE))
                o.extend(obsv(fa, "the memory asked for", w.f[0], Opq(mem)))
                return En(zext(bad, 64), {0: (V("loaded", 64),), 1: (Opq("load error"),)}, RES)

            def go_(x, st, a, i, f, t):
                log.append(("run", a[0].root))
                return En(zext(lost, 64), {0: (V("value", 8),), 1: (Opq("run error"),)}, RES)
            for q in p.vm.fns:
                if q.startswith(TMA + "::") and q.endswith("::load_program"):
                    fa.x.hooks[q] = load
                if q.startswith(TMA + "::") and q.endswith("::run"):
                    fa.x.hooks[q] = go_
            rv = fa.run(path, args)
            o.append(("loaded, then run", bit([l[0] for l in log] == ["load", "run"] and log[0][1] == log[1][1]), TRUE))
            o.append(("the program and arguments given", bit(log and log[0][2] == ["program", "args"]), TRUE))
            o.append(("succeeds when both do", okbit(rv), bnot(bor(bad, lost))))
            o.append(("value of the program", ite(okbit(rv), payload(fa, rv), K(0, 8)), ite(bnot(bor(bad, lost)), V("value", 8), K(0, 8))))
            settle(ctx, fa, "ckb_vm::" + path, where_of(p, p.fn(path)), o)
        guard(ctx, "ckb_vm::" + path, go)


def run(ctx):
    p = Program()
    core(ctx, p)
    engine(ctx, p)
    drop(ctx, p)
    memories(ctx, p)
    builder(ctx, p)
    pause(ctx, p)
    decoders(ctx, p)
    starts(ctx, p)
    trace(ctx, p)
    library(ctx, p)
    ctx.explanation = "Every constructor is executed symbolically from its MIR (allocations, boxes, shared cells and generic defaults modelled) and what it builds is observed through the accessors of its own type, for symbolic configuration values; the wrappers that start a run are followed to the decoder they build and the loop they enter."
    ctx.rules = ["registers, pc, cycles zero; not running, no reset pending, no reservation; configuration as given", "memory of the size given, flags zero, bytes zero; page-misaligned sizes are refused", "engine buffers are separate allocations of the advertised sizes, flag and frame tables zeroed, caches naming no page, each released once with its size", "the builder keeps every part, system calls in order; defaults cost nothing and have no handlers", "all handles of one Pause share one byte", "block tables and caches start empty and the engine is given the decoder's own table", "run() builds the decoder for the machine's own extensions, version and register width", "each opcode's slot of the handler table holds that opcode's handler", "ckb_vm::run: all extensions, version 2, no limit, W^X memory"]
    ctx.trusted = ["rustc MIR", "sa/mirexec.py", "models of alloc, Box, Arc, AtomicU8, Vec, HashMap in sa/newhost.py"]
