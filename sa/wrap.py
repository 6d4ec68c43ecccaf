"""Wrapping layers: every method of a wrapper hands its arguments to the same method of the wrapped object, once, and
returns what that returned.  The wrapped object is opaque: each call on it is an event with a fresh result."""
import re
from hostworld import *
from loops import where_of

INNER = ("O", "inner")
QUERY = {"memory_size", "fetch_flag", "memory", "memory_mut", "registers", "pc", "isa", "version", "cycles", "max_cycles", "running", "lr"}
TRAITS = ("machine::CoreMachine", "machine::SupportMachine", "machine::Machine", "memory::Memory", "decoder::InstDecoder", "machine::asm::traces::TraceDecoder")
OBJ = "object"


def obj(t):
    return Agg((t,), OBJ)


def args_of(x, st, vs):
    out = []
    for v in vs:
        n = 0
        while isinstance(v, Ref) and n < 8:
            v = x.load(st, v.root, v.path)
            n += 1
        if isinstance(v, Mux):
            v = merge(v.c, v.a, v.b)
        if isinstance(v, T):
            out.append(zext(v, 64) if v.w < 64 else v)
        elif isinstance(v, Agg) and v.d == OBJ:
            out.append(v.f[0])
        elif isinstance(v, Agg) and len(v.f) == 0:
            out.append(K(0, 64))
        elif isinstance(v, En):
            out.append(v.vidx)
            for k, p in sorted(v.v.items()):
                for q, t in zip(p, args_of(x, st, p)):
                    out.append(ite(eq(v.vidx, K(k, 64)), t, K(0, 64)))
        elif isinstance(v, Opq):
            out.append(V("object_" + re.sub(r"\W", "_", str(Host.oname(v))), 64))
        else:
            raise Unsupported("argument %r" % (v,))
    return out


class Wrap(Host):
    def __init__(self, p, ignore=()):
        super().__init__(p, False, 0, 4)
        self.ignore = set(ignore)
        self.nested = {}

    def token(self, st, name, args, query):
        base = K(0, 64) if query else st.env[TOK]
        t = uf("call:%s:%d" % (name, len(args)), 64, base, *args)
        if not query:
            st.env[TOK] = t
        return t

    def value(self, x, st, ty, cr, t):
        """the result of a call, as a value of the declared type"""
        k = ty["k"]
        if k in ("uint", "int"):
            return uf("r", ty["bits"], t) if ty.get("bits") else uf("r", 64, t)
        if k == "bool":
            return uf("r", 1, t)
        if k == "tuple" and not ty["elems"]:
            return UNIT
        if k == "alias":
            return uf("r", 64, t)
        if k == "adt" and ty["def"] == "core::result::Result":
            return self.res(t, self.value(x, st, cr.ty(ty["args"][0]), cr, t))
        if k == "ref":
            to = cr.ty(ty["to"])
            if to["k"] == "alias" and "REG" in to["s"]:
                x.heap += 1
                root = ("H", x.heap)
                st.env[root] = uf("r", 64, t)
                return Ref(root)
        x.heap += 1
        root = ("H", x.heap)
        st.env[root] = obj(uf("r", 64, t))
        return Ref(root) if k == "ref" or k == "ptr" else obj(uf("r", 64, t))

    def is_inner(self, x, st, v):
        return self.opq(x, st, v) == "inner"

    def hooks(self):
        H = {}

        def make(tr, nm):
            def h(x, st, a, i, f, t):
                if not a or not self.is_inner(x, st, a[0]):
                    return NotImplemented
                return self.call(x, st, tr, nm, a[1:])
            return h
        names = set()
        for (tr, nm) in set(self.p.impl_methods) | set(self.p.trait_defaults):
            if tr in TRAITS:
                H[tr + "::" + nm] = make(tr, nm)
        H["deref_term"] = memworld.deref_term
        H["unknown_first"] = memworld.unknown
        return H

    def sig(self, tr, nm):
        g = self.p.trait_defaults.get((tr, nm))
        if g is None:
            lst = self.p.impl_methods.get((tr, nm))
            # a generic implementation, so that associated types stay abstract
            lst = sorted(lst, key=lambda e: "<Inner" not in e[0] and "<M/" not in e[0])
            g = lst[0][1]
        return g

    def call(self, x, st, tr, nm, args):
        g = self.sig(tr, nm)
        q = nm in QUERY or nm in self.ignore
        t = self.token(st, tr.rsplit("::", 1)[-1] + "::" + nm, args_of(x, st, args), q)
        return self.value(x, st, g["crate"].ty(g["locals"][0]), g["crate"], t)


def symbol(x, st, ty, cr, name):
    """an arbitrary argument of the declared type"""
    k = ty["k"]
    if k in ("uint", "int"):
        return V(name, ty["bits"] or 64)
    if k == "bool":
        return V(name, 1)
    if k == "alias":
        return V(name, 64)
    if k == "ref":
        to = cr.ty(ty["to"])
        x.heap += 1
        root = ("H", x.heap)
        if to["s"] == "[u8]":
            st.env[root] = memworld.SArr(V(name + "_len", 64), lambda ix: uf(name, 8, ix), (), name)
        else:
            st.env[root] = symbol(x, st, to, cr, name)
        return Ref(root)
    if k == "adt" and ty["def"] == "core::option::Option":
        return En(zext(V("has_" + name, 1), 64), {0: (), 1: (obj(V(name, 64)),)}, OPT)
    return obj(V(name, 64))


def slices(v):
    return isinstance(v, memworld.SArr)


_args_of = args_of


def args_of(x, st, vs):
    out = []
    for v in vs:
        w = memworld.follow(x, st, v) if isinstance(v, Ref) else v
        o = x.load(st, w.root, w.path) if isinstance(w, Ref) else w
        if slices(o):
            # a byte slice: its length and a byte of it
            n = memworld.length(x, st, v)
            out += [n, zext(ite(ult(V("at", 64), n), memworld.reader(x, st, v)(V("at", 64)), K(0, 8)), 64)]
        else:
            out += _args_of(x, st, [v])
    return out


def outcome(h, x, st, rv, ty):
    """(code, payload, value) of any result"""
    if ty["k"] == "adt" and ty["def"] == "core::result::Result":
        def val(v):
            if isinstance(v, Mux):
                a, b = val(v.a), val(v.b)
                return merge(v.c, a, b)
            return v
        return h.result(x, st, flat(x, st, rv))
    a = args_of(x, st, [rv]) if rv is not UNIT else [K(0, 64)]
    return K(255, 64), K(0, 64), a[0]


def flat(x, st, rv):
    if isinstance(rv, Mux):
        return Mux(rv.c, flat(x, st, rv.a), flat(x, st, rv.b))
    if isinstance(rv, En):
        v = dict(rv.v)
        if 0 in v and v[0] and not isinstance(v[0][0], T):
            p = v[0][0]
            if p is not UNDEF:
                v[0] = (summary(x, st, p) if p is not UNIT else K(0, 64),)
        return En(rv.vidx, v, rv.d)
    return rv


def summary(x, st, p):
    if isinstance(p, Mux):
        return ite(p.c, summary(x, st, p.a), summary(x, st, p.b))
    a = args_of(x, st, [p])
    return a[0] if len(a) == 1 else uf("several", 64, *a)


class WVal(equiv.Val):
    def __init__(self, rng):
        m = rng.choice((1 << 16, 1 << 22, rng.getrandbits(16)))
        fixed = {"tok": rng.getrandbits(64), "at": rng.choice((0, 1, rng.getrandbits(4)))}
        self.m = m
        self.rng = rng
        super().__init__(rng.getrandbits(32), equiv.Draw(random.Random(rng.getrandbits(64))), fixed)
        for n in ("a2",):
            self.vars[n] = rng.choice((rng.getrandbits(12), rng.getrandbits(16), rng.getrandbits(14) & ~4095, rng.getrandbits(64)))
        for n in ("a3", "a3_len"):
            self.vars[n] = rng.choice((0, 1, 8, rng.getrandbits(6), 4096, rng.getrandbits(13), rng.getrandbits(12) & ~4095))
        self.vars["a6"] = rng.choice((0, 0, rng.getrandbits(8)))

    def ufval(self, name, args, w):
        if name == "r" and w == 64 and args and False:
            return self.m
        if name == "r" and w == 8:
            return super().ufval(name, args, w) & self.rngf
        return super().ufval(name, args, w)

    rngf = 0xff


class WXVal(WVal):
    """memory sizes and flags that let checks pass"""

    def __init__(self, rng):
        super().__init__(rng)
        self.rngf = rng.choice((0, 0, 0x80, 0x82, 2, 1, 4, 0xff))
        self.setr = rng.choice((0, 0, 2, 1))

    def ufval(self, name, args, w):
        if name == "ok":
            return int(super().ufval(name, args, 3) != 0)
        v = super().ufval(name, args, w)
        if name == "r" and w == 8:
            return v & self.rngf | self.setr
        if name == "call:Memory::memory_size:1":
            return v
        if name == "r" and w == 64 and args == (self.msz_tok(),):
            return self.m
        return v

    def msz_tok(self):
        t = getattr(self, "_mt", None)
        if t is None:
            self._mt = t = super().ufval("call:Memory::memory_size:0", (0,), 64)
        return t


def make_self(h, st, spec):
    """[(adt, field holding the next layer)] down to the opaque object; returns a reference to the outermost"""
    val = Opq("inner")
    for adt, fld in reversed(spec):
        inner = val
        val = h.agg(adt, {fld: inner}, lambda n: Opq("own_" + n))
    st.env[("O", "self")] = val
    return Ref(("O", "self"))


def forwards(ctx, p, layer, selfty, spec, tr, nm, trials, checked=False, own=None):
    """one method of one wrapper"""
    name = "%s::%s" % (layer, nm)
    g = next((f for s, f in p.impl_methods.get((tr, nm), []) if re.sub(r"<.*", "", s) == selfty), None)
    if g is None:
        return ctx.und(name, "not found")
    one(ctx, p, name, g, spec, tr, nm, trials, checked)


def one(ctx, p, name, g, spec, tr, nm, trials, checked=False):
    try:
        h = Wrap(p, {"set_flag"} if nm == "init_pages" else ())
        st = St()
        st.env[TOK] = V("tok", 64)
        x = h.executor()
        cr = g["crate"]
        me = make_self(h, st, spec)
        before = st.env[("O", "self")]
        args = [symbol(x, st, cr.ty(g["locals"][k]), cr, "a%d" % k) for k in range(2, g["argc"] + 1)]
        known = [args_of(x, st, [a]) for a in args]
        rv = x.run_body(st, g, [me] + args)
        rt = cr.ty(g["locals"][0])
        code, pay, val = outcome(h, x, st, rv, rt)
        tok = st.env[TOK]
        s2 = St()
        s2.env[TOK] = V("tok", 64)
        flat_args = [t for a in known for t in a]
        q = nm in QUERY
        t = h.token(s2, tr.rsplit("::", 1)[-1] + "::" + nm, flat_args, q)
        g2 = h.sig(tr, nm)
        want = h.value(x, s2, g2["crate"].ty(g2["locals"][0]), g2["crate"], t)
        for k, v in s2.env.items():
            st.env.setdefault(k, v)
        wcode, wpay, wval = outcome(h, x, st, want, g2["crate"].ty(g2["locals"][0]))
        wtok = s2.env[TOK]
        under = band(bnot(st.cut), bnot(st.panic)) if checked else bnot(st.cut)
        obs = []
        if checked:
            ref = bnot(bor(eq(code, K(255, 64)), eq(code, K(EVERR, 64))))
            if nm in ("store_byte", "store_bytes"):
                n = known[1][0]
                under = band(under, bnot(eq(n, K(0, 64))))
            early = band(eq(code, K(EVERR, 64)), eq(tok, V("tok", 64)))
            decide(ctx, name + " (refused)", where_of(p, g["path"]), [("nothing done", tok, V("tok", 64))], band(under, ref), trials, WXVal)
            # an error of the flag calls is passed on before the call itself
            under = band(under, bnot(ref), bnot(early))
            obs = [("call of the wrapped object", tok, wtok), ("value", val, wval), ("result", code, wcode), ("error", pay, wpay)]
        else:
            obs = [("calls of the wrapped object", tok, wtok), ("result", code, wcode), ("error", pay, wpay), ("value", val, wval), ("panic", st.panic, FALSE)]
        after = st.env[("O", "self")]
        obs.append(("own state", TRUE if same(before, after) else FALSE, TRUE))
        decide(ctx, name, where_of(p, g["path"]), obs, under, trials, WXVal)
    except Unsupported as e:
        ctx.und(name, str(e)[:200])


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Agg) and isinstance(b, Agg):
        return len(a.f) == len(b.f) and all(same(p, q) for p, q in zip(a.f, b.f))
    if isinstance(a, Opq) and isinstance(b, Opq):
        return Host.oname(a) == Host.oname(b)
    return False


LAYERS = [
    ("default machine", "machine::DefaultMachine", [("machine::DefaultMachine", "inner")], ("machine::CoreMachine", "machine::SupportMachine")),
    ("trace machine", "machine::trace::TraceMachine", [("machine::trace::TraceMachine", "machine"), ("machine::DefaultMachine", "inner")], ("machine::CoreMachine",)),
    ("permission memory", "memory::wxorx::WXorXMemory", [("memory::wxorx::WXorXMemory", "inner")], ("memory::Memory",)),
    ("simple block decoder", "machine::asm::traces::SimpleFixedTraceDecoder", [("machine::asm::traces::SimpleFixedTraceDecoder", "decoder")], ("decoder::InstDecoder",)),
    ("memoized block decoder", "machine::asm::traces::MemoizedFixedTraceDecoder", [("machine::asm::traces::MemoizedFixedTraceDecoder", "inner"), ("machine::asm::traces::SimpleFixedTraceDecoder", "decoder")], ("decoder::InstDecoder",)),
    ("continuation block decoder", "machine::asm::traces::MemoizedDynamicTraceDecoder", [("machine::asm::traces::MemoizedDynamicTraceDecoder", "inner"), ("machine::asm::traces::SimpleFixedTraceDecoder", "decoder")], ("decoder::InstDecoder",)),
]
CHECKED = {"store8", "store16", "store32", "store64", "store_bytes", "store_byte", "execute_load16", "execute_load32", "init_pages"}


def jobs(p):
    out = []
    for layer, ty, spec, traits in LAYERS:
        for (tr, nm), lst in sorted(p.impl_methods.items()):
            if tr in traits and any(re.sub(r"<.*", "", s) == ty for s, f in lst):
                out.append((layer, ty, spec, tr, nm))
    return out


# ---- the machines at the bottom: accessors read and write the state they name
NEWV = V("newv", 64)
ACCESS = [
    ("pc", (), {}, "pc"), ("update_pc", (NEWV,), {"next_pc": NEWV}, None), ("commit_pc", (), {"pc": "next_pc"}, None),
    ("isa", (), {}, "isa"), ("version", (), {}, "version"), ("cycles", (), {}, "cycles"), ("set_cycles", (NEWV,), {"cycles": NEWV}, None),
    ("max_cycles", (), {}, "max_cycles"), ("set_max_cycles", (NEWV,), {"max_cycles": NEWV}, None),
    ("running", (), {}, "running"), ("set_running", (V("b", 1),), {"running": V("b", 1)}, None), ("reset_signal", (), {"reset_signal": K(0, 64)}, "reset_signal"),
    ("registers", (), {}, "registers"), ("set_register", (V("ri", 64), NEWV), {}, None),
]


class AVal(equiv.Val):
    def __init__(self, rng):
        super().__init__(rng.getrandbits(32), equiv.Draw(random.Random(rng.getrandbits(64))),
                         {"ri": rng.randrange(32), "probe": rng.randrange(32), "running": rng.getrandbits(1), "reset_signal": rng.getrandbits(1)})
        if rng.getrandbits(1):
            self.vars["ri"] = self.vars["probe"]


def access(ctx, p, asm, m, path=None):
    nm, args, eff, ret = m
    name = "%s::%s" % ("assembly machine" if path else "assembly core machine" if asm else "core machine", nm)
    try:
        h = Host(p, asm, 0, 4)
        st = h.start()
        x = h.executor()
        root, pth = h.dm[0], h.dm[1] + (("f", h.ix(DMT, "inner")),)
        inner = x.load(st, root, pth)
        me = Ref(root, pth)
        tr = next(t for t in ("machine::CoreMachine", "machine::SupportMachine") if (t, nm) in p.impl_methods)
        ty = "alloc::boxed::Box" if asm else "machine::DefaultCoreMachine"
        g = p.fn(path) if path else next((f for s, f in p.impl_methods[(tr, nm)] if s.startswith(ty)), None)
        if g is None:
            return ctx.und(name, "not found")
        if path:
            me = h.me()
        r, pth = h.corepath("isa")
        before = dict(h.fields(x, st), isa=x.term(st, x.load(st, *h.corepath("isa")), 8), version=x.term(st, x.load(st, *h.corepath("version")), 32))
        rv = x.run_body(st, g, [me] + list(args))
        after = dict(h.fields(x, st), isa=x.term(st, x.load(st, *h.corepath("isa")), 8), version=x.term(st, x.load(st, *h.corepath("version")), 32))
        obs = []
        truth = lambda v: bnot(eq(v, K(0, v.w)))
        for n, b in before.items():
            a = after[n]
            if n == "regs":
                w = rr(b, PROBE)
                if nm == "set_register":
                    w = ite(eq(zext(PROBE, 64), V("ri", 64)), NEWV, w)
                obs.append(("registers", rr(a, PROBE), w))
                continue
            if n in eff:
                v = eff[n]
                v = before[v] if isinstance(v, str) else v
                if v.w != a.w:
                    obs.append((n, truth(a), truth(v)))
                    continue
                b = v
            obs.append((n, a, b))
        if ret == "registers":
            v = rv
            while isinstance(v, Ref):
                w = x.load(st, v.root, tuple(v.path) + (("i", V("ri", 64)),)) if not isinstance(x.load(st, v.root, v.path), Ref) else x.load(st, v.root, v.path)
                v = w
            obs.append(("value", x.term(st, v, 64), rr(before["regs"], ex(4, 0, V("ri", 64)))))
        elif ret:
            v = rv
            while isinstance(v, Ref):
                v = x.load(st, v.root, v.path)
            w = before[ret]
            v = x.term(st, v)
            obs.append(("value", v, w) if v.w == w.w else ("value", truth(v), truth(w)))
        obs.append(("panic", st.panic, FALSE))
        dom = TRUE
        for n in ("running", "reset_signal"):
            if before[n].w > 1:
                dom = band(dom, ult(before[n], K(2, before[n].w)))
        decide(ctx, name, where_of(p, g["path"]), obs, band(bnot(st.cut), ult(V("ri", 64), K(32, 64)), dom), 400, AVal)
    except Unsupported as e:
        ctx.und(name, str(e)[:200])


# ---- inherent methods that pass on
def inherent(ctx, p, layer, path, spec, target, trials):
    name = "%s::%s" % (layer, path.rsplit("::", 1)[-1])
    g, t = p.fn(path), p.fn(target)
    if g is None or t is None:
        return ctx.und(name, "not found")
    try:
        h = Wrap(p)
        st = St()
        st.env[TOK] = V("tok", 64)
        nm = target.rsplit("::", 1)[-1]

        def hook(x, st, a, i, f, tt):
            if not h.is_inner(x, st, a[0]):
                return NotImplemented
            k = h.token(st, nm, args_of(x, st, a[1:]), False)
            return h.value(x, st, t["crate"].ty(t["locals"][0]), t["crate"], k)
        x = h.executor({target: hook})
        me = make_self(h, st, spec)
        cr = g["crate"]
        args = [symbol(x, st, cr.ty(g["locals"][k]), cr, "a%d" % k) for k in range(2, g["argc"] + 1)]
        known = args_of(x, st, args)
        rv = x.run_body(st, g, [me] + args)
        code, pay, val = outcome(h, x, st, rv, cr.ty(g["locals"][0]))
        s2 = St()
        s2.env[TOK] = V("tok", 64)
        k = h.token(s2, nm, known, False)
        want = h.value(x, s2, t["crate"].ty(t["locals"][0]), t["crate"], k)
        for n, v in s2.env.items():
            st.env.setdefault(n, v)
        wc, wp, wv = outcome(h, x, st, want, t["crate"].ty(t["locals"][0]))
        decide(ctx, name, where_of(p, path), [("calls of the wrapped object", st.env[TOK], s2.env[TOK]), ("result", code, wc), ("error", pay, wp), ("value", val, wv),
                                              ("panic", st.panic, FALSE)], bnot(st.cut), trials, WXVal)
    except Unsupported as e:
        ctx.und(name, str(e)[:200])


INHERENT = [
    (l, "%s::%s" % (ty, m), spec, "machine::DefaultMachine::<Inner>::" + m)
    for l, ty, spec in (("trace machine", "machine::trace::TraceMachine::<Inner>", [("machine::trace::TraceMachine", "machine")]),
                        ("assembly machine", "machine::asm::AsmMachine", [("machine::asm::AsmMachine", "machine")]))
    for m in ("load_program", "load_program_with_metadata")]


def ecalls(p):
    T = [("machine::trace::TraceMachine", "machine")]
    return [("trace machine", T, "machine::Machine", m) for m in ("ecall", "ebreak")]
