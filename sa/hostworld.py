"""Host-side loops over a value graph: calls that leave the analysed code (instruction execution, decoders, system
calls, the assembly engine) are opaque events that consume the whole machine state and produce a new one; a reference
loop written with the same events must leave the same result, event history and fields."""
import panics
import random

import equiv
import memworld
from memworld import Dispatch
from mirexec import *
from terms import *

TOK, PAUSEB = ("O", "tok"), ("O", "pauseb")
DM = ("O", "dm")
ACM = ("O", "acm")
EVERR = 200      # pseudo error variant: "the error the event returned"
PROBE = V("probe", 5)
CORE_F = {"pc": 64, "next_pc": 64, "reset_signal": 1, "cycles": 64, "max_cycles": 64, "running": 1}
ASM_F = {"pc": 64, "next_pc": 64, "running": 8, "cycles": 64, "max_cycles": 64, "load_reservation_address": 64,
         "reset_signal": 8, "error_arg0": 64, "last_read_frame": 64, "last_write_page": 64}
# machines of 64-bit registers
CONSTS = {("instructions::register::Register", "BITS"): 64}
DMT = "machine::DefaultMachine"


class HVal(equiv.Val):
    """random interpretation that meets small codes, close counters and set requests"""

    def __init__(self, rng):
        base = rng.getrandbits(rng.choice((3, 12, 64)))
        near = lambda: (base + rng.randrange(-3, 4)) & mask(64)
        fixed = {"cycles": near(), "max_cycles": rng.choice((near(), near(), mask(64), rng.getrandbits(64))),
                 "pauseb": rng.choice((0, 0, 1, 255)), "version": rng.randrange(4), "isa": rng.choice((0, 1, 2, 3, 6, 7)),
                 "running": rng.randrange(2), "reset_signal": rng.choice((0, 1)), "exit_code": rng.getrandbits(8)}
        self.base = base
        super().__init__(rng.getrandbits(32), equiv.Draw(random.Random(rng.getrandbits(64))), fixed)

    def ufval(self, name, args, w):
        v = super().ufval(name, args, w)
        h = super().ufval(name + "#", args, 32)
        if name == "ret":
            return (v & 15) if h & 3 else v
        if name == "cyclefn":
            return v % 7 if h & 3 else (mask(64) - v % 9 if h & 4 else v)
        if w == 64 and name.startswith("f:") and name[2:] in ("cycles", "max_cycles"):
            return (self.base + v % 9 - 4) & mask(64) if h & 3 else v
        if name in ("f:running",):
            return int(h % 3 != 0) if w == 1 else (int(h % 3 != 0) if h & 12 else v)
        if name in ("f:reset_signal", "pb"):
            return int(h % 3 == 0) & mask(w)
        if name == "f:reg17":
            return 93 if h & 1 else v
        if name == "handled":
            return h & 1
        return v

    def reg0(self, name, i):
        if i == 17 and self.seed & 1:
            return 93
        return super().reg0(name, i)


class Fields:
    """the mutable state an event may read and write"""

    def __init__(self, asm):
        self.asm = asm
        self.w = ASM_F if asm else CORE_F


def havoc(fields, tok, widths):
    out = {}
    for n, w in widths.items():
        out[n] = uf("f:" + n, w, tok)
    regs = fields["regs"]
    for i in (PROBE, K(10, 5), K(17, 5), K(2, 5)):
        nm = "f:reg%d" % kv(i) if isk(i) else "f:regp"
        regs = rw(regs, i, uf(nm, 64, tok))
    out["regs"] = regs
    return out


def digest(fields, widths):
    return [fields[n] for n in sorted(widths)] + [rr(fields["regs"], i) for i in (PROBE, K(10, 5), K(17, 5), K(2, 5))]


def event(fields, tok, name, args, widths, clobber):
    """-> (fields', tok')"""
    t = uf("ev:" + name, 64, tok, *(list(args) + digest(fields, widths)))
    if clobber:
        fields = dict(fields)
        fields.update(havoc(fields, t, widths))
    return fields, t


class Host:
    """set-up of machines and hooks for the MIR executor"""

    def __init__(self, p, asm=False, handlers=2, unroll=2):
        self.p, self.asm = p, asm
        self.rets = []
        self.codes = {v["name"]: i for i, v in enumerate(p.adt("error::Error")["variants"])}
        self.widths = ASM_F if asm else CORE_F
        self.disp = Dispatch(p)
        self.nh = handlers
        self.unroll = unroll
        self.dm = (DM, ())
        self.acm = "asm::AsmCoreMachine" if "asm::AsmCoreMachine" in p.vm.adts else "ckb_vm_definitions::asm::AsmCoreMachine"

    # ---- state
    def agg(self, adt, vals, missing=None):
        out = []
        for f in self.p.adt(adt)["variants"][0]["fields"]:
            n = f["name"]
            if n in vals:
                out.append(vals[n])
            elif missing:
                out.append(missing(n))
            else:
                raise Unsupported("%s has an unknown field %s" % (adt, n))
        return Agg(out, adt)

    def ix(self, adt, n):
        for i, f in enumerate(self.p.adt(adt)["variants"][0]["fields"]):
            if f["name"] == n:
                return i
        raise Unsupported("no field " + n)

    def start(self):
        st = St()
        vals = {n: V(n, w) for n, w in self.widths.items()}
        vals.update({"isa": V("isa", 8), "version": V("version", 32), "registers": arr_var("regs")})
        if self.asm:
            st.env[ACM] = self.agg(self.acm, vals, lambda n: V("acm_" + n, 8 if n in ("chaos_mode",) else 32 if n == "chaos_seed" else 64))
            inner = Ref(ACM)
        else:
            st.env[("O", "memory")] = Opq("memory")
            vals["memory"] = Opq("memory")
            inner = self.agg("machine::DefaultCoreMachine", vals)
        dm = self.agg(DMT, {
            "inner": inner, "pause": Agg((Opq("pausearc"),), "machine::Pause"), "instruction_cycle_func": Opq("cyclefn"),
            "debugger": En(zext(V("hasdebugger", 1), 64), {0: (), 1: (Opq("debugger"),)}, OPT),
            "syscalls": Agg([Opq("handler%d" % i) for i in range(self.nh)], "Vec"), "exit_code": V("exit_code", 8)})
        if self.asm:
            AM = "machine::asm::AsmMachine"
            st.env[("O", "am")] = self.agg(AM, {"machine": dm})
            self.dm = (("O", "am"), (("f", self.ix(AM, "machine")),))
        else:
            st.env[DM] = dm
        st.env[TOK] = V("tok", 64)
        st.env[PAUSEB] = V("pauseb", 8)
        st.env[("O", "decoder")] = Opq("decoder")
        return st

    def me(self, default=False):
        """self argument: the assembly machine, or the default machine"""
        return Ref(("O", "am")) if self.asm and not default else Ref(self.dm[0], self.dm[1])

    def corepath(self, n):
        if self.asm:
            return ACM, (("f", self.ix(self.acm, n)),)
        return self.dm[0], self.dm[1] + (("f", self.ix(DMT, "inner")), ("f", self.ix("machine::DefaultCoreMachine", n)))

    def fields(self, x, st):
        d = {}
        for n, w in self.widths.items():
            r, pth = self.corepath(n)
            d[n] = x.term(st, x.load(st, r, pth), w)
        r, pth = self.corepath("registers")
        regs = x.load(st, r, pth)
        if isinstance(regs, Agg) and len(regs.f) == 32:
            v = arr_var("regs")
            for i, c in enumerate(regs.f):
                v = rw(v, K(i, 5), x.term(st, c, 64))
            regs = v
        d["regs"] = regs
        return d

    def setfields(self, x, st, d):
        for n in self.widths:
            r, pth = self.corepath(n)
            x.store(st, r, pth, d[n])
        r, pth = self.corepath("registers")
        x.store(st, r, pth, d["regs"])

    def exit_code(self, x, st):
        return x.term(st, x.load(st, self.dm[0], self.dm[1] + (("f", self.ix(DMT, "exit_code")),)), 8)

    # ---- events
    def fire(self, x, st, name, args, clobber):
        f, t = event(self.fields(x, st), st.env[TOK], name, args, self.widths, clobber)
        if clobber:
            self.setfields(x, st, f)
            st.env[PAUSEB] = uf("pb", 8, t)
        st.env[TOK] = t
        return t

    def res(self, t, v=UNIT, at=None):
        """the outcome of an event; `at`: the address something was decoded at"""
        ok = uf("ok", 1, t) if at is None else panics.low(at, uf("ok", 1, t))
        return En(zext(bnot(ok), 64), {0: (v,), 1: (En(EVERR, {EVERR: (uf("err", 64, t),)}, "error::Error"),)}, RES)

    def opq(self, x, st, v):
        """the opaque object a receiver names, through references"""
        n = 0
        while isinstance(v, Ref) and n < 8:
            v = x.load(st, v.root, v.path)
            n += 1
        return self.oname(v)

    @staticmethod
    def oname(v):
        """name of an opaque object, through the fields of the box holding it"""
        n = v.n if isinstance(v, Opq) else None
        while isinstance(n, tuple) and n and n[0] in ("f", "*"):
            n = n[1]
        return n

    def hooks(self):
        H = {}
        T64 = lambda x, st, v: x.term(st, v, 64)

        def decode(x, st, a, i, f, t):
            if self.opq(x, st, a[0]) != "decoder":
                return NotImplemented
            ad = T64(x, st, a[2])
            e = self.fire(x, st, "decode", [ad], False)
            return self.res(e, uf("inst", 64, e), ad)
        H["decoder::InstDecoder::decode"] = decode

        def simple(name, clobber, args=lambda x, st, a: [], rcv="decoder", val=None):
            def h(x, st, a, i, f, t):
                if rcv is not None and self.opq(x, st, a[0]) != rcv:
                    return NotImplemented
                e = self.fire(x, st, name, args(x, st, a), clobber)
                return self.res(e, val(e) if val else UNIT)
            return h
        H["decoder::InstDecoder::reset_instructions_cache"] = simple("reset_cache", False)
        TD = "machine::asm::traces::TraceDecoder::"
        H[TD + "reset"] = simple("reset_cache", False)
        H[TD + "prepare_traces"] = simple("prepare", True)
        H[TD + "fixed_trace_size"] = lambda x, st, a, i, f, t: V("trace_size", 64) if self.opq(x, st, a[0]) == "decoder" else NotImplemented
        H[TD + "fixed_traces"] = lambda x, st, a, i, f, t: V("traces_ptr", 64) if self.opq(x, st, a[0]) == "decoder" else NotImplemented
        ex1 = simple("execute", True, lambda x, st, a: [T64(x, st, a[0])], None)
        H["instructions::execute::execute"] = ex1
        H["instructions::execute::execute_instruction"] = ex1
        H["instructions::execute::execute_with_thread"] = lambda x, st, a, i, f, t: simple(
            "execute", True, lambda x, st, a: [T64(x, st, a[0])], None)(x, st, a, i, f, t)

        def block(x, st, a, i, f, t):
            lim = a[2]
            lim = ite(eq(lim.vidx, K(1, 64)), T64(x, st, lim.v[1][0]) if lim.v.get(1) else K(0, 64), K(mask(64), 64)) if isinstance(lim, En) else T64(x, st, lim)
            e = self.fire(x, st, "decode_block", [lim], False)
            return self.res(e, Agg([Opq("trace"), uf("count", 64, e)], "tuple"))
        H["machine::asm::traces::decode_fixed_trace"] = block
        H["debugger::Debugger::ebreak"] = simple("debugger", True, rcv="debugger")

        def sysecall(x, st, a, i, f, t):
            def one(st, v):
                n = 0
                while isinstance(v, Ref) and n < 8:
                    v = x.load(st, v.root, v.path)
                    n += 1
                if isinstance(v, Mux):
                    s1, s2 = st.copy(), st.copy()
                    r1, r2 = one(s1, v.a), one(s2, v.b)
                    st.become(merge_states(v.c, s1, s2))
                    return merge(v.c, r1, r2)
                n = self.oname(v)
                if not str(n).startswith("handler"):
                    raise Unsupported("system call handler %r" % (v,))
                e = self.fire(x, st, "sys", [K(int(n[7:]), 8)], True)
                return self.res(e, uf("handled", 1, e))
            return one(st, a[0])
        H["syscalls::Syscalls::ecall"] = sysecall

        def call(x, st, a, i, f, t):
            o = self.opq(x, st, a[0])
            if o != "cyclefn":
                return NotImplemented
            v = a[1]
            v = v.f[0] if isinstance(v, Agg) else v
            return uf("cyclefn", 64, T64(x, st, v))
        for n in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once"):
            H["core::ops::function::" + n] = call

        def deref(x, st, a, i, f, t):
            o = self.opq(x, st, a[0])
            if o == "pausearc":
                return Ref(PAUSEB)
            return NotImplemented
        H["core::ops::deref::Deref::deref"] = deref
        AT = "core::sync::atomic::"

        def at(x, st, v):
            o = self.opq(x, st, v)
            if o == "pausearc":
                return Ref(PAUSEB)
            return v

        def unknown_first(x, st, a, i, f, t):
            p = (i.get("res") or i)["path"]
            nm = p.rsplit("::", 1)[-1]
            if p.startswith(AT) and nm in ("load", "store", "swap", "fetch_and", "fetch_or", "as_ptr"):
                r = at(x, st, a[0])
                if not isinstance(r, Ref) or r.root != PAUSEB:
                    return NotImplemented
                old = st.env[PAUSEB]
                if nm == "store":
                    st.env[PAUSEB] = x.term(st, a[1], 8)
                    return UNIT
                if nm == "swap":
                    st.env[PAUSEB] = x.term(st, a[1], 8)
                    return old
                if nm == "fetch_and":
                    st.env[PAUSEB] = band(old, x.term(st, a[1], 8))
                    return old
                if nm == "fetch_or":
                    st.env[PAUSEB] = bor(old, x.term(st, a[1], 8))
                    return old
                if nm == "as_ptr":
                    return r
                return old
            if nm in ("ckb_vm_x64_execute", "ckb_vm_aarch64_execute") or nm.startswith("ckb_vm_") and nm.endswith("_execute"):
                m = memworld.follow(x, st, a[0])
                if not (isinstance(m, Ref) and m.root == ACM):
                    raise Unsupported("engine started on %r" % (m,))
                d = a[1]
                n = 0
                while isinstance(d, Ref) and n < 6:
                    d = x.load(st, d.root, d.path)
                    n += 1
                args = []
                for v in d.f:
                    if isinstance(v, Ref) and v.root == PAUSEB:
                        args.append(K(1, 64))
                    elif isinstance(v, Ref):
                        args.append(K(2, 64))
                    else:
                        args.append(T64(x, st, v))
                e = self.fire(x, st, "engine", args, True)
                return uf("ret", 8, e)
            return memworld.unknown(x, st, a, i, f, t)
        H["unknown_first"] = unknown_first
        H["deref_term"] = memworld.deref_term
        return H

    def executor(self, hooks=None):
        h = self.hooks()
        h.update(hooks or {})
        return Exec(self.p, hooks=h, unroll=self.unroll, consts=getattr(self, "consts", CONSTS), method_select=self.disp, max_blocks=400000)

    # ---- results
    def result(self, x, st, rv, val=None):
        """(code, payload, value): code 255 = Ok, else the error variant"""
        if isinstance(rv, Mux):
            a, b = self.result(x, st, rv.a, val), self.result(x, st, rv.b, val)
            return tuple(ite(rv.c, p, q) for p, q in zip(a, b))
        if not isinstance(rv, En):
            raise Unsupported("result %r" % (rv,))
        ok = eq(rv.vidx, K(0, 64))
        e = rv.v.get(1, (UNDEF,))[0]

        def pay(e):
            if isinstance(e, Mux):
                a, b = pay(e.a), pay(e.b)
                return tuple(ite(e.c, p, q) for p, q in zip(a, b))
            if not isinstance(e, En):
                return K(254, 64), K(0, 64)
            p = K(0, 64)
            for k, v in e.v.items():
                if v and isinstance(v[0], T):
                    p = ite(eq(e.vidx, K(k, 64)), zext(v[0], 64), p)
            return e.vidx, p
        ec, ep = (K(255, 64), K(0, 64)) if e is UNDEF else pay(e)
        v = rv.v.get(0, (UNDEF,))[0]
        val = zext(v, 64) if isinstance(v, T) else K(0, 64)
        return ite(ok, K(255, 64), ec), ite(ok, K(0, 64), ep), ite(ok, val, K(0, 64))


class Ref_:
    """reference loops: a guarded state with early return"""

    def __init__(self, h):
        self.h = h
        self.f = {n: V(n, w) for n, w in h.widths.items()}
        self.f["regs"] = arr_var("regs")
        self.tok, self.pb, self.exit = V("tok", 64), V("pauseb", 8), V("exit_code", 8)
        self.alive, self.done, self.more = TRUE, FALSE, {}
        self.code, self.pay, self.val = K(0, 64), K(0, 64), K(0, 64)

    def copy(self):
        o = Ref_.__new__(Ref_)
        o.__dict__.update(self.__dict__)
        o.f = dict(self.f)
        return o

    def when(self, c, fn, other=None):
        """run fn on the states in which c holds (and other elsewhere)"""
        a, b = self.copy(), self.copy()
        fn(a)
        if other:
            other(b)
        for n in self.f:
            self.f[n] = (aite if n == "regs" else ite)(c, a.f[n], b.f[n])
        for n in ("tok", "pb", "exit", "alive", "code", "pay", "val", "done"):
            setattr(self, n, ite(c, getattr(a, n), getattr(b, n)))
        if a.more or b.more:
            ks = set(a.more) | set(b.more)
            self.more = {k: merge(c, a.more.get(k, UNDEF), b.more.get(k, UNDEF)) for k in ks}

    def live(self, fn):
        """fn where the function has not returned yet"""
        self.when(self.alive, fn)

    def ret(self, code, pay=K(0, 64), val=K(0, 64)):
        self.alive = FALSE
        self.code, self.pay, self.val = code if isinstance(code, T) else K(code, 64), pay, val

    def ok(self, val=K(0, 64)):
        self.ret(255, K(0, 64), val)

    def err(self, name, pay=K(0, 64)):
        self.ret(self.h.codes[name], pay)

    def ev(self, name, args=(), clobber=False, fallible=True):
        self.f, self.tok = event(self.f, self.tok, name, list(args), self.h.widths, clobber)
        if clobber:
            self.pb = uf("pb", 8, self.tok)
        t = self.tok
        if fallible:
            self.when(bnot(uf("ok", 1, t)), lambda s: s.ret(EVERR, uf("err", 64, t)))
        return t

    def reg(self, i):
        return rr(self.f["regs"], K(i, 5))


def judge(ctx, h, name, where, x, st, rv, ref, groups, trials, extra=(), under=TRUE, interp=HVal):
    """groups: {group: condition or (condition, names of the observables)}: the outcome must agree wherever it holds"""
    code, pay, val = h.result(x, st, rv)
    f = h.fields(x, st)
    obs = [("result", code, ref.code), ("error payload", pay, ref.pay), ("value", val, ref.val), ("event history", st.env[TOK], ref.tok),
           ("pause request", st.env[PAUSEB], ref.pb), ("exit code", h.exit_code(x, st), ref.exit)]
    obs += [(n, f[n], ref.f[n]) for n in h.widths] + [("registers", rr(f["regs"], PROBE), rr(ref.f["regs"], PROBE))]
    obs += list(extra)
    under = band(under, bnot(st.cut), bnot(ref.alive))
    if panics.ON:       # the generic element of a counted pass
        under = band(under, getattr(h, "gdom", TRUE))
    isp = lambda c: eq(c, K(h.codes["Pause"], 64))
    obs.append(("pause reported", isp(code), isp(ref.code)))
    obs.append(("success reported", eq(code, K(255, 64)), eq(ref.code, K(255, 64))))
    for g, c in groups.items():
        names = None
        if isinstance(c, tuple):
            c, names = c
        u = band(under, c)
        todo = [o for o in obs if names is None or any(o[0].startswith(n) for n in names)]
        decide(ctx, "%s/%s" % (name, g) if g else name, where, todo, u, trials, interp)


def decide(ctx, name, where, obs, under, trials, val=HVal):
    rest = []
    if panics.ON:
        obs = panics.take()
    for n, a, b in obs:
        key = "%s/%s" % (name, n)
        if a is b or under is FALSE:
            ctx.ok(key, "identical normal form")
            continue
        try:
            dd = equiv.DD()
            ps = set()
            dd.pairs(dd.build(under), dd.build(a), dd.build(b), ps, set())
            if all(s is t for s, t in ps):
                ctx.ok(key, "decision diagram")
                continue
        except (OverflowError, RecursionError):
            pass
        rest.append((key, n, a, b))
    if not rest:
        return
    rng = random.Random(repr((ctx.seed, name)))
    bad, held = {}, 0
    if panics.ON:
        val = equiv.directed(val, [r[2] for r in rest], True, .7)
    elif getattr(val, "DIRECTED", True):
        val = equiv.directed(val, [y for r in rest for y in r[2:4]] + [under])
    for _ in range(trials * 20):
        if held >= trials:
            break
        v = val(random.Random(rng.getrandbits(64)))
        if not v.ev(under):
            continue
        held += 1
        for key, n, a, b in rest:
            if key in bad:
                continue
            p, q = v.ev(a), v.ev(b)
            if p != q:
                bad[key] = (dict(v.vars), p, q)
                if panics.ON:
                    where += "; fails: " + ", ".join(panics.blame(v))
    for key, n, a, b in rest:
        if key in bad:
            asg, p, q = bad[key]
            ctx.bad(key, where, "%s: %s is %s, required %s; e.g. for %s" % (
                name, n, equiv.hexval(p), equiv.hexval(q), {m: hex(z) for m, z in sorted(asg.items())[:14] if isinstance(z, int)}),
                {"assignment": {m: str(z) for m, z in asg.items()}})
        elif held < 20:
            ctx.und(key, "condition met by only %d interpretations" % held)
        else:
            ctx.ok(key, "random interpretation only")
