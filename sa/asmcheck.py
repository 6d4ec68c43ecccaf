"""Handlers of an assembly engine against the reference instruction effects and the engine's own invariants."""
import os
from facts import Program, REPO
from asmcore import *
from mirexec import Unsupported
from terms import *
import terms as TM
import equiv
import spec
from spec import S
from world import World, opcodes

NEXT, PREP, RET = "next", "prep", "ret"
CODES = ("DECODE_TRACE", "ECALL", "EBREAK", "DYNAMIC_JUMP", "MAX_CYCLES_EXCEEDED", "CYCLES_OVERFLOW", "OUT_OF_BOUND",
         "INVALID_PERMISSION", "SLOWPATH", "PAUSE")


def sel(arr, q):
    """byte at q of a byte array"""
    if arr.op == "mst":
        n = arr.a[1]
        if n != 1:
            raise Unsupported("wide store in a byte table")
        return ite(eq(arr.a[2], q), arr.a[3], sel(arr.a[0], q))
    if arr.op == "aite":
        return ite(arr.a[0], sel(arr.a[1], q), sel(arr.a[2], q))
    return TM.mld(arr, 1, q)


def flat_loads(t):
    """loads from byte tables that were written on the way become choices over the written entries"""
    memo = {}

    def f(x):
        if x.op == "mld" and x.a[1] == 1 and x.a[0].op in ("mst", "aite"):
            base = x.a[0]
            while base.op in ("mst", "aite"):
                base = base.a[0] if base.op == "mst" else base.a[1]
            if base.op == "av" and base.a[0] in ("flags", "frames", "init"):
                return flat_loads(sel(x.a[0], x.a[2]))
        return None
    return TM.rebuild(t, f, memo)


class AS(S):
    """reference state whose accesses fail the way the assembly engine's memory does"""

    def __init__(self, eng, *a):
        super().__init__(*a)
        self.eng = eng
        self.addrs = []
        self.writeonly = False
        self.plainload = False
        self.stores = []

    def fail(self, c, code, addr=None):
        if code == spec.E_OOB:
            code = self.eng.code["OUT_OF_BOUND"]
        super().fail(c, code, addr)

    def load(self, n, a):
        g = self.eng
        self.addrs.append(a)
        if self.writeonly:
            return mld(self.mem, n, a)
        e = add(a, K(n, 64))
        lo = ult(a, g.MSZ)
        self.fail(bnot(lo), g.code["OUT_OF_BOUND"], a)
        self.fail(ult(g.MSZ, e), g.code["OUT_OF_BOUND"], e)
        return mld(self.mem, n, a)

    def store(self, n, a, v):
        g = self.eng
        self.addrs.append(a)
        p1 = lshr_c(a, 12)
        e = add(a, K(n, 64))
        p2 = lshr_c(add(a, K(n - 1, 64)), 12)
        fl = lambda p: TM.mld(arr_var("flags"), 1, p)
        ro = lambda p: bnot(eq(ex(1, 1, fl(p)), K(0, 1)))
        self.fail(bnot(ult(p1, g.NPAGES)), g.code["OUT_OF_BOUND"], a)
        self.fail(ro(p1), g.code["INVALID_PERMISSION"], p1)
        x = ne(p1, p2)
        self.fail(band(x, bnot(ult(p2, g.NPAGES))), g.code["OUT_OF_BOUND"], e)
        self.fail(band(x, ro(p2)), g.code["INVALID_PERMISSION"], p2)
        self.mem = mst(self.mem, n, a, trunc(v, 8 * n))
        self.stores.append((p1, p2))


class Engine:
    def __init__(self, prog, ctx):
        self.p = prog
        self.ctx = ctx
        self.ops = opcodes(prog)
        self.lay = Layout(prog)
        self.w = World(prog)
        self.code = {}
        for n, c in prog.defs.consts.items():
            if "asm::RET_" in n and "bits" in c:
                self.code[n.split("RET_")[1]] = int(c["bits"])
        if any(k not in self.code for k in CODES):
            raise Unsupported("return codes")
        self.ended = self.block_ends()

    def observe(self, obs, under, addrs, seed, trials):
        return observe(obs, under, addrs, seed, trials, self)

    def prepare(self):
        self.INV = self.invariant()
        self.fresh0 = dict(self.fresh().fields)

    def block_ends(self):
        """opcodes after which decoding stops, from the repository's own predicate"""
        x = self.w.executor()
        st = self.w.fresh()
        out = {}
        for o, n in self.ops.items():
            wd = K((n & 0xff) | (n >> 8) << 16, 64)
            out[o] = x.run_fn(st, "instructions::is_basic_block_end_instruction", [wd]) is TRUE
        return out

    def invariant(self):
        lr, lw = self.LRF, self.LWP
        M = K(mask(64), 64)
        fr = lambda p: TM.mld(arr_var("frames"), 1, p)
        fl = TM.mld(arr_var("flags"), 1, lw)
        # a frame is in use exactly when its byte is 1
        r = bor(eq(lr, M), band(ult(lr, self.NFRAMES), ne(fr(lr), K(0, 8))))
        w = bor(eq(lw, M), band(ult(lw, self.NPAGES), eq(ex(1, 1, fl), K(0, 1)), ex(2, 2, fl), ne(fr(lshr_c(lw, 6)), K(0, 8))))
        return band(r, w)

    def post_invariant(self, s):
        lr, lw = s.fields["last_read_frame"], s.fields["last_write_page"]
        M = K(mask(64), 64)
        fl = sel(s.arr["flags"], lw)
        r = bor(eq(lr, M), band(ult(lr, self.NFRAMES), ne(sel(s.arr["frames"], lr), K(0, 8))))
        w = bor(eq(lw, M), band(ult(lw, self.NPAGES), eq(ex(1, 1, fl), K(0, 1)), ex(2, 2, fl),
                                ne(sel(s.arr["frames"], lshr_c(lw, 6)), K(0, 8))))
        return r, w

    def word(self, op):
        fm = spec.form(op)
        o = self.w.operands(op, fm)
        x = World(self.p).executor()
        st = self.w.fresh()
        wd = self.w.word(x, st, self.ops[op], op, fm, o)
        L = cat(V("l4", 4), K(0, 1))
        if op in ("AUIPC",):
            # not compressed, and fusion gives it another opcode
            L = K(4, 5)
        wd = x.term(st, x.run_fn(st, "instructions::set_instruction_length_n", [wd, zext(L, 8)]), 64)
        return wd, o, zext(L, 64)

    def fresh(self):
        s = AState()
        s.fields = {v[0]: V(v[0], 8 * v[1]) for o, v in self.lay.f["AsmCoreMachine"].items()
                    if o != "size" and v[1] and v[0] != "registers"}
        s.fields.update({"last_read_frame": self.LRF, "last_write_page": self.LWP, "memory_size": self.MSZ,
                         "frames_size": self.NFRAMES, "flags_size": self.NPAGES, "memory_ptr": self.MEMPTR,
                         "flags_ptr": self.FLAGSPTR, "frames_ptr": self.FRAMESPTR, "pc": V("pc", 64),
                         "load_reservation_address": V("lr", 64)})
        # versions in use are small numbers
        s.fields["version"] = zext(V("version", 8), s.fields["version"].w)
        s.arr = {"regs": arr_var("regs"), "mem": arr_var("mem"), "flags": arr_var("flags"), "frames": arr_var("frames"),
                 "init": arr_var("frames")}
        return s


def interleave(names, w=64):
    o = {n: [] for n, _ in names}
    k = 0
    for i in range(w):
        for n, (lo, hi) in names:
            if lo <= i < hi:
                o[n].append(k)
                k += 1
    return o


ORDER = interleave([("A", (0, 64)), ("last_read_frame", (0, 64)), ("last_write_page", (0, 64)), ("frames_size", (18, 18 + MSZ_BITS))])


def addr_order():
    """diagram order for address reasoning: bit i of the address, bit i of page/frame numbers shifted into place"""
    o = {"A": [], "last_read_frame": [], "last_write_page": [], "frames_size": []}
    k = 0
    slots = {}
    for i in range(64 + 18):
        for n, sh, w in (("A", 0, 64), ("last_read_frame", 18, 64), ("last_write_page", 12, 64), ("frames_size", 18, MSZ_BITS)):
            if sh <= i < sh + w:
                o[n].append(k)
                k += 1
    return o


AORDER = addr_order()


TABLES = {"flags": 8, "frames": 1, "init": 1}


from bdd import BDD, Blast


class TBlast(Blast):
    """bit-level diagrams with byte tables (page flags, frame marks) read at symbolic indices: reads of the same table
    are tied together by congruence, so the diagrams decide every question about them exactly"""

    def __init__(self, bdd, order):
        super().__init__(bdd, order)
        self.reads = {}
        self.opaque = {}

    def atom(self, t):
        if t not in self.atoms:
            self.opaque[self.next] = t
        return super().atom(t)

    def _bits(self, t):
        if t.op == "mld" and t.a[0].op == "av" and t.a[0].a[0] in TABLES and t.a[1] == 1:
            nm = t.a[0].a[0]
            ix = tuple(self.bits(t.a[2]))
            r = self.reads.get((nm, ix))
            if r is None:
                r = self.reads[nm, ix] = [self.b.v(self.next + i) for i in range(TABLES[nm])]
                self.next += TABLES[nm]
            return r + [0] * (8 - len(r))
        if t.op in ("eq", "ult") and not (self.small(t.a[0]) and self.small(t.a[1])):
            # comparisons of table bytes
            if t.a[0].w <= 8:
                x, y = self.bits(t.a[0]), self.bits(t.a[1])
                return [self.eqv(x, y) if t.op == "eq" else self.ultv(x, y)]
        return super()._bits(t)

    def small(self, t):
        if t.op == "mld" and t.a[0].op == "av" and t.a[0].a[0] in TABLES and t.a[1] == 1:
            return self.small(t.a[2])
        return super().small(t)

    def congruence(self, sup):
        b = self.b
        r = 1
        items = sorted(self.reads.items(), key=lambda kv: kv[1])
        for i, ((n1, x1), v1) in enumerate(items):
            for (n2, x2), v2 in items[:i]:
                if n1 != n2:
                    continue
                same = self.eqv(x1, x2)
                if same == 0:
                    continue
                e = 1
                for p, q in zip(v1, v2):
                    if b.var[p] in sup or b.var[q] in sup:
                        e = b.band(e, b.neg(b.bxor(p, q)))
                r = b.band(r, b.ite(same, e, 1))
        return r


def support(b, nodes):
    sup, st, seen = set(), list(nodes), set()
    while st:
        n = st.pop()
        if n < 2 or n in seen:
            continue
        seen.add(n)
        sup.add(b.var[n])
        st += [b.lo[n], b.hi[n]]
    return sup


class Decide:
    """decides facts over the abstract address, the cached frame/page numbers, the memory size and the two tables"""

    def __init__(self, order=None):
        self.order = order or AORDER
        self.b = BDD()
        self.bl = TBlast(self.b, self.order)

    def falsify(self, under, pairs):
        """-> None (equal under `under` for all values), ("differs", values) or ("open", reason)"""
        b, bl = self.b, self.bl
        try:
            u = bl.one(under)
            d = 0
            for x, y in pairs:
                for p, q in zip(bl.bits(x), bl.bits(y)):
                    d = b.bor(d, b.bxor(p, q))
            d = b.band(d, u)
            if d == 0:
                return None
            sup = support(b, [d])
            # reads whose index is compared belong together
            d = b.band(d, bl.congruence(sup))
            if d == 0:
                return None
            sup = support(b, [d])
            w = b.witness(d)
            asg = {n: sum(w.get(v, 0) << i for i, v in enumerate(vs)) for n, vs in self.order.items()}
            op = [bl.opaque[v] for v in sup if v in bl.opaque]
            if op:
                return ("open", asg, [show(t, 3) for t in op[:4]])
            for (nm, ix), vs in sorted(bl.reads.items(), key=lambda kv: kv[1]):
                asg["%s[%#x]" % (nm, self.evalix(ix, w))] = sum(w.get(b.var[v], 0) << i for i, v in enumerate(vs))
            return ("differs", asg, [])
        except (OverflowError, RecursionError) as e:
            return ("open", {}, [type(e).__name__])

    def evalix(self, ix, w):
        b = self.b
        r = 0
        for i, n in enumerate(ix):
            while n > 1:
                n = b.hi[n] if w.get(b.var[n], 0) else b.lo[n]
            r |= n << i
        return r


class X64Engine(Engine):
    source = "execute_x64.S"
    name = "x64"
    prop = "C04"

    def __init__(self, prog, ctx, defs=()):
        super().__init__(prog, ctx)
        import x64
        self.m = x64
        for n in ("MSZ", "NPAGES", "NFRAMES", "LRF", "LWP", "MEMPTR", "FLAGSPTR", "FRAMESPTR"):
            setattr(self, n, getattr(x64, n))
        self.codeobj = Code(preprocess(REPO, self.source, defs))
        self.windows = "_WIN32" in defs
        self.table()
        self.entrystack = None
        self.frame()
        self.prepare()
        self.settle()

    def lifter(self):
        l = self.m.X64(self.codeobj, self.lay)
        l.windows = self.windows
        return l

    def table(self):
        c = self.codeobj
        data = [d for d in c.data if d[1] in (".long", ".quad", ".4byte", ".int")]
        ent = []
        base = None
        for cur, d, a in data:
            for x in a.split(","):
                m = re.match(r"\s*([\w.$]+)\s*-\s*([\w.$]+)\s*$", x)
                if not m:
                    raise Unsupported("dispatch table entry " + x)
                ent.append(m.group(1))
                base = m.group(2)
        self.dispatch = ent
        self.tablebase = base

    def handler(self, op):
        n = self.ops[op] & 0xff
        if n >= len(self.dispatch):
            return None
        return self.codeobj.target(self.dispatch[n], 0)

    def frame(self):
        """entry sequence: what is saved where, and which registers carry which pointer from then on"""
        l = self.lifter()
        st = self.fresh()
        for r in self.m.R64:
            st.regs[r] = V("host_" + r, 64)
        st.regs["rsp"] = self.m.RSP0
        a1, a2 = l.args()
        st.regs[a1], st.regs[a2] = self.m.MACHINE, self.m.INVOKE
        e = None
        for n in ("ckb_vm_x64_execute", "_ckb_vm_x64_execute"):
            if n in self.codeobj.labels:
                e = self.codeobj.labels[n][0]
        if e is None:
            raise Unsupported("entry point")
        te = self.handler("CUSTOM_TRACE_END")
        outs = l.run(e, st, [te])
        if len(outs) != 1 or outs[0][0] != "label":
            raise Unsupported("entry sequence")
        s = outs[0][2]
        self.entry_state = s
        self.stack0 = dict(s.stack)
        # invariants of the dispatch loop: pointer registers set up by the entry sequence
        self.ptr = {}
        for r, v in s.regs.items():
            if v in (self.m.MACHINE, self.m.INVOKE, self.MSZ) or r == "rsp":
                self.ptr[r] = v
        return s

    def start(self, l, word):
        """state in which a handler is entered"""
        s = self.fresh()
        for r in self.m.R64:
            s.regs[r] = l.fresh(64)
        # registers holding host values and never touched stay what they were
        for r, v in self.entry_state.regs.items():
            if r in self.m.CALLEE and v is V("host_" + r, 64):
                s.regs[r] = v
        s.regs.update(self.ptr)
        s.stack = dict(self.stack0)
        s.regs["r8"], s.regs["r9"] = self.m.THREADS, self.m.ARGS
        s.regs["rbx"] = self.m.TRACE
        s.regs["rax"] = zext(ex(15, 8, word), 64)
        s.regs["rcx"] = ashr_c(word, 32)
        l.word = word
        return s

    def settle(self):
        """registers that carry a pointer from handler to handler: of the candidates left by the entry sequence those that
        handlers in general preserve"""
        votes = {}
        n = 0
        for op in self.ops:
            if spec.form(op) is None:
                continue
            try:
                o, L, fin, l = lift(self, op)
            except Unsupported:
                continue
            if NEXT not in fin:
                continue
            n += 1
            for r, v in self.ptr.items():
                votes[r] = votes.get(r, 0) + (fin[NEXT].regs[r] is v)
        self.ptr = {r: v for r, v in self.ptr.items() if votes.get(r, 0) * 2 > n}

    def next_ok(self, s, jump=None, threads=None, args=None, word=None):
        """NEXT leaves exactly the state in which the following handler expects to be entered"""
        nw = V("args+0", 64) if word is None else word
        jump = V("threads+0", 64) if jump is None else jump
        threads = self.m.THREADS if threads is None else threads
        args = self.m.ARGS if args is None else args
        out = [("jump target", s.regs["@jump"], jump), ("instruction pointer", s.regs["r8"], add(threads, K(16, 64))),
               ("argument pointer", s.regs["r9"], add(args, K(16, 64))), ("first operand", s.regs["rax"], zext(ex(15, 8, nw), 64)),
               ("other operands", s.regs["rcx"], ashr_c(nw, 32))]
        return out + self.keep_ok(s)

    def keep_ok(self, s):
        out = [("pointer in " + r, s.regs[r], v) for r, v in sorted(self.ptr.items())]
        out += [("saved registers", s.stack.get(k, K(0, 64)), v) for k, v in sorted(self.stack0.items())]
        pushed = set(self.stack0.values())
        for r in self.m.CALLEE:
            if V("host_" + r, 64) not in pushed and r != "rsp":
                out.append(("host register " + r, s.regs[r], V("host_" + r, 64)))
        return out

    def ret_ok(self, s):
        out = []
        for r in self.m.CALLEE + (("rsi", "rdi") if self.windows else ()):
            out.append(("host register " + r, s.regs[r], self.m.RSP0 if r == "rsp" else V("host_" + r, 64)))
        return out

    def prep_label(self):
        """where control continues after a taken branch: found as the join of the jump handlers"""
        return self.codeobj.target(".prepare_trace", 0)

    def retcode(self, s):
        return ex(7, 0, s.regs["rax"])


def lift(eng, op):
    """-> (word operands, length, finals by kind)"""
    wd, o, L = eng.word(op)
    l = eng.lifter()
    s = eng.start(l, wd)
    h = eng.handler(op)
    l.slow = h == eng.codeobj.target(".exit_slowpath", 0)
    stops = [eng.prep_label()]
    te = eng.handler("CUSTOM_TRACE_END")
    outs = l.run(h, s, [x for x in stops if x != h])
    r = {}
    for k, i, t in outs:
        k = PREP if k == "label" else k
        r[k] = merge(r[k], t) if k in r else t
    return o, L, r, l


# ------------------------------------------------------------------ one handler against its definition
class Abs:
    """replaces the effective address by the abstract address A and resolves table writes"""

    def __init__(self, base, imm):
        self.base = base
        self.to = sub(V("A", 64), imm) if base is not None else None
        self.memo = {}

    def __call__(self, t):
        t = flat_loads(t)
        if self.base is not None:
            t = TM.rebuild(t, lambda x: self.to if x is self.base else None, self.memo)
        return t


def reference(eng, op, o, L, writeonly=False):
    ended = eng.ended[op]
    npc = V("pc", 64)
    pc = sub(npc, L) if ended else V("pc_of_" + op, 64)
    s = AS(eng, arr_var("regs"), arr_var("mem"), pc, npc, V("lr", 64), eng.MSZ)
    s.writeonly = writeonly
    spec.step(op, o, s)
    return s


def flags_of(s, q):
    return sel(s.arr["flags"], q)


def values(asg):
    return {n: hex(v) for n, v in sorted(asg.items()) if not isinstance(v, str)}


def judge_op(ctx, eng, op, seed, trials, only=None):
    """only: restricts the groups of obligations that are reported (each property reports its own)"""
    want = lambda g: only is None or g in only
    o, L, fin, l = lift(eng, op)
    where = "%s: handler of %s (%s)" % (eng.source, op, ", ".join(eng.codeobj.names_at(eng.handler(op))[:1]))
    ref = reference(eng, op, o, L)
    rules = spec.operand_rules(op, o)
    addrs = list(dict.fromkeys(ref.addrs))
    base = rr(arr_var("regs"), o["rs1"]) if len(addrs) == 1 else None
    imm = o.get("imm", K(0, 64))
    if base is not None and addrs[0] is not add(base, imm):
        raise Unsupported("address of " + op)
    ab = Abs(base, imm)
    dec = Decide()
    inv = ab(eng.invariant())
    dec.b  # one diagram manager per handler
    Z8 = K(0, 8)
    code = Z8
    earg = K(0, 64)
    for k in (RET,):
        if k in fin:
            r = fin[k]
            code = ite(r.cond, eng.retcode(r), Z8)
            earg = ite(r.cond, r.fields["error_arg0"], K(0, 64))
    err, eaddr = ref.err, ref.eaddr
    slow = l.slow
    if ref.calls:
        err, eaddr = K(eng.code["ECALL" if ref.calls == 1 else "EBREAK"], 8), V("error_arg0", 64)
    if op == "UNLOADED":
        err, eaddr = K(eng.code["DECODE_TRACE"], 8), V("error_arg0", 64)
    if slow:
        err, eaddr = K(eng.code["SLOWPATH"], 8), V("error_arg0", 64)

    def decide(group, name, pairs, under, msg, quirk=None):
        if not want(group):
            return
        pairs = [(a, b) for a, b in pairs if a is not b]
        key = "%s/%s" % (op, name)
        if not pairs:
            ctx.ok(key, "identical normal form")
            return
        r = dec.falsify(ab(under), [(ab(a), ab(b)) for a, b in pairs])
        if r is None:
            ctx.ok(key, "decision diagram")
        elif r[0] == "differs":
            if quirk is not None and dec.falsify(ab(under), [(ab(a), ab(b)) for a, b in quirk[1]]) is None:
                # exactly the recorded deviation and nothing else
                key = "%s-%s" % (eng.name, quirk[0])
            ctx.bad(key, where, "%s: %s; for %s" % (op, msg, values(r[1])), {"assignment": values(r[1])})
        else:
            ctx.und(key, "%s (%s)" % (r[2], msg))

    # 1. which error, if any
    quirk = quirk2 = None
    if op.startswith(("AMO", "SC_")):
        q = reference(eng, op, o, L, writeonly=True)
        quirk = ("read-modify-write-permission-first", [(code, q.err)])
        quirk2 = (quirk[0], [(earg, q.eaddr)])
    elif op.endswith("VERSION0") and op[0] == "L":
        a, n = addrs[0], spec.LOADS[op[:-9]][0]
        e = add(a, K(n, 64))
        quirk2 = ("version-0-load-wrap-address", [(earg, ite(ult(a, eng.MSZ), e, a))])
    decide("effect", "error", [(code, err)], band(inv, rules), "returns another outcome than the definition", quirk)
    if want("effect"):
        bad = ne(err, Z8)
        decide("effect", "error argument", [(earg, eaddr)], band(inv, rules, bad, eq(code, err)),
               "reports another address or page than the definition", quirk2)
    # 2. state when the instruction succeeds
    alive = [fin[k] for k in (NEXT, PREP) if k in fin]
    if slow or ref.calls or op == "UNLOADED":
        alive = [fin[RET]] if RET in fin else []
        ref = AS(eng, arr_var("regs"), arr_var("mem"), V("p", 64), V("pc", 64), V("lr", 64), eng.MSZ)
        okc = TRUE
    else:
        okc = eq(err, Z8)
    if want("x0"):
        for k, s in fin.items():
            z = flat_loads(rr(s.arr["regs"], K(0, 5)))
            key = "%s/%s/x0" % (op, k)
            if z is K(0, 64):
                ctx.ok(key, "identical normal form")
                continue
            v = eng.observe([("x0", z, K(0, 64))], flat_loads(band(inv, s.cond, rules)), addrs, (seed, op, 9), trials)["x0"]
            if v.kind == "differs":
                _, asg, a, b, _ = v.detail
                ctx.bad(key, where, "%s leaves %s in x0; for %s" % (op, equiv.hexval(a), {
                    m: hex(x) for m, x in sorted(asg.items())[:10]}), {"assignment": {m: hex(x) for m, x in asg.items()}})
            else:
                ctx.ok(key, "decision diagram" if v.kind == "diagram" else "random interpretation only")
    if alive and (want("effect") or want("resv") or want("post")):
        s = alive[0]
        for t in alive[1:]:
            s = merge(s, t)
        obs = []
        if want("effect") or want("post"):
            p = V("probe", 5)
            obs += [("registers", rr(s.arr["regs"], p), rr(ref.regs, p)), ("memory", s.arr["mem"], ref.mem),
                    ("pc", s.fields["pc"], ref.npc), ("reservation", s.fields["load_reservation_address"], ref.lr)]
            for f in ("cycles", "max_cycles", "isa", "version", "flags_size", "frames_size", "memory_size", "memory_ptr",
                      "flags_ptr", "frames_ptr"):
                if f in s.fields:
                    obs.append((f, s.fields[f], eng.fresh0[f]))
        elif want("resv"):
            obs += [("reservation", s.fields["load_reservation_address"], ref.lr)]
        under = band(okc, s.cond, rules)
        obs = [(n, flat_loads(a), flat_loads(b)) for n, a, b in obs]
        ob2, un2 = obs, flat_loads(under)
        if len(addrs) == 1:
            # what the address is does not matter once it is known to be the same
            ob2 = [(n, ab(a), ab(b)) for n, a, b in obs]
            un2 = ab(under)
        vs = {}
        rest = []
        for n, a, b in ob2:
            if a is b:
                vs[n] = equiv.Verdict("normal")
            else:
                rest.append(n)
        if rest:
            full = [(n, a, b) for n, a, b in obs if n in rest]
            vs.update(eng.observe(full, flat_loads(under), addrs, (seed, op), trials))
        for n, v in vs.items():
            key = "%s/%s" % (op, n)
            if v.kind == "differs":
                _, asg, a, b, _ = v.detail
                ctx.bad(key, where, "%s: %s is %s, defined is %s; for %s" % (op, n, equiv.hexval(a), equiv.hexval(b), {
                    m: hex(x) for m, x in sorted(asg.items())[:10]}), {"assignment": {m: hex(x) for m, x in asg.items()}})
            else:
                ctx.ok(key, {"normal": "identical normal form", "diagram": "decision diagram",
                             "agreed": "random interpretation only"}[v.kind])
    # 3. hand-over to the next handler or back to the caller
    if want("frame"):
        for k, s in fin.items():
            tests = eng.next_ok(s) if k == NEXT else eng.ret_ok(s) if k == RET else eng.keep_ok(s)
            for n, a, b in tests:
                key = "%s/%s/%s" % (op, k, n)
                if a is b:
                    ctx.ok(key, "identical normal form")
                    continue
                v = eng.observe([(n, a, b)], band(inv, s.cond), addrs, (seed, op, 5), trials)[n]
                if v.kind == "differs":
                    ctx.bad(key, where, "%s: at the end of the handler (%s) the %s is wrong" % (op, k, n))
                else:
                    ctx.ok(key, "decision diagram" if v.kind == "diagram" else "random interpretation only")
    # 4. what every access needs
    seen = set()
    for k, s in fin.items():
        for what, c, need in s.acc:
            if (what, c.id, need.id) in seen:
                continue
            seen.add((what, c.id, need.id))
            g = group_of(what)
            if want(g):
                decide(g, what, [(need, TRUE)], band(inv, c), what + " - not ensured")
    # 5. invariants after the handler
    q = V("q", 64)
    for k, s in fin.items():
        under = band(inv, s.cond)
        r, w = eng.post_invariant(s)
        decide("cache", k + "/last read frame", [(r, TRUE)], under,
               "leaves last_read_frame naming a frame that is not initialised memory")
        decide("cache", k + "/last write page", [(w, TRUE)], under,
               "leaves last_write_page naming a page that is not writable, dirty and initialised")
        for a, b in (("frames", "init"),):
            if s.arr[a] is arr_var("frames") and s.arr[b] is arr_var("init"):
                continue
            pr = touched(s.arr[a]) | touched(s.arr[b])
            for n, t in enumerate(sorted(pr, key=lambda t: t.id)):
                decide("init", "%s/frame mark %d" % (k, n), [(ne(sel(s.arr[a], t), Z8), ne(sel(s.arr[b], t), Z8))], under,
                       "marks a frame as initialised without initialising it, or the other way round")
        if s.arr["flags"] is not arr_var("flags"):
            M = K(0xfb, 8)
            for n, t in enumerate(sorted(touched(s.arr["flags"]), key=lambda t: t.id)):
                decide("flags", "%s/flags %d" % (k, n),
                       [(band(sel(s.arr["flags"], t), M), band(TM.mld(arr_var("flags"), 1, t), M))], under,
                       "changes a page flag other than the dirty mark")
    return where


def touched(arr):
    out = set()
    st = [arr]
    while st:
        x = st.pop()
        if x.op == "mst":
            out.add(x.a[2])
            st.append(x.a[0])
        elif x.op == "aite":
            st += [x.a[1], x.a[2]]
    return out


GROUPS = (("inside guest memory", "bounds"), ("initialised frame", "init"), ("only once", "init"), ("writable page", "perm"),
          ("marked dirty", "dirty"), ("page flag index", "bounds"), ("frame index", "bounds"),
          ("register access inside", "layout"), ("access to a field", "layout"))


def group_of(what):
    for p, g in GROUPS:
        if p in what:
            return g
    return "frame"


class Probe(equiv.Val):
    """valuation in which addresses, cached numbers and tables are chosen to meet each other"""

    def __init__(self, seed, rng, assign, fixed, msz):
        super().__init__(seed, assign, fixed)
        self.rng = rng
        self.tab = {}

    def byte0(self, name, a):
        if name in ("frames", "init"):
            return self.tab.setdefault(("frames", a), self.rng.randrange(2))
        if name == "flags":
            return self.tab.setdefault((name, a), self.rng.choice((0, 2, 4, 6, 0, 4, 1, 5)))
        return super().byte0(name, a)


def observe(obs, under, addrs, seed, trials, eng):
    """equality of observables: diagrams over the path conditions first, then structured random interpretation"""
    import random
    out = {}
    rest = []
    obs, under = [(n, a, b) for n, a, b in obs], under
    for name, a, b in obs:
        if a is b:
            out[name] = equiv.Verdict("normal")
            continue
        try:
            dd = equiv.DD()
            ps = set()
            dd.pairs(dd.build(under), dd.build(a), dd.build(b), ps, set())
            if all(x is y for x, y in ps):
                out[name] = equiv.Verdict("diagram")
                continue
        except (OverflowError, RecursionError):
            pass
        rest.append((name, a, b))
    if not rest:
        return out
    if not addrs:
        out.update(equiv.compare(rest, under, seed=seed, trials=trials))
        return out
    rng = random.Random(repr(seed))
    held = 0
    for t in range(trials * 4):
        if held >= trials:
            break
        d = equiv.Draw(random.Random(rng.getrandbits(64)))
        fs = rng.choice((1, 2, 3, 16, 64, 1 << 14))
        msz = fs << 18
        A = rng.choice((rng.randrange(msz), rng.randrange(fs) << 18, rng.randrange(msz >> 12) << 12, 0, msz, msz >> 1))
        A = (A + rng.choice((0, 0, 0, 1, 2, 4, 7, 8, -1, -2, -4, -7, -8, -9))) & mask(64)
        fixed = {"frames_size": fs, "A": A, "probe": rng.randrange(32),
                 "last_read_frame": rng.choice((mask(64), A >> 18, (A + 8) >> 18)) if msz > 0 else 0,
                 "last_write_page": rng.choice((mask(64), A >> 12, (A + 8) >> 12))}
        v = Probe(rng.getrandbits(32), random.Random(rng.getrandbits(64)), d, fixed, msz)
        fx, fb = {}, {}
        equiv.force(v, addrs[0], A, rng, fx, fb)
        base = dict(v.vars)
        base.update(fx)
        base.update({k: fixed[k] for k in fixed if k not in fx})
        v = Probe(v.seed, random.Random(rng.getrandbits(64)), d, base, msz)
        if rng.random() < 0.5 and "load_reservation_address" not in fx:
            v.vars["lr"] = v.ev(addrs[0])
        if not v.ev(under) or not v.ev(eng.INV):
            continue
        held += 1
        for name, a, b in rest:
            x, y = v.view(a), v.view(b)
            if x != y:
                out[name] = equiv.Verdict("differs", (name, dict(v.vars), x, y, v), held)
                for n2, _, _ in rest:
                    out.setdefault(n2, equiv.Verdict("agreed", None, held))
                return out
    for name, a, b in rest:
        out[name] = equiv.Verdict("agreed", None, held)
    return out


# ------------------------------------------------------------------ block transitions
def judge_traces(ctx, eng, seed, trials, only=None):
    want = lambda g: only is None or g in only
    te, tj = eng.handler("CUSTOM_TRACE_END"), eng.handler("CUSTOM_ASM_TRACE_JUMP")
    prep = eng.prep_label()
    for name, idx, kind in (("end of a block", te, "end"), ("jump between blocks", tj, "jump"), ("taken branch", prep, "prep")):
        l = eng.lifter()
        m = eng.m
        s = eng.start(l, V("word", 64))
        if kind == "jump":
            l.word = m.TRACE
        try:
            outs = l.run(idx, s, [])
        except Unsupported as e:
            ctx.und(name, e)
            continue
        fin = {}
        for k, i, t in outs:
            fin[k] = merge(fin[k], t) if k in fin else t
        where = "%s: %s (%s)" % (eng.source, name, ", ".join(eng.codeobj.names_at(idx)[:2]))
        trace(ctx, eng, name, kind, fin, where, seed, trials, want)


def ufs(ts, prefix):
    out, seen, st = set(), set(), list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "uf" and str(t.a[0]).startswith(prefix):
            out.add(t)
        if t.op == "sum":
            st.extend(y for _, y in t.a[1])
        else:
            st.extend(y for y in t.a if isinstance(y, T))
    return out


def trace(ctx, eng, name, kind, fin, where, seed, trials, want):
    m, lay = eng.m, eng.lay
    pre = "traces." if kind != "jump" else "trace."
    ts = [t for s in fin.values() for t in [s.cond] + list(s.fields.values()) + [v for v in s.regs.values() if v is not None]]
    found = sorted(ufs(ts, pre), key=lambda t: t.id)
    slots = {t.a[1] for t in found}
    pc = V("pc", 64)
    M13 = zext(V("mask13", 13), 64)
    if kind != "jump":
        if len(slots) != 1:
            raise Unsupported("several block addresses in " + name)
        slot = slots.pop()
        base = m.TRACES
    else:
        slot = K(0, 64)
        base = m.TRACE
        if slots - {slot}:
            raise Unsupported("several block addresses in " + name)
    u = lambda f, w: uf(pre + f, w, slot)
    addr, length, cyc = u("address", 64), u("length", 32), u("cycles", 64)
    th = lambda k: u("thread+%d" % k, 64)
    old = V("version", 32) if False else None
    ver = eng.fresh0["version"]
    cmppc = ite(ult(ver, K(2, ver.w)), zext(ex(31, 0, pc), 64), pc)
    hit = band(eq(addr, cmppc), ne(length, K(0, 32))) if kind != "jump" else TRUE
    pause = ne(V("pausebyte", 8), K(0, 8)) if kind == "prep" else FALSE
    mx, cy = eng.fresh0["max_cycles"], eng.fresh0["cycles"]
    sm = add(cy, cyc)
    ovf = ult(sm, cy)
    exceed = ult(mx, sm)
    c = eng.code
    z = lambda n: K(c[n], 8)
    want_code = ite(pause, z("PAUSE"), ite(bnot(hit), z("DECODE_TRACE"), ite(ovf, z("CYCLES_OVERFLOW"),
                ite(exceed, z("MAX_CYCLES_EXCEEDED"), K(0, 8)))))
    go = eq(want_code, K(0, 8))
    code = ite(fin[RET].cond, eng.retcode(fin[RET]), K(0, 8)) if RET in fin else K(0, 8)
    al = fin[NEXT] if NEXT in fin else None
    st = al
    if al is not None and RET in fin:
        st = merge(al, fin[RET])
    elif RET in fin:
        st = fin[RET]

    def eqs(group, obs, under, tag, msg):
        if not want(group):
            return
        memo = {}

        def plain(x):
            if x is V("mask", 64):
                return M13
            if x.op == "uf" and str(x.a[0]).startswith(pre) and x.a[1] is slot:
                return V("block:" + x.a[0], x.w)
            return None
        f = lambda t: TM.rebuild(t, plain, memo)
        obs = [(n, f(a), f(b)) for n, a, b in obs]
        # a continuation block is never empty (C13)
        vs = equiv.compare(obs, f(band(under, ne(length, K(0, 32))) if kind == "jump" else under), (seed, name, tag), trials)
        for n, v in vs.items():
            key = "%s/%s" % (name, n)
            if v.kind == "differs":
                _, asg, a, b, _ = v.detail
                ctx.bad(key, where, "%s: %s is %s, required is %s; for %s" % (msg, n, equiv.hexval(a), equiv.hexval(b), {
                    k: hex(x) for k, x in sorted(asg.items())[:10]}))
            else:
                ctx.ok(key, {"normal": "identical normal form", "diagram": "decision diagram",
                             "agreed": "random interpretation only"}[v.kind])
    B = lambda a, n: zext(eq(a, z(n)), 1)
    # who may enter the cached block at all
    eqs("cached", [("entered only at its own address", band(al.cond if al else FALSE, bnot(hit)), FALSE),
                   ("decoded when not cached", B(code, "DECODE_TRACE"), zext(band(bnot(pause), bnot(hit)), 1))], TRUE, 1,
        "cached block")
    if kind != "jump":
        eqs("cached", [("slot of the block", slot, mul(K(lay.f["FixedTrace"]["size"], 64), band(lshr_c(pc, 2), V("mask", 64))))],
            TRUE, 2, "cached block")
    eqs("pause", [("pause returned exactly on request", B(code, "PAUSE"), zext(pause, 1))], TRUE, 3, "pause")
    eqs("cycles", [("overflow reported", B(code, "CYCLES_OVERFLOW"), zext(eq(want_code, z("CYCLES_OVERFLOW")), 1)),
                   ("limit reported", B(code, "MAX_CYCLES_EXCEEDED"), zext(eq(want_code, z("MAX_CYCLES_EXCEEDED")), 1)),
                   ("cycles", st.fields["cycles"], ite(go, sm, cy)), ("limit", st.fields["max_cycles"], mx)], TRUE, 4, "cycles")
    q = V("probe", 5)
    keep = [(f, st.fields[f], eng.fresh0[f]) for f in ("last_read_frame", "last_write_page", "load_reservation_address", "isa",
                                                       "version", "memory_size", "frames_size", "flags_size", "memory_ptr",
                                                       "flags_ptr", "frames_ptr") if f in st.fields]
    eqs("effect", [("outcome", code, want_code), ("pc", st.fields["pc"], ite(go, add(pc, zext(length, 64)), pc)),
                   ("registers", rr(st.arr["regs"], q), rr(arr_var("regs"), q))] + keep, TRUE, 5, "block transition")
    for g in ("mem", "flags", "frames", "init"):
        if want("effect"):
            ctx.check(st.arr[g] is eng.fresh().arr[g], "%s/%s" % (name, g), where, "%s changes %s" % (name, g),
                      how="identical normal form")
    if al is not None:
        off = lay.off("FixedTrace", "_threads")
        first = add(base, slot, K(off, 64))
        eqs("frame", eng.next_ok(al, th(0), first, add(first, K(8, 64)), th(8)), al.cond, 6, "first instruction of the block")
    if RET in fin:
        eqs("frame", eng.ret_ok(fin[RET]), fin[RET].cond, 7, "return to the host")
    for k, s in fin.items():
        for what, cnd, need in s.acc:
            eqs(group_of(what), [(what, need, TRUE)], cnd, 8, "access")


# ------------------------------------------------------------------ AArch64
class A64Engine(X64Engine):
    source = "execute_aarch64.S"
    name = "aarch64"
    prop = "C05"

    def lifter(self):
        import a64
        return a64.A64(self.codeobj, self.lay)

    def frame(self):
        import a64
        self.a = a64
        l = self.lifter()
        st = self.fresh()
        for r in a64.XS:
            st.regs[r] = V("host_" + r, 64)
        st.regs["sp"] = self.m.RSP0
        st.regs["x0"], st.regs["x1"] = self.m.MACHINE, self.m.INVOKE
        e = [self.codeobj.labels[n][0] for n in ("ckb_vm_x64_execute", "_ckb_vm_x64_execute", "ckb_vm_aarch64_execute") if n in self.codeobj.labels]
        if not e:
            raise Unsupported("entry point")
        outs = l.run(e[0], st, [self.handler("CUSTOM_TRACE_END")])
        if len(outs) != 1 or outs[0][0] != "label":
            raise Unsupported("entry sequence")
        s = outs[0][2]
        self.entry_state = s
        self.stack0 = dict(s.stack)
        known = (self.m.MACHINE, self.m.INVOKE, self.m.MEMPTR, self.m.FLAGSPTR, self.m.FRAMESPTR, self.MSZ)
        self.ptr = {r: v for r, v in s.regs.items() if r == "sp" or v in known or (v is not None and isk(sub(v, self.m.MACHINE)))}
        return s

    def start(self, l, word):
        s = self.fresh()
        for r in self.a.XS:
            s.regs[r] = l.fresh(64)
        for r, v in self.entry_state.regs.items():
            if r in self.a.A_CALLEE and v is V("host_" + r, 64):
                s.regs[r] = v
        s.regs.update(self.ptr)
        s.stack = dict(self.stack0)
        s.regs["x20"], s.regs["x21"], s.regs["x19"] = self.m.THREADS, self.m.ARGS, self.m.TRACE
        s.regs["x22"] = zext(ex(15, 8, word), 64)
        s.regs["x9"] = ashr_c(word, 32)
        l.word = word
        return s

    def next_ok(self, s, jump=None, threads=None, args=None, word=None):
        nw = V("args+0", 64) if word is None else word
        jump = V("threads+0", 64) if jump is None else jump
        threads = self.m.THREADS if threads is None else threads
        args = self.m.ARGS if args is None else args
        out = [("jump target", s.regs["@jump"], jump), ("instruction pointer", s.regs["x20"], add(threads, K(16, 64))),
               ("argument pointer", s.regs["x21"], add(args, K(16, 64))), ("first operand", s.regs["x22"], zext(ex(15, 8, nw), 64)),
               ("other operands", s.regs["x9"], ashr_c(nw, 32))]
        return out + self.keep_ok(s)

    def keep_ok(self, s):
        out = [("pointer in " + r, s.regs[r], v) for r, v in sorted(self.ptr.items())]
        out += [("saved registers", s.stack.get(k, K(0, 64)), v) for k, v in sorted(self.stack0.items())]
        pushed = set(self.stack0.values())
        for r in self.a.A_CALLEE:
            if V("host_" + r, 64) not in pushed and r != "sp":
                out.append(("host register " + r, s.regs[r], V("host_" + r, 64)))
        return out

    def ret_ok(self, s):
        out = [("host register " + r, s.regs[r], self.m.RSP0 if r == "sp" else V("host_" + r, 64)) for r in self.a.A_CALLEE]
        return out + [("return address", s.regs["@return"], V("host_x30", 64))]

    def retcode(self, s):
        return ex(7, 0, s.regs["x0"])
