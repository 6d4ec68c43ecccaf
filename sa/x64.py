"""x86-64 (AT&T syntax) instruction semantics over value graphs, for execute_x64.S."""
from asmcore import *

R64 = "rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15".split()
NAMES = {}
for _r in R64:
    NAMES[_r] = (_r, 0, 64)
for _a in "abcd":
    NAMES["e%sx" % _a] = ("r%sx" % _a, 0, 32)
    NAMES["%sx" % _a] = ("r%sx" % _a, 0, 16)
    NAMES["%sl" % _a] = ("r%sx" % _a, 0, 8)
    NAMES["%sh" % _a] = ("r%sx" % _a, 8, 8)
for _a in ("sp", "bp", "si", "di"):
    NAMES["e" + _a] = ("r" + _a, 0, 32)
    NAMES[_a] = ("r" + _a, 0, 16)
    NAMES[_a + "l"] = ("r" + _a, 0, 8)
for _i in range(8, 16):
    NAMES["r%dd" % _i] = ("r%d" % _i, 0, 32)
    NAMES["r%dw" % _i] = ("r%d" % _i, 0, 16)
    NAMES["r%db" % _i] = ("r%d" % _i, 0, 8)
SUF = {"b": 8, "w": 16, "l": 32, "q": 64}
CALLEE = ("rbx", "rbp", "r12", "r13", "r14", "r15", "rsp")
MACHINE, MEMPTR, FLAGSPTR, FRAMESPTR, INVOKE = (V(n, 64) for n in ("machine", "memptr", "flagsptr", "framesptr", "invoke"))
PAUSEPTR, TRACES, ARGS, THREADS, RSP0, TRACE = (V(n, 64) for n in ("pauseptr", "traces", "args", "threads", "rsp0", "trace"))
FS = V("frames_size", MSZ_BITS)
MSZ = zext(cat(FS, K(0, 18)), 64)
NPAGES = zext(cat(FS, K(0, 6)), 64)
NFRAMES = zext(FS, 64)
LRF, LWP = V("last_read_frame", 64), V("last_write_page", 64)


def sgn64(k):
    return k - (1 << 64) if k >> 63 else k


def le_(a, b):
    return bnot(ult(b, a))


def inside(a, n):
    """a .. a+n-1 lies in guest memory"""
    e = add(a, K(n, 64))
    return band(ult(a, MSZ), ult(a, e), le_(e, MSZ))


class X64(Lifter):
    def __init__(self, code, layout):
        super().__init__(code)
        self.lay = layout
        self.undef = 0
        self.word = V("word", 64)

    # ---- control flow
    def succ(self, i):
        m, o, s = self.code.ins[i]
        if m == "jmp":
            return [] if o[0].startswith("*") else [self.code.target(o[0], i)]
        if m in ("ret", "retq"):
            return []
        if m[0] == "j":
            return [self.code.target(o[0], i), i + 1]
        return [i + 1]

    # ---- operands
    def fresh(self, w):
        self.undef += 1
        return V("undefined%d" % self.undef, w)

    def width(self, m, base, ops):
        for o in ops:
            if o.startswith("%"):
                return NAMES[o[1:]][2]
        s = m[len(base):]
        if s in SUF:
            return SUF[s]
        raise Unsupported("operand size of " + m)

    def getreg(self, st, n):
        r, lo, w = NAMES[n]
        v = st.regs.get(r)
        if v is None:
            raise Unsupported("read of unknown register " + n)
        return ex(lo + w - 1, lo, v)

    def setreg(self, st, n, v):
        r, lo, w = NAMES[n]
        assert v.w == w, (n, v.w)
        if w == 64:
            st.regs[r] = v
        elif w == 32:
            st.regs[r] = zext(v, 64)
        else:
            old = st.regs.get(r)
            if old is None:
                raise Unsupported("partial write")
            ps = []
            if lo + w < 64:
                ps.append(ex(63, lo + w, old))
            ps.append(v)
            if lo:
                ps.append(ex(lo - 1, 0, old))
            st.regs[r] = cat(*ps)

    def addr(self, st, o):
        m = re.match(r"(.*)\(([^()]*)\)\s*$", o)
        if not m or "%" not in m.group(2):
            raise Unsupported("memory operand " + o)
        d = number(m.group(1)) if m.group(1).strip() else 0
        ps = [x.strip() for x in m.group(2).split(",")]
        t = K(d, 64)
        if ps[0]:
            t = add(t, self.getreg(st, ps[0][1:]))
        if len(ps) > 1:
            ix = self.getreg(st, ps[1][1:])
            t = add(t, mul(ix, K(int(ps[2]) if len(ps) > 2 else 1, 64)))
        return t

    def rd(self, st, o, w, i):
        if o.startswith("$"):
            return K(number(o[1:]), w)
        if o.startswith("%"):
            n = o[1:]
            if NAMES[n][2] != w:
                raise Unsupported("operand size")
            return self.getreg(st, n)
        return self.load(st, self.addr(st, o), w // 8, i)

    def wr(self, st, o, v, i):
        if o.startswith("%"):
            self.setreg(st, o[1:], v)
        else:
            self.store(st, self.addr(st, o), v.w // 8, v, i)

    # ---- memory
    def where(self, i):
        return self.code.ins[i][2]

    def field(self, struct, rest, n):
        if not isk(rest):
            return None
        return self.lay.at(struct, kv(rest), n)

    def regindex(self, st, rest, n, i):
        base = self.lay.off("AsmCoreMachine", "registers")
        off = sub(rest, K(base, 64))
        if isk(rest) and not (base <= kv(rest) < base + 256):
            return None
        st.need("register access inside the register file: " + self.where(i),
                band(ult(off, K(256, 64)), eq(ex(2, 0, off), K(0, 3))))
        if n != 8:
            raise Unsupported("narrow register-file access")
        return ex(7, 3, off)

    def load(self, st, a, n, i):
        r = summand(a, MACHINE)
        if r is not None:
            f = self.field("AsmCoreMachine", r, n)
            if f:
                return st.fields[f]
            if isk(r):
                for sz in (8, 4, 2):
                    g = self.lay.at("AsmCoreMachine", kv(r), sz)
                    if g and sz > n:
                        return ex(8 * n - 1, 0, st.fields[g])
            ix = self.regindex(st, r, n, i)
            if ix is None:
                st.need("access to a field of AsmCoreMachine: " + self.where(i), FALSE)
                return self.fresh(8 * n)
            return rr(st.arr["regs"], ix)
        r = summand(a, MEMPTR)
        if r is not None:
            st.need("load inside guest memory: " + self.where(i), inside(r, n))
            for e in (r, add(r, K(n - 1, 64))):
                st.need("load from an initialised frame: " + self.where(i),
                        ne(mld(st.arr["init"], 1, lshr_c(e, 18)), K(0, 8)))
            return mld(st.arr["mem"], n, r)
        r = summand(a, FLAGSPTR)
        if r is not None and n == 1:
            st.need("page flag index in range: " + self.where(i), ult(r, NPAGES))
            return mld(st.arr["flags"], 1, r)
        r = summand(a, FRAMESPTR)
        if r is not None and n == 1:
            st.need("frame index in range: " + self.where(i), ult(r, NFRAMES))
            return mld(st.arr["frames"], 1, r)
        r = summand(a, INVOKE)
        if r is not None:
            f = self.field("InvokeData", r, n)
            if f is None:
                st.need("access to a field of InvokeData: " + self.where(i), FALSE)
                return self.fresh(8 * n)
            return {"pause": PAUSEPTR, "fixed_traces": TRACES, "fixed_trace_mask": V("mask", 64)}[f]
        r = summand(a, PAUSEPTR)
        if r is not None:
            if not isk(r) or kv(r) or n != 1:
                st.need("access to a field of the pause byte: " + self.where(i), FALSE)
                return self.fresh(8 * n)
            return V("pausebyte", 8)
        r = summand(a, ARGS)
        if r is not None and isk(r) and n == 8:
            k = kv(r)
            if k == mask(64) - 15:
                return self.word
            if k < 1 << 12:
                return V("args+%d" % k, 64)
        r = summand(a, THREADS)
        if r is not None and isk(r) and n == 8 and kv(r) < 1 << 12:
            return V("threads+%d" % kv(r), 64)
        r = summand(a, RSP0)
        if r is not None and isk(r) and n == 8 and (kv(r) in st.stack or kv(r) >> 63):
            # what was never stored there is unknown
            return st.stack[kv(r)] if kv(r) in st.stack else self.fresh(64)
        for nm, base in (("traces", TRACES), ("trace", TRACE)):
            r = summand(a, base)
            if r is not None:
                return self.traceload(st, nm, base, r, n, i)
        if self.unknown(a):
            st.need("access to a field through a value nobody left there: " + self.where(i), FALSE)
            return self.fresh(8 * n)
        raise Unsupported("load from " + show(a, 4) + " in " + self.where(i))

    def unknown(self, a):
        """the address depends on a register or stack slot with no defined value"""
        seen, todo = set(), [a]
        while todo:
            t = todo.pop()
            if t in seen or not isinstance(t, T):
                continue
            seen.add(t)
            if t.op == "v" and str(t.a[0]).startswith("undefined"):
                return True
            todo += [y for _, y in t.a[1]] if t.op == "sum" else list(t.a)
        return False

    def traceload(self, st, nm, base, r, n, i):
        """field of the trace at base + r: offsets of one trace are constants beyond the multiple of the struct size"""
        c0 = r.a[0] if r.op == "k" or r.op == "sum" else 0
        d = c0 if c0 < 1 << 20 else None
        if d is None:
            raise Unsupported("trace address")
        slot = sub(r, K(d, 64))
        for sz in (8, 4):
            g = self.lay.at("FixedTrace", d, sz)
            if g and n <= sz:
                v = uf("%s.%s" % (nm, g), 8 * sz, slot)
                return ex(8 * n - 1, 0, v)
        if d >= self.lay.off("FixedTrace", "_threads") and (d & 7) == 0 and n == 8:
            return uf("%s.thread+%d" % (nm, d - self.lay.off("FixedTrace", "_threads")), 64, slot)
        st.need("access to a field of FixedTrace: " + self.where(i), FALSE)
        return self.fresh(8 * n)

    def store(self, st, a, n, v, i):
        r = summand(a, MACHINE)
        if r is not None:
            f = self.field("AsmCoreMachine", r, n)
            if f:
                st.fields[f] = v
                return
            ix = self.regindex(st, r, n, i)
            if ix is None:
                st.need("access to a field of AsmCoreMachine: " + self.where(i), FALSE)
                return
            st.arr["regs"] = rw(st.arr["regs"], ix, v)
            return
        r = summand(a, MEMPTR)
        if r is not None:
            st.need("store inside guest memory: " + self.where(i), inside(r, n))
            for e in (r, add(r, K(n - 1, 64))):
                st.need("store to an initialised frame: " + self.where(i),
                        ne(mld(st.arr["init"], 1, lshr_c(e, 18)), K(0, 8)))
                fl = mld(st.arr["flags"], 1, lshr_c(e, 12))
                st.need("store to a writable page: " + self.where(i), eq(ex(1, 1, fl), K(0, 1)))
                st.need("stored page marked dirty: " + self.where(i), ex(2, 2, fl))
            st.arr["mem"] = mst(st.arr["mem"], n, r, v)
            return
        r = summand(a, FLAGSPTR)
        if r is not None and n == 1:
            st.need("page flag index in range: " + self.where(i), ult(r, NPAGES))
            st.arr["flags"] = mst(st.arr["flags"], 1, r, v)
            return
        r = summand(a, FRAMESPTR)
        if r is not None and n == 1:
            st.need("frame index in range: " + self.where(i), ult(r, NFRAMES))
            st.arr["frames"] = mst(st.arr["frames"], 1, r, v)
            return
        r = summand(a, RSP0)
        if r is not None and isk(r) and n == 8:
            st.stack[kv(r)] = v
            return
        if self.unknown(a):
            st.need("access to a field through a value nobody left there: " + self.where(i), FALSE)
            return
        raise Unsupported("store to " + show(a, 4) + " in " + self.where(i))

    # ---- flags
    def fl_cmp(self, st, a, b):
        st.flags = {"z": eq(a, b), "c": ult(a, b), "l": slt(a, b), "s": ex(a.w - 1, a.w - 1, sub(a, b))}

    def fl_logic(self, st, r):
        st.flags = {"z": eq(r, K(0, r.w)), "c": FALSE, "l": ex(r.w - 1, r.w - 1, r), "s": ex(r.w - 1, r.w - 1, r)}

    def fl_add(self, st, a, b, cin, r):
        x = add(zext(a, a.w + 1), zext(b, a.w + 1), zext(cin, a.w + 1)) if cin is not FALSE else None
        c = ex(a.w, a.w, x) if x is not None else ult(r, a)
        st.flags = {"z": eq(r, K(0, r.w)), "c": c, "s": ex(r.w - 1, r.w - 1, r)}

    def cond(self, st, cc):
        f = st.flags

        def g(k):
            v = f.get(k)
            if v is None:
                raise Unsupported("flag %s undefined here" % k)
            return v
        neg_ = False
        t = {"e": "e", "z": "e", "ne": "!e", "nz": "!e", "b": "b", "c": "b", "nae": "b", "ae": "!b", "nb": "!b", "nc": "!b",
             "be": "be", "na": "be", "a": "!be", "nbe": "!be", "l": "l", "nge": "l", "ge": "!l", "nl": "!l", "le": "le",
             "ng": "le", "g": "!le", "nle": "!le", "s": "s", "ns": "!s"}.get(cc)
        if t is None:
            raise Unsupported("condition " + cc)
        if t[0] == "!":
            neg_, t = True, t[1:]
        v = {"e": lambda: g("z"), "b": lambda: g("c"), "be": lambda: bor(g("c"), g("z")), "l": lambda: g("l"),
             "le": lambda: bor(g("l"), g("z")), "s": lambda: g("s")}[t]()
        return bnot(v) if neg_ else v

    # ---- execution
    def exec(self, i, st):
        m, o, src = self.code.ins[i]
        go = lambda s: [("go", i + 1, s)]
        if m == "jmp":
            if o[0].startswith("*"):
                st.regs["@jump"] = self.rd(st, o[0][1:], 64, i)
                return [("next", i, st)]
            return [("go", self.code.target(o[0], i), st)]
        if m in ("ret", "retq"):
            return [("ret", i, st)]
        if m[0] == "j":
            c = self.cond(st, m[1:])
            a, b = st.copy(), st
            a.cond = band(st.cond, c)
            b.cond = band(st.cond, bnot(c))
            t = self.code.target(o[0], i)
            return [("go", t, a), ("go", i + 1, b)]
        self.step(i, m, o, st)
        return go(st)

    def step(self, i, m, o, st):
        R = lambda s, w: self.rd(st, s, w, i)
        if m in ("prefetcht2", "prefetcht1", "prefetcht0", "nop", "prefetchw"):
            return
        if m in ("movabs", "movabsq"):
            self.wr(st, o[1], R(o[0], 64), i)
            return
        mm = re.match(r"mov([sz])([bwl]?)([wlq]?)$", m)
        if mm or m in ("movslq", "movsx", "movzx"):
            dst = NAMES[o[1][1:]][2]
            if m == "movslq":
                k, sw = "s", 32
            else:
                k = m[3]
                if o[0].startswith("%"):
                    sw = NAMES[o[0][1:]][2]
                else:
                    sw = SUF.get(m[4:5])
                    if sw is None:
                        raise Unsupported(m)
            v = R(o[0], sw)
            self.wr(st, o[1], (sext if k == "s" else zext)(v, dst), i)
            return
        if re.match(r"mov[bwlq]?$", m):
            w = self.width(m, "mov", o)
            self.wr(st, o[1], R(o[0], w), i)
            return
        if m in ("lea", "leaq"):
            self.wr(st, o[1], trunc(self.addr(st, o[0]), NAMES[o[1][1:]][2]), i)
            return
        if m in ("push", "pushq"):
            v = R(o[0], 64)
            sp = sub(st.regs["rsp"], K(8, 64))
            st.regs["rsp"] = sp
            self.store(st, sp, 8, v, i)
            return
        if m in ("pop", "popq"):
            v = self.load(st, st.regs["rsp"], 8, i)
            st.regs["rsp"] = add(st.regs["rsp"], K(8, 64))
            self.wr(st, o[0], v, i)
            return
        for base in ("add", "adc", "sub", "sbb", "cmp", "and", "or", "xor", "test", "not", "neg", "inc", "dec"):
            if m == base or m[:-1] == base and m[-1] in SUF:
                w = self.width(m, base, o)
                return self.alu(i, base, o, w, st, R)
        for base in ("shl", "sal", "shr", "sar", "rol", "ror"):
            if m == base or m[:-1] == base and m[-1] in SUF:
                return self.shifts(i, m, base, o, st, R)
        for base in ("imul", "mul", "idiv", "div"):
            if m == base or m[:-1] == base and m[-1] in SUF:
                return self.muldiv(i, m, base, o, st, R)
        if m in ("cqo", "cqto"):
            x = ex(63, 63, st.regs["rax"])
            st.regs["rdx"] = sext(x, 64)
            return
        if m in ("cltq", "cdqe"):
            st.regs["rax"] = sext(ex(31, 0, st.regs["rax"]), 64)
            return
        if m.startswith("cmov"):
            c = self.cond(st, m[4:])
            w = NAMES[o[1][1:]][2]
            self.wr(st, o[1], ite(c, R(o[0], w), R(o[1], w)), i)
            return
        if m.startswith("set"):
            self.wr(st, o[0], zext(self.cond(st, m[3:]), 8), i)
            return
        if m in ("bsf", "bsr", "bsfq", "bsrq"):
            w = self.width(m, m[:3], o)
            x = R(o[0], w)
            r = un("ctz", x) if m[:3] == "bsf" else sub(K(w - 1, w), un("clz", x))
            z = eq(x, K(0, w))
            self.wr(st, o[1], ite(z, self.fresh(w), r), i)
            st.flags = {"z": z}
            return
        if m in ("lzcnt", "tzcnt", "popcnt"):
            w = self.width(m, m, o)
            x = R(o[0], w)
            r = un({"lzcnt": "clz", "tzcnt": "ctz", "popcnt": "pop"}[m], x)
            self.wr(st, o[1], r, i)
            st.flags = {"z": eq(r, K(0, w)), "c": eq(x, K(0, w))}
            return
        if m in ("bswap", "bswapq"):
            w = NAMES[o[0][1:]][2]
            self.wr(st, o[0], un("bswap", R(o[0], w)) if w in (32, 64) else None, i)
            return
        if m in ("call", "callq"):
            return self.call(i, o, st)
        raise Unsupported("instruction " + self.where(i))

    def alu(self, i, base, o, w, st, R):
        if base == "not":
            self.wr(st, o[0], bnot(R(o[0], w)), i)
            return
        if base == "neg":
            x = R(o[0], w)
            r = neg(x)
            self.wr(st, o[0], r, i)
            st.flags = {"z": eq(x, K(0, w)), "c": ne(x, K(0, w)), "s": ex(w - 1, w - 1, r), "l": slt(K(0, w), x)}
            return
        if base in ("inc", "dec"):
            x = R(o[0], w)
            r = add(x, K(1 if base == "inc" else mask(w), w))
            self.wr(st, o[0], r, i)
            st.flags = {"z": eq(r, K(0, w)), "c": st.flags.get("c"), "s": ex(w - 1, w - 1, r)}
            return
        b, a = R(o[0], w), R(o[1], w)
        if base == "cmp":
            self.fl_cmp(st, a, b)
            return
        if base == "test":
            self.fl_logic(st, band(a, b))
            return
        if base in ("and", "or", "xor"):
            r = {"and": band, "or": bor, "xor": bxor}[base](a, b)
            self.wr(st, o[1], r, i)
            self.fl_logic(st, r)
            return
        if base == "sub":
            r = sub(a, b)
            self.wr(st, o[1], r, i)
            self.fl_cmp(st, a, b)
            return
        if base == "add":
            r = add(a, b)
            self.wr(st, o[1], r, i)
            self.fl_add(st, a, b, FALSE, r)
            return
        c = st.flags.get("c")
        if c is None:
            raise Unsupported("carry undefined")
        if base == "adc":
            r = add(a, b, zext(c, w))
            self.wr(st, o[1], r, i)
            if isk(b) and kv(b) == 0:
                # a + c: carries only when a is all ones
                st.flags = {"z": eq(r, K(0, w)), "c": band(c, eq(a, K(mask(w), w))), "s": ex(w - 1, w - 1, r)}
            else:
                self.fl_add(st, a, b, c, r)
            return
        r = sub(sub(a, b), zext(c, w))
        self.wr(st, o[1], r, i)
        st.flags = {"z": eq(r, K(0, w)), "s": ex(w - 1, w - 1, r)}

    def shifts(self, i, m, base, o, st, R):
        w = self.width(m, base, o[-1:])
        x = R(o[-1], w)
        cnt = R(o[0], 8) if len(o) > 1 else K(1, 8)
        cnt = band(cnt, K(63 if w == 64 else 31, 8))
        if isk(cnt):
            n = kv(cnt)
            r = {"shl": shl_c, "sal": shl_c, "shr": lshr_c, "sar": ashr_c}.get(base)
            if r is not None:
                v = r(x, n) if n < w else (K(0, w) if base != "sar" else ashr_c(x, w - 1))
            else:
                n %= w
                v = x if n == 0 else (cat(ex(w - n - 1, 0, x), ex(w - 1, w - n, x)) if base == "rol" else
                                      cat(ex(n - 1, 0, x), ex(w - 1, n, x)))
        else:
            if w not in (32, 64):
                raise Unsupported("shift width")
            amt = zext(cnt, w)
            if base in ("rol", "ror"):
                v = rot(base, x, amt)
            else:
                v = shift({"shl": "shl", "sal": "shl", "shr": "lshr", "sar": "ashr"}[base], x, amt)
        self.wr(st, o[-1], v, i)
        st.flags = {"z": eq(v, K(0, w)), "s": ex(w - 1, w - 1, v)} if isk(cnt) and kv(cnt) and base not in ("rol", "ror") else {}

    def muldiv(self, i, m, base, o, st, R):
        if base == "imul" and len(o) >= 2:
            w = NAMES[o[-1][1:]][2]
            a = R(o[0], w)
            b = R(o[1], w)
            self.wr(st, o[-1], mul(a, b), i)
            st.flags = {}
            return
        w = self.width(m, base, o)
        x = R(o[0], w)
        if w != 64:
            raise Unsupported("narrow " + m)
        a = st.regs["rax"]
        if base in ("imul", "mul"):
            f = sext if base == "imul" else zext
            p = mul(f(a, 128), f(x, 128))
            st.regs["rax"] = mul(a, x)
            st.regs["rdx"] = ex(127, 64, p)
            st.flags = {}
            return
        d = st.regs["rdx"]
        z = eq(x, K(0, 64))
        if base == "div":
            if d is not K(0, 64):
                raise Unsupported("128-bit division")
            st.need("division cannot fault: " + self.where(i), bnot(z))
            st.regs["rax"], st.regs["rdx"] = bin2("udiv", a, x), bin2("urem", a, x)
        else:
            if d is not sext(ex(63, 63, a), 64):
                raise Unsupported("128-bit division")
            ov = band(eq(a, K(1 << 63, 64)), eq(x, K(mask(64), 64)))
            st.need("division cannot fault: " + self.where(i), band(bnot(z), bnot(ov)))
            st.regs["rax"], st.regs["rdx"] = bin2("sdiv", a, x), bin2("srem", a, x)
        st.flags = {}

    def call(self, i, o, st):
        t = o[0].split("@")[0].lstrip("_")
        if t != "inited_memory":
            raise Unsupported("call of " + t)
        a1, a2 = self.args()
        low = summand(st.regs[self.sp_name], RSP0)
        st.need("stack aligned at the call: " + self.where(i), self.aligned(st, low))
        if low is not None and isk(low):
            # what lies below the stack pointer is the callee's
            st.stack = {k: v for k, v in st.stack.items() if sgn64(k) >= sgn64(kv(low))}
        st.need("second argument of the call is the machine: " + self.where(i), eq(st.regs[a2], MACHINE))
        f = st.regs[a1]
        st.need("frame index of the call in range: " + self.where(i), ult(f, NFRAMES))
        # the callee zeroes the frame: right only if it was not in use before
        st.need("initialises a frame only once: " + self.where(i), eq(mld(st.arr["init"], 1, f), K(0, 8)))
        st.arr["init"] = mst(st.arr["init"], 1, f, K(1, 8))
        for r in self.clobbered():
            st.regs[r] = self.fresh(64)
        st.flags = {}

    def aligned(self, st, low):
        return eq(ex(3, 0, st.regs["rsp"]), K(0, 4))

    windows = False
    sp_name = "rsp"

    def args(self):
        return ("rcx", "rdx") if self.windows else ("rdi", "rsi")

    def clobbered(self):
        c = ["rax", "rcx", "rdx", "r8", "r9", "r10", "r11"]
        return c if self.windows else c + ["rsi", "rdi"]
