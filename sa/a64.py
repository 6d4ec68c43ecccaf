"""AArch64 instruction semantics over value graphs, for execute_aarch64.S."""
from x64 import *
from x64 import X64, SUF  # noqa

XS = ["x%d" % i for i in range(31)] + ["sp"]
A_CALLEE = tuple("x%d" % i for i in range(19, 30)) + ("sp",)
LOADS = {"ldrb": (1, 0), "ldrsb": (1, 1), "ldrh": (2, 0), "ldrsh": (2, 1), "ldrsw": (4, 1), "ldarb": (1, 0), "ldurb": (1, 0)}
CONDS = {"eq": "z", "ne": "!z", "hs": "c", "cs": "c", "lo": "!c", "cc": "!c", "hi": "hi", "ls": "!hi", "lt": "l", "ge": "!l",
         "gt": "!le", "le": "le", "mi": "s", "pl": "!s"}


def rbits(x):
    return cat(*[ex(i, i, x) for i in range(x.w)])


class A64(X64):
    # ---- control flow
    def cc(self, m):
        if m.startswith("b.") and m[2:] in CONDS:
            return m[2:]
        if m[0] == "b" and m[1:] in CONDS:
            return m[1:]
        return None

    def succ(self, i):
        m, o, s = self.code.ins[i]
        if m == "b":
            return [self.code.target(o[0], i)]
        if m in ("br", "ret"):
            return []
        if self.cc(m):
            return [self.code.target(o[0], i), i + 1]
        if m in ("cbz", "cbnz"):
            return [self.code.target(o[1], i), i + 1]
        if m in ("tbz", "tbnz"):
            return [self.code.target(o[2], i), i + 1]
        return [i + 1]

    # ---- operands
    def reg(self, n):
        n = n.strip().lower()
        if n == "wzr" or n == "xzr":
            return None, 32 if n[0] == "w" else 64
        if n == "sp":
            return "sp", 64
        m = re.match(r"([xw])(\d+)$", n)
        if not m or int(m.group(2)) > 30:
            return False, 0
        return "x" + m.group(2), 64 if m.group(1) == "x" else 32

    def get(self, st, n):
        r, w = self.reg(n)
        if r is False:
            raise Unsupported("register " + n)
        if r is None:
            return K(0, w)
        v = st.regs.get(r)
        if v is None:
            raise Unsupported("read of unknown register " + n)
        return ex(w - 1, 0, v)

    def put(self, st, n, v):
        r, w = self.reg(n)
        if r is False:
            raise Unsupported("register " + n)
        if v.w != w:
            raise Unsupported("operand size of " + n)
        if r is not None:
            st.regs[r] = zext(v, 64) if w == 32 else v

    def val(self, st, s, w):
        s = s.strip()
        if self.reg(s)[0] is not False:
            v = self.get(st, s)
            if v.w != w:
                raise Unsupported("operand size")
            return v
        return K(number(s.lstrip("#=")), w)

    def ops2(self, st, o, k, w):
        """operand k with an optional shift or extension in the following one"""
        if len(o) > k + 1:
            m = re.match(r"(lsl|lsr|asr)\s+#?(\S+)$", o[k + 1].strip().lower())
            if m:
                n = number(m.group(2))
                return {"lsl": shl_c, "lsr": lshr_c, "asr": ashr_c}[m.group(1)](self.val(st, o[k], w), n)
            m = re.match(r"(sxtw|uxtw|sxtb|uxtb|sxth|uxth)(?:\s+#?(\d+))?$", o[k + 1].strip().lower())
            if m:
                n = {"b": 8, "h": 16, "w": 32}[m.group(1)[3]]
                v = ex(n - 1, 0, self.get(st, o[k]))
                v = (sext if m.group(1)[0] == "s" else zext)(v, w)
                return shl_c(v, int(m.group(2) or 0))
            raise Unsupported("operand " + o[k + 1])
        return self.val(st, o[k], w)

    def mem(self, st, o, rest):
        """address operand, with write-back"""
        m = re.match(r"\[(.*)\](!?)$", o.strip())
        if not m:
            raise Unsupported("memory operand " + o)
        ps = split_ops(m.group(1))
        base = self.get(st, ps[0])
        if base.w != 64:
            raise Unsupported("address register")
        off = K(0, 64)
        if len(ps) > 1:
            if self.reg(ps[1])[0] is not False:
                off = self.ops2(st, ps, 1, 64)
            else:
                off = K(number(ps[1].lstrip("#")), 64)
        a = add(base, off)
        if m.group(2):
            self.put(st, ps[0], a)
        elif rest:
            self.put(st, ps[0], add(base, K(number(rest[0].lstrip("#")), 64)))
        return a

    def condition(self, st, c):
        f = st.flags

        def g(k):
            v = f.get(k)
            if v is None:
                raise Unsupported("flag %s undefined here" % k)
            return v
        t = CONDS.get(c.strip().lower())
        if t is None:
            raise Unsupported("condition " + c)
        n = t[0] == "!"
        t = t.lstrip("!")
        v = {"z": lambda: g("z"), "c": lambda: g("c"), "s": lambda: g("s"), "l": lambda: g("l"), "hi": lambda: band(g("c"), bnot(g("z"))),
             "le": lambda: bor(g("l"), g("z"))}[t]()
        return bnot(v) if n else v

    # ---- execution
    def exec(self, i, st):
        m, o, src = self.code.ins[i]
        if m == "b":
            return [("go", self.code.target(o[0], i), st)]
        if m == "br":
            st.regs["@jump"] = self.get(st, o[0])
            return [("next", i, st)]
        if m == "ret":
            st.regs["@return"] = self.get(st, o[0]) if o else st.regs["x30"]
            return [("ret", i, st)]
        c = None
        if self.cc(m):
            c, t = self.condition(st, self.cc(m)), o[0]
        elif m in ("cbz", "cbnz"):
            v = self.get(st, o[0])
            c, t = eq(v, K(0, v.w)), o[1]
            c = bnot(c) if m == "cbnz" else c
        elif m in ("tbz", "tbnz"):
            n = number(o[1].lstrip("#"))
            c, t = ex(n, n, self.get(st, o[0])), o[2]
            c = c if m == "tbnz" else bnot(c)
        if c is not None:
            a, b = st.copy(), st
            a.cond = band(st.cond, c)
            b.cond = band(st.cond, bnot(c))
            return [("go", self.code.target(t, i), a), ("go", i + 1, b)]
        self.step(i, m, o, st)
        return [("go", i + 1, st)]

    def nz(self, st, r, **kw):
        st.flags = dict(z=eq(r, K(0, r.w)), s=ex(r.w - 1, r.w - 1, r), **kw)

    def step(self, i, m, o, st):
        if m in ("prfm", "nop", "dmb", "dsb", "isb"):
            return
        if m == "bl":
            st.regs["x30"] = None
            return self.call(i, o, st)
        if m in ("stp", "ldp"):
            a = self.mem(st, o[2], o[3:])
            w = self.reg(o[0])[1] // 8
            for k in (0, 1):
                if m == "stp":
                    self.store(st, add(a, K(k * w, 64)), w, self.get(st, o[k]), i)
                else:
                    self.put(st, o[k], self.load(st, add(a, K(k * w, 64)), w, i))
            return
        if m in ("ldr", "ldur", "ldar") and o[1].startswith("="):
            w = self.reg(o[0])[1]
            return self.put(st, o[0], K(number(o[1][1:]), w))
        if m in ("ldr", "ldur", "ldar") or m in LOADS:
            w = self.reg(o[0])[1]
            n, s = LOADS.get(m, (w // 8, 0))
            a = self.mem(st, o[1], o[2:])
            v = self.load(st, a, n, i)
            return self.put(st, o[0], (sext if s else zext)(v, w))
        if m in ("str", "strb", "strh", "stur", "stlr"):
            v = self.get(st, o[0])
            n = {"strb": 1, "strh": 2}.get(m, v.w // 8)
            a = self.mem(st, o[1], o[2:])
            return self.store(st, a, n, ex(8 * n - 1, 0, v), i)
        if m in ("cmp", "cmn", "tst"):
            a = self.get(st, o[0])
            b = self.ops2(st, o, 1, a.w)
            return self.flags(st, {"cmp": "sub", "cmn": "add", "tst": "and"}[m], a, b)
        w = self.reg(o[0])[1]
        P = lambda v: self.put(st, o[0], v)
        R = lambda k, ww=None: self.val(st, o[k], ww or w)
        if m == "mov":
            return P(R(1))
        if m == "movz":
            return P(self.ops2(st, o, 1, w))
        if m == "movk":
            n = number(o[1].lstrip("#"))
            s = int(re.search(r"(\d+)\s*$", o[2]).group(1)) if len(o) > 2 else 0
            x = self.get(st, o[0])
            return P(bor(band(x, K(mask(w) ^ (0xffff << s), w)), K(n << s, w)))
        if m == "mvn":
            return P(bnot(self.ops2(st, o, 1, w)))
        if m == "neg":
            return P(neg(self.ops2(st, o, 1, w)))
        if m in ("add", "sub", "and", "orr", "eor", "bic", "orn", "eon", "adds", "subs", "ands", "adc", "sbc"):
            a, b = R(1), self.ops2(st, o, 2, w)
            base = m[:3]
            if m in ("orn", "eon", "bic"):
                b = bnot(b)
            if base == "adc" or base == "sbc":
                c = st.flags.get("c")
                if c is None:
                    raise Unsupported("carry undefined")
                return P(add(a, b, zext(c, w)) if base == "adc" else sub(sub(a, b), zext(bnot(c), w)))
            r = {"add": add, "sub": sub, "and": band, "bic": band, "orr": bor, "orn": bor, "eor": bxor, "eon": bxor}[base](a, b)
            if m[-1] == "s" and m in ("adds", "subs", "ands"):
                self.flags(st, base, a, b)
            return P(r)
        if m in ("lsl", "lsr", "asr", "ror"):
            x, c = R(1), R(2)
            if isk(c):
                n = kv(c)
                if self.reg(o[2])[0] is False and n >= w:
                    raise Unsupported("shift amount")
                n %= w
                if m == "ror":
                    return P(x if n == 0 else cat(ex(n - 1, 0, x), ex(w - 1, n, x)))
                return P({"lsl": shl_c, "lsr": lshr_c, "asr": ashr_c}[m](x, n))
            c = band(c, K(w - 1, w))
            return P(rot("ror", x, c) if m == "ror" else shift({"lsl": "shl", "lsr": "lshr", "asr": "ashr"}[m], x, c))
        if m in ("ubfx", "sbfx", "ubfiz"):
            x, lo, n = R(1), number(o[2].lstrip("#")), number(o[3].lstrip("#"))
            if n < 1 or lo + n > w:
                raise Unsupported("bit field")
            if m == "ubfiz":
                return P(shl_c(zext(ex(n - 1, 0, x), w), lo))
            return P((zext if m == "ubfx" else sext)(ex(lo + n - 1, lo, x), w))
        if m in ("sxtb", "sxth", "sxtw", "uxtb", "uxth", "uxtw"):
            n = {"b": 8, "h": 16, "w": 32}[m[3]]
            return P((sext if m[0] == "s" else zext)(ex(n - 1, 0, self.get(st, o[1])), w))
        if m in ("csel", "csinc", "csinv", "csneg"):
            a, b = R(1), R(2)
            b = {"csel": b, "csinc": add(b, K(1, w)), "csinv": bnot(b), "csneg": neg(b)}[m]
            return P(ite(self.condition(st, o[3]), a, b))
        if m in ("cset", "csetm"):
            c = self.condition(st, o[1])
            return P(zext(c, w) if m == "cset" else sext(c, w))
        if m == "cinc":
            return P(ite(self.condition(st, o[2]), add(R(1), K(1, w)), R(1)))
        if m == "mul":
            return P(mul(R(1), R(2)))
        if m == "madd":
            return P(add(R(3), mul(R(1), R(2))))
        if m == "msub":
            return P(sub(R(3), mul(R(1), R(2))))
        if m in ("smulh", "umulh"):
            f = sext if m[0] == "s" else zext
            return P(ex(127, 64, mul(f(R(1, 64), 128), f(R(2, 64), 128))))
        if m == "udiv":
            a, b = R(1), R(2)
            return P(ite(eq(b, K(0, w)), K(0, w), bin2("udiv", a, b)))
        if m == "sdiv":
            a, b = R(1), R(2)
            return P(ite(eq(b, K(0, w)), K(0, w), ite(band(eq(a, K(1 << (w - 1), w)), eq(b, K(mask(w), w))), a, bin2("sdiv", a, b))))
        if m == "clz":
            return P(un("clz", R(1)))
        if m == "rbit":
            return P(rbits(R(1)))
        if m == "rev":
            return P(un("bswap", R(1)))
        raise Unsupported("instruction " + self.where(i))

    def flags(self, st, op, a, b):
        if op == "sub":
            r = sub(a, b)
            st.flags = {"z": eq(a, b), "c": bnot(ult(a, b)), "l": slt(a, b), "s": ex(a.w - 1, a.w - 1, r)}
        elif op == "add":
            r = add(a, b)
            self.nz(st, r, c=ult(r, a))
        else:
            r = band(a, b)
            n = ex(a.w - 1, a.w - 1, r)
            st.flags = {"z": eq(r, K(0, a.w)), "c": FALSE, "l": n, "s": n}

    sp_name = "sp"

    def aligned(self, st, low):
        # the stack pointer is 16-byte aligned at every call (AAPCS64)
        return TRUE if low is not None and isk(low) and kv(low) % 16 == 0 else FALSE

    def args(self):
        return ("x0", "x1")

    def clobbered(self):
        return ["x%d" % i for i in range(19)]
