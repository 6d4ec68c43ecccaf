"""Reference meaning of every internal opcode, written from the RISC-V manuals (RV64IMAC, Zba/Zbb/Zbc/Zbs) and, for the
macro-op fusion opcodes, as documented compositions.  Each entry maps an abstract machine state to the next one.

State: regs (array of 32x64), mem, lr (reservation), pc (address of the instruction) ; result err = 8-bit code."""
from terms import *

XL = 64     # register width; C02 also judges the handlers for RV32

OK, E_OOB, E_INVOP, E_ECALL, E_EBREAK, E_MEM = 0, 1, 2, 3, 4, 5


class S:
    """machine state in term form; err has priority: everything is meaningful only while err == 0"""

    def __init__(self, regs, mem, pc, npc, lr, memsize):
        self.regs, self.mem, self.pc, self.npc, self.lr, self.memsize = regs, mem, pc, npc, lr, memsize
        self.err = K(0, 8)
        self.eaddr = K(0, 64)
        self.calls = 0

    def r(self, i):
        v = rr(self.regs, i)
        return v if XL == 64 else ex(XL - 1, 0, v)

    def w(self, i, v):
        # x0 is hard-wired to zero
        if XL != 64:
            v = zext(v, 64)
        self.regs = aite(eq(i, K(0, 5)), self.regs, rw(self.regs, i, v))

    def fail(self, c, code, addr=None):
        first = band(c, eq(self.err, K(0, 8)))
        self.err = ite(first, K(code, 8), self.err)
        if addr is not None:
            self.eaddr = ite(first, addr, self.eaddr)

    def load(self, n, a):
        a = zext(a, 64)
        self.fail(bnot(uf("ld_ok%d" % n, 1, a)), E_MEM)
        return mld(self.mem, n, a)

    def store(self, n, a, v):
        a = zext(a, 64)
        self.fail(bnot(uf("st_ok%d" % n, 1, a)), E_MEM)
        self.mem = mst(self.mem, n, a, trunc(v, 8 * n))


def w32(v):
    return sext(ex(31, 0, v), XL)


def z32(v):
    return zext(ex(31, 0, v), XL)


def b2x(c):
    return zext(c, XL)


def divu(a, b):
    w = a.w
    return ite(eq(b, K(0, w)), K(mask(w), w), bin2("udiv", a, b))


def remu(a, b):
    w = a.w
    return ite(eq(b, K(0, w)), a, bin2("urem", a, b))


def div(a, b):
    w = a.w
    ov = band(eq(a, K(1 << (w - 1), w)), eq(b, K(mask(w), w)))
    return ite(eq(b, K(0, w)), K(mask(w), w), ite(ov, a, bin2("sdiv", a, b)))


def rem(a, b):
    w = a.w
    ov = band(eq(a, K(1 << (w - 1), w)), eq(b, K(mask(w), w)))
    return ite(eq(b, K(0, w)), a, ite(ov, K(0, w), bin2("srem", a, b)))


def mulh(a, b, sa, sb):
    p = mul((sext if sa else zext)(a, 2 * XL), (sext if sb else zext)(b, 2 * XL))
    return ex(2 * XL - 1, XL, p)


def clmul(a, b, kind):
    r = K(0, XL)
    for i in range(XL):
        c = ex(i, i, b)
        if kind == "l":
            t = shl_c(a, i)
        elif kind == "h":
            t = lshr_c(a, XL - i) if i else K(0, XL)
        else:
            t = lshr_c(a, XL - 1 - i)
        r = ite(c, bxor(r, t), r)
    return r


def orcb(a):
    return cat(*[sext(ne(ex(8 * i + 7, 8 * i, a), K(0, 8)), 8) for i in reversed(range(XL // 8))])


def rev8(a):
    return cat(*[ex(8 * i + 7, 8 * i, a) for i in range(XL // 8)])


def sh6(b):
    """the low bits of b that select a shift amount below XL"""
    return zext(ex(5 if XL == 64 else 4, 0, b), XL)


ALU = {
    "ADD": lambda a, b: add(a, b),
    "SUB": lambda a, b: sub(a, b),
    "AND": band, "OR": bor, "XOR": bxor,
    "SLL": lambda a, b: shift("shl", a, sh6(b)),
    "SRL": lambda a, b: shift("lshr", a, sh6(b)),
    "SRA": lambda a, b: shift("ashr", a, sh6(b)),
    "SLT": lambda a, b: b2x(slt(a, b)),
    "SLTU": lambda a, b: b2x(ult(a, b)),
    "ADDW": lambda a, b: w32(add(a, b)),
    "SUBW": lambda a, b: w32(sub(a, b)),
    "SLLW": lambda a, b: sext(shift("shl", ex(31, 0, a), zext(ex(4, 0, b), 32)), 64),
    "SRLW": lambda a, b: sext(shift("lshr", ex(31, 0, a), zext(ex(4, 0, b), 32)), 64),
    "SRAW": lambda a, b: sext(shift("ashr", ex(31, 0, a), zext(ex(4, 0, b), 32)), 64),
    "MUL": mul,
    "MULW": lambda a, b: w32(mul(a, b)),
    "MULH": lambda a, b: mulh(a, b, True, True),
    "MULHU": lambda a, b: mulh(a, b, False, False),
    "MULHSU": lambda a, b: mulh(a, b, True, False),
    "DIV": div, "DIVU": divu, "REM": rem, "REMU": remu,
    "DIVW": lambda a, b: sext(div(ex(31, 0, a), ex(31, 0, b)), 64),
    "DIVUW": lambda a, b: sext(divu(ex(31, 0, a), ex(31, 0, b)), 64),
    "REMW": lambda a, b: sext(rem(ex(31, 0, a), ex(31, 0, b)), 64),
    "REMUW": lambda a, b: sext(remu(ex(31, 0, a), ex(31, 0, b)), 64),
    # Zba
    "ADDUW": lambda a, b: add(z32(a), b),
    "SH1ADD": lambda a, b: add(shl_c(a, 1), b),
    "SH2ADD": lambda a, b: add(shl_c(a, 2), b),
    "SH3ADD": lambda a, b: add(shl_c(a, 3), b),
    "SH1ADDUW": lambda a, b: add(shl_c(z32(a), 1), b),
    "SH2ADDUW": lambda a, b: add(shl_c(z32(a), 2), b),
    "SH3ADDUW": lambda a, b: add(shl_c(z32(a), 3), b),
    # Zbb
    "ANDN": lambda a, b: band(a, bnot(b)),
    "ORN": lambda a, b: bor(a, bnot(b)),
    "XNOR": lambda a, b: bnot(bxor(a, b)),
    "MAX": lambda a, b: ite(slt(a, b), b, a),
    "MAXU": lambda a, b: ite(ult(a, b), b, a),
    "MIN": lambda a, b: ite(slt(a, b), a, b),
    "MINU": lambda a, b: ite(ult(a, b), a, b),
    "ROL": lambda a, b: rot("rol", a, sh6(b)),
    "ROR": lambda a, b: rot("ror", a, sh6(b)),
    "ROLW": lambda a, b: sext(rot("rol", ex(31, 0, a), zext(ex(4, 0, b), 32)), 64),
    "RORW": lambda a, b: sext(rot("ror", ex(31, 0, a), zext(ex(4, 0, b), 32)), 64),
    # Zbs
    "BCLR": lambda a, b: band(a, bnot(shift("shl", K(1, XL), sh6(b)))),
    "BEXT": lambda a, b: band(shift("lshr", a, sh6(b)), K(1, XL)),
    "BINV": lambda a, b: bxor(a, shift("shl", K(1, XL), sh6(b))),
    "BSET": lambda a, b: bor(a, shift("shl", K(1, XL), sh6(b))),
    # Zbc
    "CLMUL": lambda a, b: clmul(a, b, "l"),
    "CLMULH": lambda a, b: clmul(a, b, "h"),
    "CLMULR": lambda a, b: clmul(a, b, "r"),
}
ALUI = {  # immediate forms: same operation with the (sign-extended) immediate
    "ADDI": "ADD", "ADDIW": "ADDW", "ANDI": "AND", "ORI": "OR", "XORI": "XOR", "SLTI": "SLT", "SLTIU": "SLTU",
    "SLLI": "SLL", "SRLI": "SRL", "SRAI": "SRA", "SLLIW": "SLLW", "SRLIW": "SRLW", "SRAIW": "SRAW",
    "RORI": "ROR", "RORIW": "RORW", "BCLRI": "BCLR", "BEXTI": "BEXT", "BINVI": "BINV", "BSETI": "BSET",
}
SH6 = {"SLLI", "SRLI", "SRAI", "RORI", "BCLRI", "BEXTI", "BINVI", "BSETI", "SLLIUW"}
SH5 = {"SLLIW", "SRLIW", "SRAIW", "RORIW"}
UNARY = {
    "CLZ": lambda a: un("clz", a), "CTZ": lambda a: un("ctz", a), "CPOP": lambda a: un("pop", a),
    "CLZW": lambda a: zext(un("clz", ex(31, 0, a)), 64),
    "CTZW": lambda a: zext(un("ctz", ex(31, 0, a)), 64),
    "CPOPW": lambda a: zext(un("pop", ex(31, 0, a)), 64),
    "SEXTB": lambda a: sext(ex(7, 0, a), XL), "SEXTH": lambda a: sext(ex(15, 0, a), XL),
    "ZEXTH": lambda a: zext(ex(15, 0, a), XL),
    "ORCB": orcb, "REV8": rev8,
}
LOADS = {"LB": (1, True), "LH": (2, True), "LW": (4, True), "LD": (8, False), "LBU": (1, False), "LHU": (2, False),
         "LWU": (4, False)}
STORES = {"SB": 1, "SH": 2, "SW": 4, "SD": 8}
BRANCH = {"BEQ": eq, "BNE": ne, "BLT": slt, "BLTU": ult, "BGE": lambda a, b: bnot(slt(a, b)),
          "BGEU": lambda a, b: bnot(ult(a, b))}
AMO = {
    "AMOSWAP": lambda m, r: r, "AMOADD": add, "AMOXOR": bxor, "AMOAND": band, "AMOOR": bor,
    "AMOMIN": lambda m, r: ite(slt(m, r), m, r), "AMOMAX": lambda m, r: ite(slt(m, r), r, m),
    "AMOMINU": lambda m, r: ite(ult(m, r), m, r), "AMOMAXU": lambda m, r: ite(ult(m, r), r, m),
}
WIDE = {"WIDE_MUL": ("MULH", "MUL"), "WIDE_MULU": ("MULHU", "MUL"), "WIDE_MULSU": ("MULHSU", "MUL"),
        "WIDE_DIV": ("DIV", "REM"), "WIDE_DIVU": ("DIVU", "REMU")}
INVALID = ("UNLOADED", "CUSTOM_TRACE_END", "CUSTOM_ASM_TRACE_JUMP")


def form(op):
    """operand layout of an opcode: R I S U R4 R5 or N(one)"""
    b = op.replace("_VERSION0", "").replace("_VERSION1", "")
    if op in INVALID:
        return "N"
    if b in ALU or b in UNARY or b.startswith("AMO") or b[:3] in ("SC_", "LR_"):
        return "R"
    if b in ALUI or b in LOADS or b in ("JALR", "SLLIUW"):
        return "I"
    if b in STORES or b in BRANCH:
        return "S"
    if b in ("LUI", "AUIPC", "JAL", "FAR_JUMP_REL", "FAR_JUMP_ABS", "CUSTOM_LOAD_IMM", "CUSTOM_LOAD_UIMM"):
        return "U"
    if b in WIDE or b in ("ADC", "SBB", "ADCS", "SBBS"):
        return "R4"
    if b in ("ADD3A", "ADD3B", "ADD3C"):
        return "R5"
    if b in ("ECALL", "EBREAK", "FENCE", "FENCEI"):
        return "N"
    return None


# operand roles actually used, so that fields a form carries but the opcode ignores stay unconstrained
def step(op, o, s):
    """apply `op` with operands o = {rd, rs1, rs2, rs3, rs4 (5-bit terms), imm (64-bit term)} to state s"""
    b = op.replace("_VERSION0", "").replace("_VERSION1", "")
    v0 = op.endswith("_VERSION0")
    rd, rs1, rs2, rs3, rs4 = (o.get(k) for k in ("rd", "rs1", "rs2", "rs3", "rs4"))
    imm = o.get("imm")
    if imm is not None and XL != 64:
        imm = ex(XL - 1, 0, imm)
    if op in INVALID:
        s.fail(TRUE, E_INVOP)
    elif b in ALU:
        s.w(rd, ALU[b](s.r(rs1), s.r(rs2)))
    elif b in UNARY:
        s.w(rd, UNARY[b](s.r(rs1)))
    elif b in ALUI:
        s.w(rd, ALU[ALUI[b]](s.r(rs1), imm))
    elif b == "SLLIUW":
        s.w(rd, shift("shl", z32(s.r(rs1)), sh6(imm)))
    elif b in LOADS:
        n, sg = LOADS[b]
        a = add(s.r(rs1), imm)
        if v0:
            # version 0 cannot read the last byte of memory
            a64 = zext(a, 64)
            end = add(a64, K(n, 64))
            s.fail(bor(ult(end, a64), eq(end, s.memsize)), E_OOB, end)
        v = s.load(n, a)
        s.w(rd, (sext if sg else zext)(v, XL))
    elif b in STORES:
        n = STORES[b]
        s.store(n, add(s.r(rs1), imm), s.r(rs2))
    elif b in BRANCH:
        s.npc = ite(BRANCH[b](s.r(rs1), s.r(rs2)), add(s.pc, imm), s.npc)
    elif b == "LUI":
        s.w(rd, imm)
    elif b in ("CUSTOM_LOAD_IMM", "CUSTOM_LOAD_UIMM"):
        s.w(rd, imm)
    elif b == "AUIPC":
        s.w(rd, add(s.pc, imm))
    elif b == "JAL":
        link = s.npc
        s.w(rd, link)
        s.npc = add(s.pc, imm)
    elif b == "JALR":
        link = s.npc
        if v0:
            # version 0 writes the link register before reading the base register
            s.w(rd, link)
            t = add(s.r(rs1), imm)
        else:
            t = add(s.r(rs1), imm)
            s.w(rd, link)
        s.npc = band(t, K(mask(XL) - 1, XL))
    elif b == "FAR_JUMP_REL" or b == "FAR_JUMP_ABS":
        link = s.npc
        s.w(K(1, 5), link)
        t = add(s.pc, imm) if b == "FAR_JUMP_REL" else imm
        s.npc = band(t, K(mask(XL) - 1, XL))
    elif b in ("FENCE", "FENCEI"):
        pass
    elif b == "ECALL":
        s.fail(bnot(uf("ecall_ok", 1)), E_ECALL)
        s.calls = 1
    elif b == "EBREAK":
        s.fail(bnot(uf("ebreak_ok", 1)), E_ECALL)
        s.calls = 2
    elif b[:3] == "LR_":
        n = 4 if b[3] == "W" else 8
        a = s.r(rs1)
        v = s.load(n, a)
        s.w(rd, sext(v, XL))
        s.lr = a
    elif b[:3] == "SC_":
        n = 4 if b[3] == "W" else 8
        a = s.r(rs1)
        v2 = s.r(rs2)
        hit = eq(s.lr, a)
        old = s.load(n, a)
        s.store(n, a, ite(hit, v2, zext(old, XL)))
        s.w(rd, b2x(bnot(hit)))
        s.lr = K(mask(XL), XL)
    elif b.startswith("AMO"):
        nm, wd = b.rsplit("_", 1)
        n = 4 if wd == "W" else 8
        a = s.r(rs1)
        src = ex(8 * n - 1, 0, s.r(rs2))
        m = s.load(n, a)
        s.w(rd, sext(m, XL))
        s.store(n, a, AMO[nm](m, src))
    elif b in WIDE:
        hi, lo = WIDE[b]
        x, y = s.r(rs1), s.r(rs2)
        vh, vl = ALU[hi](x, y), ALU[lo](x, y)
        s.w(rd, vh)
        s.w(rs3, vl)
    elif b == "ADC":
        s.w(rd, add(s.r(rd), s.r(rs1)))
        s.w(rs1, b2x(ult(s.r(rd), s.r(rs1))))
        s.w(rd, add(s.r(rd), s.r(rs2)))
        s.w(rs2, b2x(ult(s.r(rd), s.r(rs2))))
        s.w(rs1, bor(s.r(rs1), s.r(rs2)))
    elif b == "SBB":
        s.w(rs1, sub(s.r(rd), s.r(rs1)))
        s.w(rs3, b2x(ult(s.r(rd), s.r(rs1))))
        s.w(rd, sub(s.r(rs1), s.r(rs2)))
        s.w(rs2, b2x(ult(s.r(rs1), s.r(rd))))
        s.w(rs1, bor(s.r(rs2), s.r(rs3)))
    elif b == "ADCS":
        x, y = s.r(rs1), s.r(rs2)
        s.w(rd, add(x, y))
        s.w(rs3, b2x(ult(add(x, y), x)))
    elif b == "SBBS":
        x, y = s.r(rs1), s.r(rs2)
        s.w(rd, sub(x, y))
        s.w(rs3, b2x(ult(x, y)))
    elif b == "ADD3A":
        s.w(rd, add(s.r(rd), s.r(rs1)))
        s.w(rs2, b2x(ult(s.r(rd), s.r(rs1))))
        s.w(rs3, add(s.r(rs2), s.r(rs4)))
    elif b == "ADD3B":
        s.w(rd, add(s.r(rs1), s.r(rs2)))
        s.w(rs1, b2x(ult(s.r(rd), s.r(rs1))))
        s.w(rs3, add(s.r(rs1), s.r(rs4)))
    elif b == "ADD3C":
        s.w(rd, add(s.r(rs1), s.r(rs2)))
        s.w(rs3, add(b2x(ult(s.r(rd), s.r(rs1))), s.r(rs4)))
    else:
        raise KeyError(op)
    return s


# what every fused operation may assume about its registers: fusion (C06) has to establish it, the assembly handlers
# (C04, C05) rely on it.  ("a",) = not x0, ("a", "b") = different registers
FUSED_RULES = {
    "ADC": (("rd",), ("rs1",), ("rs2",), ("rd", "rs1"), ("rd", "rs2"), ("rs1", "rs2")),
    "SBB": (("rd",), ("rs1",), ("rs2",), ("rs3",), ("rd", "rs1"), ("rd", "rs2"), ("rs1", "rs2"), ("rd", "rs3"),
            ("rs1", "rs3"), ("rs2", "rs3")),
    "ADD3A": (("rd",), ("rs2",), ("rd", "rs1"), ("rd", "rs4"), ("rs2", "rs4")),
    "ADD3B": (("rd",), ("rs1",), ("rd", "rs1"), ("rd", "rs4"), ("rs1", "rs4")),
    "ADD3C": (("rd",), ("rs3",), ("rd", "rs1"), ("rd", "rs4"), ("rs3", "rs4")),
    "ADCS": (("rd",), ("rd", "rs1")),
    "SBBS": (("rd", "rs1"), ("rd", "rs2")),
    "WIDE_MUL": (("rd", "rs1"), ("rd", "rs2"), ("rd", "rs3")),
    "WIDE_MULU": (("rd", "rs1"), ("rd", "rs2"), ("rd", "rs3")),
    "WIDE_MULSU": (("rd", "rs1"), ("rd", "rs2"), ("rd", "rs3")),
    "WIDE_DIV": (("rd", "rs1"), ("rd", "rs2"), ("rd", "rs3")),
    "WIDE_DIVU": (("rd", "rs1"), ("rd", "rs2"), ("rd", "rs3")),
    "FAR_JUMP_REL": (("=", "rd", 1),),
    "FAR_JUMP_ABS": (("=", "rd", 1),),
}


def operand_rules(op, o):
    c = TRUE
    for r in FUSED_RULES.get(op, ()):
        if r[0] == "=":
            c = band(c, eq(o[r[1]], K(r[2], 5)))
        elif len(r) == 1:
            c = band(c, ne(o[r[0]], K(0, 5)))
        else:
            c = band(c, ne(o[r[0]], o[r[1]]))
    return c
