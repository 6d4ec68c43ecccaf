"""RISC-V encodings (RV64IMAC + Zba/Zbb/Zbc/Zbs, RV32 where the machine supports it) and this VM's version rules.

rows(version, xlen) -> [Row]: mask/match over the 32-bit word (16-bit words are zero-extended), an extra condition, the
internal operation and the expected fields.  A field is a list of source positions lsb first (ints: bit numbers,
0/'0': constant zero, ('s', n): sign bit n repeated) or an int constant."""


class Row:
    def __init__(self, ext, name, op, form, pat, length, fields, cond=None, note=""):
        self.ext, self.name, self.op, self.form, self.length = ext, name, op, form, length
        self.fields = fields
        self.cond = cond or []
        self.note = note
        pat = pat.replace("_", "").replace(" ", "")
        if length == 2:
            assert len(pat) == 16, (name, pat)
            pat = "0" * 16 + pat
        assert len(pat) == 32, (name, pat, len(pat))
        self.mask = int("".join("1" if c in "01" else "0" for c in pat), 2)
        self.match = int("".join(c if c in "01" else "0" for c in pat), 2)


RD, RS1, RS2 = list(range(7, 12)), list(range(15, 20)), list(range(20, 25))
I_IMM = list(range(20, 32)) + [("s", 31)]
S_IMM = list(range(7, 12)) + list(range(25, 32)) + [("s", 31)]
B_IMM = ["0"] + [8, 9, 10, 11] + list(range(25, 31)) + [7, 31] + [("s", 31)]
U_IMM = ["0"] * 12 + list(range(12, 32)) + [("s", 31)]
J_IMM = ["0"] + list(range(21, 31)) + [20] + list(range(12, 20)) + [31] + [("s", 31)]
SH6 = list(range(20, 26))
SH5 = list(range(20, 25))


def rtype(f7, f3, opc):
    return f7 + "-----" + "-----" + f3 + "-----" + opc


def rows(version, xlen=64):
    out = []
    ver = "_VERSION1" if version >= 1 else "_VERSION0"
    rv64 = xlen == 64

    def R(ext, op, f7, f3, opc="0110011"):
        out.append(Row(ext, op, op, "R", rtype(f7, f3, opc), 4, {"rd": RD, "rs1": RS1, "rs2": RS2}))

    def UN(ext, op, f7, rs2, f3, opc):
        out.append(Row(ext, op, op, "R", f7 + rs2 + "-----" + f3 + "-----" + opc, 4, {"rd": RD, "rs1": RS1}))

    def I(ext, op, f3, opc, name=None):
        out.append(Row(ext, name or op, op, "I", "-" * 12 + "-----" + f3 + "-----" + opc, 4, {"rd": RD, "rs1": RS1, "imm": I_IMM}))

    def SH(ext, op, top, f3, opc="0010011", five=False):
        pat = top + ("-----" if five or len(top) == 7 else "------") + "-----" + f3 + "-----" + opc
        out.append(Row(ext, op, op, "I", pat, 4, {"rd": RD, "rs1": RS1, "imm": SH5 if five or len(top) == 7 else SH6}))

    # ---- RV64I
    out.append(Row("I", "LUI", "LUI", "U", "-" * 20 + "-----" + "0110111", 4, {"rd": RD, "imm": U_IMM}))
    out.append(Row("I", "AUIPC", "AUIPC", "U", "-" * 20 + "-----" + "0010111", 4, {"rd": RD, "imm": U_IMM}))
    out.append(Row("I", "JAL", "JAL", "U", "-" * 20 + "-----" + "1101111", 4, {"rd": RD, "imm": J_IMM}))
    I("I", "JALR" + ver, "000", "1100111")
    for op, f3 in (("BEQ", "000"), ("BNE", "001"), ("BLT", "100"), ("BGE", "101"), ("BLTU", "110"), ("BGEU", "111")):
        out.append(Row("I", op, op, "S", "-" * 7 + "-----" + "-----" + f3 + "-----" + "1100011", 4, {"rs1": RS1, "rs2": RS2, "imm": B_IMM}))
    for op, f3 in [("LB", "000"), ("LH", "001"), ("LW", "010"), ("LBU", "100"), ("LHU", "101")] + ([("LD", "011"), ("LWU", "110")] if rv64 else []):
        I("I", op + ver, f3, "0000011")
    for op, f3 in [("SB", "000"), ("SH", "001"), ("SW", "010")] + ([("SD", "011")] if rv64 else []):
        out.append(Row("I", op, op, "S", "-" * 7 + "-----" + "-----" + f3 + "-----" + "0100011", 4, {"rs1": RS1, "rs2": RS2, "imm": S_IMM}))
    for op, f3 in (("ADDI", "000"), ("SLTI", "010"), ("SLTIU", "011"), ("XORI", "100"), ("ORI", "110"), ("ANDI", "111")):
        I("I", op, f3, "0010011")
    for op, top, f3 in (("SLLI", "000000", "001"), ("SRLI", "000000", "101"), ("SRAI", "010000", "101")):
        SH("I", op, top if rv64 else top + "0", f3)
    for op, f7, f3 in (("ADD", "0000000", "000"), ("SUB", "0100000", "000"), ("SLL", "0000000", "001"), ("SLT", "0000000", "010"),
                       ("SLTU", "0000000", "011"), ("XOR", "0000000", "100"), ("SRL", "0000000", "101"), ("SRA", "0100000", "101"),
                       ("OR", "0000000", "110"), ("AND", "0000000", "111")):
        R("I", op, f7, f3)
    out.append(Row("I", "FENCE", "FENCE", "-", "-" * 12 + "00000" + "000" + "00000" + "0001111", 4, {}))
    out.append(Row("I", "FENCE.I", "FENCEI", "-", "0" * 12 + "00000" + "001" + "00000" + "0001111", 4, {}))
    out.append(Row("I", "ECALL", "ECALL", "-", "0" * 12 + "00000" + "000" + "00000" + "1110011", 4, {}))
    out.append(Row("I", "EBREAK", "EBREAK", "-", "0" * 11 + "1" + "00000" + "000" + "00000" + "1110011", 4, {}))
    if rv64:
        I("I", "ADDIW", "000", "0011011")
        for op, f7, f3 in (("SLLIW", "0000000", "001"), ("SRLIW", "0000000", "101"), ("SRAIW", "0100000", "101")):
            SH("I", op, f7, f3, "0011011")
        for op, f7, f3 in (("ADDW", "0000000", "000"), ("SUBW", "0100000", "000"), ("SLLW", "0000000", "001"),
                           ("SRLW", "0000000", "101"), ("SRAW", "0100000", "101")):
            R("I", op, f7, f3, "0111011")
    # ---- M
    for i, op in enumerate(("MUL", "MULH", "MULHSU", "MULHU", "DIV", "DIVU", "REM", "REMU")):
        R("M", op, "0000001", format(i, "03b"))
    if rv64:
        for op, f3 in (("MULW", "000"), ("DIVW", "100"), ("DIVUW", "101"), ("REMW", "110"), ("REMUW", "111")):
            R("M", op, "0000001", f3, "0111011")
    # ---- A
    for sz, f3 in [("W", "010")] + ([("D", "011")] if rv64 else []):
        out.append(Row("A", "LR." + sz, "LR_" + sz, "R", "00010" + "--" + "00000" + "-----" + f3 + "-----" + "0101111", 4, {"rd": RD, "rs1": RS1}))
        for op, f5 in (("SC", "00011"), ("AMOSWAP", "00001"), ("AMOADD", "00000"), ("AMOXOR", "00100"), ("AMOAND", "01100"),
                       ("AMOOR", "01000"), ("AMOMIN", "10000"), ("AMOMAX", "10100"), ("AMOMINU", "11000"), ("AMOMAXU", "11100")):
            R("A", op + "_" + sz, f5 + "--", f3, "0101111")
    # ---- B (Zba, Zbb, Zbc, Zbs)
    for op, f7, f3 in (("SH1ADD", "0010000", "010"), ("SH2ADD", "0010000", "100"), ("SH3ADD", "0010000", "110"),
                       ("ANDN", "0100000", "111"), ("ORN", "0100000", "110"), ("XNOR", "0100000", "100"),
                       ("ROL", "0110000", "001"), ("ROR", "0110000", "101"), ("MIN", "0000101", "100"), ("MINU", "0000101", "101"),
                       ("MAX", "0000101", "110"), ("MAXU", "0000101", "111"), ("CLMUL", "0000101", "001"),
                       ("CLMULR", "0000101", "010"), ("CLMULH", "0000101", "011"), ("BCLR", "0100100", "001"),
                       ("BEXT", "0100100", "101"), ("BINV", "0110100", "001"), ("BSET", "0010100", "001")):
        R("B", op, f7, f3)
    for op, top, f3 in (("BCLRI", "010010", "001"), ("BEXTI", "010010", "101"), ("BINVI", "011010", "001"),
                        ("BSETI", "001010", "001"), ("RORI", "011000", "101")):
        SH("B", op, top, f3)
    for op, rs2 in (("CLZ", "00000"), ("CTZ", "00001"), ("CPOP", "00010"), ("SEXTB", "00100"), ("SEXTH", "00101")):
        UN("B", op, "0110000", rs2, "001", "0010011")
    UN("B", "ORCB", "0010100", "00111", "101", "0010011")
    UN("B", "REV8", "0110101", "11000", "101", "0010011")
    for op, f7, f3 in (("ADDUW", "0000100", "000"), ("SH1ADDUW", "0010000", "010"), ("SH2ADDUW", "0010000", "100"),
                       ("SH3ADDUW", "0010000", "110"), ("ROLW", "0110000", "001"), ("RORW", "0110000", "101")):
        R("B", op, f7, f3, "0111011")
    UN("B", "ZEXTH", "0000100", "00000", "100", "0111011")
    for op, rs2 in (("CLZW", "00000"), ("CTZW", "00001"), ("CPOPW", "00010")):
        UN("B", op, "0110000", rs2, "001", "0011011")
    SH("B", "RORIW", "0110000", "101", "0011011")
    SH("B", "SLLIUW", "000010", "001", "0011011")

    # ---- C
    rdp, rs1p = [2, 3, 4, "1", "0"], [7, 8, 9, "1", "0"]
    rd, rs2c = list(range(7, 12)), list(range(2, 7))
    ci = [2, 3, 4, 5, 6, ("s", 12)]
    sh = [2, 3, 4, 5, 6, 12]

    def C(name, op, form, pat, fields, cond=None):
        out.append(Row("C", name, op, form, pat, 2, fields, cond))

    def NOP(name, pat, cond=None, always=False):
        if version >= 1 or always:
            out.append(Row("C", name, "ADDI", "I", pat, 2, {"rd": 0}, cond, "hint"))

    NZ = lambda bits: ("nz", bits)
    Z = lambda bits: ("z", bits)
    C("C.ADDI4SPN", "ADDI", "I", "000 -------- --- 00", {"rd": rdp, "rs1": 2, "imm": ["0", "0", 6, 5, 11, 12, 7, 8, 9, 10]}, [NZ(range(5, 13))])
    lwi = ["0", "0", 6, 10, 11, 12, 5]
    ldi = ["0", "0", "0", 10, 11, 12, 5, 6]
    C("C.LW", "LW" + ver, "I", "010 --- --- -- --- 00", {"rd": rdp, "rs1": rs1p, "imm": lwi})
    C("C.SW", "SW", "S", "110 --- --- -- --- 00", {"rs1": rs1p, "rs2": rdp, "imm": lwi})
    C("C.LD", "LD" + ver, "I", "011 --- --- -- --- 00", {"rd": rdp, "rs1": rs1p, "imm": ldi})
    C("C.SD", "SD", "S", "111 --- --- -- --- 00", {"rs1": rs1p, "rs2": rdp, "imm": ldi})
    NOP("C.NOP", "000 0 00000 00000 01", always=True)
    NOP("HINT C.NOP", "000 - 00000 ----- 01", [NZ([12, 2, 3, 4, 5, 6])])
    C("C.ADDI", "ADDI", "I", "000 - ----- ----- 01", {"rd": rd, "rs1": rd, "imm": ci}, [NZ(rd), NZ(sh)])
    NOP("HINT C.ADDI 0", "000 0 ----- 00000 01", [NZ(rd)])
    C("C.ADDIW", "ADDIW", "I", "001 - ----- ----- 01", {"rd": rd, "rs1": rd, "imm": ci}, [NZ(rd)])
    C("C.LI", "ADDI", "I", "010 - ----- ----- 01", {"rd": rd, "rs1": 0, "imm": ci}, [NZ(rd)])
    NOP("HINT C.LI", "010 - 00000 ----- 01")
    C("C.ADDI16SP", "ADDI", "I", "011 - 00010 ----- 01", {"rd": 2, "rs1": 2, "imm": ["0"] * 4 + [6, 2, 5, 3, 4, ("s", 12)]}, [NZ(sh)])
    C("C.LUI", "LUI", "U", "011 - ----- ----- 01", {"rd": rd, "imm": ["0"] * 12 + ci}, [NZ(rd), NZ(sh), ("not", {8: 1, 7: 0, 9: 0, 10: 0, 11: 0})])
    NOP("HINT C.LUI", "011 - 00000 ----- 01", [NZ(sh)])
    C("C.SRLI", "SRLI", "I", "100 - 00 --- ----- 01", {"rd": rs1p, "rs1": rs1p, "imm": sh}, [NZ(sh)])
    C("C.SRAI", "SRAI", "I", "100 - 01 --- ----- 01", {"rd": rs1p, "rs1": rs1p, "imm": sh}, [NZ(sh)])
    # shift by zero (C.SRLI64 / C.SRAI64): a no-op in every version
    NOP("C.SRLI64", "100 0 00 --- 00000 01", always=True)
    NOP("C.SRAI64", "100 0 01 --- 00000 01", always=True)
    C("C.ANDI", "ANDI", "I", "100 - 10 --- ----- 01", {"rd": rs1p, "rs1": rs1p, "imm": ci})
    for n, top, f2 in (("SUB", "0", "00"), ("XOR", "0", "01"), ("OR", "0", "10"), ("AND", "0", "11"), ("SUBW", "1", "00"), ("ADDW", "1", "01")):
        C("C." + n, n, "R", "100 " + top + " 11 --- " + f2 + " --- 01", {"rd": rs1p, "rs1": rs1p, "rs2": rdp})
    C("C.J", "JAL", "U", "101 ----------- 01", {"rd": 0, "imm": ["0", 3, 4, 5, 11, 2, 7, 6, 9, 10, 8, ("s", 12)]})
    for n, t in (("BEQ", "110"), ("BNE", "111")):
        C("C.%sZ" % n, n, "S", t + " --- --- ----- 01", {"rs1": rs1p, "rs2": 0, "imm": ["0", 3, 4, 10, 11, 2, 5, 6, ("s", 12)]})
    C("C.SLLI", "SLLI", "I", "000 - ----- ----- 10", {"rd": rd, "rs1": rd, "imm": sh}, [NZ(rd), NZ(sh)])
    NOP("HINT C.SLLI rd=0", "000 - 00000 ----- 10")
    NOP("HINT C.SLLI 0", "000 0 ----- 00000 10", [NZ(rd)])
    C("C.LWSP", "LW" + ver, "I", "010 - ----- ----- 10", {"rd": rd, "rs1": 2, "imm": ["0", "0", 4, 5, 6, 12, 2, 3]}, [NZ(rd)])
    C("C.LDSP", "LD" + ver, "I", "011 - ----- ----- 10", {"rd": rd, "rs1": 2, "imm": ["0", "0", "0", 5, 6, 12, 2, 3, 4]}, [NZ(rd)])
    C("C.SWSP", "SW", "S", "110 ------ ----- 10", {"rs1": 2, "rs2": rs2c, "imm": ["0", "0", 9, 10, 11, 12, 7, 8]})
    C("C.SDSP", "SD", "S", "111 ------ ----- 10", {"rs1": 2, "rs2": rs2c, "imm": ["0", "0", "0", 10, 11, 12, 7, 8, 9]})
    C("C.JR", "JALR" + ver, "I", "100 0 ----- 00000 10", {"rd": 0, "rs1": rd, "imm": 0}, [NZ(rd)])
    C("C.MV", "ADD", "R", "100 0 ----- ----- 10", {"rd": rd, "rs1": 0, "rs2": rs2c}, [NZ(rd), NZ(rs2c)])
    NOP("HINT C.MV", "100 0 00000 ----- 10", [NZ(rs2c)])
    C("C.EBREAK", "EBREAK", "-", "100 1 00000 00000 10", {})
    C("C.JALR", "JALR" + ver, "I", "100 1 ----- 00000 10", {"rd": 1, "rs1": rd, "imm": 0}, [NZ(rd)])
    C("C.ADD", "ADD", "R", "100 1 ----- ----- 10", {"rd": rd, "rs1": rd, "rs2": rs2c}, [NZ(rd), NZ(rs2c)])
    NOP("HINT C.ADD", "100 1 00000 ----- 10", [NZ(rs2c)])
    return out
