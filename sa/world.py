"""Abstract machine in which instruction handlers (Rust MIR) are interpreted, and their comparison with spec.py."""
from terms import *
from mirexec import *
import memworld
import spec
from spec import S

REG = "instructions::register::Register"
CM = "machine::CoreMachine::"
MC = "machine::Machine::"
ME = "memory::Memory::"
OREGS, OMEM, OPC, ONPC, OLR = ("O", "regs"), ("O", "mem"), ("O", "pc"), ("O", "npc"), ("O", "lr")
MEMFAIL = 99     # pseudo variant index of errors raised by the memory model
CALLFAIL = 98


def merr(tag):
    return En(MEMFAIL, {MEMFAIL: ()}, "error::Error")


def result(ok, v, err):
    return En(zext(bnot(ok), 64), {0: (v,), 1: (err,)}, RES)


def error_codes(prog):
    a = prog.adt("error::Error")
    return {v["name"]: i for i, v in enumerate(a["variants"])}


class World:
    def __init__(self, prog, regbits=64):
        self.p = prog
        self.codes = error_codes(prog)
        self.regty = "u%d" % regbits
        self.bits = regbits
        self.selected = {}
        self.impl = {}
        for (tr, m), lst in prog.impl_methods.items():
            for st, f in lst:
                if st == self.regty:
                    self.impl[(tr, m)] = f
        consts = {}
        for n, c in prog.vm.consts.items():
            if n.startswith("<%s as %s>::" % (self.regty, REG)) and "bits" in c:
                consts[(REG, n.rsplit("::", 1)[1])] = int(c["bits"])
        self.trait_consts = consts
        self.hooks = self.mkhooks()
        self.calls = []

    def select(self, x, st, info, args, f):
        tr = info["trait"]
        if tr == REG:
            g = self.impl.get((tr, info["name"]))
            return g if g is not None else self.p.trait_defaults.get((tr, info["name"]))
        return None

    def mkhooks(self):
        def pc(x, st, a, i, f, t):
            return Ref(OPC)

        def update_pc(x, st, a, i, f, t):
            st.env[ONPC] = x.term(st, a[1], self.bits)
            return UNIT

        def commit_pc(x, st, a, i, f, t):
            st.env[OPC] = st.env[ONPC]
            return UNIT

        def registers(x, st, a, i, f, t):
            return Ref(OREGS, (), K(32, 64))

        def set_register(x, st, a, i, f, t):
            ix = x.term(st, a[1], 64)
            st.panic = bor(st.panic, bnot(ult(ix, K(32, 64))))
            v = zext(x.term(st, a[2], self.bits), 64)
            # the model is the bare register file: hard-wiring x0 is the handlers' business
            st.env[OREGS] = rw(st.env[OREGS], ex(4, 0, ix), v)
            return UNIT

        def memory(x, st, a, i, f, t):
            return Ref(("O", "memobj"))

        def version(x, st, a, i, f, t):
            return V("version", 32)

        def isa(x, st, a, i, f, t):
            return V("isa", 8)

        def load(n):
            def h(x, st, a, i, f, t):
                ad = zext(x.term(st, a[1], self.bits), 64)
                v = mld(st.env[OMEM], n, ad)
                v = zext(v, self.bits) if v.w <= self.bits else trunc(v, self.bits)
                return result(uf("ld_ok%d" % n, 1, ad), v, merr("ld"))
            return h

        def store(n):
            def h(x, st, a, i, f, t):
                ad = zext(x.term(st, a[1], self.bits), 64)
                v = x.term(st, a[2], self.bits)
                ok = uf("st_ok%d" % n, 1, ad)
                st.env[OMEM] = aite(ok, mst(st.env[OMEM], n, ad, trunc(v, 8 * n) if v.w >= 8 * n else zext(v, 8 * n)), st.env[OMEM])
                return result(ok, UNIT, merr("st"))
            return h

        def msize(x, st, a, i, f, t):
            return V("memsize", 64)

        def lr(x, st, a, i, f, t):
            return Ref(OLR)

        def set_lr(x, st, a, i, f, t):
            st.env[OLR] = x.term(st, a[1], self.bits)
            return UNIT

        def sysc(nm):
            def h(x, st, a, i, f, t):
                st.env[("O", "calls")] = bor(st.env[("O", "calls")], K(1 if nm == "ecall" else 2, 8))
                # the callee may change anything; only that it is reached with the right state matters here
                st.env[("O", "callpc")] = st.env[OPC]
                return result(uf(nm + "_ok", 1), UNIT, En(CALLFAIL, {CALLFAIL: ()}, "error::Error"))
            return h
        h = {CM + "pc": pc, CM + "update_pc": update_pc, CM + "commit_pc": commit_pc, CM + "registers": registers,
             CM + "set_register": set_register, CM + "memory": memory, CM + "memory_mut": memory,
             CM + "version": version, CM + "isa": isa, ME + "memory_size": msize, ME + "lr": lr, ME + "set_lr": set_lr,
             MC + "ecall": sysc("ecall"), MC + "ebreak": sysc("ebreak"), "unknown": memworld.unknown}
        for n in (1, 2, 4, 8):
            h[ME + "load%d" % (8 * n)] = load(n)
            h[ME + "store%d" % (8 * n)] = store(n)
        return h

    def executor(self, **kw):
        x = Exec(self.p, hooks=self.hooks, unroll=kw.pop("unroll", 70), consts=self.trait_consts,
                 method_select=self.select, **kw)
        x.regw = self.bits
        return x

    def fresh(self):
        st = St()
        st.env[OREGS] = arr_var("regs")
        st.env[OMEM] = arr_var("mem")
        st.env[OPC] = V("pc", self.bits)
        st.env[ONPC] = V("npc0", self.bits)
        st.env[OLR] = V("lr", self.bits)
        st.env[("O", "memobj")] = Opq("memobj")
        st.env[("O", "machine")] = Opq("machine")
        st.env[("O", "calls")] = K(0, 8)
        return st

    def spec_state(self, st, npc):
        return S(st.env[OREGS], st.env[OMEM], st.env[OPC], npc, st.env[OLR], V("memsize", 64))

    # ---- instruction words
    def operands(self, op, fm):
        """symbolic operands of an opcode: what decoding can put in each field"""
        o = {}
        rg = lambda n: V(n, 5)
        if fm == "R":
            o = {"rd": rg("rd"), "rs1": rg("rs1"), "rs2": rg("rs2")}
        elif fm == "I":
            if op in spec.SH6 and self.bits == 64:
                im = zext(V("shamt6", 6), 64)
            elif op in spec.SH5 or op in spec.SH6:
                im = zext(V("shamt5", 5), 64)
            else:
                im = sext(V("imm12", 12), 64)
            o = {"rd": rg("rd"), "rs1": rg("rs1"), "imm": im}
        elif fm == "S":
            im = sext(cat(V("imm12", 12), K(0, 1)), 64) if op in spec.BRANCH else sext(V("imm12", 12), 64)
            o = {"rs1": rg("rs1"), "rs2": rg("rs2"), "imm": im}
        elif fm == "U":
            if op in ("LUI", "AUIPC"):
                im = sext(cat(V("imm20", 20), K(0, 12)), 64)
            elif op == "JAL":
                im = sext(cat(V("imm20", 20), K(0, 1)), 64)
            elif op == "CUSTOM_LOAD_UIMM":
                im = zext(V("imm32", 32), 64)
            else:
                im = sext(V("imm32", 32), 64)
            o = {"rd": rg("rd"), "imm": im}
        elif fm in ("R4", "R5"):
            o = {"rd": rg("rd"), "rs1": rg("rs1"), "rs2": rg("rs2"), "rs3": rg("rs3")}
            if fm == "R5":
                o["rs4"] = rg("rs4")
        return o

    def word(self, x, st, opnum, op, fm, o):
        """the instruction word, built by the repository's own constructors"""
        opk = K(opnum, 16)
        r = lambda k: zext(o[k], 64)
        if fm == "N":
            w = x.run_fn(st, "instructions::blank_instruction", [opk])
        elif fm == "R":
            w = x.run_fn(st, "instructions::Rtype::new", [opk, r("rd"), r("rs1"), r("rs2")])
        elif fm == "I":
            if op in spec.SH5 or op in spec.SH6:
                w = x.run_fn(st, "instructions::Itype::new_u", [opk, r("rd"), r("rs1"), trunc(o["imm"], 32)])
            else:
                w = x.run_fn(st, "instructions::Itype::new_s", [opk, r("rd"), r("rs1"), trunc(o["imm"], 32)])
        elif fm == "S":
            w = x.run_fn(st, "instructions::Stype::new_s", [opk, trunc(o["imm"], 32), r("rs1"), r("rs2")])
        elif fm == "U":
            if op == "CUSTOM_LOAD_UIMM":
                w = x.run_fn(st, "instructions::Utype::new", [opk, r("rd"), trunc(o["imm"], 32)])
            else:
                w = x.run_fn(st, "instructions::Utype::new_s", [opk, r("rd"), trunc(o["imm"], 32)])
        elif fm == "R4":
            w = x.run_fn(st, "instructions::R4type::new", [opk, r("rd"), r("rs1"), r("rs2"), r("rs3")])
        elif fm == "R5":
            w = x.run_fn(st, "instructions::R5type::new", [opk, r("rd"), r("rs1"), r("rs2"), r("rs3"), r("rs4")])
        return x.term(st, w, 64)

    def err_of(self, r):
        """(code, address) of a Result<(), Error>"""
        code = lambda v: K(v, 8)
        if not isinstance(r, En):
            raise Unsupported("result %r" % (r,))
        ok = eq(r.vidx, K(0, 64))
        if 1 not in r.v or r.v[1][0] is UNDEF:
            return K(0, 8), K(0, 64)
        e = r.v[1][0]
        if not isinstance(e, En):
            raise Unsupported("error value %r" % (e,))
        tab = {self.codes["MemOutOfBound"]: spec.E_OOB, self.codes["InvalidOp"]: spec.E_INVOP, MEMFAIL: spec.E_MEM,
               CALLFAIL: spec.E_ECALL}
        c = K(255, 8)
        for k, v in tab.items():
            c = ite(eq(e.vidx, K(k, 64)), K(v, 8), c)
        ad = K(0, 64)
        m = e.v.get(self.codes["MemOutOfBound"])
        if m and isinstance(m[0], T):
            ad = ite(eq(e.vidx, K(self.codes["MemOutOfBound"], 64)), m[0], K(0, 64))
        return ite(ok, K(0, 8), c), ite(ok, K(0, 64), ad)


class World32(World):
    def __init__(self, prog):
        super().__init__(prog, 32)


def opcodes(prog):
    """name -> number from the definitions crate, in table order"""
    d = {}
    for n, c in prog.defs.consts.items():
        if n.startswith("instructions::OP_") and "bits" in c:
            d[n[len("instructions::OP_"):]] = int(c["bits"])
    return d
