"""C01: the decoder, as a function of the 32 instruction bits, is the encoding table."""
from facts import Program
from mirexec import *
from terms import *
from world import *
from bdd import BDD, Blast
import containers
import equiv
import isa

LEVEL = "proof"
ISA_NAMES = {0: "IMC", 1: "IMC+B", 2: "IMC+MOP", 4: "IMC+A"}

# diagram variable order: the bits that select the operation first
ORDER = [0, 1, 6, 5, 4, 3, 2, 14, 13, 12, 15, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 11, 10, 9, 8, 7, 19, 18, 17, 16]
POS = {b: i for i, b in enumerate(ORDER)}


class Table:
    """conditions and field values of the encoding rows as diagrams"""

    def __init__(self, b):
        self.b = b
        self.x = [b.v(POS[i]) for i in range(32)]
        self.cache = {}

    def cond(self, r):
        b = self.b
        c = 1
        for i in range(32):
            if r.mask >> i & 1:
                c = b.band(c, self.x[i] if r.match >> i & 1 else b.neg(self.x[i]))
        for kind, arg in r.cond:
            if kind == "nz":
                o = 0
                for i in arg:
                    o = b.bor(o, self.x[i])
                c = b.band(c, o)
            elif kind == "z":
                for i in arg:
                    c = b.band(c, b.neg(self.x[i]))
            elif kind == "not":
                o = 1
                for i, v in arg.items():
                    o = b.band(o, self.x[i] if v else b.neg(self.x[i]))
                c = b.band(c, b.neg(o))
        return c

    def field(self, spec, w):
        if isinstance(spec, int):
            return [spec >> i & 1 for i in range(w)]
        out = []
        for s in spec:
            if s == "0" or s == "1":
                out.append(int(s))
            elif isinstance(s, tuple):
                while len(out) < w:
                    out.append(self.x[s[1]])
            else:
                out.append(self.x[s])
        return (out + [0] * w)[:w]


ACC = {"R": {"rd": "rd", "rs1": "rs1", "rs2": "rs2"}, "I": {"rd": "rd", "rs1": "rs1", "imm": "immediate_s"},
       "S": {"rs1": "rs1", "rs2": "rs2", "imm": "immediate_s"}, "U": {"rd": "rd", "imm": "immediate_s"}}
TY = {"R": "Rtype", "I": "Itype", "S": "Stype", "U": "Utype"}


def views(x, st, word):
    """every accessor of every instruction form applied to the word, by the repository's own code"""
    out = {"op": x.run_fn(st, "instructions::extract_opcode", [word]),
           "len": x.run_fn(st, "instructions::instruction_length", [word])}
    for fm, accs in ACC.items():
        for fld, acc in accs.items():
            v = x.run_fn(st, "instructions::%s::%s" % (TY[fm], acc), [Ref(("O", "w"))])
            out[fm, fld] = x.term(st, v)
    return {k: (x.term(st, v) if not isinstance(v, T) else v) for k, v in out.items()}


def bitword(b, w):
    v = 0
    for i in range(32):
        if w.get(POS[i]):
            v |= 1 << i
    return v


def judge(ctx, what, where, rows, valid, vw, bl, tab, ops, under=1, exact=True):
    """valid: diagram of `decoded`; vw: accessor terms"""
    b = bl.b
    allc = 0
    bits = {k: bl.bits(v) for k, v in vw.items()}
    for r in rows:
        c = b.band(tab.cond(r), under)
        allc = b.bor(allc, c)
        nm = "%s/%s" % (what, r.name)
        miss = b.band(c, b.neg(valid))
        if miss:
            ctx.bad(nm, where, "%s: %s (e.g. word %#010x) is rejected" % (what, r.name, bitword(b, b.witness(miss))))
            continue
        num = ops[r.op]
        good = True
        checks = [("operation", bits["op"], [num >> i & 1 for i in range(len(bits["op"]))], ),
                  ("length", bits["len"], [r.length >> i & 1 for i in range(len(bits["len"]))])]
        for f, sp in r.fields.items():
            got = bits[r.form, f]
            n = 32 if f == "imm" else len(got)
            checks.append((f, got[:n], tab.field(sp, n)))
        for f, got, want in checks:
            d = 0
            for p, q in zip(got, want):
                d = b.bor(d, b.bxor(p, q))
            d = b.band(c, d)
            if d:
                w = b.witness(d)
                ctx.bad(nm + "/" + f, where, "%s: %s decodes to the wrong %s, e.g. word %#010x" % (what, r.name, f, bitword(b, w)))
                good = False
            else:
                ctx.ok(nm + "/" + f, "identical decision diagram")
    if exact:
        extra = b.band(b.band(valid, b.neg(allc)), under)
        if extra:
            ctx.bad(what + "/reject", where, "%s: word %#010x is accepted, the tables assign it no instruction" % (
                what, bitword(b, b.witness(extra))))
        else:
            ctx.ok(what + "/reject", "identical decision diagram")


def run(ctx):
    p = Program()
    ops = opcodes(p)
    w = World(p)
    w.hooks = dict(w.hooks)
    factories(ctx, p, w, ops)
    pipeline(ctx, p, w, ops)
    ctx.rules = ["for every 32-bit word: decoded <=> some table row matches, and opcode, length, registers, immediate equal the row's",
                 "build_decoder enables exactly the extensions of the ISA argument", "fetch: word or two halves, same bits"]
    ctx.explanation = ("Each decoder factory (MIR, callees inlined) becomes a function of the 32 instruction bits in canonical "
                       "decision-diagram form, compared with the encoding table over all 2^32 words; then the same for the whole "
                       "fetch-and-decode pipeline (build_decoder, decode_raw, decode_bits) for every ISA and version.")
    ctx.trusted = ["rustc MIR construction", "sa/isa.py (encoding tables)", "sa/prims.py, sa/containers.py (std models)", "sa/bdd.py"]


def decoded(x, st, r):
    """(valid term, word) of an Option<Instruction>"""
    return eq(r.vidx, K(1, 64)), r.v[1][0]


def factories(ctx, p, w, ops):
    for xlen, regty in ((64, "u64"), (32, "u32")):
        ww = World(p) if xlen == 64 else World32(p)
        for mod, ext in (("i", "I"), ("m", "M"), ("a", "A"), ("b", "B"), ("rvc", "C")):
            f = p.fn("instructions::%s::factory" % mod)
            if xlen == 32 and ext not in "IMAC":
                continue
            for v in (0, 1, 2):
                what = "%s_v%d" % (mod, v) + ("_rv32" if xlen == 32 else "")
                try:
                    if f is None:
                        raise Unsupported("factory not found")
                    x = ww.executor()
                    st = ww.fresh()
                    r = x.run_fn(st, f["path"], [V("bits", 32), K(v, 32)])
                    valid, word = decoded(x, st, r)
                    st.env[("O", "w")] = Agg((word,))
                    b = BDD()
                    bl = Blast(b, {"bits": [POS[i] for i in range(32)]})
                    vw = views(x, st, word)
                    tab = Table(b)
                    rs = [q for q in isa.rows(v, xlen) if q.ext == ext]
                    if xlen == 32:
                        rs = rv32(rs, v)
                    # a 32-bit encoding cannot start with a compressed quadrant, and the compressed factory is only
                    # asked about words whose upper half is clear
                    under = 1
                    if ext == "C":
                        for i in range(16, 32):
                            under = b.band(under, b.neg(tab.x[i]))
                        under = b.band(under, b.neg(b.band(tab.x[0], tab.x[1])))
                    else:
                        under = b.band(tab.x[0], tab.x[1])
                    if xlen == 32 and ext in "IC":
                        under = b.band(under, b.neg(free32(b, tab.x, ext)))
                    judge(ctx, what, "%s (%s)" % (f["path"], f["span"]), rs, bl.one(valid), vw, bl, tab, ops, under)
                    ctx.check(not bl.one(b1(st.panic)), what + "/panic", f["path"], "decoding can panic", how="decision diagram")
                except (Unsupported, KeyError, OverflowError, AttributeError) as e:
                    ctx.und(what, e)


def b1(t):
    return t


def rv32(rs, v):
    """RV32: no 64-bit rows, C.JAL instead of C.ADDIW; compressed shifts with shamt[5] set are reserved (unconstrained)"""
    out = []
    for r in rs:
        if r.name in ("C.LD", "C.SD", "C.ADDIW", "C.SUBW", "C.ADDW", "C.LDSP", "C.SDSP"):
            continue
        if r.name in ("C.SRLI", "C.SRAI", "C.SLLI"):
            r.cond = r.cond + [("z", [12])]
        out.append(r)
    if any(r.ext == "C" for r in out):
        out.append(isa.Row("C", "C.JAL", "JAL", "U", "001 ----------- 01", 2,
                           {"rd": 1, "imm": ["0", 3, 4, 5, 11, 2, 7, 6, 9, 10, 8, ("s", 12)]}))
    return out


def free32(b, x, ext):
    """reserved shift encodings of RV32"""
    if ext == "C":
        q1 = b.band(b.band(x[15], b.neg(x[14])), b.band(b.neg(x[13]), b.band(x[0], b.neg(x[1]))))
        q2 = b.band(b.neg(b.bor(x[15], b.bor(x[14], x[13]))), b.band(x[1], b.neg(x[0])))
        return b.band(x[12], b.bor(b.band(q1, b.neg(x[11])), q2))
    return b.band(x[25], b.band(x[12], b.band(b.neg(x[13]), b.band(b.neg(x[6]), x[4]))))


# ------------------------------------------------------------------ whole pipeline
def tcond(r, bits):
    """row condition as a term over the 32-bit word"""
    cs = []
    for i in range(32):
        if r.mask >> i & 1:
            cs.append(eq(ex(i, i, bits), K(r.match >> i & 1, 1)))
    for kind, arg in r.cond:
        if kind == "nz":
            cs.append(bor(*[ex(i, i, bits) for i in arg]))
        elif kind == "z":
            cs += [bnot(ex(i, i, bits)) for i in arg]
        else:
            cs.append(bnot(band(*[eq(ex(i, i, bits), K(v, 1)) for i, v in arg.items()])))
    return band(*cs)


def tfield(spec, w, bits):
    if isinstance(spec, int):
        return K(spec, w)
    ps = []
    for s in spec:
        if s == "0" or s == "1":
            ps.append(K(int(s), 1))
        elif isinstance(s, tuple):
            while len(ps) < w:
                ps.append(ex(s[1], s[1], bits))
        else:
            ps.append(ex(s, s, bits))
    ps = (ps + [K(0, 1)] * w)[:w]
    return cat(*reversed(ps))


class Expected:
    """spec of decoding as terms: valid, op, length and, per form, the fields that matter"""

    def __init__(self, rows, ops, bits):
        low = band(ex(0, 0, bits), ex(1, 1, bits))
        self.word = ite(low, bits, band(bits, K(0xffff, 32)))
        self.bits = bits
        self.rows = rows
        self.ops = ops
        # 16-bit rows look at the low half only
        self.c = []
        for r in rows:
            q = r
            if r.length == 2:
                q = isa.Row.__new__(isa.Row)
                q.mask, q.match, q.cond = r.mask & 0xffff, r.match & 0xffff, r.cond
            self.c.append(tcond(q, bits))
        self.valid = bor(*self.c)

    def sel(self, f, w, dflt=0):
        out = K(dflt, w)
        for r, c in zip(self.rows, self.c):
            v = f(r)
            if v is not None:
                out = ite(c, v, out)
        return out

    def has(self, form, fld):
        return bor(*([c for r, c in zip(self.rows, self.c) if r.form == form and fld in r.fields] or [FALSE]))

    def observables(self, vw):
        """[(name, got, want)] to be compared under `valid`"""
        out = [("operation", vw["op"], self.sel(lambda r: K(self.ops[r.op], vw["op"].w), vw["op"].w)),
               ("length", vw["len"], self.sel(lambda r: K(r.length, vw["len"].w), vw["len"].w))]
        for fm, accs in ACC.items():
            for fld in accs:
                h = self.has(fm, fld)
                got = vw[fm, fld]
                w = got.w
                want = self.sel(lambda r: tfield(r.fields[fld], w, self.bits) if r.form == fm and fld in r.fields else None, w)
                out.append(("%s.%s" % (fm, fld), ite(h, got, K(0, w)), ite(h, want, K(0, w))))
        return out


OB = {"bits": [POS[i] for i in range(32)]}


class Fetch:
    """code memory: the word at `pc` is `bits`; its two halves lie on pages with executable flags xA (first) and xB"""

    def __init__(self, w, pcs):
        self.w = w
        self.pcs = pcs      # [(pc term, bits term, tag)]
        self.other = []

    def _half(self, a):
        for pc, bits, tag in self.pcs:
            if a is pc:
                return ex(15, 0, bits), V("xA" + tag, 1)
            if a is add(pc, K(2, 64)):
                last = eq(ex(11, 0, pc), K(0xffe, 12))
                return ex(31, 16, bits), ite(last, V("xB" + tag, 1), V("xA" + tag, 1))
        self.other.append(a)
        return uf("stray16", 16, a), uf("strayok", 1, a)

    def hooks(self):
        def l16(x, st, a, i, f, t):
            ad = x.term(st, a[1], 64)
            v, ok = self._half(ad)
            rw_ = x.width(f["crate"].ty(t["dty"])["args"] and f["crate"].ty(f["crate"].ty(t["dty"])["args"][0])) or 16
            return result(ok, zext(v, rw_), merr("fetch"))

        def l32(x, st, a, i, f, t):
            ad = x.term(st, a[1], 64)
            v, ok = self._half(ad)
            v2, ok2 = self._half(add(ad, K(2, 64)))
            return result(band(ok, ok2), cat(v2, v), merr("fetch"))
        return {ME + "execute_load16": l16, ME + "execute_load32": l32}

    def spec_ok(self, k):
        """may the word be fetched?"""
        pc, bits, tag = self.pcs[k]
        wide = band(ex(0, 0, bits), ex(1, 1, bits))
        last = eq(ex(11, 0, pc), K(0xffe, 12))
        return band(V("xA" + tag, 1), bor(bnot(wide), bnot(last), V("xB" + tag, 1)))


def pc_of(tag):
    return cat(V("pgn" + tag, 52), V("off" + tag, 11), K(0, 1))


def build(x, st, isa_bits, version):
    r = x.run_fn(st, "decoder::build_decoder", [K(isa_bits, 8), K(version, 32)])
    st.env[("O", "dec")] = r
    return r


def pipeline(ctx, p, w, ops):
    f = p.fn("decoder::Decoder::decode_raw")
    where = "decoder::Decoder::decode_raw (%s)" % (f["span"] if f else "?")
    consts = {n.rsplit("::", 1)[-1]: int(c["bits"]) for n, c in p.defs.consts.items() if n.rsplit("::", 1)[-1].startswith("ISA_") and "bits" in c}
    A, B = consts.get("ISA_A", 4), consts.get("ISA_B", 1)
    dec = [g for st_, g in p.impl_methods.get(("decoder::InstDecoder", "decode"), []) if st_ == "decoder::Decoder"]
    for ib, exts in ((0, "IMC"), (A, "IMCA"), (B, "IMCB"), (A | B, "IMCAB")):
        for v in (0, 1, 2):
            what = "pipeline isa=%s v%d" % (exts, v)
            try:
                if not dec:
                    raise Unsupported("no Decoder::decode")
                pc = pc_of("")
                bits = V("bits", 32)
                fe = Fetch(w, [(pc, bits, "")])
                w.hooks = dict(World(p).hooks)
                w.hooks.update(containers.HOOKS)
                w.hooks.update(fe.hooks())
                x = w.executor()
                st = w.fresh()
                build(x, st, ib, v)
                r = x.run_fn(st, dec[0]["path"], [Ref(("O", "dec")), Ref(("O", "memobj")), pc])
                rs = [q for q in isa.rows(v) if q.ext in exts]
                sp = Expected(rs, ops, bits)
                inb = ult(pc, V("memsize", 64))
                fok = fe.spec_ok(0)
                ok = eq(r.vidx, K(0, 64))
                word = r.v[0][0]
                st.env[("O", "w")] = Agg((word,))
                vw = views(x, st, word)
                order = dict(OB)
                n = 32
                for nm, wd in (("off", 11), ("xA", 1), ("xB", 1)):
                    order[nm] = list(range(n, n + wd))
                    n += wd
                und_ = bnot(eq(pc, K(mask(64), 64)))
                e = r.v[1][0]
                kinds = e.vidx if isinstance(e, En) else K(0, 64)
                inv = w.codes["InvalidInstruction"]
                want_kind = ite(inb, ite(fok, K(inv, 64), K(MEMFAIL, 64)), K(w.codes["MemOutOfBound"], 64))
                good = band(inb, fok, sp.valid)
                order2 = dict(order)
                vs = equiv.compare([("decoded", ok, good), ("panic", st.panic, FALSE)], und_, (ctx.seed, what), 400, order)
                vs.update(equiv.compare([("error kind", kinds, want_kind)], band(und_, bnot(good)), (ctx.seed, what), 400, order))
                vs.update(equiv.compare(sp.observables(vw), band(und_, good), (ctx.seed, what, 1), 400, order))
                if isinstance(e, En) and inv in e.v:
                    epc = next((t for t in e.v[inv] if isinstance(t, T) and t.w == 64), None)
                    ew = next((t for t in e.v[inv] if isinstance(t, T) and t.w == 32), None)
                    if epc is not None and ew is not None:
                        vs.update(equiv.compare([("reported pc", epc, pc), ("reported word", ew, sp.word)],
                                                band(und_, inb, fok, bnot(sp.valid)), (ctx.seed, what, 2), 400, order))
                verdicts(ctx, what, where, vs)
            except (Unsupported, KeyError, AttributeError, IndexError) as ee:
                ctx.und(what, ee)


def verdicts(ctx, what, where, vs):
    for k, v in vs.items():
        if v.kind == "differs":
            _, asg, a, b, _ = v.detail
            ctx.bad("%s/%s" % (what, k), where, "%s: %s is %s, expected %s; e.g. for %s" % (
                what, k, equiv.hexval(a), equiv.hexval(b), {n: hex(q) for n, q in sorted(asg.items())[:10]}))
        else:
            ctx.ok("%s/%s" % (what, k), {"normal": "identical normal form", "diagram": "identical decision diagram",
                                         "agreed": "random interpretation only"}[v.kind])
