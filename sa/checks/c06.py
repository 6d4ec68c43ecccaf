"""C06: a fused operation is the composition of the instructions it replaces."""
import panics
import itertools
import random
from facts import Program
from mirexec import *
from terms import *
from world import *
from bdd import BDD, Blast
import containers
import equiv
import report
import spec
from spec import S

LEVEL = "proof"
NMAX = 5


def bit_order():
    """interleaved so that adders stay linear"""
    o = {"pc": [], "imm12.1": [], "imm20.0": []}
    n = 0
    for i in range(64):
        for nm, w, sh in (("pc", 64, 0), ("imm12.1", 12, 0), ("imm20.0", 20, 12)):
            if sh <= i < sh + w:
                o[nm].append(n)
                n += 1
    return o


ORDER = bit_order()


def operands(w, op, fm, k, sub):
    """symbolic operands of instruction k; sub maps operand names to representatives"""
    o = w.operands(op, fm)
    out = {}
    for n, t in o.items():
        if n == "imm":
            out[n] = rename(t, k)
        else:
            nm = "%s.%d" % (n, k)
            s = sub.get(nm, nm)
            out[n] = K(s, 5) if isinstance(s, int) else V(s, 5)
    return out


def rename(t, k):
    if t.op == "v":
        return V("%s.%d" % (t.a[0], k), t.w)
    if t.op == "cat":
        return cat(*[rename(x, k) for x in t.a])
    if t.op == "sext":
        return sext(rename(t.a[0], k), t.w)
    return t


def len_term(k):
    """2 or 4"""
    return cat(V("wide.%d" % k, 1), bnot(V("wide.%d" % k, 1)), K(0, 1))


class Fuse:
    def __init__(self, ctx, p, version):
        self.ctx, self.p, self.version = ctx, p, version
        self.ver = version if isinstance(version, T) else K(version, 32)
        self.w = World(p)
        self.ops = opcodes(p)
        self.name = {n: o for o, n in self.ops.items()}
        dec = [g for s, g in p.impl_methods.get(("decoder::InstDecoder", "decode"), []) if s == "decoder::Decoder"]
        if not dec:
            raise Unsupported("no Decoder::decode")
        self.entry = dec[0]
        raw = p.fn("decoder::Decoder::decode_raw")
        if raw is None:
            raise Unsupported("no decode_raw")
        self.raw = raw["path"]

    def executor(self, words, lens, st0):
        """words[k]: instruction word terms; raw decoding at pc + len0 + .. + len(k-1) yields words[k]"""
        pcs = []
        a = st0.env[OPC]
        for k in range(len(words)):
            pcs.append(a)
            a = add(a, zext(lens[k], 64))
        self.stray = []

        def raw(x, st, args, i, f, t):
            pc = x.term(st, args[2], 64)
            for k, q in enumerate(pcs):
                if q is pc:
                    return result(V("ok.%d" % k, 1), words[k], merr("fetch"))
            self.stray.append(pc)
            return result(uf("strayok", 1, pc), uf("stray", 64, pc), merr("fetch"))
        w = self.w
        w.hooks = dict(World(self.p).hooks)
        w.hooks.update(containers.HOOKS)
        w.hooks[self.raw] = raw
        return w.executor()

    def decode(self, words, lens):
        st = self.w.fresh()
        x = self.executor(words, lens, st)
        r = x.run_fn(st, "decoder::build_decoder", [K(2, 8), self.ver])
        # the repository's MOP flag
        mop = [int(c["bits"]) for n, c in self.p.defs.consts.items() if n.endswith("ISA_MOP") and "bits" in c]
        if mop:
            r = x.run_fn(st, "decoder::build_decoder", [K(mop[0], 8), self.ver])
        st.env[("O", "dec")] = r
        r = x.run_fn(st, self.entry["path"], [Ref(("O", "dec")), Ref(("O", "memobj")), st.env[OPC]])
        self.st = st
        if not isinstance(r, En):
            raise Unsupported("decode result")
        word = r.v[0][0]
        return x, st, eq(r.vidx, K(0, 64)), word

    def mkword(self, op, k, sub):
        fm = spec.form(op)
        x = World(self.p).executor()
        st = self.w.fresh()
        o = operands(self.w, op, fm, k, sub)
        wd = self.w.word(x, st, self.ops[op], op, fm, o)
        wd = x.term(st, x.run_fn(st, "instructions::set_instruction_length_n", [wd, zext(len_term(k), 8)]), 64)
        return wd, o, fm

    def head(self, op):
        """explore fusion of sequences starting with op; returns list of opcode tuples that may fuse"""
        lens = [zext(len_term(0), 8)] + [zext(len_term(k), 8) for k in range(1, NMAX)]
        w0, o0, fm = self.mkword(op, 0, {})
        tuples = [(op,)]
        final = []
        while tuples:
            tup = tuples.pop()
            words = []
            for k, o in enumerate(tup):
                words.append(self.mkword(o, k, {})[0])
            for k in range(len(tup), NMAX):
                # any instruction: opaque word with a known length nibble
                words.append(self.anyword(k))
            x, st, ok, word = self.decode(words, lens)
            nxt = set()
            k = len(tup)
            if k < NMAX:
                nxt = self.opconsts([ok, word], k)
            final.append((tup, x, st, ok, word))
            for c in nxt:
                n = self.name.get(c)
                if n and spec.form(n):
                    tuples.append(tup + (n,))
        return final

    def anyword(self, k):
        w = V("w%d" % k, 64)
        return cat(ex(63, 28, w), zext(ex(2, 1, zext(len_term(k), 8)), 4), ex(23, 0, w))

    def opconsts(self, ts, k):
        w = self.anyword(k)
        opx = cat(ex(23, 16, w), ex(7, 0, w))
        out = set()
        for at in equiv.atoms(ts):
            if at.op != "eq" or not isk(at.a[1]):
                continue
            if at.a[0] is opx:
                out.add(kv(at.a[1]))
                continue
            l = [v for v in leaves(at.a[0])]
            if any((v is V("w%d" % k, 64)) or (isinstance(v, str) and v == "w%d" % k) for v in l):
                # an opcode test in another shape: try every opcode constant
                for n in self.name:
                    if n == kv(at.a[1]) & 0xffff or n & 0xff == kv(at.a[1]):
                        out.add(n)
        return out


def values(t, cands, under):
    """candidates t can take under a condition (atoms taken as independent), or None if it can be something else"""
    b = BDD()
    bl = Blast(b, {})
    bits = bl.bits(t)
    u = bl.one(under)
    out = set()
    rest = u
    for c in cands:
        e = u
        for i, x in enumerate(bits):
            e = b.band(e, x if c >> i & 1 else b.neg(x))
        if e:
            out.add(c)
            rest = b.band(rest, b.neg(e))
    return out if rest == 0 else None


def paths(cond, limit=4000):
    """assignments of atoms under which cond holds (paths of its decision diagram)"""
    dd = equiv.DD()
    n = dd.build(cond)
    inv = {i: t for t, i in dd.order.items()}
    out = []

    def go(n, asg):
        if len(out) > limit:
            return
        if n[0] == "l":
            if n[1] is TRUE:
                out.append(dict(asg))
            return
        for s in (1, 0):
            asg[n[1]] = s
            go(n[2] if s else n[3], asg)
            del asg[n[1]]
    go(n, {})
    return [{inv[i]: v for i, v in a.items()} for a in out]


def unify(asg):
    """substitution from the positive equalities between register fields; None when contradictory"""
    par = {}

    def find(a):
        while par.get(a, a) != a:
            a = par[a]
        return a
    neg = []
    for at, v in asg.items():
        if at.op != "eq":
            continue
        a, b = at.a
        na = a.a[0] if a.op == "v" else kv(a) if isk(a) else None
        nb = b.a[0] if b.op == "v" else kv(b) if isk(b) else None
        if na is None or nb is None or a.w != 5:
            continue
        if v:
            ra, rb = find(na), find(nb)
            if ra != rb:
                if isinstance(ra, int) and isinstance(rb, int):
                    return None
                if isinstance(ra, int):
                    ra, rb = rb, ra
                par[ra] = rb
        else:
            neg.append((na, nb))
    for a, b in neg:
        if find(a) == find(b):
            return None
    return {a: find(a) for a in par}


def run(ctx):
    p = Program()
    allops = opcodes(p)
    heads = [o for o in allops if spec.form(o) and o not in spec.INVALID and not is_fused(o)]
    try:
        fzs = {v: Fuse(ctx, p, v) for v in (1, 2)}
    except Unsupported as e:
        ctx.und("fusion", e)
        return
    where = "%s (%s)" % ("decoder::Decoder::decode_mop", (p.fn("decoder::Decoder::decode_mop") or fzs[1].entry)["span"])

    def explore(c, item):
        version, op = item
        try:
            return [f[0] for f in fzs[version].head(op)]
        except (Unsupported, KeyError, AttributeError) as e:
            c.und("v%d %s" % (version, op), e)
            return []

    def single(c, item):
        version, tup = item
        fz = fzs[version]
        nf = {}
        try:
            lens = [zext(len_term(k), 8) for k in range(NMAX)]
            words = [fz.mkword(o, k, {})[0] for k, o in enumerate(tup)] + [fz.anyword(k) for k in range(len(tup), NMAX)]
            x, st, ok, word = fz.decode(words, lens)
            one(c, fz, version, where, tup, x, st, ok, word, nf)
        except (Unsupported, KeyError, AttributeError) as e:
            c.und("v%d %s" % (version, "+".join(tup)), e)
        if nf:
            c.extra["fused_sequences"] = nf
    items = [(v, op) for v in (1, 2) for op in heads]
    tups = []
    for (v, op), ts in zip(items, report.pmap(ctx, explore, items)):
        tups += [(v, t) for t in ts or []]
    tups.sort(key=lambda t: -len(t[1]))
    ctx.extra["fused_sequences"] = {}
    report.pmap(ctx, single, tups)
    ctx.extra["sequences_examined"] = len(tups)
    ctx.rules = ["effect(fused word) == effect(I0;I1;..) for all operands under the fusion condition",
                 "when not fused, the first instruction is returned unchanged", "fused length == sum of lengths",
                 "decoding succeeds iff the first instruction decodes"]
    ctx.explanation = ("decode() with fusion enabled is turned into a value graph over symbolic next instructions (opcode "
                       "constants it tests are enumerated from the graph itself); for every opcode sequence that can fuse, "
                       "each register-aliasing class of the fusion condition is substituted and the fused operation's effect "
                       "compared with the sequential composition of the reference effects.")
    ctx.trusted = ["rustc MIR construction", "sa/spec.py", "sa/prims.py, sa/containers.py"]


def is_fused(o):
    return o.startswith(("WIDE_", "FAR_JUMP", "CUSTOM_", "ADD3")) or o in ("ADC", "SBB", "ADCS", "SBBS")


def word_operands(fz, op, word):
    """operands of a decoded word through the repository's accessors"""
    fm = spec.form(op)
    x = World(fz.p).executor()
    st = fz.w.fresh()
    st.env[("O", "w")] = Agg((word,))
    ty = {"R": "Rtype", "I": "Itype", "S": "Stype", "U": "Utype", "R4": "R4type", "R5": "R5type"}.get(fm)
    o = {}
    if ty is None:
        return o
    for f in {"R": ("rd", "rs1", "rs2"), "I": ("rd", "rs1"), "S": ("rs1", "rs2"), "U": ("rd",),
              "R4": ("rd", "rs1", "rs2", "rs3"), "R5": ("rd", "rs1", "rs2", "rs3", "rs4")}[fm]:
        o[f] = ex(4, 0, x.term(st, x.run_fn(st, "instructions::%s::%s" % (ty, f), [Ref(("O", "w"))])))
    if fm in ("I", "S", "U"):
        acc = "immediate_u" if op == "CUSTOM_LOAD_UIMM" else "immediate_s"
        im = x.term(st, x.run_fn(st, "instructions::%s::%s" % (ty, acc), [Ref(("O", "w"))]))
        o["imm"] = (zext if acc[-1] == "u" else sext)(im, 64)
    return o


def wordop(fz, word):
    x = World(fz.p).executor()
    st = fz.w.fresh()
    return (x.term(st, x.run_fn(st, "instructions::extract_opcode", [word]), 16),
            x.term(st, x.run_fn(st, "instructions::instruction_length", [word]), 8))


def seq_state(fz):
    st = fz.w.fresh()
    return S(st.env[OREGS], st.env[OMEM], st.env[OPC], st.env[OPC], st.env[OLR], V("memsize", 64))


class Edge(equiv.Draw):
    """immediates at the ends of their range, conditions mostly true, addresses low"""

    def __call__(self, name, w):
        r = self.rng
        if w == 1:
            return int(r.random() < .85)
        if w == 64:
            return r.getrandbits(r.choice((12, 32, 61)))
        if r.random() < .6:
            return r.choice((0, mask(w), 1 << (w - 1), (1 << (w - 1)) - 1))
        return r.getrandbits(w)


def one(ctx, fz, version, where, tup, x, st, ok, word, nfused):
    what = "v%d %s" % (version, "+".join(tup))
    n = len(tup)
    # the remaining instructions are "anything else": their opcode differs from every constant tested, which makes the
    # graph's deeper fusions belong to the longer tuples
    rest = TRUE
    for k in range(n, NMAX):
        w = fz.anyword(k)
        opx = cat(ex(23, 16, w), ex(7, 0, w))
        for c in fz.opconsts([ok, word], k):
            rest = band(rest, ne(opx, K(c, 16)))
    op, ln = wordop(fz, word)
    if panics.ON:       # nothing decodes outside memory (C01), which ends far below 2^62
        rest = band(rest, bor(bnot(V("ok.0", 1)), ult(V("pc", 64), K(1 << 62, 64))))
    vs = equiv.compare([("result", ok, V("ok.0", 1)), ("panic", st.panic, FALSE), ("loop", st.cut, FALSE)], rest, (ctx.seed, what), 200)
    if panics.ON:
        cond = band(rest, st.panic)
        if vs["panic"].kind == "agreed":
            subs = {}
            for a in paths(cond):
                s = unify(a)
                if s:
                    subs[tuple(sorted((k, str(v)) for k, v in s.items()))] = s
            for s in list(subs.values())[:60]:
                m = {V(k, 5): V(v, 5) if isinstance(v, str) else K(v, 5) for k, v in s.items()}
                c = subst(cond, m)
                if c is FALSE:
                    continue
                rng = random.Random(repr((ctx.seed, what, len(m))))
                for _ in range(600):
                    v = equiv.Val(rng.getrandbits(32), Edge(rng))
                    if v.ev(c):
                        vs["panic"] = equiv.Verdict("differs", ("panic", dict(v.vars), 1, 0, v), 1)
                        break
        return verdicts(ctx, what, where, vs)
    head, _, _ = fz.mkword(tup[0], 0, {})
    num0 = fz.ops[tup[0]]
    fs = values(op, sorted(fz.name), band(rest, V("ok.0", 1)))
    if fs is None:
        raise Unsupported("opcode of the result is not a choice of constants")
    isf = FALSE
    for c in fs:
        if c != num0:
            isf = bor(isf, eq(op, K(c, 16)))
    under0 = band(rest, V("ok.0", 1), bnot(isf))
    vs.update(equiv.compare([("unfused", word, head)], under0, (ctx.seed, what, 0), 300))
    verdicts(ctx, what, where, vs)
    for c in sorted(fs - {num0}):
        cond = band(rest, V("ok.0", 1), eq(op, K(c, 16)))
        ps = paths(cond)
        if len(ps) > 3900:
            raise Unsupported("too many fusion conditions")
        subs = {}
        for a in ps:
            s = unify(a)
            if s is not None:
                subs[tuple(sorted((k, str(v)) for k, v in s.items()))] = s
        fop = fz.name.get(c)
        if fop is None or not spec.form(fop):
            ctx.bad(what + "/op%d" % c, where, "%s fuses into unknown operation %#x" % (what, c))
            continue
        for s in subs.values():
            fused(ctx, fz, version, where, tup, c, fop, s, nfused)


def verdicts(ctx, what, where, vs):
    for k, v in vs.items():
        if v.kind == "differs":
            _, asg, a, b, _ = v.detail
            ctx.bad("%s/%s" % (what, k), where, "%s: %s is %s, expected %s; e.g. for %s" % (
                what, k, equiv.hexval(a), equiv.hexval(b), {n: hex(q) for n, q in sorted(asg.items())[:14]}))
        else:
            ctx.ok("%s/%s" % (what, k), {"normal": "identical normal form", "diagram": "identical decision diagram",
                                         "agreed": "random interpretation only"}[v.kind])


def fused(ctx, fz, version, where, tup, c, fop, sub, nfused):
    what = "v%d %s -> %s" % (version, "+".join(tup), fop)
    lens = [zext(len_term(k), 8) for k in range(NMAX)]
    words, os_ = [], []
    for k, o in enumerate(tup):
        w, od, fm = fz.mkword(o, k, sub)
        words.append(w)
        os_.append(od)
    for k in range(len(tup), NMAX):
        words.append(fz.anyword(k))
    x, st, ok, word = fz.decode(words, lens)
    rest = TRUE
    for k in range(len(tup), NMAX):
        w = fz.anyword(k)
        opx = cat(ex(23, 16, w), ex(7, 0, w))
        for cc in fz.opconsts([ok, word], k):
            rest = band(rest, ne(opx, K(cc, 16)))
    op, ln = wordop(fz, word)
    cond = band(rest, V("ok.0", 1), eq(op, K(c, 16)))
    if cond is FALSE:
        return
    if not paths_nonempty(cond):
        return
    # how many instructions does it stand for?
    n = None
    acc = K(0, 8)
    for k in range(NMAX):
        acc = add(acc, lens[k])
        if k >= 1:
            v = equiv.compare([("len", ln, acc)], cond, (ctx.seed, what, "len"), 200)["len"]
            if v.kind != "differs":
                n = k + 1
                break
    if n is None or n > len(tup):
        ctx.bad(what + "/length", where, "%s: the fused length is not the length of a prefix of the sequence" % what)
        return
    nfused[what] = nfused.get(what, 0) + 1
    base = V("pc", 64)
    s = seq_state(fz)
    oks = TRUE
    for k in range(n):
        s.npc = add(s.pc, zext(lens[k], 64))
        spec.step(tup[k], os_[k], s)
        s.pc = s.npc
        oks = band(oks, V("ok.%d" % k, 1))
    f = seq_state(fz)
    f.npc = add(f.pc, zext(acc, 64))
    spec.step(fop, word_operands(fz, fop, word), f)
    q = V("probe", 5)
    u = band(cond, ne(q, K(0, 5)))
    seed = (ctx.seed, what, repr(sorted(sub.items(), key=str)))
    trials = 3000 if ctx.thorough else 600
    order = ORDER if len(tup) == 2 else None

    def obs(s):
        return [("registers", rr(f.regs, q), rr(s.regs, q)), ("memory", f.mem, s.mem), ("next pc", f.npc, s.npc),
                ("reservation", f.lr, s.lr), ("error", f.err, s.err)]
    split = quirk_split(version, tup, fop, os_)
    vs = {}
    if split is None:
        vs = equiv.compare(obs(s), u, seed, trials, order)
    else:
        exact, keeps, wraps = split
        if exact is not FALSE:
            vs = equiv.compare(obs(s), band(u, exact), seed, trials, order)
        qs = quirk_state(fz, tup, os_, acc)
        for key, c in (("v1-far-jump-keeps-rd", keeps), ("v1-far-jump-wraps", wraps)):
            if c is FALSE:
                continue
            vq = equiv.compare(obs(qs), band(u, c), seed, trials, order)
            vs.update({"%s, %s" % (k, key): v for k, v in vq.items()})
            if not any(v.kind == "differs" for v in vq.values()):
                ctx.bad(key, where, "%s: %s" % (what, QUIRKS[key]))
    vs.update(equiv.compare([("all fetched", oks, TRUE)], cond, (ctx.seed, what, "f"), 300))
    rules = spec.operand_rules(fop, word_operands(fz, fop, word))
    vs.update(equiv.compare([("register conditions of the assembly handler", rules, TRUE)], cond, (ctx.seed, what, "r"), 300))
    verdicts(ctx, what, where, vs)


def paths_nonempty(cond):
    try:
        return bool(paths(cond, 1))
    except OverflowError:
        return True


QUIRKS = {
    "v1-far-jump-keeps-rd": "version 1 fuses AUIPC/LUI rd + JALR ra,rd even when rd is not ra, and then never writes rd",
    "v1-far-jump-wraps": "version 1 adds the two immediates of a fused far jump in 32 bits",
}


def quirk_split(version, tup, fop, os_):
    """conditions under which the version-1 far jump must be the exact composition, keeps rd, wraps; None elsewhere"""
    if version != 1 or not fop.startswith("FAR_JUMP") or len(tup) != 2:
        return None
    tot = add(os_[0]["imm"], os_[1]["imm"])
    fits = eq(sext(ex(31, 0, tot), 64), tot)
    same = eq(os_[0]["rd"], K(1, 5))
    return band(same, fits), band(bnot(same), fits), bnot(fits)


def quirk_state(fz, tup, os_, length):
    """what the version-1 far jump does instead: link in ra, jump to the 32-bit sum of the immediates"""
    s = seq_state(fz)
    tot = sext(ex(31, 0, add(os_[0]["imm"], os_[1]["imm"])), 64)
    s.regs = rw(s.regs, K(1, 5), add(s.pc, zext(length, 64)))
    s.npc = band(add(s.pc, tot) if tup[0] == "AUIPC" else tot, K((1 << 64) - 2, 64))
    return s
