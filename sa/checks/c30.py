"""C30: what depends on the machine version, for every version."""
from facts import Program
from terms import *
from bdd import BDD, Blast
from world import World, opcodes
import equiv
import isa
import elfload
import loops
import report
import spec
import stack
from mirexec import *
from loops import *
from checks import c01, c02, c06
from asmcheck import judge_op
import asmpart

LEVEL = "other"
VERSIONS = (0, 1, 2, 3)
# which fused operation starts with which instruction, from which version on
FUSED = {("ADD", "ADC"): 1, ("SUB", "SBB"): 1, ("AUIPC", "FAR_JUMP_REL"): 1, ("LUI", "FAR_JUMP_ABS"): 1, ("LUI", "CUSTOM_LOAD_IMM"): 1,
         ("DIV", "WIDE_DIV"): 1, ("DIVU", "WIDE_DIVU"): 1, ("MULH", "WIDE_MUL"): 1, ("MULHU", "WIDE_MULU"): 1, ("MULHSU", "WIDE_MULSU"): 1,
         ("ADD", "ADD3A"): 2, ("ADD", "ADD3B"): 2, ("ADD", "ADD3C"): 2, ("ADD", "ADCS"): 2, ("SUB", "SBBS"): 2, ("AUIPC", "CUSTOM_LOAD_IMM"): 2}


def decode_any_version(ctx, p):
    """the decoders with the version as a symbol: version 0's table for 0, version 1's for all others"""
    ops = opcodes(p)
    w = World(p)

    def one(c, job):
        mod, ext = job
        what = "%s decoder, every version" % mod
        f = p.fn("instructions::%s::factory" % mod)
        try:
            if f is None:
                raise Unsupported("factory not found")
            x = w.executor()
            st = w.fresh()
            r = x.run_fn(st, f["path"], [V("bits", 32), V("version", 32)])
            valid, word = c01.decoded(x, st, r)
            st.env[("O", "w")] = Agg((word,))
            b = BDD()
            bl = Blast(b, {"bits": [c01.POS[i] for i in range(32)], "version": list(range(32, 64))})
            vw = c01.views(x, st, word)
            tab = c01.Table(b)
            pre = 1
            if ext == "C":
                for i in range(16, 32):
                    pre = b.band(pre, b.neg(tab.x[i]))
                pre = b.band(pre, b.neg(b.band(tab.x[0], tab.x[1])))
            else:
                pre = b.band(tab.x[0], tab.x[1])
            v0 = bl.one(eq(V("version", 32), K(0, 32)))
            for nm, v, cnd in (("version 0", 0, v0), ("versions 1 and up", 1, b.neg(v0))):
                c01.judge(c, what + "/" + nm, "%s (%s)" % (f["path"], f["span"]), [q for q in isa.rows(v, 64) if q.ext == ext], bl.one(valid), vw, bl, tab, ops,
                          b.band(pre, cnd))
        except (Unsupported, KeyError, OverflowError, AttributeError) as e:
            c.und(what, e)
    report.pmap(ctx, one, [("i", "I"), ("m", "M"), ("a", "A"), ("b", "B"), ("rvc", "C")])


def versioned_handlers(ctx, p):
    ops = opcodes(p)
    todo = sorted(o for o in ops if o.endswith(("VERSION0", "VERSION1")) and spec.form(o))
    w = World(p)
    engs = asmpart.engines(ctx, p)

    def one(c, op):
        try:
            x, st, s, code, ad, ok = c02.run_op(w, op, ops[op])
            c02.judge(c, op, c02.where_of(p, op), st, s, code, ad, ok, c.seed, 500)
        except Unsupported as e:
            c.und(op, e)
        for eng in engs:
            try:
                if op in eng.ops:
                    report.sub(c, lambda q: judge_op(q, eng, op, q.seed, 300), eng.prop)
            except Unsupported as e:
                c.und(eng.name + " " + op, e)
    report.pmap(ctx, one, todo)
    ctx.extra["versioned_operations"] = todo


def fusion_gates(ctx, p):
    c = report.sub(ctx, c06.run, "C06")
    seen = {}
    for k in c.extra.get("fused_sequences", {}):
        v, rest = k.split(" ", 1)
        seq, fop = rest.split(" -> ")
        seen.setdefault(int(v[1:]), set()).add((seq.split("+")[0], fop))
    where = "decoder::Decoder::decode_mop (%s)" % (p.fn("decoder::Decoder::decode_mop") or {"span": "?"})["span"]
    for v in (1, 2):
        opened = {w.split(" ")[1].split("+")[0] for w, _ in c.undecided if w.startswith("v%d " % v)}
        for (hd, fop), first in sorted(FUSED.items()):
            got = (hd, fop) in seen.get(v, ())
            if got != (first <= v):
                if not got and hd in opened:
                    ctx.und("fusion of %s into %s in version %d" % (hd, fop, v), "not decided by the fusion analysis")
                    continue
                ctx.bad("fusion/v%d/%s/%s" % (v, hd, fop), where, "in version %d a sequence starting with %s is %sfused into %s, which %s" % (
                    v, hd, "" if got else "not ", fop, "came with version 2" if got else "belongs to version %d" % first))
            else:
                ctx.ok("fusion/v%d/%s/%s" % (v, hd, fop), "rule")
        for hd, fop in sorted(seen.get(v, set()) - set(FUSED)):
            ctx.bad("fusion/v%d/%s/%s" % (v, hd, fop), where, "version %d fuses a sequence starting with %s into %s, which no version does" % (v, hd, fop))
    # one graph for all versions: every test on the version puts the boundary at 2 (1 is the lowest version that fuses)
    heads = sorted({h for h, _ in FUSED})

    def one(c2, op):
        what = "fusion gates for sequences starting with %s" % op
        try:
            fz = c06.Fuse(c2, p, V("version", 32))
            reps = set()
            for tup, x, st, ok, word in fz.head(op):
                reps |= boundaries([ok, word])
            c2.ok(what, "version tests enumerated")
            for r in sorted(reps | {3}):
                if r < 3:
                    continue
                a, b = c06.Fuse(c2, p, r).head(op), c06.Fuse(c2, p, 2).head(op)
                same = {t[0]: t[3:] for t in a} == {t[0]: t[3:] for t in b}
                if same:
                    c2.ok("%s/version %#x" % (what, r), "identical normal form")
                    continue
                da, db = {t[0]: t[3:] for t in a}, {t[0]: t[3:] for t in b}
                bad = set(da) != set(db)
                for t in set(da) & set(db):
                    vs = equiv.compare([("decoded", da[t][0], db[t][0]), ("word", da[t][1], db[t][1])], TRUE, (c2.seed, str(t)), 2000)
                    bad = bad or any(q.kind == "differs" for q in vs.values())
                if bad:
                    c2.bad("%s/version %#x" % (what, r), where, "version %d fuses sequences starting with %s differently from version 2" % (r, op))
                else:
                    c2.ok("%s/version %#x" % (what, r), "random interpretation only")
        except (Unsupported, KeyError, AttributeError) as e:
            c2.und(what, e)
    report.pmap(ctx, one, heads)


def boundaries(ts):
    """smallest version of every class the graph's tests on the version tell apart"""
    out = set()
    for at in equiv.atoms(ts):
        if not any(v is V("version", 32) or v == "version" for v in leaves(at)):
            continue
        ks = [kv(t) for t in at.a if isinstance(t, T) and isk(t)]
        if at.op not in ("eq", "ult", "slt") or len(ks) != 1:
            raise Unsupported("a test on the version that is no comparison with a constant")
        for k in ks:
            out |= {k, k + 1}
    return {v for v in out if 0 <= v < 1 << 32}


def run(ctx):
    p = Program()
    trials = 3000 if ctx.thorough else 600
    judge_loops(ctx, p, lambda h, r, n: {"fusion on version 0": mop_v0(), "fusion elsewhere": (bnot(mop_v0()), ("result", "event history"))}, {"interpreter run loop", "assembly run loop"})
    judge_loops(ctx, p, lambda h, r, n: {"": band(eq(V("pauseb", 8), K(0, 8)), eq(V("reset_signal", 1), K(0, 1)))}, {"block interpreter loop"})
    decode_any_version(ctx, p)
    versioned_handlers(ctx, p)
    jobs = [(stack.run, (n, v)) for n in range(3) for v in VERSIONS]
    jobs += [(elfload.load, (t, v)) for t in ([1], [1, 1]) for v in VERSIONS] + [(elfload.parse, (n, v)) for n in (1, 2) for v in VERSIONS]
    report.pmap(ctx, lambda c, j: report.sub(c, lambda q: j[0](q, p, *j[1], trials), "C24" if j[0] is stack.run else "C20") and None, jobs)
    fusion_gates(ctx, p)
    ctx.explanation = (HOW + " The instruction decoders are compared with the encoding tables with the version left symbolic (all 2^32 versions); the operations that exist once per version, "
                       "in the interpreter and in the x86-64 engine, with their own references; the fusion rules of versions 1 and 2 with the table of fused operations, and every test on the "
                       "version inside them enumerated; stack set-up and ELF loading for versions 0 to 3; the block interpreter's 32-bit address comparison below version 2.")
    ctx.rules = ["a machine of version 0 with macro-op fusion is refused with InvalidVersion before anything runs",
                 "version 0 decodes JALR and the loads to their version-0 operations and accepts version 0's compressed encodings; every other version the version-1 ones",
                 "version-0 loads cannot read the last byte of memory; version-0 JALR writes the link register first",
                 "ADC, SBB, WIDE_*, far jumps and LUI constants fuse from version 1 on; ADD3*, ADCS, SBBS and AUIPC constants from version 2 on",
                 "version 0 puts 4-byte values on an unaligned stack; later versions align and terminate argv", "version 0 freezes writable segments and clears the bytes in front of them",
                 "blocks are looked up by 32-bit address below version 2, by the whole address from version 2 on"]
    ctx.trusted = TRUST + ["sa/isa.py, sa/spec.py (reference tables)", "goblin's header parsing is external"]
