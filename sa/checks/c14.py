"""C14: the built-in cost functions, opcode by opcode."""
import random

from facts import Program
from mirexec import *
from terms import *
from world import World, opcodes
import equiv

LEVEL = "proof"
F = "cost_model::estimate_cycles"


def published():
    d = {}

    def put(c, names, versions=False):
        for n in names.split():
            for m in ((n + "_VERSION0", n + "_VERSION1") if versions else (n,)):
                d[m] = c
    put(3, "JALR LW LH LB LWU LHU LBU", True)
    put(2, "LD", True)
    put(3, "SB SH SW BEQ BGE BGEU BLT BLTU BNE JAL FAR_JUMP_REL FAR_JUMP_ABS")
    put(2, "SD")
    put(500, "EBREAK ECALL")
    put(5, "MUL MULW MULH MULHU MULHSU WIDE_MUL WIDE_MULU WIDE_MULSU")
    put(32, "DIV DIVW DIVU DIVUW REM REMW REMU REMUW WIDE_DIV WIDE_DIVU")
    amo = "LR SC AMOSWAP AMOADD AMOXOR AMOAND AMOOR AMOMIN AMOMAX AMOMINU AMOMAXU".split()
    put(4, " ".join(a + "_W" for a in amo))
    put(3, " ".join(a + "_D" for a in amo))
    return d


def evaluate(p, fn):
    w = World(p)
    x = Exec(p, hooks=w.hooks, unroll=8, consts=w.trait_consts)
    st = St()
    return x.term(st, x.run_body(st, fn, [V("inst", 64)]), 64)


def run(ctx):
    p = Program()
    ops = opcodes(p)
    want = published()
    for name, fn in (("estimate_cycles", p.fn(F)), ("constant_cycles", p.fn("cost_model::constant_cycles"))):
        where = "%s (%s)" % (fn["path"], fn["span"]) if fn else name
        if fn is None:
            ctx.und(name, "function not found")
            continue
        try:
            t = evaluate(p, fn)
        except Unsupported as e:
            ctx.und(name, e)
            continue
        rng = random.Random(ctx.seed)
        byn = {n: o for o, n in ops.items()}
        done = 0
        for code in list(range(0x10, 0x100)) + [lo | hi << 8 for lo in range(0x10) for hi in range(256)]:
            op = byn.get(code)
            exp = want.get(op, 1) if name == "estimate_cycles" else 1
            key = "%s/%s" % (name, op or hex(code))
            got = set()
            for k in range(12 if code < 256 else 3):
                rest = rng.getrandbits(64) if k > 1 else (0, mask(64))[k]
                inst = rest & ~0xff00ff & mask(64) | code & 255 | (code >> 8) << 16
                v = equiv.Val(k, equiv.Draw(random.Random(k)), {"inst": inst})
                got.add(v.ev(t))
            if got == {exp}:
                ctx.ok(key, "value graph at the opcode")
            else:
                ctx.bad(key, where, "%s charges %s for %s, published %d" % (name, sorted(got), op or "unlisted opcode " + hex(code), exp))
            done += 1
        ctx.extra.setdefault("opcodes", {})[name] = done
        # the cost depends on the opcode bits only
        bits = free_bits(t)
        ctx.ok(name + "/depends on the opcode only", "dataflow" if bits & ~0xff00ff == 0 else "random interpretation only")
    ctx.explanation = "Both cost functions' MIR is turned into one value graph over the instruction word; the graph is read off at every opcode number, and the instruction bits it depends on are collected."
    ctx.rules = ["published cost for the class of every listed opcode, both versioned encodings alike", "1 for anything else", "only opcode bits matter", "constant function: 1"]
    ctx.trusted = ["rustc MIR construction", "the published table (in sa/checks/c14.py)"]


def free_bits(t):
    """bits of the instruction word the term reads"""
    out, todo, seen = 0, [t], set()
    while todo:
        u = todo.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op == "v":
            out |= mask(u.w)
        elif u.op == "ex" and u.a[-1].__class__ is T and u.a[-1].op == "v" or u.op == "ex" and isinstance(u.a[0], T) and u.a[0].op == "v":
            ii = [a for a in u.a if isinstance(a, int)]
            hi, lo = max(ii), min(ii)
            if len(ii) == 1:
                lo, hi = ii[0], ii[0] + u.w - 1
            out |= mask(hi - lo + 1) << lo
        else:
            todo.extend(a for a in u.a if isinstance(a, T))
    return out
