"""Properties about guest memory: which groups of obligations belong to which property."""
from facts import Program
import asmpart
import memcheck

TRUSTED = ["rustc MIR construction", "sa/prims.py and sa/memworld.py (meanings of core/alloc calls)", "sa/x64.py (instruction meanings)"]


def judge(ctx, groups, asm=None, impls=None, ops=None, asmops=None, p=None):
    p = p or Program()
    n = 0
    for I in memcheck.IMPLS:
        if impls and I.__name__ not in impls:
            continue
        try:
            im = I(p)
        except (memcheck.Unsupported, KeyError, AttributeError, TypeError) as e:
            ctx.und(I.__name__, e)
            continue
        memcheck.judge_memory(ctx, im, groups, ops)
        n += 1
    if asm:
        asmpart.handlers(ctx, p, asm, asmops)
    ctx.extra["memory_implementations"] = n
    ctx.trusted = TRUSTED
    ctx.explanation = (
        "Every memory call of every implementation (FlatMemory, SparseMemory, WXorXMemory over an abstract inner memory, the "
        "assembly engine's memory) is executed over the value graph of its MIR for a symbolic address, size, data and state, and "
        "compared at a symbolic probe byte and probe page with the reference byte array; page loops are unrolled to 5 "
        "iterations and states beyond are excluded. " + ("The assembly handlers are lifted from the .S source and judged by the same rule." if asm else ""))
    return p
