"""C04: x86-64 handlers compute the reference effect of their opcode."""
from facts import Program
from terms import *
from asmcheck import *
import report

LEVEL = "other"


def run(ctx):
    p = Program()
    eng = X64Engine(p, ctx)
    ops = [op for op in eng.ops if spec.form(op) is not None and op not in ("CUSTOM_TRACE_END", "CUSTOM_ASM_TRACE_JUMP")]
    trials = 2000 if ctx.thorough else 300

    def one(c, op):
        try:
            judge_op(c, eng, op, c.seed, trials)
        except Unsupported as e:
            c.und(op, e)
    report.pmap(ctx, one, ops)
    try:
        judge_traces(ctx, eng, ctx.seed, trials)
    except Unsupported as e:
        ctx.und("block transitions", e)
