"""C12: cycle limits."""
from facts import Program
import asmpart
from loops import *

LEVEL = "other"


def run(ctx):
    p = Program()
    obs = ("result", "cycles", "event history", "error payload", "success reported", "max_cycles")

    def groups(h, r, name):
        g = band(bnot(mop_v0()), eq(V("pauseb", 8), K(0, 8)), eq(V("reset_signal", h.widths["reset_signal"]), K(0, h.widths["reset_signal"])))
        if h.asm:
            c = bor(*[eq(h.rets[0], K(RET[n], 8)) for n in ("MAX_CYCLES", "CYCLES_OVERFLOW")])
            return {"": (band(g, c), obs)}
        return {"": (g, obs)}
    judge_loops(ctx, p, groups, {"interpreter step", "interpreter run loop", "assembly run loop", "assembly step", "block interpreter loop"})
    judge_loops(ctx, p, lambda h, r, n: {"limit after a system call": (bnot(eq(rr(arr_var("regs"), K(17, 5)), K(93, 64))), ("result", "cycles", "success reported"))}, {"environment call"})
    asmpart.handlers(ctx, p, set(), traces={"cycles"})
    ctx.explanation = HOW + " The assembly engine's block entry is lifted from the .S source: it must add the block's recorded cost, refuse overflow and excess before storing the counter and before the first instruction of the block."
    ctx.rules = ["cost added before the instruction (block) takes effect", "overflow: CyclesOverflow, above the limit: CyclesExceeded, counter unchanged, nothing executed"]
    ctx.trusted = TRUST + ["sa/x64.py (x86 semantics)"]
