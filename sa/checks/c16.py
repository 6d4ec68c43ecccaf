"""C16: pause requests."""
from facts import Program
import asmpart
from loops import *

LEVEL = "other"


def run(ctx):
    p = Program()

    def groups(h, r, name):
        g0 = bnot(mop_v0()) if name != "assembly step" else TRUE
        if h.asm:
            hit = eq(h.rets[0], K(RET["PAUSE"], 8))
            return {"engine reports a pause": band(g0, hit), "engine reports something else": (band(g0, bnot(hit)), ("pause reported",))}
        req = bnot(eq(V("pauseb", 8), K(0, 8)))
        return {"requested": band(g0, req), "not requested": (band(g0, bnot(req)), ("pause reported",))}
    judge_loops(ctx, p, groups, {"interpreter run loop", "assembly run loop", "assembly step", "block interpreter loop"})
    asmpart.handlers(ctx, p, set(), traces={"pause"})
    ctx.explanation = HOW + " The assembly engine's block transitions are lifted from the .S source and must return PAUSE exactly when the flag they read is set, before dispatching the next block."
    ctx.rules = ["request pending at the loop head: clear it, return Pause, change nothing else", "never Pause without a request", "engine: taken transfers return PAUSE when the flag is set, with the program counter committed"]
    ctx.trusted = TRUST + ["sa/x64.py (x86 semantics)"]
