"""C25: environment calls and breakpoints."""
from facts import Program
import loops
from terms import *

LEVEL = "other"


def run(ctx):
    p = Program()
    for n in (0, 1, 2, 3):
        loops.judge_loops(ctx, p, lambda h, r, name: {"%d handlers" % n if name == "environment call" else "": TRUE}, {"environment call"} | ({"breakpoint"} if n == 2 else set()), handlers=n)
    ctx.explanation = loops.HOW + " Analysed with 0 to 3 registered handlers and with and without a debugger."
    ctx.rules = ["number 93 stops the machine with the low byte of a0", "handlers are offered the call in order until one accepts", "failures are propagated", "nobody accepts: InvalidEcall with the number", "after a handler accepted: CyclesExceeded when the counter is over the limit", "a breakpoint calls the debugger if present and is otherwise ignored"]
    ctx.trusted = loops.TRUST
