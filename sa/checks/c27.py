"""C27: cached blocks and cached instructions are used only for the address they were decoded at."""
from facts import Program
import asmpart
import blockhost
import deccache
import report
from loops import *
from tracehost import judge_trace

LEVEL = "other"


def run(ctx):
    p = Program()
    trials = 3000 if ctx.thorough else 400
    every = lambda h, r, name: {"": TRUE}

    def quiet(h, r, name):
        return {"": band(bnot(mop_v0()), eq(V("pauseb", 8), K(0, 8)), eq(V("reset_signal", 1), K(0, 1)))}
    jobs = [lambda c: judge_trace(c, p, quiet, trials), lambda c: deccache.run(c, p, trials), lambda c: blockhost.longblock(c, p, every, trials, (1, 2)),
            lambda c: blockhost.fixed(c, p, lambda h, r, n: {"": (TRUE, ("block address", "event history", "result"))}, trials)]
    jobs += [lambda c, d=d: blockhost.prepare(c, p, d, every, trials) for d in blockhost.DECS]
    report.pmap(ctx, lambda c, j: jobs[j](c), list(range(len(jobs))))
    asmpart.handlers(ctx, p, set(), traces={"cached"})
    ctx.explanation = HOW + " Tables and caches are symbolic under their invariant (the entry for an address holds what was decoded at that address), which every operation must preserve; the assembly engine's lookup is lifted from the .S source."
    ctx.rules = ["run a cached block only if its address equals pc (32-bit comparison below version 2) and it is not empty", "otherwise decode at pc into slot (pc/4) mod 8192 and run that", "caches: an entry is returned only for the address it was made for"]
    ctx.trusted = TRUST + ["sa/x64.py (x86 semantics)"]
