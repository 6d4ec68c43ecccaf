"""C13: what a decoded block contains."""
from facts import Program
import asmpart
import blockhost
import report
from loops import *
from tracehost import judge_trace

LEVEL = "other"


def run(ctx):
    p = Program()
    trials = 3000 if ctx.thorough else 400
    every = lambda h, r, name: {"": TRUE}

    def quiet(h, r, name):
        return {"": (band(bnot(mop_v0()), eq(V("pauseb", 8), K(0, 8)), eq(V("reset_signal", 1), K(0, 1))), ("block ", "event history", "result"))}
    jobs = [lambda c: blockhost.fixed(c, p, every, trials), lambda c: blockhost.longblock(c, p, every, trials, (1, 2, 3, 5, 9) if ctx.thorough else (1, 2, 3, 5)),
            lambda c: blockhost.grown(c, p, every, trials), lambda c: judge_trace(c, p, quiet, trials)]
    jobs += [lambda c, d=d: blockhost.prepare(c, p, d, every, trials) for d in blockhost.DECS]
    report.pmap(ctx, lambda c, j: jobs[j](c), list(range(len(jobs))))
    blockhost.layout(ctx, p)
    asmpart.handlers(ctx, p, {"frame"}, ops=lambda o: False, traces={"cycles", "frame"})
    ctx.explanation = HOW + " Block decoders are run on an opaque instruction decoder; the reference collects the same instructions. Continuation blocks and their raw layout are followed word by word."
    ctx.rules = ["consecutive instructions from the block's address, up to and including the first block end or 16", "length and (checked) cost are the sums", "one end marker (or one jump to the continuation) behind the last instruction", "the continuation starts where the first part ends"]
    ctx.trusted = TRUST


if __name__ == "__main__":
    pass
