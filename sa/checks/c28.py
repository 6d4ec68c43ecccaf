"""C28: every reason for which the assembly engine returns gets its outcome."""
from facts import Program
import loops
from loops import *

LEVEL = "other"


def run(ctx):
    p = Program()

    def groups(h, r, name):
        if name == "assembly step":
            return {"": TRUE}
        return {"": bnot(mop_v0())}
    judge_loops(ctx, p, groups, {"assembly run loop", "assembly step"})
    ctx.explanation = HOW + " The return code is an arbitrary byte, so known and unknown reasons are covered in one graph; two engine calls in a row are analysed for the run loop."
    ctx.rules = ["decode, system call, breakpoint, continue, limit and overflow errors, faults carrying error_arg0, slow path at pc - 4, pause", "an unknown reason is Error::Asm with that code"]
    ctx.trusted = TRUST
