"""C05: AArch64 handlers compute the reference effect of their opcode."""
from facts import Program
from terms import *
from asmcheck import *
import report
import shutil
import subprocess

LEVEL = "other"


def run(ctx):
    p = Program()
    try:
        eng = A64Engine(p, ctx)
    except Unsupported as e:
        return ctx.und("AArch64 engine", e)
    src = preprocess(REPO, eng.source)
    cc = shutil.which("clang")
    if cc is None:
        ctx.und("assembles", "no assembler for AArch64")
    else:
        r = subprocess.run([cc, "--target=aarch64-linux-gnu", "-x", "assembler", "-c", "-", "-o", "/dev/null"], input=src, capture_output=True, text=True)
        ctx.check(r.returncode == 0, "assembles", eng.source, "the AArch64 assembler rejects it: " + r.stderr[:400], how="assembler")
    ops = [op for op in eng.ops if spec.form(op) is not None and op not in ("CUSTOM_TRACE_END", "CUSTOM_ASM_TRACE_JUMP")]
    trials = 2000 if ctx.thorough else 300

    def one(c, op):
        try:
            judge_op(c, eng, op, c.seed, trials)
        except Unsupported as e:
            c.und(op, e)
    report.pmap(ctx, one, ops)
    try:
        judge_traces(ctx, eng, ctx.seed, trials)
    except Unsupported as e:
        ctx.und("block transitions", e)
    ctx.rules = ["outcome, registers, memory, reservation, pc and error of every handler are those of the reference instruction",
                 "every access is inside guest memory or a known structure", "pointers and callee-saved registers survive",
                 "block transitions: checks, cycles and pc as defined"]
    ctx.explanation = ("execute_aarch64.S is preprocessed, assembled once (syntax and ranges) and lifted instruction by instruction to value "
                       "graphs; each handler is compared with the same reference as the x86-64 engine and the interpreter.")
    ctx.trusted = ["sa/a64.py: semantics of the AArch64 instructions used", "sa/spec.py", "AAPCS64 for the call of inited_memory", "gcc preprocessor, clang assembler"]
