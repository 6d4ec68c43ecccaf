"""C24: the initial stack."""
from facts import Program
import report
import stack

LEVEL = "other"


def run(ctx):
    p = Program()
    trials = 6000 if ctx.thorough else 1500
    jobs = [(stack.run, n, v) for n in range(5 if ctx.thorough else 4) for v in range(3)]
    jobs += [(lambda c, p, n, v, t: stack.run(c, p, n, v, t, 32), n, v) for n in range(3) for v in range(2)]
    jobs += [(stack.program, asm, nh, meta) for asm in (False, True) for nh in range(3) for meta in (False, True)]
    report.pmap(ctx, lambda c, j: j[0](c, p, *j[1:], trials), jobs)
    ctx.explanation = ("The value graph of initialize_stack (MIR, 64-bit registers; memory as a functional byte array, stores that leave memory fail) for 0 to 3 "
                       "arguments of symbolic length and content, compared with the calling convention at a symbolic probe byte and register; load_program on both machines.")
    ctx.rules = ["version 1 and later: sp 16-byte aligned, [sp] = argc, then argc pointers to NUL-terminated copies, then a null pointer", "version 0: 4-byte values at a stride of 8, unaligned",
                 "load_program: load, initialise handlers and debugger, then the stack in the top quarter of memory; sizes added", "returned size = top - sp; arguments that do not fit give MemOutOfStack"]
    ctx.trusted = ["rustc MIR construction", "sa/prims.py, sa/memworld.py", "the stack area reads as zero beforehand (C11)"]
