"""C17: a snapshot restores the suspended machine completely."""
import report
import snaphost
from facts import Program

LEVEL = "other"


def run(ctx):
    p = Program()
    t = 3000 if ctx.thorough else 600
    jobs = [("make", n) for n in ((0, 1, 2, 3) if ctx.thorough else (0, 1, 2))]
    jobs += [("resume", n) for n in ((0, 1, 2, 3, 4) if ctx.thorough else (0, 1, 2, 3))] + [("serde", 0)]
    jobs += [("make32", 1), ("resume32", 2)]

    def one(c, j):
        k, n = j
        if k == "make":
            snaphost.make1(c, p, n, t)
        elif k == "make32":
            snaphost.make1(c, p, n, t, 32)
        elif k == "resume32":
            snaphost.resume1(c, p, n, t, 32)
        elif k == "resume":
            snaphost.resume1(c, p, n, t)
        else:
            snaphost.serde(c, p, snaphost.S1)
    report.pmap(ctx, one, jobs)
    ctx.explanation = ("make_snapshot and resume are evaluated symbolically from their MIR on a machine with arbitrary registers and a memory given as functional arrays of bytes and page flags. "
                       "A snapshot must hold each page marked modified exactly once, with its flags and all 4096 bytes, and every register, pc, reservation and version; resuming must leave exactly "
                       "those values, leave all other pages alone and refuse another version.")
    ctx.rules = ["snapshot fields == machine state; saved pages == pages marked modified (count, index, flags, contents)", "resumed state == snapshot state; untouched pages unchanged",
                 "version mismatch gives InvalidVersion", "every field is serialised"]
    ctx.trusted = ["rustc MIR construction", "sa/prims.py, sa/memworld.py", "Memory methods behave as C07..C11 establish (contents, flags, modified mark)"]
    ctx.assumptions = ["a page not marked modified since loading is what loading the same program produces (C09)"]
