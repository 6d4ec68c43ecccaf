"""C20: loading ELF files."""
from facts import Program
import elfload
import report

LEVEL = "other"


def run(ctx):
    p = Program()
    trials = 6000 if ctx.thorough else 1500
    jobs = [("load", t, v) for t in ([], [1], [3], [1, 1], [2, 1], [1, 0x6474e551]) + (([1, 1, 1], [1, 4, 1]) if ctx.thorough else ()) for v in range(3)]
    jobs += [("asm", t, v) for t in ([1], [1, 1]) for v in range(3)]
    jobs += [("parse", n, v) for n in range(4 if ctx.thorough else 3) for v in range(3)]

    jobs += [("parse32", 1, v) for v in range(2)]

    def one(c, j):
        if j[0] == "parse32":
            elfload.parse(c, p, j[1], j[2], trials, 32)
        elif j[0] == "parse":
            elfload.parse(c, p, j[1], j[2], trials)
        else:
            elfload.load(c, p, j[1], j[2], trials, j[0] == "asm")
    report.pmap(ctx, one, jobs)
    ctx.explanation = ("The value graphs of parse_elf and of the whole of load_elf (MIR) on a file of symbolic length and content, for up to two program headers "
                       "(three when thorough) with arbitrary fields as returned by the external parser: what is rejected, and exactly which pages are initialised with which "
                       "flags and which bytes of the file at which offset, in which order, the program counter and the returned size.")
    ctx.rules = ["only PT_LOAD headers are placed", "address = page of p_vaddr, size = whole pages covering p_memsz, offset = p_vaddr within its page",
                 "rejected: file range outside the file, unreadable, writable and executable", "executable -> executable and frozen; read-only -> frozen; writable -> neither (version 0: frozen)",
                 "version 0: the byte range in front of the segment in its first page is zeroed", "entry point becomes the program counter when asked"]
    ctx.trusted = ["rustc MIR construction", "sa/prims.py, sa/memworld.py", "goblin's header parsing is external: its results are arbitrary values", "files shorter than 2^62 bytes"]
