"""C18: data-source snapshots record and restore every page and register."""
import report
import snaphost
from facts import Program

LEVEL = "other"


def run(ctx):
    p = Program()
    t = 3000 if ctx.thorough else 800
    jobs = [("make", n) for n in ((0, 1, 2, 3, 4) if ctx.thorough else (0, 1, 2, 3))]
    jobs += [("resume", a, b) for a, b in (((0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2)) if ctx.thorough else ((0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2)))]
    jobs += [("op", k, 1) for k in ("store_bytes", "track_pages", "untrack_pages", "mark_program")] + [("op", "mark_program", 2), ("op", "mark_program", 0), ("serde",)]

    def one(c, j):
        if j[0] == "make":
            snaphost.make2(c, p, j[1], t)
        elif j[0] == "resume":
            snaphost.resume2(c, p, j[1], j[2], t)
        elif j[0] == "op":
            snaphost.ctxop(c, p, j[1], t, j[2])
        else:
            snaphost.serde(c, p, snaphost.S2)
    report.pmap(ctx, one, jobs)
    ctx.explanation = ("Each operation of Snapshot2Context is evaluated symbolically from its MIR: the memory as functional arrays of bytes and flags, the table of tracked pages as a functional map, "
                       "the data source as an uninterpreted function. Tracking must enter exactly the pages wholly inside the stored range, with their offset into the source and flags; stores must drop "
                       "them; a snapshot must list each modified page and each tracked unmodified page exactly once; resuming must restore contents, flags, tracking and processor state.")
    ctx.rules = ["tracked pages after an operation == pages wholly inside the range (plus earlier ones outside it)", "snapshot entries cover exactly the modified and the tracked unmodified pages, however they are grouped",
                 "resumed contents, flags, tracking, registers, pc, cycles, limit and reservation == the snapshot's", "every field is serialised"]
    ctx.trusted = ["rustc MIR construction", "sa/prims.py, sa/memworld.py", "Memory methods behave as C07..C11 establish", "HashMap is a map; a DataSource answers the same request with the same bytes"]
    ctx.assumptions = ["ranges inside the memory of at most 2 pages (3 for segments), offsets below 2^62", "flags of a tracked page do not change while it is unmodified"]
