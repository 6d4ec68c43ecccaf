"""C08: writes only to pages that are not executable, fetches only from pages that are."""
import memprops

LEVEL = "other"


def run(ctx):
    memprops.judge(ctx, {"perm", "flags", "cache"}, asm={"perm", "flags", "cache"})
    ctx.rules = ["success of a write implies no touched page is executable", "success of a fetch implies every touched page is executable", "a refused write changes nothing on the refusing page", "memory calls leave the flags of pages alone that they do not name", "the cached page numbers of the assembly engine only name writable pages"]
