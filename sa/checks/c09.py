"""C09: every written page is dirty."""
import memprops

LEVEL = "other"


def run(ctx):
    memprops.judge(ctx, {"dirty", "cache"}, asm={"dirty", "cache"})
    ctx.rules = ["after a successful write of at least one byte every touched page carries the dirty mark", "a byte that changes lies on a dirty page", "no write clears a dirty mark", "the cached page numbers of the assembly engine only name dirty pages"]
