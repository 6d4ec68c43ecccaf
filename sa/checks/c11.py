"""C11: memory of the assembly engine that was not written reads as zero."""
import memprops

LEVEL = "other"


def run(ctx):
    memprops.judge(ctx, {"init", "cache", "reset"}, asm={"init", "cache"}, impls=("Asm",))
    ctx.rules = ["the logical content of memory (0 where the surrounding frame was never touched) changes only where it is written", "a frame is zeroed before it is marked as touched", "the cached frame number only names touched frames", "reset makes every frame untouched"]
