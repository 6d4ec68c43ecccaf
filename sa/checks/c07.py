"""C07: out-of-range accesses are refused, in-range ones are not, and nothing outside the range changes."""
import memprops

LEVEL = "other"


def run(ctx):
    memprops.judge(ctx, {"bounds"}, asm={"bounds"})
    ctx.rules = ["success implies the whole range lies in memory (no wrap-around), failure outside reports MemOutOfBound", "no byte outside the range changes", "no host region is indexed out of range", "a range inside memory is not refused for bounds"]
