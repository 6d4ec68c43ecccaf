"""C10: every memory implementation is one flat zero-initialised little-endian byte array."""
import memprops

LEVEL = "other"


def run(ctx):
    memprops.judge(ctx, {"content", "frame"}, asm={"frame"})
    ctx.rules = ["a load returns the bytes of the reference array, zero-extended", "a store changes exactly the addressed bytes to the stored ones", "bulk calls transfer exactly the requested range", "init_pages leaves the data surrounded by zeroes"]
