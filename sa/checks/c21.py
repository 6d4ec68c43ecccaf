"""C21: frozen pages are never re-initialised."""
import memprops

LEVEL = "other"


def run(ctx):
    memprops.judge(ctx, {"frozen"}, impls=("WX", "Asm"), ops=("init_pages",))
    ctx.rules = ["success implies an aligned range inside memory without frozen page and an offset inside the range", "failure reports the matching error, naming a frozen page of the range", "after success every page of the range carries the flags and holds the data surrounded by zeroes; other pages keep theirs"]
