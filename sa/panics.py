"""Panic conditions of the value graphs built by the other checks (used by C29).

While ON, the executor notes for every top-level run the condition under which it panics and the panicking constructs it
reached; the places where those checks compare a run with its reference demand instead that the condition is false."""
from terms import FALSE

ON = False
CONDS = []      # (function, block, condition) of the assertions met, wherever the run was
RUNS = []       # (function, condition) of the top-level runs since the last comparison
SITES = {}      # (function, block) of assertions and diverging calls -> number of executions
FNS = {}        # functions executed


def note(f, st, x):
    RUNS.append((f, st.panic))
    for k in x.inlined:
        FNS[k] = FNS.get(k, 0) + 1


def site(f, bb, c=None):
    k = "%s|%d" % (f["path"], bb)
    if c is not None:
        CONDS.append((f, bb, c))
    SITES[k] = SITES.get(k, 0) + 1


def take():
    """[(name, condition, FALSE)] for the runs not compared yet"""
    out = []
    for f, c in RUNS:
        out.append(("panic in " + f["path"], c, FALSE))
    del RUNS[:]
    return out


def blame(v):
    """the assertions that fail under this interpretation (some may lie on other paths)"""
    out = []
    for f, bb, c in CONDS:
        try:
            if v.ev(c):
                b = f["bbs"][bb]
                s = "%s (%s %s)" % (f["path"], b["t"].get("m"), b.get("sp", f.get("span", "")))
                if s not in out:
                    out.append(s)
        except Exception:
            pass
    return out[:6]


def clear():
    RUNS.clear()
    CONDS.clear()
    SITES.clear()
    FNS.clear()


def flush(ctx):
    """hand what was executed to the merging context"""
    if ON:
        ctx.extra["panic_sites"] = dict(SITES)
        ctx.extra["executed"] = dict(FNS)


def low(address, c):
    """c, for something that exists only because an instruction decoded at the address (C01: inside memory, far below 2^62)"""
    from terms import band, ult, K
    return band(c, ult(address, K(1 << 62, 64))) if ON else c
