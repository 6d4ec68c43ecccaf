"""C29: guest programs cannot make the host panic."""
import importlib
import re
import time

import facts
import panics
import report
from facts import Program

LEVEL = "other"
# the analyses whose runs cover the code a guest drives; only their panic conditions count here
SUBS = ["c02", "c01", "c06", "memory", "c12", "c28", "c13", "c27", "c20", "c24", "c19", "c22"]
DEEP = ["c16", "c25", "c30", "c17", "c18"]
PANICKY = re.compile(r"::unwrap$|::expect$|unwrap_err$|expect_err$|::index$|::index_mut$|copy_from_slice|clone_from_slice|::split_at|"
                     r"::swap$|::slice$|Vec::<.*>::(remove|insert|swap_remove|drain|split_off)|::chunks|::borrow_mut$|::borrow$|::windows|"
                     r"core::panicking|core::option::(unwrap|expect)_failed|core::result::unwrap_failed|slice_(start|end|index)|"
                     r"::(div|rem|div_rem|step_by|copy_within|rotate_left|rotate_right|from_utf8_unchecked|checked_next_power_of_two)$|begin_panic")


def memory(c):
    import memprops
    memprops.judge(c, {"frame", "bounds", "content", "flags", "wx", "dirty", "init", "frozen", "lr"})


def part(c, name):
    if name == "memory":
        return memory(c)
    importlib.import_module("checks." + name).run(c)


def run(ctx):
    facts.OVERFLOW_CHECKS = True
    panics.ON = True
    panics.clear()
    p = Program()
    sites, fns, times = set(), set(), {}
    for name in SUBS + (DEEP if ctx.thorough else []):
        c = report.Ctx(ctx.prop, ctx.level)
        t0 = time.time()
        try:
            part(c, name)
        except Exception as e:
            c.und(name, "%s: %s" % (type(e).__name__, e))
        times[name] = round(time.time() - t0, 1)
        tag = name.upper() + ": "
        for w, h in c.obs:
            if "panic" in w:
                ctx.ok(tag + w, h)
        for v in c.viol:
            if "panic" in v["key"]:
                ctx.viol.append(dict(v, key=tag + v["key"]))
        for w, why in c.undecided:
            ctx.und(tag + w, why)
        sites |= set(c.extra.get("panic_sites", ())) | set(panics.SITES)
        fns |= set(c.extra.get("executed", ())) | set(panics.FNS)
        panics.clear()
    # every construct that can panic, in every function: inside a decided run, or left open here
    total, seen, open_ = 0, 0, []
    for f in p.vm.fns.values():
        for i, b in enumerate(f["bbs"]):
            t = b["t"]
            k = None
            if t["k"] == "assert":
                k = t.get("m", "assertion")
            elif t["k"] == "call" and "fn" in t["f"].get("c", {}):
                q = t["f"]["c"]["fn"]
                q = (q.get("res") or q)["path"]
                if t["t"] is None or PANICKY.search(q):
                    k = q
            if k is None:
                continue
            total += 1
            if "%s|%d" % (f["path"], i) in sites:
                seen += 1
            else:
                open_.append("%s: %s" % (f["path"], k))
    ctx.extra["seconds"] = times
    ctx.extra["panicking_constructs"] = total
    ctx.extra["in_decided_runs"] = seen
    ctx.extra["functions_executed"] = len(fns)
    ctx.extra["constructs_outside_the_runs"] = sorted(set(open_))
    ctx.rules = ["no panic condition reached by a run is satisfiable: bounds, arithmetic overflow (with overflow checks on), division, unwrap, slicing"]


if __name__ == "__main__":
    pass
