"""C03: no instruction leaves a non-zero value in x0."""
from facts import Program
from terms import *
from world import *
import asmpart
import equiv
import report
import spec
from checks.c02 import run_op, where_of

LEVEL = "proof"


def run(ctx):
    p = Program()
    w = World(p)
    trials = 3000 if ctx.thorough else 500

    def one(c, item):
        op, num = item
        try:
            x, st, s, code, ad, ok = run_op(w, op, num)
        except (Unsupported, KeyError) as e:
            c.und(op, e)
            return
        z = rr(st.env[OREGS], K(0, 5))
        v = equiv.compare([("x0", z, K(0, 64))], seed=(c.seed, op), trials=trials)["x0"]
        if v.kind == "differs":
            _, asg, a, b, _ = v.detail
            c.bad(op, where_of(p, op), "%s leaves %s in x0; e.g. for %s" % (op, equiv.hexval(a), {
                n: hex(q) for n, q in sorted(asg.items())[:10]}), {"assignment": {n: hex(q) for n, q in asg.items()}})
        else:
            c.ok(op + "/x0", {"normal": "identical normal form", "diagram": "decision diagram",
                              "agreed": "random interpretation only"}[v.kind])
    items = [(o, n) for o, n in sorted(opcodes(p).items(), key=lambda t: t[1]) if spec.form(o) is not None]
    report.pmap(ctx, one, items)
    asmpart.handlers(ctx, p, {"x0"})
    ctx.extra["opcodes"] = len(items)
    ctx.rules = ["regs'[0] == 0 in the value graph of every handler, given regs[0] == 0, for every destination and outcome",
                 "the same for every state in which an assembly handler hands over"]
    ctx.explanation = ("The register file after each handler (Rust MIR, and each lifted assembly handler) is a chain of "
                       "guarded writes; reading it at index 0 is normalised and must be the constant 0 for all operands, "
                       "destinations and outcomes, errors included.")
    ctx.trusted = ["rustc MIR construction", "sa/prims.py", "sa/x64.py (instruction meanings)"]
