"""C26: load-reserved and store-conditional."""
from facts import Program
from terms import *
from world import *
import asmpart
import report
import spec
from checks.c02 import judge, run_op, where_of

LEVEL = "other"
LRSC = ("LR_W", "LR_D", "SC_W", "SC_D")


def run(ctx):
    p = Program()
    w = World(p)
    trials = 3000 if ctx.thorough else 400
    ops = {o: n for o, n in opcodes(p).items() if spec.form(o) is not None}

    def one(c, op):
        try:
            x, st, s, code, ad, ok = run_op(w, op, ops[op])
            judge(c, op, where_of(p, op), st, s, code, ad, ok, c.seed, trials, None if op in LRSC else {"reservation"})
        except Unsupported as e:
            c.und(op, e)
    report.pmap(ctx, one, sorted(ops, key=ops.get))
    asmpart.handlers(ctx, p, {"post"}, ops=lambda o: o in LRSC)
    asmpart.handlers(ctx, p, {"resv"}, ops=lambda o: o not in LRSC)
    ctx.extra["opcodes"] = len(ops)
    ctx.explanation = ("Value graphs of the LR and SC handlers (interpreter MIR and lifted assembly) against the architectural definition for all "
                       "addresses, values and reservations; for every other handler the reservation after it must be the reservation before it.")
    ctx.rules = ["LR: rd = memory, reservation = address", "SC: writes and reports 0 exactly when the reservation equals the address, otherwise 1 and no write; the reservation is cleared", "no other instruction touches the reservation"]
    ctx.trusted = ["rustc MIR construction", "sa/prims.py", "sa/spec.py", "sa/x64.py"]
