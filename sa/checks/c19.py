"""C19: reset."""
from facts import Program
import blockhost
import deccache
import memprops
import report
from loops import *

LEVEL = "other"
TR = "machine::SupportMachine"
LR = ("O", "lr")
MRESET = ("O", "mreset")


def machine_reset(ctx, p, what, asm, fn, default, trials):
    try:
        h = Host(p, asm, 0)
        st = h.start()
        st.env[MRESET] = FALSE
        st.env[LR] = V("lr0", 64)

        def reset_memory(x, st, a, i, f, t):
            st.env[MRESET] = TRUE
            st.env[LR] = K(mask(64), 64)
            if asm:
                r, pth = h.corepath("load_reservation_address")
                x.store(st, r, pth, K(mask(64), 64))
            return En(zext(V("mfail", 1), 64), {0: (UNIT,), 1: (En(EVERR, {EVERR: (V("merr", 64),)}, "error::Error"),)}, RES)

        def set_lr(x, st, a, i, f, t):
            v = a[1]
            while isinstance(v, Ref):
                v = x.load(st, v.root, v.path)
            st.env[LR] = x.term(st, v, 64)
            return UNIT
        x = h.executor({"memory::Memory::reset_memory": reset_memory, **({} if asm else {"memory::Memory::set_lr": set_lr})})
        arg = V("newmax", 64)
        if default:
            me = Ref(h.dm[0], h.dm[1])
        elif asm:
            me = Ref(ACM)
            if fn["locals"] and "Box<" in fn["crate"].ty(fn["locals"][1])["s"]:
                st.env[("O", "box")] = Ref(ACM)
                me = Ref(("O", "box"))
        else:
            me = Ref(h.dm[0], h.dm[1] + (("f", h.ix(DMT, "inner")),))
        rv = x.run_body(st, fn, [me, arg])
        code, pay, _ = h.result(x, st, rv)
        f = h.fields(x, st)
        ok = eq(code, K(255, 64))
        one_ = K(1, h.widths["reset_signal"])
        lr = f["load_reservation_address"] if asm else st.env[LR]
        obs = [("result", code, ite(V("mfail", 1), K(EVERR, 64), K(255, 64))), ("panic", st.panic, FALSE)]
        m = lambda v: ite(ok, v, K(0, v.w))
        for n, a, b in (("registers", rr(f["regs"], PROBE), K(0, 64)), ("pc", f["pc"], K(0, 64)), ("cycles", f["cycles"], K(0, 64)), ("max_cycles", f["max_cycles"], arg),
                        ("reset request", f["reset_signal"], one_), ("memory reset", st.env[MRESET], TRUE), ("reservation", lr, K(mask(64), 64)),
                        ("running", f["running"], V("running", h.widths["running"]))):
            obs.append((n, m(a), m(b)))
        decide(ctx, what, where_of(p, fn["path"]), obs, bnot(st.cut), trials)
    except Unsupported as e:
        ctx.und(what, str(e)[:200])


def run(ctx):
    p = Program()
    trials = 3000 if ctx.thorough else 400
    memprops.judge(ctx, {"reset"}, p=p, ops={"reset_memory"})
    todo = []
    for s, f in p.impl_methods.get((TR, "reset"), []):
        if "DefaultMachine" in s:
            todo += [("%s (interpreter)" % s, False, f, True), ("%s (assembly)" % s, True, f, True)]
        elif "AsmCoreMachine" in s:
            todo.append((s, True, f, False))
        elif "DefaultCoreMachine" in s:
            todo.append((s, False, f, False))
        else:
            ctx.und(s, "unknown machine")
    for s, asm, f, d in todo:
        machine_reset(ctx, p, "reset of " + s, asm, f, d, trials)
    if not todo:
        ctx.und("machine reset", "no implementation found")

    def groups(h, r, name):
        rs = V("reset_signal", h.widths["reset_signal"])
        return {"": band(bnot(mop_v0()), eq(V("pauseb", 8), K(0, 8)), bnot(eq(rs, K(0, rs.w))))}
    judge_loops(ctx, p, groups, {"interpreter run loop", "assembly run loop", "block interpreter loop"})
    jobs = [lambda c, d=d: blockhost.reset(c, p, d, lambda h, r, n: {"": TRUE}, trials) for d in blockhost.DECS] + [lambda c: deccache.run(c, p, trials)]
    report.pmap(ctx, lambda c, j: jobs[j](c), list(range(len(jobs))))
    how = ctx.explanation
    ctx.explanation = HOW + " " + (how or "")
    ctx.rules = ["reset: registers, pc, cycles zero; new limit; memory reset; reservation dropped; reset request raised", "run loops: on a reset request the decoder (and every table and cache of decoded blocks) is emptied before the next instruction",
                 "decoder resets leave no entry that can be hit"]
    ctx.trusted = TRUST
