"""The run loops, single steps, environment calls and breakpoints of the host machines, against reference loops."""
import report
from hostworld import *

ISA_MOP = 2
TRIALS = 150


def mop_v0():
    return band(bnot(eq(band(V("isa", 8), K(ISA_MOP, 8)), K(0, 8))), eq(V("version", 32), K(0, 32)))


def one(h, v):
    return K(v, h.widths["running"])


def running(s):
    return eq(s.f["running"], one(s.h, 1))


def take_reset(s, then):
    c = bnot(eq(s.f["reset_signal"], K(0, s.h.widths["reset_signal"])))
    s.f["reset_signal"] = K(0, s.h.widths["reset_signal"])
    s.when(c, then)


def setf(n, v):
    def fn(s):
        s.f[n] = v
    return fn


def charge(s, c):
    tot = add(s.f["cycles"], c)
    over = ult(tot, c)
    s.when(over, lambda s: s.err("CyclesOverflow"))
    s.live(lambda s: s.when(ult(s.f["max_cycles"], tot), lambda s: s.err("CyclesExceeded"), setf("cycles", tot)))


def ref_step(s):
    """decode at the program counter, charge, execute; s is live"""
    t = s.ev("decode", [s.f["pc"]])
    inst = uf("inst", 64, t)
    s.live(lambda s: charge(s, uf("cyclefn", 64, inst)))
    s.live(lambda s: s.ev("execute", [inst], True))


def gate(s):
    s.when(mop_v0(), lambda s: s.err("InvalidVersion"))


def finish(s):
    s.ok(zext(s.exit, 64))


def pause_check(s):
    def stop(s):
        s.pb = K(0, 8)
        s.err("Pause")
    s.when(bnot(eq(s.pb, K(0, 8))), stop)


def ref_run(h, n):
    s = Ref_(h)
    gate(s)
    s.live(setf("running", one(h, 1)))
    for i in range(n):
        def body(s):
            pause_check(s)
            s.live(lambda s: take_reset(s, lambda s: s.ev("reset_cache")))
            s.live(ref_step)
        s.live(lambda s: s.when(running(s), body, finish))
    s.live(lambda s: s.when(running(s), lambda s: None, finish))
    return s


def ref_ecall(s):
    code = s.reg(17)

    def exit_(s):
        s.exit = trunc(s.reg(10), 8)
        s.f["running"] = one(s.h, 0)

    def disp(s):
        done = FALSE
        for k in range(s.h.nh):
            def offer(s, k=k):
                t = s.ev("sys", [K(k, 8)], True)

                def hd(s):
                    s.when(ult(s.f["max_cycles"], s.f["cycles"]), lambda s: s.err("CyclesExceeded"))
                    s.done = TRUE
                s.live(lambda s: s.when(uf("handled", 1, t), hd))
            s.live(lambda s: s.when(s.done, lambda s: None, offer))
        s.live(lambda s: s.when(s.done, lambda s: None, lambda s: s.err("InvalidEcall", code)))
    s.done = FALSE
    s.when(eq(code, K(93, 64)), exit_, disp)


def ref_ebreak(s):
    s.when(eq(V("hasdebugger", 1), K(1, 1)), lambda s: s.ev("debugger", [], True))


RET = {"DECODE_TRACE": 1, "ECALL": 2, "EBREAK": 3, "DYNAMIC_JUMP": 4, "MAX_CYCLES": 5, "CYCLES_OVERFLOW": 6, "OUT_OF_BOUND": 7,
       "INVALID_PERMISSION": 8, "SLOWPATH": 9, "PAUSE": 10}




def ref_return(s, ret, prepare, event=None):
    """what the host does for each reason the engine returned"""
    is_ = lambda n: eq(ret, K(RET[n], 8))
    if prepare:
        s.when(is_("DECODE_TRACE"), lambda s: s.ev("prepare", [], True))
    s.live(lambda s: s.when(is_("ECALL"), ref_ecall))
    s.live(lambda s: s.when(is_("EBREAK"), ref_ebreak))
    s.live(lambda s: s.when(is_("MAX_CYCLES"), lambda s: s.err("CyclesExceeded")))
    s.live(lambda s: s.when(is_("CYCLES_OVERFLOW"), lambda s: s.err("CyclesOverflow")))
    s.live(lambda s: s.when(is_("OUT_OF_BOUND"), lambda s: s.err("MemOutOfBound", s.f["error_arg0"])))
    s.live(lambda s: s.when(is_("INVALID_PERMISSION"), lambda s: s.err("MemWriteOnExecutablePage", s.f["error_arg0"])))

    def slow(s):
        t = s.ev("decode", [sub(s.f["pc"], K(4, 64))])
        s.live(lambda s: s.ev("execute", [uf("inst", 64, t)], True))
    s.live(lambda s: s.when(is_("SLOWPATH"), slow))

    def pause(s):
        s.pb = K(0, 8)
        s.err("Pause")
    s.live(lambda s: s.when(is_("PAUSE"), pause))
    known = bor(*[is_(n) for n in RET])
    s.live(lambda s: s.when(known, lambda s: None, lambda s: s.err("Asm", zext(ret, 64))))


def ref_asm_run(h, n):
    s = Ref_(h)
    gate(s)
    s.live(setf("running", one(h, 1)))
    for i in range(n):
        def body(s):
            take_reset(s, lambda s: s.ev("reset_cache"))

            def go(s):
                t = s.ev("engine", [K(1, 64), V("traces_ptr", 64), sub(V("trace_size", 64), K(1, 64))], True, fallible=False)
                h.rets.append(uf("ret", 8, t))
                ref_return(s, uf("ret", 8, t), True)
            s.live(go)
        s.live(lambda s: s.when(running(s), body, finish))
    s.live(lambda s: s.when(running(s), lambda s: None, finish))
    return s


def ref_asm_step(h):
    s = Ref_(h)
    s.ev("decode_block", [K(1, 64)])

    def go(s):
        t = s.ev("engine", [K(1, 64), K(2, 64), K(0, 64)], True, fallible=False)
        h.rets.append(uf("ret", 8, t))
        ref_return(s, uf("ret", 8, t), False)
    s.live(go)
    s.live(lambda s: s.ok())
    return s


def simple(h, fn):
    s = Ref_(h)
    fn(s)
    s.live(lambda s: s.ok())
    return s


RUN = "machine::DefaultMachine::<Inner>::run_with_decoder"
STEP = "machine::DefaultMachine::<Inner>::step"
ECALL = "<machine::DefaultMachine<Inner> as machine::Machine>::ecall"
EBREAK = "<machine::DefaultMachine<Inner> as machine::Machine>::ebreak"
ARUN = "machine::asm::AsmMachine::run_with_decoder"
ASTEP = "machine::asm::AsmMachine::step"

UNITS = [
    ("interpreter run loop", False, RUN, True, lambda h: ref_run(h, 2)),
    ("interpreter step", False, STEP, True, lambda h: simple(h, ref_step)),
    ("environment call", False, ECALL, False, lambda h: simple(h, ref_ecall)),
    ("breakpoint", False, EBREAK, False, lambda h: simple(h, ref_ebreak)),
    ("assembly run loop", True, ARUN, True, lambda h: ref_asm_run(h, 2)),
    ("assembly step", True, ASTEP, True, lambda h: ref_asm_step(h)),
    ("block interpreter loop", False, None, True, None),
]


def where_of(p, fn):
    try:
        f = fn if isinstance(fn, dict) else p.fn(fn)
        return "%s (%s)" % (f["path"], f["span"])
    except Exception:
        return fn


def judge_loops(ctx, p, groups, units=None, handlers=2, trials=None):
    """groups(h, ref, entry) -> {group: condition, or (condition, observables)} over the starting state, or None"""
    trials = trials or (1500 if ctx.thorough else TRIALS)
    import tracehost

    def one(c, u):
        name, asm, fn, dec, ref = u
        try:
            if fn is None:
                tracehost.judge_trace(c, p, groups, trials)
                return
            f = p.fn(fn)
            h = Host(p, asm, handlers)
            st = h.start()
            x = h.executor()
            me = h.me(default=fn in (ECALL, EBREAK, RUN, STEP))
            rv = x.run_body(st, f, [me] + ([Ref(("O", "decoder"))] if dec else []))
            r = ref(h)
            g = groups(h, r, name)
            if g:
                judge(c, h, name, where_of(p, fn), x, st, rv, r, g, trials)
        except Unsupported as e:
            c.und(name, str(e)[:200])
    todo = [u for u in UNITS if units is None or u[0] in units]
    report.pmap(ctx, one, todo)
    ctx.extra["host_functions"] = [u[2] or tracehost.FN for u in todo]


TRUST = ["rustc MIR construction", "sa/prims.py, sa/memworld.py (std callee meanings)", "sa/loops.py, sa/tracehost.py (reference loops)",
         "calls leaving the loop (decoding, executing an instruction, system calls, the engine) are opaque: they may change any machine field"]
HOW = ("The loop's MIR is turned into one gated value graph per observable (result, error payload, every machine field, the "
       "sequence of opaque calls with the state each one sees), unrolled for a bounded number of iterations, and compared with "
       "a reference loop over the same opaque calls: equal normal forms, equal decision diagrams, else random interpretation (counted).")
