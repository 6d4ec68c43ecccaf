"""C02: every opcode's Rust handler computes the instruction's architectural effect."""
from facts import Program
from mirexec import *
from terms import *
import spec
from world import *
import equiv

LEVEL = "other"


def run_op(w, op, num, entry="instructions::execute::execute", thread=None):
    fm = spec.form(op)
    x = w.executor()
    st = w.fresh()
    o = w.operands(op, fm)
    word = w.word(x, st, num, op, fm, o)
    # 2, 4, 6 or 8 .. bytes: single and fused encodings
    L = cat(V("l4", 4), K(0, 1))
    word = x.term(st, x.run_fn(st, "instructions::set_instruction_length_n", [word, zext(L, 8)]), 64)
    s = w.spec_state(st, add(st.env[OPC], zext(L, w.bits)))
    m = Ref(("O", "machine"))
    args = [word, m]
    if thread is not None:
        args.append(thread)
    r = x.run_fn(st, entry, args)
    code, ad = w.err_of(r)
    spec.XL = w.bits
    try:
        spec.step(op, o, s)
    finally:
        spec.XL = 64
    ok = eq(s.err, K(0, 8))
    return x, st, s, code, ad, ok


def judge(ctx, op, where, st, s, code, ad, ok, seed, trials, only=None, pre=""):
    vs = equiv.compare([("panic", st.panic, FALSE), ("unfinished loop", st.cut, FALSE), ("error kind", code, s.err),
                        ("error address", ad, s.eaddr)], seed=(seed, op, 0), trials=trials)
    vs.update(equiv.compare([("registers", st.env[OREGS], s.regs), ("memory", st.env[OMEM], s.mem),
                             ("next pc", st.env[OPC], s.npc), ("reservation", st.env[OLR], s.lr),
                             ("environment call", st.env[("O", "calls")], K(s.calls, 8))], ok, seed=(seed, op, 1),
                            trials=trials))
    for k, v in vs.items():
        if only is not None and k not in only:
            continue
        if v.kind == "differs":
            name, asg, a, b, _ = v.detail
            ctx.bad("%s%s/%s" % (pre, op, k), where, "%s%s: %s is %s, the instruction defines %s; e.g. for %s" % (
                pre, op, k, equiv.hexval(a), equiv.hexval(b), {n: hex(x) for n, x in sorted(asg.items())[:10]}),
                {"assignment": {n: hex(x) for n, x in asg.items()}})
        else:
            ctx.ok("%s%s/%s" % (pre, op, k), {"normal": "identical normal form", "diagram": "identical decision diagram",
                                       "agreed": "random interpretation only"}[v.kind])
    # x0
    z = rr(st.env[OREGS], K(0, 5))
    v = equiv.compare([("x0", z, K(0, 64))], seed=(seed, op, 2), trials=trials)["x0"]
    ctx.counts.setdefault("x0", 0)
    return v


def handler_of(p, op):
    return p.fn("instructions::execute::handle_" + op.lower())


def where_of(p, op):
    f = handler_of(p, op)
    return "%s (%s)" % (f["path"], f["span"]) if f else "handler of " + op


def all_ops(p):
    return [(o, n) for o, n in sorted(opcodes(p).items(), key=lambda t: t[1])]


def run(ctx):
    p = Program()
    w = World(p)
    trials = 3000 if ctx.thorough else 500
    ops = all_ops(p)
    inl = set()
    for op, num in ops:
        if spec.form(op) is None:
            ctx.und(op, "opcode unknown to the reference")
            continue
        try:
            x, st, s, code, ad, ok = run_op(w, op, num)
            judge(ctx, op, where_of(p, op), st, s, code, ad, ok, ctx.seed, trials)
            inl |= set(x.inlined)
        except Unsupported as e:
            ctx.und(op, e)
    rv32(ctx, p, dict(ops), trials)
    # the threaded dispatcher has the same frame around the handler
    try:
        x, st, s, code, ad, ok = run_op(w, "ADD", dict(ops)["ADD"], "instructions::execute::execute_with_thread",
                                        Ref(("O", "thr")))
    except (Unsupported, KeyError):
        pass
    thread_table(ctx, p, dict(ops))
    threaded(ctx, p, w, dict(ops), trials)
    invalid(ctx, p, w, dict(ops))
    ctx.extra["functions_analysed"] = sorted(inl)
    ctx.extra["opcodes"] = len(ops)
    ctx.explanation = (
        "For each opcode the repository's own encoder and execute() dispatcher, handler, common helpers and register "
        "arithmetic (MIR) are turned into one gated value graph per observable (registers, memory, pc, reservation, "
        "error) over all operand values, and compared with the same graph built from the RISC-V definition.")
    ctx.rules = ["value graph of handler == value graph of specification, for all operands",
                 "dispatch table entry i is the handler of opcode i", "unassigned opcodes yield InvalidOp"]
    ctx.trusted = ["rustc MIR construction", "sa/prims.py (std callee meanings)", "sa/spec.py (ISA reference)",
                   "normaliser (sa/selftest_terms.py)"]


RV64ONLY = ("LD_", "LWU_", "SD", "ADDUW", "SH1ADDUW", "SH2ADDUW", "SH3ADDUW", "SLLIUW")


def rv32(ctx, p, ops, trials):
    """the same handlers over 32-bit registers: every operation that exists in RV32 (and the fused ones)"""
    w = World32(p)
    n = 0
    for op, num in sorted(ops.items(), key=lambda t: t[1]):
        b = op.split("_VERSION")[0]
        if spec.form(op) is None or op.startswith(RV64ONLY[:2]) or b in RV64ONLY or op.endswith("_D"):
            continue
        if b.endswith("W") and b not in ("LW", "SW") or b in spec.ALUI and spec.ALUI[b].endswith("W"):
            continue
        try:
            x, st, s, code, ad, ok = run_op(w, op, num)
            judge(ctx, op, where_of(p, op), st, s, code, ad, ok, ctx.seed, trials, pre="rv32 ")
            n += 1
        except Unsupported as e:
            ctx.und("rv32 " + op, e)
    ctx.extra["rv32_operations"] = n


def thread_table(ctx, p, ops):
    """ThreadFactory::create lists one handler per opcode, in opcode order"""
    f = p.fn("instructions::execute::ThreadFactory::<Mac>::create")
    if f is None:
        c = [g for g in p.vm.fns.values() if g["name"] == "create" and "ThreadFactory" in g["path"]]
        f = c[0] if c else None
    if f is None:
        ctx.und("thread table", "no ThreadFactory::create")
        return
    arr = None
    fnof = {}
    for b in f["bbs"]:
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "cast" and "c" in s[2][2] and "fn" in s[2][2]["c"]:
                fnof[s[1][0]] = s[2][2]["c"]["fn"]["path"]
            if s[0] == "=" and s[2][0] == "use" and ("mv" in s[2][1] or "cp" in s[2][1]):
                src = (s[2][1].get("mv") or s[2][1].get("cp"))
                if not src[1] and src[0] in fnof and not s[1][1]:
                    fnof[s[1][0]] = fnof[src[0]]
            if s[0] == "=" and s[2][0] == "cast" and s[2][1].startswith("PointerCoercion") and ("mv" in s[2][2] or "cp" in s[2][2]):
                src = (s[2][2].get("mv") or s[2][2].get("cp"))
                if src[0] in fnof:
                    fnof[s[1][0]] = fnof[src[0]]
            if s[0] == "=" and s[2][0] == "agg" and s[2][1]["k"] == "array" and len(s[2][2]) > 100:
                arr = [fnof.get((o.get("mv") or o.get("cp") or [None])[0]) if "c" not in o else o["c"].get("fn", {}).get("path") for o in s[2][2]]
    if arr is None:
        ctx.und("thread table", "table not found as an array of handlers")
        return
    base = min(ops.values())
    inv = {n: o for o, n in ops.items()}
    for i, h in enumerate(arr):
        op = inv.get(base + i)
        hn = handler_of(p, op)["path"] if op and handler_of(p, op) else None
        if h is None or hn is None:
            ctx.und("thread table[%d]" % i, "entry not resolved")
            continue
        ctx.check(h == hn, "thread/%d" % i, "%s (%s)" % (f["path"], f["span"]), "entry %d is %s, opcode %s" % (i, h, op))
    ctx.check(len(arr) == len(ops), "thread/len", f["path"], "table has %d entries for %d opcodes" % (len(arr), len(ops)))


def threaded(ctx, p, w, ops, trials):
    for op in ("ADD", "JAL", "LW_VERSION1", "FAR_JUMP_ABS", "AUIPC"):
        try:
            h = handler_of(p, op)
            thr = Fn({"path": h["path"], "krate": "ckb_vm", "name": h["name"], "args": [],
                      "res": {"path": h["path"], "krate": "ckb_vm", "kind": "item", "args": []}})
            fm = spec.form(op)
            x = w.executor()
            st = w.fresh()
            st.env[("O", "thr")] = thr
            o = w.operands(op, fm)
            word = w.word(x, st, ops[op], op, fm, o)
            L = cat(V("l4", 4), K(0, 1))
            word = x.term(st, x.run_fn(st, "instructions::set_instruction_length_n", [word, zext(L, 8)]), 64)
            s = w.spec_state(st, add(st.env[OPC], zext(L, w.bits)))
            r = x.run_fn(st, "instructions::execute::execute_with_thread", [word, Ref(("O", "machine")), Ref(("O", "thr"))])
            code, ad = w.err_of(r)
            spec.step(op, o, s)
            judge(ctx, op, "instructions::execute::execute_with_thread", st, s, code, ad, eq(s.err, K(0, 8)), (ctx.seed, "t"), trials)
        except (Unsupported, TypeError) as e:
            ctx.und("threaded " + op, e)


def invalid(ctx, p, w, ops):
    used = set(ops.values())
    f = p.fn("instructions::execute::execute_instruction")
    n = 0
    todo = [i for i in range(256) if i not in used] + [(h << 8) | lo for h in range(1, 256, 1 if ctx.thorough else 15) for lo in range(16)]
    for num in todo:
        try:
            x = w.executor()
            st = w.fresh()
            word = K(((num >> 8) << 16) | (num & 0xff), 64)
            word = bor(word, cat(V("hi", 32), K(0, 8 + 8), V("rdb", 8), K(0, 8)))
            r = x.run_fn(st, "instructions::execute::execute_instruction", [word, Ref(("O", "machine"))])
            code, ad = w.err_of(r)
        except Unsupported as e:
            ctx.und("unassigned opcode %#x" % num, e)
            return
        good = code is K(spec.E_INVOP, 8) and st.panic is FALSE and st.env[OREGS] is arr_var("regs")
        if not good:
            v = equiv.compare([("code", code, K(spec.E_INVOP, 8)), ("regs", st.env[OREGS], arr_var("regs")), ("panic", st.panic, FALSE)], seed=num)
            if any(y.kind == "differs" for y in v.values()):
                ctx.bad("invalid/%#x" % num, f["path"] + " (" + f["span"] + ")", "unassigned opcode %#x is executed" % num)
                continue
        n += 1
        ctx.ok("invalid opcode %#x" % num, "identical normal form")
