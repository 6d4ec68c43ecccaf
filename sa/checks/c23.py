"""C23: the constants, layouts, opcode numbers and dispatch tables the assembly is built from are Rust's."""
import os
import re

from asmcore import Code, preprocess
from facts import REPO, Program
from mirexec import Unsupported
import world

LEVEL = "proof"
HDR = "src/machine/asm/cdefinitions_generated.h"
SRC = {"x64": "execute_x64.S", "aarch64": "execute_aarch64.S"}
PRE = "CKB_VM_ASM_"
LAB = ".CKB_VM_ASM_LABEL_OP_"
STRUCTS = (("ASM_CORE_MACHINE", "ckb_vm_definitions::asm::AsmCoreMachine"), ("INVOKE_DATA", "ckb_vm_definitions::asm::InvokeData"),
           ("TRACE", "ckb_vm_definitions::asm::FixedTrace"))
DIRECT = {"RISCV_PAGE_SHIFTS": "RISCV_PAGE_SHIFTS", "RISCV_PAGE_SIZE": "RISCV_PAGESIZE", "MEMORY_FRAME_SHIFTS": "MEMORY_FRAME_SHIFTS",
          "MEMORY_FRAMESIZE": "MEMORY_FRAMESIZE", "MEMORY_FRAME_PAGE_SHIFTS": "MEMORY_FRAME_PAGE_SHIFTS"}


def const(p, n):
    c = p.defs.consts.get(n)
    return int(c["bits"]) if c and c.get("bits") is not None else None


def field(p, adt, name):
    a = p.adt(adt) or p.adt(adt.replace("ckb_vm_definitions::", ""))
    if not a or not a.get("layout"):
        return None
    for f, o in zip(a["variants"][0]["fields"], a["layout"]["offsets"]):
        if f["name"].strip("_").upper() == name:
            return o
    return None


def expected(p, n):
    """(value the Rust side uses, where it comes from), None when the name means nothing on the Rust side"""
    if n in DIRECT:
        return const(p, DIRECT[n]), DIRECT[n]
    if n == "RISCV_PAGE_MASK":
        v = const(p, "RISCV_PAGESIZE")
        return v and v - 1, "RISCV_PAGESIZE - 1"
    if n == "MAXIMUM_TRACE_ADDRESS_LENGTH":
        v = const(p, "asm::TRACE_ITEM_LENGTH")
        return v and v * 4, "asm::TRACE_ITEM_LENGTH * 4"
    if n == "FIXED_TRACE_STRUCT_SIZE":
        a = p.adt("ckb_vm_definitions::asm::FixedTrace")
        return a and a["layout"] and a["layout"]["size"], "size of FixedTrace"
    for pre, mod in (("RET_", "asm::RET_"), ("MEMORY_FLAG_", "memory::FLAG_"), ("REGISTER_", "registers::"), ("OP_", "instructions::OP_")):
        if n.startswith(pre):
            m = mod + n[len(pre):]
            if n == "RET_MAX_CYCLES_EXCEEDED":
                m = "asm::RET_MAX_CYCLES_EXCEEDED"
            return const(p, m), m
    for pre, adt in STRUCTS:
        if n.startswith(pre + "_OFFSET_"):
            f = n[len(pre) + 8:]
            return field(p, adt, f), "offset of %s in %s" % (f.lower(), adt)
    return None


def defines(ctx, p):
    """#define name -> value, each compared with the Rust value; header text line by line"""
    out = {}
    for i, l in enumerate(open(os.path.join(REPO, HDR)).read().splitlines(), 1):
        m = re.match(r"\s*#\s*define\s+%s(\w+)\s+(.+?)\s*(/\*.*)?$" % PRE, l)
        if not m:
            continue
        n = m.group(1)
        try:
            v = int(m.group(2).strip("()"), 0)
        except ValueError:
            ctx.und("define " + n, "not a number: " + m.group(2))
            continue
        at = "%s:%d" % (HDR, i)
        if n in out and out[n] != v:
            ctx.bad("define-twice/" + n, at, "%s%s is defined as %d and as %d" % (PRE, n, out[n], v))
        out[n] = v
        e = expected(p, n)
        if e is None or e[0] is None:
            ctx.und("define " + n, "no Rust counterpart known")
            continue
        ctx.check(e[0] == v, "define/" + n, at, "%s%s is %d, the Rust side's %s is %d" % (PRE, n, v, e[1], e[0]))
    return out


def rust_to_header(ctx, p, ops, defs):
    """whatever the interface exports on the Rust side has its entry"""
    for o, v in sorted(ops.items(), key=lambda t: t[1]):
        ctx.ok("opcode %s %s" % (o, "in the header" if "OP_" + o in defs else "not exported (no use in the assembly, else it would be undefined there)"))
    inv = {}
    for o, v in ops.items():
        if v in inv:
            ctx.bad("opcode-number/%d" % v, "definitions/src/instructions.rs", "opcodes %s and %s share number %d" % (inv[v], o, v))
        inv[v] = o
    ctx.ok("opcode numbers distinct (%d)" % len(ops))
    lo, hi = min(ops.values()), max(ops.values())
    ctx.check(hi - lo + 1 == len(ops), "opcode-dense", "definitions/src/instructions.rs", "opcode numbers %d..%d leave gaps (%d opcodes)" % (lo, hi, len(ops)))
    for n, w in (("MINIMAL_OPCODE", lo), ("MAXIMUM_OPCODE", hi)):
        v = const(p, "instructions::" + n)
        if v is None:
            ctx.und(n, "constant not found")
        else:
            ctx.check(v == w, n, "definitions/src/instructions.rs", "%s is %d, opcodes run from %d to %d" % (n, v, lo, hi))


def tables(ctx, p, arch, ops):
    """dispatch table of one engine as the preprocessor leaves it: slot number -> label"""
    src = SRC[arch]
    at = "src/machine/asm/" + src
    defs = ("__x86_64__",) if arch == "x64" else ("__aarch64__", "__ARM_ARCH=8")
    sep = ";"
    try:
        text = preprocess(REPO, src, defs)
    except Unsupported as e:
        ctx.bad("%s/preprocess" % arch, at, "the assembly source does not preprocess: %s" % e)
        return
    # names the header does not define stay behind as plain symbols
    for n in sorted(set(re.findall(r"(?<![\w.])%s\w+" % PRE, text))):
        ctx.bad("%s/undefined/%s" % (arch, n), at, "%s is used but the header does not define it" % n)
    code = Code(text, sep)
    ctx.ok("%s: no undefined constant" % arch)
    # the table
    cur, ent, seen = None, [], False
    for line in text.splitlines():
        for s in line.split(";"):
            s = s.strip()
            m = re.match(r"([.\w$]+):\s*(.*)$", s)
            while m:
                if seen and ent:
                    cur = "done"
                if m.group(1) == ".CKB_VM_ASM_LABEL_TABLE":
                    seen = True
                s = m.group(2)
                m = re.match(r"([.\w$]+):\s*(.*)$", s)
            m = re.match(r"\.(long|4byte|int|word)\s+(.*)$", s)
            if seen and cur != "done" and m:
                for a in m.group(2).split(","):
                    ent.append(a.strip())
    if not ent:
        ctx.und("%s table" % arch, "no label table found")
        return
    inv = {v: o for o, v in ops.items()}
    lab = []
    for k, a in enumerate(ent):
        m = re.match(r"\(?([.\w$]+)\s*-\s*([.\w$]+)\)?$", a)
        if not m:
            ctx.und("%s table[%d]" % (arch, k), "entry " + a)
            lab.append(None)
            continue
        if m.group(2) != ".CKB_VM_ASM_LABEL_TABLE":
            b = code.labels.get(m.group(2)) == code.labels.get(".CKB_VM_ASM_LABEL_TABLE")
            if not b:
                ctx.bad("%s/table/%d/base" % (arch, k), at, "entry %d is relative to %s, not to the table" % (k, m.group(2)))
        lab.append(m.group(1))
    hi = max(ops.values())
    ctx.check(len(lab) == hi + 1, "%s/table/length" % arch, HDR, "the table has %d entries, the largest opcode is %d" % (len(lab), hi))
    slow = code.labels.get(".exit_slowpath", [None])
    for k, l in enumerate(lab[:hi + 1]):
        if l is None:
            continue
        tgt = code.labels.get(l)
        if not tgt:
            ctx.bad("%s/label/%s" % (arch, l), at, "table entry %d names %s, which is defined nowhere" % (k, l))
            continue
        if len(tgt) > 1:
            ctx.bad("%s/label/%s" % (arch, l), at, "%s is defined %d times" % (l, len(tgt)))
            continue
        if k < min(ops.values()):
            if slow[0] is None:
                ctx.und("%s table[%d]" % (arch, k), "slow path label not found")
            else:
                ctx.check(tgt[0] == slow[0], "%s/table/%d" % (arch, k), HDR, "entry %d, a number no opcode uses, is %s and not the slow path" % (k, l))
            continue
        o = inv.get(k)
        if o is None:
            continue
        # the handler of opcode o is the code at its label; another label is the same handler when it names the same place
        own = code.labels.get(LAB + o)
        if own is None and l.startswith(LAB):
            ctx.bad("%s/table/%d" % (arch, k), HDR, "entry %d (opcode %s) is %s" % (k, o, l))
        elif own is None:
            ctx.und("%s table[%d]" % (arch, k), "opcode %s goes to %s" % (o, l))
        elif slow[0] is not None and tgt[0] == slow[0] and own[0] != tgt[0]:
            ctx.ok("%s/table/%d" % (arch, k))       # handed to the interpreter: correct whatever the instruction
        else:
            ctx.check(own[0] == tgt[0], "%s/table/%d" % (arch, k), HDR, "entry %d (opcode %s) is %s" % (k, o, l))
    # every handler label stands for an opcode and appears in the table
    used = set(lab)
    for l in sorted(code.labels):
        if l.startswith(LAB):
            o = l[len(LAB):]
            ctx.check(o in ops, "%s/handler/%s" % (arch, o), at, "handler %s has no opcode" % l)
            if o in ops and l not in used:
                ctx.und("%s handler %s" % (arch, o), "not in the table")
    # unsigned 32-bit distances: the handlers lie behind the table
    t = code.labels.get(".CKB_VM_ASM_LABEL_TABLE", [0])[0]
    before = [l for l in used if l and code.labels.get(l) and code.labels[l][0] < t]
    if before:
        ctx.und("%s table distances" % arch, "handlers in front of the table: " + ", ".join(sorted(before)[:5]))
    else:
        ctx.ok("%s: handlers behind the table" % arch)
    ctx.extra.setdefault("table_entries", {})[arch] = len(lab)


# ---- the Rust reader of that table

LBL, LOAD = "labels", "load"


class Prop:
    """constant propagation of label_from_fastpath_opcode for one opcode: values are (kind, constant) sums"""

    def __init__(self, p, f, op):
        self.p, self.f, self.op = p, f, op

    def width(self, t):
        s = self.f["crate"].ty(t)
        w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}.get(s["s"])
        return w, s["s"]

    def operand(self, env, o):
        if "c" in o:
            c = o["c"]
            if "fn" in c:
                return (LBL, 0, None) if c["fn"]["name"] == "ckb_vm_asm_labels" else ("fn", c["fn"]["name"], None)
            if "bits" in c:
                return ("k", int(c["bits"]), None)
            return ("unit", 0, None)
        pl = o.get("cp") or o.get("mv")
        v = env.get(pl[0])
        for pr in pl[1]:
            if pr == "*":
                v = (LOAD, v, None) if v and v[0] in (LBL, "sum") else v
            elif pr == 0 or pr == [".", 0]:
                pass
            else:
                raise Unsupported("place %r" % (pr,))
        return v

    def run(self):
        f = self.f
        env = {1: ("k", self.op, None)}
        b, n = 0, 0
        while n < 60:
            n += 1
            bb = f["bbs"][b]
            for s in bb["s"]:
                if s[0] != "=":
                    continue
                if s[1][1]:
                    raise Unsupported("store through a projection")
                env[s[1][0]] = self.rvalue(env, s[2])
            t = bb["t"]
            k = t["k"]
            if k == "ret":
                return env.get(0)
            if k == "goto":
                b = t["t"]
            elif k == "assert":
                b = t["t"]
            elif k == "switch":
                v = self.operand(env, t["op"])
                if v is None or v[0] != "k":
                    raise Unsupported("switch on an unknown value")
                b = dict((int(a), d) for a, d in t["ts"]).get(v[1], t["o"])
            elif k == "call":
                fn = t["f"]["c"]["fn"]
                a = [self.operand(env, o) for o in t["a"]]
                if fn["name"] in ("offset", "wrapping_offset", "add", "wrapping_add") and len(a) == 2 and a[0] and a[0][0] in (LBL, "sum") and a[1][0] == "k":
                    sz = self.f["crate"].ty(fn["args"][0])["s"]
                    sz = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "i32": 4, "i8": 1}.get(sz)
                    if sz is None:
                        raise Unsupported("pointee")
                    i = a[1][1]
                    i -= (1 << 64) if fn["name"].endswith("offset") and i >> 63 else 0
                    r = ("sum", a[0][1] + i * sz, None) if a[0][0] == "sum" else ("sum", i * sz, sz)
                    r = (r[0], r[1], sz)
                elif fn["name"] in ("from", "into") and a:
                    r = a[0]
                elif fn["name"] in ("read", "read_unaligned") and a and a[0][0] in (LBL, "sum"):
                    r = (LOAD, a[0], None)
                elif fn["name"] in ("wrapping_add",) and len(a) == 2:
                    r = self.addv(a)
                elif fn["name"] in ("blank_instruction",):
                    r = ("?", 0, None)
                else:
                    raise Unsupported("call of " + fn["name"])
                env[t["d"][0]] = r
                b = t["t"]
            else:
                raise Unsupported(k)
        raise Unsupported("loop")

    def addv(self, vs):
        if all(v and v[0] == "k" for v in vs):
            return ("k", (vs[0][1] + vs[1][1]) & ((1 << 64) - 1), None)
        if {v[0] for v in vs if v} == {LOAD, LBL}:
            return ("label", next(v[1] for v in vs if v[0] == LOAD), None)
        raise Unsupported("sum of %r" % (vs,))

    def rvalue(self, env, r):
        if r[0] == "use":
            return self.operand(env, r[1])
        if r[0] == "cast":
            v = self.operand(env, r[2])
            if v and v[0] == "k":
                w, s = self.width(r[3])
                if w is None:
                    raise Unsupported("cast to " + s)
                x = v[1] & ((1 << w) - 1)
                if s.startswith("i") and w < 64 and x >> (w - 1):
                    x -= 1 << w
                return ("k", x, None)
            return v
        if r[0] == "bin":
            a, b = self.operand(env, r[2]), self.operand(env, r[3])
            if r[1] in ("Add", "AddWithOverflow", "AddUnchecked"):
                return self.addv([a, b])
            if r[1] in ("Sub", "SubWithOverflow", "BitAnd", "Mul") and a and b and a[0] == b[0] == "k":
                return ("k", {"S": a[1] - b[1], "B": a[1] & b[1], "M": a[1] * b[1]}[r[1][0]] & ((1 << 64) - 1), None)
        raise Unsupported("rvalue %r" % (r[:2],))


def reader(ctx, p, ops):
    n = "machine::asm::traces::label_from_fastpath_opcode"
    f = p.fn(n)
    if f is None:
        c = [g for g in p.vm.fns.values() if g["name"] == "label_from_fastpath_opcode"]
        f = c[0] if c else None
    if f is None:
        ctx.und("label reader", "not found")
        return
    at = "%s (%s)" % (f["path"], f["span"])
    for o, v in sorted(ops.items(), key=lambda t: t[1]):
        try:
            r = Prop(p, f, v).run()
            if r is None or r[0] != "label":
                raise Unsupported("result %r" % (r,))
            a = r[1]
            off, sz = (0, 4) if a[0] == LBL else (a[1], a[2])
        except (Unsupported, KeyError, TypeError) as e:
            ctx.und("label of " + o, e)
            continue
        ctx.check(off == 4 * v and sz == 4, "reader/" + o, at, "label of opcode %s (%d) is read at byte %d of the table, entry %d is at byte %d" % (o, v, off, v, 4 * v))


def layouts(ctx, p, defs):
    """a dynamic trace is read through the same offsets as a fixed one; sizes the assembly assumes"""
    d, f = p.adt("machine::asm::traces::DynamicTrace"), p.adt("ckb_vm_definitions::asm::FixedTrace")
    at = "src/machine/asm/traces.rs"
    if not d or not f or not d["layout"] or not f["layout"]:
        ctx.und("trace layouts", "not found")
        return
    fo = {x["name"]: (o, x["ty"]) for x, o in zip(f["variants"][0]["fields"], f["layout"]["offsets"])}
    do = {x["name"]: (o, x["ty"]) for x, o in zip(d["variants"][0]["fields"], d["layout"]["offsets"])}
    for n in ("address", "length", "cycles"):
        if n in fo and n in do:
            ctx.check(fo[n][0] == do[n][0], "dynamic-trace/" + n, at, "DynamicTrace.%s at offset %d, FixedTrace.%s at %d" % (n, do[n][0], n, fo[n][0]))
        else:
            ctx.und("dynamic trace field " + n, "not found")
    th = next((o for n, (o, _) in fo.items() if n.strip("_") == "threads"), None)
    if th is not None:
        ctx.check(d["layout"]["size"] == th, "dynamic-trace/size", at, "the code of a dynamic trace starts at %d, that of a fixed trace at %d" % (d["layout"]["size"], th))
    for nm, a in (("DynamicTrace", d), ("FixedTrace", f)) + tuple((x.split("::")[-1], p.adt(x)) for _, x in STRUCTS):
        if a:
            ctx.check("IS_C" in a.get("repr", ""), "repr/" + nm, nm, "%s is read by the assembly but its layout is not fixed (repr(C))" % nm)
    # one more pair than the trace can hold instructions: room for the end marker
    n = const(p, "asm::TRACE_ITEM_LENGTH")
    if n is not None and th is not None:
        ctx.check(f["layout"]["size"] >= th + 16 * (n + 1), "fixed-trace/room", "definitions/src/asm.rs",
                  "FixedTrace holds %d pairs, a trace of %d instructions and its end marker need %d" % ((f["layout"]["size"] - th) // 16, n, n + 1))
    sz = const(p, "asm::TRACE_SIZE")
    if sz is None:
        ctx.und("TRACE_SIZE", "not found")
    else:
        ctx.check(sz > 0 and sz & (sz - 1) == 0, "trace-size", "definitions/src/asm.rs", "%d trace slots is no power of two, so size-1 is no mask" % sz)
    for a, b, s in (("RISCV_PAGESIZE", "RISCV_PAGE_SHIFTS", "page"), ("MEMORY_FRAMESIZE", "MEMORY_FRAME_SHIFTS", "frame")):
        u, v = const(p, a), const(p, b)
        if u is None or v is None:
            ctx.und(s + " size", "not found")
        else:
            ctx.check(u == 1 << v, s + "-shift", "definitions/src/lib.rs", "%s is %d and %s is %d" % (a, u, b, v))
    u, v, w = (const(p, x) for x in ("MEMORY_FRAME_SHIFTS", "RISCV_PAGE_SHIFTS", "MEMORY_FRAME_PAGE_SHIFTS"))
    if None not in (u, v, w):
        ctx.check(u - v == w, "frame-pages", "definitions/src/lib.rs", "MEMORY_FRAME_PAGE_SHIFTS is %d, frames are 2^%d pages" % (w, u - v))


def run(ctx):
    p = Program()
    ops = world.opcodes(p)
    defs = defines(ctx, p)
    rust_to_header(ctx, p, ops, defs)
    for arch in SRC:
        tables(ctx, p, arch, ops)
    reader(ctx, p, ops)
    layouts(ctx, p, defs)
    ctx.extra["defines"] = len(defs)
    ctx.extra["opcodes"] = len(ops)
    ctx.explanation = ("Every #define of the header shared by both assembly engines is compared with the constant, layout offset (rustc's own) or opcode number on the Rust side; each entry of the "
                       "preprocessed jump table of both engines is matched with the handler label of the opcode of that number; label_from_fastpath_opcode is constant-propagated for every "
                       "opcode to the table byte it reads; trace layouts must coincide. Whether the code behind a label computes the opcode is C04's question.")
    ctx.rules = ["header value == Rust value", "table entry k == handler of opcode k, defined exactly once; unused numbers go to the slow path", "reader(opcode k) reads entry k",
                 "structures the assembly reads are repr(C), fixed and dynamic traces have the same prefix, FixedTrace has room for the end marker"]
    ctx.trusted = ["rustc's layout computation", "gcc -E"]
