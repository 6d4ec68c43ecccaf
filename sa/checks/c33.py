"""C33: instruction words keep what they were built from, and are shown as what they are."""
from facts import Program
from mirexec import *
from terms import *
import equiv
import memworld
import spec
from loops import where_of
from world import opcodes

LEVEL = "other"
I = "instructions::"
VIEW = {"R": "Rtype", "I": "Itype", "S": "Stype", "U": "Utype", "R4": "R4type", "R5": "R5type", "N": "Rtype"}
REGS = {"R": ("rd", "rs1", "rs2"), "I": ("rd", "rs1"), "S": ("rs1", "rs2"), "U": ("rd",), "R4": ("rd", "rs1", "rs2", "rs3"),
        "R5": ("rd", "rs1", "rs2", "rs3", "rs4")}
IMMW = {"I": 24, "S": 24, "U": 32}
ABI = ["zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "s0", "s1"] + ["a%d" % k for k in range(8)] + ["s%d" % k for k in range(2, 12)] + ["t3", "t4", "t5", "t6"]


def form(op):
    return "R" if op == "ADC" else spec.form(op)    # ADC reads and writes its three registers, there is no fourth


class Txt:
    """printed text: literals and values in order"""

    def __init__(self):
        self.out = []


def printer(p, x, txt):
    """formatting of text: what is written becomes a list of literals and displayed values"""

    def unknown(x, st, a, i, f, t):
        pth = (i.get("res") or i)["path"]
        nm = pth.rsplit("::", 1)[-1]
        if nm == "into" and i.get("trait") == "core::convert::Into" and a and isinstance(a[0], (Agg, En)):
            ts = [f["crate"].ty(k)["s"] for k in i.get("args") or [] if isinstance(k, int)]
            for s, g in p.impl_methods.get(("core::convert::From", "from"), []):
                if s == ts[-1] and "From<%s>" % a[0].d in g["path"]:
                    return x.run_fn(st, g["path"], [a[0]])
            raise Unsupported("into %s from %r" % (ts, a[0].d))
        if "core::fmt::rt::Argument" in pth and nm.startswith("new_"):
            ts = [f["crate"].ty(k)["s"].lstrip("&") for k in (i.get("res") or i).get("args") or [] if isinstance(k, int)]
            return Agg([a[0], nm[4:], bool(ts) and ts[0][0] == "i"], "FmtArg")
        if pth.startswith("core::fmt::Arguments") and nm == "from_str":
            return Agg([("text", text(x, st, a[0])), Agg([], "arr")], "FmtArgs")
        if pth.startswith("core::fmt::Arguments") and nm in ("new", "new_const", "new_v1"):
            return Agg([("template", x_bytes(x, st, a[0])), a[1] if len(a) > 1 else Agg([], "arr")], "FmtArgs")
        if nm in ("to_lowercase", "to_ascii_lowercase") and "str" in pth:
            return Agg([a[0]], "Lower")
        if pth.startswith("core::fmt::Formatter") and nm == "write_fmt":
            emit(x, st, a[1])
            return En(K(0, 64), {0: (UNIT,)}, RES)
        if pth.startswith("core::fmt::Formatter") and nm == "write_str":
            txt.out.append(("lit", text(x, st, a[1])))
            return En(K(0, 64), {0: (UNIT,)}, RES)
        if i.get("name") == "fmt" and "core::fmt" in (i.get("trait") or i.get("impltrait") or ""):
            show(x, st, a[0])
            return En(K(0, 64), {0: (UNIT,)}, RES)
        return NotImplemented

    def x_bytes(x, st, v):
        v = deref(x, st, v)
        if isinstance(v, (bytes, bytearray)):
            return bytes(v)
        if isinstance(v, Agg):
            return bytes(kv(c) for c in v.f)
        raise Unsupported("format template %r" % (v,))

    def text(x, st, v):
        v = deref(x, st, v)
        if isinstance(v, str):
            return v
        if isinstance(v, (bytes, bytearray)):
            return v.decode()
        if isinstance(v, Agg) and all(isinstance(c, T) and isk(c) for c in v.f):
            return bytes(kv(c) for c in v.f).decode()
        raise Unsupported("text %r" % (v,))

    def show(x, st, v, signed=False):
        v = deref(x, st, v)
        if isinstance(v, Agg) and v.d == "Lower":
            txt.out.append(("lit", text(x, st, v.f[0]).lower()))
        elif isinstance(v, T):
            txt.out.append(("num", (sext if signed else zext)(v, 64) if v.w < 64 else v))
        elif isinstance(v, Mux):
            txt.out.append(("sel", v))
        else:
            txt.out.append(("lit", text(x, st, v)))

    def emit(x, st, v):
        v = deref(x, st, v)
        if not (isinstance(v, Agg) and v.d == "FmtArgs"):
            raise Unsupported("format arguments %r" % (v,))
        args = list(deref(x, st, v.f[1]).f)
        kind, t = v.f[0]
        if kind == "text":
            txt.out.append(("lit", t))
            return
        k, n = 0, 0
        while k < len(t):
            b = t[k]
            if b == 0:
                break
            if b < 0x80:
                txt.out.append(("lit", t[k + 1:k + 1 + b].decode()))
                k += 1 + b
            elif b == 0xc0:
                a = args[n]
                n += 1
                k += 1
                if a.f[1] not in ("display",):
                    txt.out.append(("as " + a.f[1], a.f[0]))
                else:
                    show(x, st, a.f[0], a.f[2])
            else:
                raise Unsupported("format option %02x" % b)
    return unknown


def deref(x, st, v):
    n = 0
    while isinstance(v, Ref) and n < 9:
        v = x.load(st, v.root, v.path)
        n += 1
    if isinstance(v, Opq) and isinstance(v.n, tuple) and v.n[0] in ("str", "bytes"):
        return v.n[1]
    return v


def rnd(ctx, name, where, obs, under=TRUE):
    for n, v in equiv.compare(obs, under, seed=(ctx.seed, name), trials=2000 if ctx.thorough else 400).items():
        k = "%s/%s" % (name, n)
        if v.kind == "differs":
            _, asg, a, b, _ = v.detail
            ctx.bad(k, where, "%s: %s is %s instead of %s; e.g. for %s" % (name, n, equiv.hexval(a), equiv.hexval(b), {s: hex(t) for s, t in sorted(asg.items())[:7]}),
                    {"assignment": {s: hex(t) for s, t in asg.items()}})
        else:
            ctx.ok(k, {"normal": "identical normal form", "diagram": "identical decision diagram", "agreed": "random interpretation only"}[v.kind])


def ctors(fm):
    return ["new"] if fm in ("R", "R4", "R5") else ["new", "new_s"] if fm == "U" else ["new_u", "new_s"]


def words(ctx, p, job):
    fm, c = job
    ty = VIEW[fm]
    x = Exec(p, hooks={"deref_term": memworld.deref_term}, unroll=4)
    st = St()
    op = V("op", 16)
    regs = {r: V(r, 8) for r in REGS[fm]}
    args = [op]
    imm = None
    if fm in IMMW:
        n = IMMW[fm]
        imm = sext(V("imm", n), 32)
    order = list(REGS[fm])
    a = [zext(regs[r], 64) for r in order]
    args += ([imm] + a) if fm == "S" else a + ([imm] if imm is not None else [])
    path = I + ty + "::" + c
    name = "%s::%s" % (ty, c)
    w = x.run_fn(st, path, args)
    w = x.term(st, w, 64)
    ln = cat(V("len", 4), K(0, 1))
    for label, word, length in (("", w, K(0, 8)), (" with a length", None, zext(ln, 8))):
        if word is None:
            word = x.term(st, x.run_fn(st, I + "set_instruction_length_n", [w, zext(ln, 8)]), 64)
        g = lambda m: x.run_fn(st, I + ty + "::" + m, [Agg([word], I + ty)])
        obs = [("op" + label, x.term(st, g("op"), 16), op),
               ("extract_opcode" + label, x.term(st, x.run_fn(st, I + "extract_opcode", [word]), 16), op),
               ("length" + label, x.term(st, x.run_fn(st, I + "instruction_length", [word]), 8), length)]
        for r in order:
            obs.append((r + label, x.term(st, g(r), 64), zext(regs[r], 64)))
        if imm is not None:
            obs.append(("immediate_s" + label, x.term(st, g("immediate_s"), 32), sext(V("imm", IMMW[fm]), 32)))
            obs.append(("immediate_u" + label, x.term(st, g("immediate_u"), 32), sext(V("imm", IMMW[fm]), 32)))
        obs.append(("panics" + label, bor(st.panic, st.cut), FALSE))
        rnd(ctx, name, where_of(p, p.fn(path)), obs)


def lengths(ctx, p):
    x = Exec(p, hooks={"deref_term": memworld.deref_term}, unroll=4)
    w = V("word", 64)
    clear = eq(ex(27, 24, w), K(0, 4))
    for fn, n in (("set_instruction_length_2", 2), ("set_instruction_length_4", 4), ("set_instruction_length_n", None)):
        st = St()
        n = zext(cat(V("len", 4), K(0, 1)), 8) if n is None else K(n, 8)
        r = x.term(st, x.run_fn(st, I + fn, [w] + ([n] if fn.endswith("_n") else [])), 64)
        g = x.term(st, x.run_fn(st, I + "instruction_length", [r]), 8)
        keep = [("word below the length", ex(23, 0, r), ex(23, 0, w)), ("word above the length", ex(63, 32, r), ex(63, 32, w))]
        rnd(ctx, fn, where_of(p, p.fn(I + fn)), [("length", g, n), ("panics", bor(st.panic, st.cut), FALSE)] + keep, clear)
    st = St()
    op = V("op", 16)
    b = x.term(st, x.run_fn(st, I + "blank_instruction", [op]), 64)
    rnd(ctx, "blank_instruction", where_of(p, p.fn(I + "blank_instruction")),
        [("opcode", x.term(st, x.run_fn(st, I + "extract_opcode", [b]), 16), op), ("length", x.term(st, x.run_fn(st, I + "instruction_length", [b]), 8), K(0, 8)),
         ("operands", cat(ex(63, 24, b), ex(15, 8, b)), K(0, 48))])


def impl(p, trait, self_, m):
    for s, f in p.impl_methods.get((trait, m), []):
        if s == self_:
            return f
    raise Unsupported("no %s for %s" % (trait, self_))


TAG = I + "tagged::TaggedInstruction"


def tagged(ctx, p, job):
    op, num = job
    fm = form(op)
    vfm = "R" if fm == "N" else fm
    ty = VIEW[vfm]
    txt = Txt()

    def select(x, st, info, args, f):
        tr, nm = info["trait"], info["name"]
        v = deref(x, st, args[0]) if args else None
        d = v.d if isinstance(v, (Agg, En)) else None
        for s, g in p.impl_methods.get((tr, nm), []):
            if s == d:
                return g
        return None
    x = Exec(p, hooks={"deref_term": memworld.deref_term}, unroll=4, method_select=select)
    x.hooks["unknown_first"] = printer(p, x, txt)
    st = St()
    o = {r: V(r, 5) for r in REGS[vfm]} if fm != "N" else {}
    regs = [zext(o[r], 64) if o else K(0, 64) for r in REGS[vfm]]
    imm = sext(V("imm", IMMW[vfm]), 32) if vfm in IMMW else None
    args = [K(num, 16)] + (([imm] + regs) if vfm == "S" else regs + ([imm] if imm is not None else []))
    w = x.term(st, x.run_fn(st, I + ty + "::" + ("new" if vfm in ("R", "R4", "R5") else "new_s"), args), 64)
    w = x.term(st, x.run_fn(st, I + "set_instruction_length_4", [w]), 64)
    f = None
    for s, g in p.impl_methods.get(("core::convert::TryFrom", "try_from"), []):
        if s == TAG:
            f = g
    if f is None:
        raise Unsupported("no TryFrom for TaggedInstruction")
    where = where_of(p, f)
    r = x.run_fn(st, f["path"], [w])
    variants = [v["name"] for v in p.adt(TAG)["variants"]]
    if not (isinstance(r, En) and isk(r.vidx)):
        raise Unsupported("tagging gives %r" % (r,))
    if not ctx.check(kv(r.vidx) == 0, "%s/tagged" % op, where, "%s is refused as a tagged instruction" % op):
        return
    t = r.v[0][0]
    if isinstance(t, Agg):
        ctx.und("%s/view" % op, "tagged value %r" % (t.d,))
        return
    tv = kv(t.vidx) if isinstance(t.vidx, T) else t.vidx
    ctx.check(variants[tv] == ty, "%s/view" % op, where, "%s is viewed as %s, its operands are those of %s" % (op, variants[tv], ty))
    back = [g for s, g in p.impl_methods.get(("core::convert::From", "from"), []) if g.get("argc") == 1 and "TaggedInstruction" in g["path"] and s == "u64"]
    if back:
        b = x.term(st, x.run_fn(st, back[0]["path"], [t]), 64)
        rnd(ctx, op, where_of(p, back[0]), [("word of the tagged instruction", b, w)])
    else:
        ctx.und(op + "/word of the tagged instruction", "no conversion found")
    # text
    k = ("O", "tagged")
    st.env[k] = t
    sh = impl(p, "core::fmt::Display", TAG, "fmt")
    st.env[("O", "fmt")] = Opq("formatter")
    x.run_fn(st, sh["path"], [Ref(k), Ref(("O", "fmt"))])
    name = op.split("_VERSION")[0].lower()
    for k, (a, b) in enumerate(txt.out[:1]):
        if a == "lit" and b == op.lower():
            txt.out[k] = ("lit", name)      # the version of the opcode may be part of the name
    want = [("lit", name), ("lit", " ")]
    rs = lambda *n: [z for q in n for z in (("reg", o.get(q, K(0, 5))), ("lit", ","))][:-1]
    if vfm == "I":
        want += rs("rd") + [("lit", ","), ("num", sext(imm, 64)), ("lit", "(")] + rs("rs1") + [("lit", ")")]
    elif vfm == "S" and op in spec.BRANCH:
        want += rs("rs1", "rs2") + [("lit", ","), ("num", sext(imm, 64))]
    elif vfm == "S":
        want += rs("rs2") + [("lit", ","), ("num", sext(imm, 64)), ("lit", "(")] + rs("rs1") + [("lit", ")")]
    elif vfm == "U":
        want += rs("rd") + [("lit", ","), ("num", sext(imm, 64))]
    else:
        want += rs(*REGS[vfm])
    got, want = join(txt.out), join(want)
    showw = where_of(p, impl(p, "core::fmt::Display", I + ty, "fmt"))
    if not ctx.check([a if a == "lit" else "v" for a, _ in got] == [a if a == "lit" else "v" for a, _ in want] and all(b == d for (a, b), (_, d) in zip(got, want) if a == "lit"),
                     op + "/text", showw, "%s is shown as %s instead of %s" % (op, plain(got), plain(want))):
        return
    obs = []
    for n, ((a, b), (_, d)) in enumerate(zip(got, want)):
        if a == "lit":
            continue
        if a == "num":
            obs.append(("shown operand %d" % n, b, d))
        elif a == "sel":
            c = choice(x, st, b)
            for k in range(32):
                v = subst(c, {d: K(k, 5)})
                if not isk(v) or kv(v) != k:
                    obs.append(("shown operand %d when it is x%d" % (n, k), v, K(k, 8)))
            ctx.ok("%s/shown operand %d" % (op, n), "all 32 registers")
        else:
            raise Unsupported("shown %s" % a)
    rnd(ctx, op, showw, obs + [("panics", bor(st.panic, st.cut), FALSE)])


def choice(x, st, v):
    if isinstance(v, Mux):
        return ite(v.c, choice(x, st, v.a), choice(x, st, v.b))
    v = deref(x, st, v)
    if isinstance(v, Mux):
        return choice(x, st, v)
    s = v if isinstance(v, str) else bytes(v).decode() if isinstance(v, (bytes, bytearray)) else bytes(kv(c) for c in v.f).decode()
    return K(ABI.index(s) if s in ABI else 255, 8)


def join(l):
    """adjacent literals as one"""
    out = []
    for k, v in l:
        if k == "reg" and isk(v):
            k, v = "lit", ABI[kv(v)]
        if k == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + v)
        else:
            out.append((k, v))
    return out


def plain(l):
    return "".join(v if k == "lit" else "<%s>" % k for k, v in l)


def run(ctx):
    import report
    p = Program()
    ops = opcodes(p)
    jobs = [("word", fm, c) for fm in REGS for c in ctors(fm)] + [("len",)] + [("tag", o, n) for o, n in ops.items()]

    def one(c, j):
        try:
            if j[0] == "word":
                words(c, p, j[1:])
            elif j[0] == "len":
                lengths(c, p)
            else:
                tagged(c, p, j[1:])
        except Unsupported as e:
            c.und(" ".join(str(k) for k in j), str(e)[:200])
    report.pmap(ctx, one, jobs)
    ctx.explanation = ("Every constructor of an instruction word is evaluated on arbitrary opcode, registers, immediate and length; every accessor has to give back what went in. Each defined opcode is tagged (TryFrom), "
                       "converted back and formatted: the view must be the one its operands are in, the word unchanged, the text the opcode's name and all operands in assembly order. "
                       "Formatting is followed down to the format templates in the MIR.")
    ctx.rules = ["accessor(constructor(fields)) == field", "From(TryFrom(word)) == word, view == operand layout", "text == name and operands; register k shown by its ABI name"]
    ctx.trusted = ["rustc MIR construction", "meaning of core::fmt templates and str::to_lowercase"]
    ctx.assumptions = ["register fields below 256, immediates of I and S words fit in 24 bits signed (what the decoders produce)"]
