"""C32: every register type computes what the Register trait promises (u32, u64 and the symbolic expressions)."""
from facts import Program
from mirexec import *
from terms import *
import equiv
import spec
from loops import where_of
import re

import memworld

RC = re.compile(r"<?alloc::(sync|rcs::(arc|rc)|rc)::(Arc|Rc)(<|::<)")
LEVEL = "other"
REG = "instructions::register::Register"
AST = "instructions::ast::Value"
UNI = {"not": bnot, "clz": lambda a: un("clz", a), "ctz": lambda a: un("ctz", a), "cpop": lambda a: un("pop", a),
       "orcb": spec.orcb, "rev8": spec.rev8}
BIN = {
    "bitand": band, "bitor": bor, "bitxor": bxor,
    "overflowing_add": add, "overflowing_sub": sub, "overflowing_mul": mul,
    "overflowing_div": spec.divu, "overflowing_rem": spec.remu, "overflowing_div_signed": spec.div, "overflowing_rem_signed": spec.rem,
    "overflowing_mul_high_signed": lambda a, b: spec.mulh(a, b, True, True),
    "overflowing_mul_high_unsigned": lambda a, b: spec.mulh(a, b, False, False),
    "overflowing_mul_high_signed_unsigned": lambda a, b: spec.mulh(a, b, True, False),
    "clmul": lambda a, b: spec.clmul(a, b, "l"), "clmulh": lambda a, b: spec.clmul(a, b, "h"), "clmulr": lambda a, b: spec.clmul(a, b, "r"),
    "eq": lambda a, b: zext(eq(a, b), a.w), "ne": lambda a, b: zext(ne(a, b), a.w),
    "lt": lambda a, b: zext(ult(a, b), a.w), "ge": lambda a, b: zext(bnot(ult(a, b)), a.w),
    "lt_s": lambda a, b: zext(slt(a, b), a.w), "ge_s": lambda a, b: zext(bnot(slt(a, b)), a.w),
}
# operations whose second operand is promised to be a shift amount below the register width
SHIFT = {"shl": lambda a, b: shift("shl", a, b), "shr": lambda a, b: shift("lshr", a, b),
         "signed_shl": lambda a, b: shift("shl", a, b), "signed_shr": lambda a, b: shift("ashr", a, b),
         "rol": lambda a, b: rot("rol", a, b), "ror": lambda a, b: rot("ror", a, b)}
NATIVE = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"]
CORE_OPS = {"not": "core::ops::bit::Not", "bitand": "core::ops::bit::BitAnd", "bitor": "core::ops::bit::BitOr", "bitxor": "core::ops::bit::BitXor",
            "shl": "core::ops::bit::Shl", "shr": "core::ops::bit::Shr", "default": "core::default::Default"}


def extend(a, b, signed):
    w = a.w
    n = sub(K(w, w), b)
    return shift("ashr" if signed else "lshr", shift("shl", a, n), n)


def meaning(op, ch, sg=False):
    """what a node of the symbolic expressions stands for"""
    f = {"Not": bnot, "LogicalNot": lambda a: zext(eq(a, K(0, 64)), 64), "Clz": UNI["clz"], "Ctz": UNI["ctz"], "Cpop": UNI["cpop"], "Orcb": spec.orcb, "Rev8": spec.rev8,
         "Add": add, "Sub": sub, "Mul": mul, "Mulhsu": BIN["overflowing_mul_high_signed_unsigned"], "Bitand": band, "Bitor": bor, "Bitxor": bxor,
         "Shl": SHIFT["shl"], "Eq": BIN["eq"], "Clmul": BIN["clmul"], "Clmulh": BIN["clmulh"], "Clmulr": BIN["clmulr"], "Rol": SHIFT["rol"], "Ror": SHIFT["ror"],
         "Mulh": BIN["overflowing_mul_high_signed" if sg else "overflowing_mul_high_unsigned"],
         "Div": spec.div if sg else spec.divu, "Rem": spec.rem if sg else spec.remu, "Shr": SHIFT["signed_shr" if sg else "shr"],
         "Lt": BIN["lt_s" if sg else "lt"], "Extend": lambda a, b: extend(a, b, sg)}.get(op)
    if f is None:
        raise Unsupported("expression node " + op)
    return f(*ch)


def follow(x, st, v):
    n = 0
    while isinstance(v, Ref) and n < 9:
        v = x.load(st, v.root, v.path)
        n += 1
    return v


class Ty:
    """one implementation of Register"""

    def __init__(self, p, name):
        self.p, self.name = p, name
        self.w = 32 if name == "u32" else 64
        self.sym = name == AST
        self.impl = {k: f for k, lst in p.impl_methods.items() for s, f in lst if s == name}
        consts = {}
        for n, c in p.vm.consts.items():
            if n.startswith("<%s as %s>::" % (name, REG)) and "bits" in c:
                consts[(REG, n.rsplit("::", 1)[1])] = int(c["bits"])
        self.consts = consts
        H = {"deref_term": memworld.deref_term, "unknown_first": self.unknown}
        self.x = Exec(p, hooks=H, unroll=70, consts=consts, method_select=self.select)
        if self.sym:
            self.variants = [v["name"] for v in p.adt(AST)["variants"]]

    def select(self, x, st, info, args, f):
        tr, nm = info["trait"], info["name"]
        # inside the symbolic type, constant folding uses the plain integers
        if tr == REG and isinstance(follow(x, st, args[0]) if args else None, T) and self.sym:
            for s, g in self.p.impl_methods.get((tr, nm), []):
                if s == "u64":
                    return g
        if tr == REG or (self.sym and tr in CORE_OPS.values()):
            v = follow(x, st, args[0]) if args else None
            if tr == REG or isinstance(v, En):
                return self.impl.get((tr, nm)) or self.p.trait_defaults.get((tr, nm))
        return None

    def unknown(self, x, st, a, i, f, t):
        p = (i.get("res") or i)["path"]
        nm = p.rsplit("::", 1)[-1]
        if RC.match(p) and nm in ("new", "from"):
            k = ("O", "rc%d" % len(st.env))
            st.env[k] = a[0]
            return Ref(k)
        if nm == "clone" and a and (RC.match(p) or i.get("trait") == "core::clone::Clone"):
            v = a[0]
            if RC.match(p):
                while isinstance(v, Ref) and isinstance(x.load(st, v.root, v.path), Ref):
                    v = x.load(st, v.root, v.path)
                return v
            return follow(x, st, v)
        return NotImplemented

    def fn(self, nm):
        g = self.impl.get((CORE_OPS.get(nm, REG), nm))
        if g is None and nm not in CORE_OPS:
            g = self.p.trait_defaults.get((REG, nm))
        if g is None:
            raise Unsupported("%s has no %s" % (self.name, nm))
        return g

    # ---- operands and results
    def leaf(self, kind, n):
        """-> (value, its meaning)"""
        t = V(n, self.w)
        if not self.sym:
            return t, t
        if kind == "imm":
            k = self.variants.index("Imm")
            return En(K(k, 64), {k: (t,)}, AST), t
        k = self.variants.index("Register")
        return En(K(k, 64), {k: (V("index_" + n, 64),)}, AST), uf("reg", 64, V("index_" + n, 64))

    def denote(self, st, v):
        v = follow(self.x, st, v)
        if isinstance(v, T):
            return v
        if not isinstance(v, En):
            raise Unsupported("not an expression: %r" % (v,))
        parts = []
        for k, pl in v.v.items():
            c = v.vidx if isinstance(v.vidx, T) else K(v.vidx, 64)
            c = eq(c, K(k, 64))
            if c is FALSE:
                continue
            parts.append((c, self.node(st, self.variants[k], pl)))
        r = parts[-1][1]
        for c, d in parts[:-1]:
            r = ite(c, d, r)
        return r

    def opname(self, st, v, adt):
        v = follow(self.x, st, v)
        n = v.vidx if isinstance(v, En) else v
        n = kv(n) if isinstance(n, T) and isk(n) else n
        if not isinstance(n, int):
            raise Unsupported("operator %r" % (v,))
        return self.p.adt("instructions::ast::" + adt)["variants"][n]["name"]

    def node(self, st, n, pl):
        if n == "Imm":
            return self.x.term(st, pl[0], 64)
        if n == "Register":
            return uf("reg", 64, self.x.term(st, pl[0], 64))
        d = lambda k: self.denote(st, pl[k])
        if n == "Op1":
            return meaning(self.opname(st, pl[0], "ActionOp1"), [d(1)])
        if n == "Op2":
            return meaning(self.opname(st, pl[0], "ActionOp2"), [d(1), d(2)])
        if n == "SignOp2":
            s = self.x.term(st, pl[3], 1)
            o, ch = self.opname(st, pl[0], "SignActionOp2"), [d(1), d(2)]
            return ite(s, meaning(o, ch, True), meaning(o, ch, False))
        if n == "Cond":
            return ite(ne(d(0), K(0, 64)), d(1), d(2))
        raise Unsupported("expression " + n)

    def run(self, nm, vals):
        st = St()
        args = []
        f = self.fn(nm)
        for k, v in enumerate(vals):
            if nm in CORE_OPS or nm.startswith("from_"):
                args.append(v)
            else:
                r = ("O", "arg%d" % k)
                st.env[r] = v
                args.append(Ref(r))
        r = self.x.run_fn(st, f["path"], args, f["crate"].name if hasattr(f.get("crate"), "name") else "ckb_vm")
        return st, r


def one(ctx, p, job):
    tyname, nm, kinds = job
    ty = Ty(p, tyname)
    w = ty.w
    short = tyname.rsplit("::", 1)[-1]
    key = "%s::%s%s" % (short, nm, "(%s)" % ", ".join(kinds) if ty.sym and kinds else "")
    spec.XL = w
    try:
        try:
            vs = [ty.leaf(k, n) for k, n in zip(kinds, ("a", "b", "c"))]
            dom = TRUE
            m = [d for _, d in vs]
            if nm in ("zero", "default"):
                want = K(0, w)
            elif nm == "one":
                want = K(1, w)
            elif nm == "min_value":
                want = K(0, w)
            elif nm == "max_value":
                want = K(mask(w), w)
            elif nm in UNI:
                want = UNI[nm](m[0])
            elif nm in BIN:
                want = BIN[nm](*m)
            elif nm in SHIFT:
                dom = ult(m[1], K(w, w))
                want = SHIFT[nm](m[0], zext(ex(5 if w == 64 else 4, 0, m[1]), w))
            elif nm == "logical_not":
                dom = ule(m[0], K(1, w))
                want = zext(eq(m[0], K(0, w)), w)
            elif nm == "cond":
                dom = ule(m[0], K(1, w))
                want = ite(ne(m[0], K(0, w)), m[1], m[2])
            elif nm in ("zero_extend", "sign_extend"):
                dom = band(ule(m[1], K(w, w)), ne(m[1], K(0, w)))
                want = extend(m[0], m[1], nm[0] == "s")
            elif nm.startswith("from_"):
                n = int(nm[6:])
                v = V("v", n)
                vs = [(v, v)]
                want = (sext if nm[5] == "i" else zext)(v, 64)
                want = trunc(want, w)
            elif nm.startswith("to_"):
                n = int(nm[4:])
                want = trunc((sext if nm[3] == "i" else zext)(m[0], 64) if n > w else m[0], n)
            st, r = ty.run(nm, [v for v, _ in vs])
            got = ty.denote(st, r)
        except Unsupported as e:
            ctx.und(key, str(e)[:200])
            return
        where = where_of(p, ty.fn(nm))
        obs = [("value", got, want), ("panics", bor(st.panic, st.cut), FALSE)]
        for n, v in equiv.compare(obs, dom, seed=(ctx.seed, key), trials=3000 if ctx.thorough else 500).items():
            k = "%s/%s" % (key, n)
            if v.kind == "differs":
                _, asg, a, b, _ = v.detail
                ctx.bad(k, where, "%s: %s is %s, the register contract defines %s; e.g. for %s" % (
                    key, n, equiv.hexval(a), equiv.hexval(b), {s: hex(t) for s, t in sorted(asg.items())[:6]}), {"assignment": {s: hex(t) for s, t in asg.items()}})
            else:
                ctx.ok(k, {"normal": "identical normal form", "diagram": "identical decision diagram", "agreed": "random interpretation only"}[v.kind])
    finally:
        spec.XL = 64


def jobs():
    out = []
    for ty in ("u32", "u64", AST):
        ks = ("imm", "reg") if ty == AST else ("v",)
        for nm in ("zero", "one", "min_value", "max_value", "default"):
            if nm != "default" or ty == AST:
                out.append((ty, nm, ()))
        for nm in list(UNI) + ["logical_not"]:
            if nm == "not" and ty != AST:
                continue
            out += [(ty, nm, (a,)) for a in ks]
        for nm in list(BIN) + list(SHIFT) + ["zero_extend", "sign_extend"]:
            if nm in CORE_OPS and ty != AST:
                continue
            out += [(ty, nm, (a, b)) for a in ks for b in ks]
        out += [(ty, "cond", (a, b, c)) for a in ks for b in ks for c in ks]
        out += [(ty, "from_" + n, ()) for n in NATIVE]
        if ty != AST:
            out += [(ty, "to_" + n, ("v",)) for n in NATIVE]
    return out


def run(ctx):
    import report
    p = Program()
    for ty in ("u32", "u64", AST):
        t = Ty(p, ty)
        for c, v in (("BITS", t.w), ("SHIFT_MASK", t.w - 1)):
            g = t.consts.get((REG, c))
            if g is None:
                ctx.und("%s::%s" % (ty, c), "constant not evaluated")
            else:
                ctx.check(g == v, "%s::%s" % (ty, c), "src/instructions", "%s::%s is %s" % (ty, c, g))
    # every method of the trait is covered
    names = {k[1] for s in ("u64",) for k in Ty(p, s).impl if k[0] == REG} | {k[1] for k in p.trait_defaults if k[0] == REG}
    done = {j[1] for j in jobs()}
    for n in sorted(names - done):
        ctx.und("Register::" + n, "no contract written for this method")
    report.pmap(ctx, lambda c, j: one(c, p, j), jobs())
    ctx.explanation = ("Every method of every implementation of Register (u32, u64 and the symbolic expressions of src/instructions/ast.rs) is evaluated from MIR on arbitrary operands and compared with the "
                       "trait's contract, written from the RISC-V manual at the type's width. An expression's meaning is computed from its nodes; operands are taken as constants and as registers in every combination, "
                       "so constant folding is compared with the unfolded operation.")
    ctx.rules = ["method(a, b) == contract(a, b) for all operands in the method's domain", "no panic in that domain", "expressions: denotation of the result == contract of the denotations"]
    ctx.trusted = ["rustc MIR construction", "sa/prims.py integer intrinsics", "the meaning given to each expression node (named after the RISC-V operation)"]
