"""Meaning of the standard-library callees that appear in the analysed bodies."""
import re
from terms import *
from mirexec import *

_INT = re.compile(r"core::num::<impl (u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>::(\w+)$")
_BITOP = re.compile(r"<&?(\w+) as core::ops::(?:bit|arith)::(\w+)(?:<.*>)?>::(\w+)$")
_FROM = re.compile(r"core::convert::num::<impl core::convert::From<(\w+)> for (\w+)>::from$")
_CLONE = re.compile(r"core::clone::impls::<impl core::clone::Clone for \w+>::clone$")
W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64,
     "i128": 128, "isize": 64, "bool": 1}


def _dty(ex_, f, t):
    return f["crate"].ty(t["dty"]) if t is not None and f is not None else None


def deref1(x, st, v):
    if isinstance(v, Ref):
        return x.load(st, v.root, v.path)
    if isinstance(v, Mux):
        return merge(v.c, deref1(x, st, v.a), deref1(x, st, v.b))
    return v


def int_method(x, st, ty, m, args):
    sg = ty[0] == "i"
    w = W[ty]
    a = x.term(st, args[0], w)
    b = x.term(st, args[1]) if len(args) > 1 else None
    if m in ("wrapping_add", "unchecked_add"):
        return add(a, b)
    if m in ("wrapping_sub", "unchecked_sub"):
        return sub(a, b)
    if m in ("wrapping_mul", "unchecked_mul"):
        return mul(a, b)
    if m == "wrapping_neg":
        return neg(a)
    if m in ("overflowing_add", "overflowing_sub", "overflowing_mul"):
        return x.withovf({"a": "Add", "s": "Sub", "m": "Mul"}[m[12]], a, b, sg)
    if m in ("checked_add", "checked_sub", "checked_mul"):
        r = x.withovf({"a": "Add", "s": "Sub", "m": "Mul"}[m[8]], a, b, sg)
        return En(zext(bnot(r.f[1]), 64), {0: (), 1: (r.f[0],)}, OPT)
    if m in ("saturating_add", "saturating_sub") and not sg:
        r = x.withovf({"a": "Add", "s": "Sub"}[m[11]], a, b, sg)
        return ite(r.f[1], K(mask(w) if m[11] == "a" else 0, w), r.f[0])
    if m in ("overflowing_div", "overflowing_rem", "wrapping_div", "wrapping_rem"):
        isrem = m.endswith("rem")
        z = eq(b, K(0, w))
        st.panic = bor(st.panic, z)
        r = bin2(("s" if sg else "u") + ("rem" if isrem else "div"), a, b)
        if m.startswith("wrapping"):
            return r
        o = band(eq(a, K(1 << (w - 1), w)), eq(b, K(mask(w), w))) if sg else FALSE
        return Agg((r, o))
    if m in ("checked_div", "checked_rem"):
        isrem = m.endswith("rem")
        bad = eq(b, K(0, w))
        if sg:
            bad = bor(bad, band(eq(a, K(1 << (w - 1), w)), eq(b, K(mask(w), w))))
        return En(zext(bnot(bad), 64), {0: (), 1: (bin2(("s" if sg else "u") + ("rem" if isrem else "div"), a, b),)}, OPT)
    if m == "leading_zeros":
        return fitw(un("clz", a), 32)
    if m == "trailing_zeros":
        return fitw(un("ctz", a), 32)
    if m == "count_ones":
        return fitw(un("pop", a), 32)
    if m == "rotate_left":
        return rot("rol", a, b)
    if m == "rotate_right":
        return rot("ror", a, b)
    if m == "swap_bytes":
        return un("bswap", a)
    if m == "is_power_of_two":
        return eq(un("pop", a), K(1, w))
    if m in ("wrapping_shl", "unchecked_shl"):
        return shift("shl", a, b)
    if m in ("wrapping_shr", "unchecked_shr"):
        return shift("ashr" if sg else "lshr", a, b)
    if m == "abs_diff" and not sg:
        return ite(ult(a, b), sub(b, a), sub(a, b))
    if m == "unsigned_abs":
        return ite(slt(a, K(0, w)), neg(a), a)
    if m == "pow" and isk(a) and kv(a) == 2 and False:
        return None
    if m in ("to_le", "from_le"):
        return a
    if m == "min" or m == "max":
        lt = slt if sg else ult
        return ite(lt(b, a), b, a) if m == "min" else ite(lt(b, a), a, b)
    if m in ("is_negative",):
        return slt(a, K(0, w))
    return NotImplemented


def fitw(t, w):
    return trunc(t, w) if t.w >= w else zext(t, w)


def prim(x, st, info, args, f, t):
    res = info.get("res")
    path = (res or info)["path"]
    name = path.rsplit("::", 1)[-1]
    m = _INT.match(path)
    if m:
        return int_method(x, st, m.group(1), m.group(2), args)
    m = _BITOP.match(path)
    if m and m.group(1) in W:
        ty = {"k": "int" if m.group(1)[0] == "i" else "uint", "bits": W[m.group(1)]}
        op = {"bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor", "shl": "Shl", "shr": "Shr", "add": "Add",
              "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}.get(m.group(3))
        if m.group(3) == "not":
            return bnot(x.term(st, args[0]))
        if m.group(3) == "neg":
            return neg(x.term(st, args[0]))
        if op:
            a, b = x.term(st, args[0]), x.term(st, args[1])
            if op in ("Div", "Rem"):
                st.panic = bor(st.panic, eq(b, K(0, b.w)))
            return x.bin(st, op, a, b, ty)
    m = _FROM.match(path)
    if m:
        a = x.term(st, args[0])
        w = W[m.group(2)]
        return sext(a, w) if m.group(1)[0] == "i" else zext(a, w)
    if _CLONE.match(path) or path == "core::clone::Clone::clone" or name == "clone" and info.get("trait") == "core::clone::Clone":
        return deref1(x, st, args[0])
    p0 = info["path"]
    tr = info.get("trait")
    if p0.startswith("core::ops::bit::") or p0.startswith("core::ops::arith::"):
        # on a register type
        if name in ("bitand", "bitor", "bitxor"):
            a, b = x.term(st, args[0]), x.term(st, args[1])
            if a.w == b.w:
                return {"bitand": band, "bitor": bor, "bitxor": bxor}[name](a, b)
        if name == "not":
            return bnot(x.term(st, args[0]))
        if name in ("shl", "shr"):
            a, b = x.term(st, args[0]), x.term(st, args[1])
            return shift("shl" if name == "shl" else "lshr", a, b)
    if tr == "core::cmp::PartialEq" and name in ("eq", "ne"):
        a, b = x.scal(st, args[0]), x.scal(st, args[1])
        r = value_eq(x, st, a, b)
        if r is not None:
            return r if name == "eq" else bnot(r)
    if tr == "core::cmp::PartialOrd" and name in ("lt", "le", "gt", "ge"):
        a, b = x.scal(st, args[0]), x.scal(st, args[1])
        if isinstance(a, T) and isinstance(b, T):
            sg = False
            if f is not None:
                s = f["crate"].ty(info["self"])
                while s["k"] == "ref":
                    s = f["crate"].ty(s["to"])
                sg = s["k"] == "int"
            lt, le = (slt, sle) if sg else (ult, ule)
            return {"lt": lt(a, b), "le": le(a, b), "gt": lt(b, a), "ge": le(b, a)}[name]
    if name in ("min", "max") and (path in ("core::cmp::min", "core::cmp::max") or tr == "core::cmp::Ord"):
        a, b = x.term(st, args[0]), x.term(st, args[1])
        tt = x.opty(f, t["a"][0]) if f else {"k": "uint"}
        lt = slt if tt["k"] == "int" else ult
        return ite(lt(b, a), b, a) if name == "min" else ite(lt(b, a), a, b)
    if tr == "core::convert::Into" or tr == "core::convert::From":
        d = _dty(x, f, t)
        w = d and x.width(d)
        v = args[0]
        if w and isinstance(v, T):
            s = x.opty(f, t["a"][0])
            if v.w == w:
                return v
            if v.w < w:
                return sext(v, w) if x.signed(s) else zext(v, w)
        return v
    if tr == "core::convert::TryFrom" or tr == "core::convert::TryInto":
        d = _dty(x, f, t)
        if isinstance(args[0], T) and d and d.get("def") == RES:
            tgt = f["crate"].ty(d["args"][0])
            s = x.opty(f, t["a"][0])
            w = x.width(tgt)
            v = args[0]
            if w and w <= v.w:
                r = trunc(v, w)
                back = (sext if x.signed(tgt) else zext)(r, v.w)
                ok = eq(back, v)
                if x.signed(tgt) and not x.signed(s):
                    ok = band(ok, bnot(ex(w - 1, w - 1, r)))
                if not x.signed(tgt) and x.signed(s):
                    ok = band(ok, bnot(ex(v.w - 1, v.w - 1, v)))
                return En(zext(bnot(ok), 64), {0: (r,), 1: (Opq("TryFromIntError"),)}, RES)
    if tr == "core::ops::try_trait::Try" and name == "branch":
        v = args[0]
        return try_branch(x, v)
    if tr == "core::ops::try_trait::FromResidual":
        v = args[0]
        d = _dty(x, f, t)
        if d and d.get("def") == OPT:
            return NONE()
        if isinstance(v, En):
            return En(1, {1: v.v.get(1, (UNDEF,))}, RES)
        return En(1, {1: (Opq("err"),)}, RES)
    if tr == "core::ops::deref::Deref" or tr == "core::ops::deref::DerefMut":
        v = args[0]
        return v
    if tr in ("core::convert::AsRef", "core::convert::AsMut", "core::borrow::Borrow"):
        return args[0]
    if tr == "core::default::Default":
        d = _dty(x, f, t)
        if d:
            w = x.width(d)
            if w:
                return K(0, w)
            if d["k"] == "tuple" and not d["elems"]:
                return UNIT
            if d["k"] == "adt" and d["def"] == OPT:
                return NONE()
            if d["k"] == "array" and d["len"] is not None and d["len"] <= 64:
                e = x.width(f["crate"].ty(d["of"]))
                if e:
                    return Agg([K(0, e)] * d["len"])
    # ---- Option / Result combinators
    if path.startswith("core::option::Option::<"):
        return option_method(x, st, name, args, f, t)
    if path.startswith("core::result::Result::<"):
        return result_method(x, st, name, args, f, t)
    if name == "contains" and "RangeInclusive" in path:
        r = deref1(x, st, args[0])
        v = x.term(st, args[1])
        if isinstance(r, Agg):
            return band(ule(r.f[0], v), ule(v, r.f[1]))
    if name == "contains" and "Range::<" in path:
        r = deref1(x, st, args[0])
        v = x.term(st, args[1])
        if isinstance(r, Agg):
            return band(ule(r.f[0], v), ult(v, r.f[1]))
    if "RangeInclusive::<" in path and name == "new":
        return Agg((args[0], args[1], FALSE), "RangeInclusive")
    if name == "into_iter" and tr == "core::iter::traits::collect::IntoIterator":
        v = args[0]
        if isinstance(v, Agg) and v.d is not None or isinstance(v, Agg) and path.startswith("<I as"):
            return v
    if path.startswith("core::iter::range::<impl") and name == "next":
        ref = args[0]
        v = deref1(x, st, ref)
        if isinstance(v, Agg) and len(v.f) == 2:
            sg = _range_signed(f, info)
            a, b = v.f
            c = (slt if sg else ult)(a, b)
            x.store(st, ref.root, ref.path, Agg((ite(c, add(a, K(1, a.w)), a), b), v.d))
            return En(zext(c, 64), {0: (), 1: (a,)}, OPT)
        if isinstance(v, Agg) and len(v.f) == 3:
            sg = _range_signed(f, info)
            a, b, done = v.f
            c = band(bnot(done), (sle if sg else ule)(a, b))
            last = eq(a, b)
            na = ite(band(c, bnot(last)), add(a, K(1, a.w)), a)
            x.store(st, ref.root, ref.path, Agg((na, b, ite(c, last, TRUE) if not isk(c) else (last if c is TRUE else done)), v.d))
            return En(zext(c, 64), {0: (), 1: (a,)}, OPT)
    if path in ("core::mem::swap",) and all(isinstance(a, Ref) for a in args):
        a, b = deref1(x, st, args[0]), deref1(x, st, args[1])
        x.store(st, args[0].root, args[0].path, b)
        x.store(st, args[1].root, args[1].path, a)
        return UNIT
    if path in ("core::mem::replace",) and isinstance(args[0], Ref):
        a = deref1(x, st, args[0])
        x.store(st, args[0].root, args[0].path, args[1])
        return a
    if path in ("core::hint::unreachable_unchecked",):
        st.dead = True
        return UNDEF
    if path.startswith("core::panicking::unreachable_default_msg") or path.startswith("core::fmt::"):
        return Opq(("fmt", path))
    if path == "core::bool::<impl bool>::then_some":
        c = x.term(st, args[0])
        return En(zext(c, 64), {0: (), 1: (args[1],)}, OPT)
    if path == "core::bool::<impl bool>::then":
        c = x.term(st, args[0])
        r = x.cond_call(st, c, args[1], [])
        return En(zext(c, 64), {0: (), 1: (r,)}, OPT)
    if name in ("call", "call_mut", "call_once") and tr and tr.startswith("core::ops::function::Fn"):
        a = args[1]
        return x.call_value(st, args[0], list(a.f) if isinstance(a, Agg) else [a], f, t)
    if path == "core::slice::<impl [T]>::len":
        return x.metadata(st, args[0])
    return NotImplemented


def _range_signed(f, info):
    a = (info.get("res") or info).get("args") or []
    for i in a:
        if isinstance(i, int):
            t = f["crate"].ty(i)
            if t["k"] == "adt" and t["args"]:
                t = f["crate"].ty(t["args"][0])
            return t["k"] == "int"
    return False


def value_eq(x, st, a, b):
    if isinstance(a, T) and isinstance(b, T):
        if a.w == b.w and a.w:
            return eq(a, b)
        return None
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
        r = TRUE
        for p, q in zip(a.f, b.f):
            e = value_eq(x, st, x.scal(st, p), x.scal(st, q))
            if e is None:
                return None
            r = band(r, e)
        return r
    if isinstance(a, En) and isinstance(b, En):
        r = eq(a.vidx, b.vidx)
        for k in set(a.v) & set(b.v):
            if len(a.v[k]) != len(b.v[k]):
                return None
            c = TRUE
            for p, q in zip(a.v[k], b.v[k]):
                if p is UNDEF or q is UNDEF:
                    return None
                e = value_eq(x, st, x.scal(st, p), x.scal(st, q))
                if e is None:
                    return None
                c = band(c, e)
            r = band(r, bor(bnot(eq(a.vidx, K(k, 64))), c))
        return r
    if isinstance(a, Opq) and isinstance(b, Opq):
        return TRUE if a.n == b.n else uf("opq_eq:%r:%r" % (a.n, b.n), 1)
    return None


def try_branch(x, v):
    CF = "core::ops::control_flow::ControlFlow"
    if isinstance(v, Mux):
        return merge(v.c, try_branch(x, v.a), try_branch(x, v.b))
    if isinstance(v, En):
        if v.d == OPT:
            return En(ite(eq(v.vidx, K(0, 64)), K(1, 64), K(0, 64)),
                      {0: v.v.get(1, (UNDEF,)), 1: (NONE(),)}, CF)
        return En(v.vidx, {0: v.v.get(0, (UNDEF,)), 1: (En(1, {1: v.v.get(1, (UNDEF,))}, RES),)}, CF)
    if isinstance(v, Opq):
        return En(uf("try:" + repr(v.n), 64), {0: (Opq(("ok", v.n)),), 1: (En(1, {1: (Opq(("err", v.n)),)}, RES),)}, CF)
    raise Unsupported("try on %r" % (v,))


def option_method(x, st, name, args, f, t):
    v = args[0]
    if isinstance(v, Ref):
        vv = deref1(x, st, v)
        if name in ("is_some", "is_none") and isinstance(vv, En):
            v = vv
        elif name in ("as_ref", "as_mut", "as_deref") and isinstance(vv, En):
            return En(vv.vidx, {0: (), 1: (Ref(v.root, tuple(v.path) + (("d", 1), ("f", 0))),)}, OPT)
        elif name == "take" and isinstance(vv, En):
            x.store(st, v.root, v.path, NONE())
            return vv
    if not isinstance(v, En):
        return NotImplemented
    c = eq(v.vidx, K(1, 64))
    pay = v.v.get(1, (UNDEF,))
    pay = pay[0] if pay else UNDEF
    if name == "is_some":
        return c
    if name == "is_none":
        return bnot(c)
    if name == "map":
        r = x.cond_call(st, c, args[1], [pay])
        return En(v.vidx, {0: (), 1: (r,)}, OPT)
    if name == "and_then":
        if c is FALSE:
            return NONE()
        r = x.cond_call(st, c, args[1], [pay])
        return merge(c, r, NONE())
    if name == "or_else":
        if c is TRUE:
            return v
        r = x.cond_call(st, bnot(c), args[1], [])
        return merge(c, v, r)
    if name == "or":
        return merge(c, v, args[1])
    if name == "ok_or":
        return En(zext(bnot(c), 64), {0: (pay,), 1: (args[1],)}, RES)
    if name == "ok_or_else":
        e = x.cond_call(st, bnot(c), args[1], [])
        return En(zext(bnot(c), 64), {0: (pay,), 1: (e,)}, RES)
    if name in ("unwrap", "expect", "unwrap_unchecked"):
        st.panic = bor(st.panic, bnot(c))
        return pay
    if name == "unwrap_or":
        return merge(c, pay, args[1])
    if name == "unwrap_or_default" and isinstance(pay, T):
        return merge(c, pay, K(0, pay.w))
    if name == "unwrap_or_else":
        r = x.cond_call(st, bnot(c), args[1], [])
        return merge(c, pay, r)
    if name == "map_or":
        r = x.cond_call(st, c, args[2], [pay])
        return merge(c, r, args[1])
    if name == "is_some_and":
        r = x.cond_call(st, c, args[1], [pay])
        return band(c, x.term(st, r)) if r is not UNDEF else FALSE
    if name in ("cloned", "copied"):
        return En(v.vidx, {0: (), 1: (deref1(x, st, pay) if pay is not UNDEF else UNDEF,)}, OPT)
    if name == "filter":
        x.heap += 1
        root = ("H", x.heap)
        st.env[root] = pay
        r = x.cond_call(st, c, args[1], [Ref(root)])
        return En(zext(band(c, x.term(st, r)), 64), v.v, OPT)
    return NotImplemented


def result_method(x, st, name, args, f, t):
    v = args[0]
    if isinstance(v, Ref):
        vv = deref1(x, st, v)
        if name in ("is_ok", "is_err") and isinstance(vv, En):
            v = vv
    if not isinstance(v, En):
        return NotImplemented
    ok = eq(v.vidx, K(0, 64))
    pay = v.v.get(0, (UNDEF,))
    pay = pay[0] if pay else UNDEF
    er = v.v.get(1, (UNDEF,))
    er = er[0] if er else UNDEF
    if name == "is_ok":
        return ok
    if name == "is_err":
        return bnot(ok)
    if name == "map":
        r = x.cond_call(st, ok, args[1], [pay])
        return En(v.vidx, {0: (r,), 1: (er,)}, RES)
    if name == "map_err":
        r = x.cond_call(st, bnot(ok), args[1], [er])
        return En(v.vidx, {0: (pay,), 1: (r,)}, RES)
    if name == "and_then":
        r = x.cond_call(st, ok, args[1], [pay])
        e = En(1, {1: (er,)}, RES)
        return merge(ok, r, e) if r is not UNDEF else e
    if name in ("unwrap", "expect"):
        st.panic = bor(st.panic, bnot(ok))
        return pay
    if name == "unwrap_or":
        return merge(ok, pay, args[1])
    if name == "ok":
        return En(zext(ok, 64), {0: (), 1: (pay,)}, OPT)
    if name == "err":
        return En(zext(bnot(ok), 64), {0: (), 1: (er,)}, OPT)
    return NotImplemented
