"""What constructors build: the value a constructor returns is observed through the accessors of its own type."""
import re

import containers
import memworld
import panics
from hostworld import *
from loops import where_of

ARC = re.compile(r"<?alloc::(sync|rcs::arc|rc)::Arc(<|::<)")
ZMEM = "zeroed"


def dirty(v):
    """the same shape, never written"""
    if isinstance(v, T):
        return V("garbage%d" % v.w, v.w)
    if isinstance(v, containers.SArr):
        e = dirty(v.index(None, None, K(0, 64)))
        return containers.SArr(v.n, lambda ix: e, (), "garbage")
    return Agg([dirty(c) for c in v.f], v.d)


class Factory:
    """execution of constructors: allocations, boxes, shared cells and generic defaults are modelled"""

    def __init__(self, p, unroll=9, more=None):
        self.p = p
        self.allocs = []        # (token, size, zeroed)
        self.freed = []
        self.log = []
        H = {"deref_term": memworld.deref_term, "unknown_first": self.unknown}
        self.more = more
        self.x = Exec(p, hooks=H, unroll=unroll, consts=CONSTS, method_select=Dispatch(p))
        self.st = St()

    def root(self, v, n="cell"):
        k = ("O", n, len(self.st.env))
        self.st.env[k] = v
        return Ref(k)

    def zero(self, cr, ty):
        k = ty["k"]
        w = self.x.width(ty)
        if w:
            return K(0, w)
        if k == "ptr":
            return K(0, 64)
        if k == "array":
            e = self.zero(cr, cr.ty(ty["of"]))
            n = int(ty["len"])
            return Agg([e] * n, "arr") if n <= 64 else containers.SArr(K(n, 64), lambda ix: e, (), ZMEM)
        if k == "adt":
            a = self.p.adt(ty["def"])
            if a and len(a["variants"]) == 1:
                c = a.get("crate") or cr
                c = c if hasattr(c, "ty") else self.p.crates.get(ty["def"].split("::")[0], cr)
                out = []
                for k, f in enumerate(a["variants"][0]["fields"]):
                    fty = c.ty(f["ty"])
                    if fty["k"] == "array" and fty.get("len") is None and a.get("layout"):
                        # the length is a constant expression: taken from the layout
                        offs = a["layout"]["offsets"]
                        end = min([o for o in offs if o > offs[k]] + [a["layout"]["size"]])
                        fty = dict(fty, len=(end - offs[k]) // self.sizeof(c.ty(fty["of"])))
                    out.append(self.zero(c, fty))
                return Agg(out, ty["def"])
        raise Unsupported("zeroed %s" % ty.get("s"))

    def tyargs(self, i, f):
        r = i.get("res") or i
        return [f["crate"].ty(k) for k in (r.get("args") or []) if isinstance(k, int)]

    def sizeof(self, ty):
        w = self.x.width(ty)
        if w:
            return max(1, w // 8)
        a = self.p.adt(ty["s"].split("<")[0]) if ty["k"] == "adt" else None
        if a and a.get("layout"):
            return a["layout"]["size"]
        raise Unsupported("size of %s" % ty.get("s"))

    def unknown(self, x, st, a, i, f, t):
        if self.more:
            r = self.more(self, x, st, a, i, f, t)
            if r is not NotImplemented:
                return r
        p = (i.get("res") or i)["path"]
        nm = p.rsplit("::", 1)[-1]
        tr = i.get("trait")
        if "alloc::layout::Layout" in p:
            ts = self.tyargs(i, f)
            if nm == "new":
                return Agg([K(self.sizeof(ts[0]), 64), (ts[0], None, f["crate"])], "Layout")
            if nm == "array":
                n, s = x.term(st, a[0], 64), self.sizeof(ts[0])
                bad = bnot(ule(n, K((mask(64) >> 1) // s, 64)))
                return En(zext(bad, 64), {0: (Agg([mul(n, K(s, 64)), (ts[0], n, f["crate"])], "Layout"),), 1: (Opq("layouterr"),)}, RES)
            if nm == "size":
                return memworld.follow(x, st, a[0]).f[0]
        if p in ("alloc::alloc::alloc", "alloc::alloc::alloc_zeroed"):
            l = self.lay(x, st, a[0])
            z = nm == "alloc_zeroed"
            k = len(self.allocs)
            ty, n, cr = l.f[1]
            if n is None:
                r = Ref(("O", "heap%d" % k))
                st.env[r.root] = self.zero(cr, ty) if z else dirty(self.zero(cr, ty))
                self.allocs.append((r, l.f[0], z))
                return r
            if ty["k"] == "adt":
                r = Ref(("O", "heap%d" % k))
                e = self.zero(cr, ty) if z else dirty(self.zero(cr, ty))
                st.env[r.root] = containers.SArr(n, lambda ix: e, (), "heap")
                self.allocs.append((r, l.f[0], z))
                return r
            v = V("alloc%d" % k, 64)
            self.allocs.append((v, l.f[0], z))
            return v
        if p == "alloc::alloc::dealloc":
            l = self.lay(x, st, a[1])
            self.freed.append((x.term(st, a[0], 64), l.f[0]))
            return UNIT
        if p.startswith("alloc::vec::Vec::<T") and nm in ("new", "with_capacity"):
            ts = self.tyargs(i, f)
            if ts and ts[0]["k"] == "array":
                # storage: an array of arrays, nothing in it yet
                e = self.zero(f["crate"], dict(ts[0], len=ts[0].get("len") or 4096))
                return containers.SArr(K(0, 64), lambda ix: e, (), "pages")
        if p.startswith("alloc::vec::Vec::<T") and nm == "insert":
            r = memworld.follow(x, st, a[0])
            v = x.load(st, r.root, r.path) if isinstance(r, Ref) else None
            if isinstance(v, Agg) and v.d == "Vec" and isk(a[1]) and kv(a[1]) <= len(v.f):
                x.store(st, r.root, r.path, Agg(v.f[:kv(a[1])] + (a[2],) + v.f[kv(a[1]):], "Vec"))
                return UNIT
        if p.startswith("core::panicking::") and nm.startswith(("assert_failed", "panic")):
            return UNDEF
        if p.startswith("alloc::boxed::Box::<T") and nm in ("from_raw", "into_raw"):
            return a[0]
        if p.startswith("alloc::boxed::Box::<T>::new") and nm == "new":
            return self.box(st, a[0])
        if ARC.match(p) and nm in ("new", "from"):
            return self.box(st, a[0])
        if ARC.match(p) and nm in ("clone", "deref", "as_ref", "borrow", "default"):
            if nm == "default":
                return self.box(st, K(0, 8))
            v = a[0]
            while isinstance(v, Ref) and isinstance(x.load(st, v.root, v.path), Ref):
                v = x.load(st, v.root, v.path)
            if nm in ("clone", "deref", "as_ref", "borrow"):
                return v
        if "core::sync::atomic" in p:
            if nm in ("new", "from"):
                return x.term(st, a[0])
            r = memworld.follow(x, st, a[0])
            if isinstance(r, Ref):
                old = x.load(st, r.root, r.path)
                if nm in ("store", "swap"):
                    x.store(st, r.root, r.path, x.term(st, a[1], old.w))
                    return old if nm == "swap" else UNIT
                if nm == "load":
                    return old
                if nm in ("fetch_and", "fetch_or"):
                    x.store(st, r.root, r.path, (band if nm == "fetch_and" else bor)(old, x.term(st, a[1], old.w)))
                    return old
                if nm in ("as_ptr", "get_mut"):
                    return r
            if nm == "default":
                return K(0, 8)
        if tr == "core::default::Default":
            r = (i.get("res") or i)
            ts = [f["crate"].ty(k) for k in (i.get("args") or []) if isinstance(k, int)]
            ts = ts or self.tyargs(i, f)
            from prims import _dty
            d = _dty(x, f, t)
            if d and d["k"] == "param":
                n = d["s"].split("/")[0]
                return K(0, 64) if n == "R" else Opq("default " + n)
            if d and d["k"] == "array":
                e = f["crate"].ty(d["of"])
                if e["k"] == "param":
                    return Agg([K(0, 64)] * int(d["len"]), "arr")
            if d and d["k"] == "adt" and "HashMap" in d["def"]:
                return self.map()
            if d and d["k"] == "adt" and d["def"].endswith("PhantomData"):
                return UNIT
            if d and d["k"] == "adt" and d["def"] == "alloc::vec::Vec":
                return Agg((), "Vec")
        if "HashMap" in p and nm in ("new", "with_capacity", "default"):
            return self.map()
        if nm in ("as_ptr", "as_mut_ptr") and p.startswith("core::slice::<impl [T]>::"):
            r = memworld.follow(x, st, a[0])
            if isinstance(r, Ref) and r.root[:2] != ("O", "mem"):
                return r
        if nm in ("as_ref", "as_mut") and "alloc::boxed::Box" in p and isinstance(a[0], Ref):
            v = x.load(st, a[0].root, a[0].path)
            return v if isinstance(v, Ref) else a[0]
        if p.startswith("alloc::vec::Vec") and nm == "from" or "core::convert::From<[T; N]> for alloc::vec::Vec" in p or (tr == "core::convert::From" and isinstance(a[0], Agg) and "alloc::vec::Vec" in p):
            return Agg(a[0].f, "Vec")
        return memworld.unknown(x, st, a, i, f, t)

    def map(self):
        return containers.SArr(K(0, 64), lambda k: Agg([FALSE, UNDEF], "entry"), (), "empty map")

    def box(self, st, v):
        self.x.heap += 1
        k = ("H", self.x.heap)
        st.env[k] = v
        return Ref(k)

    def lay(self, x, st, v):
        v = memworld.follow(x, st, v)
        if isinstance(v, Ref):
            v = x.load(st, v.root, v.path)
        if isinstance(v, Agg) and v.d == "Layout":
            return v
        raise Unsupported("layout %r" % (v,))

    # ---- running
    def run(self, path, args, crate="ckb_vm"):
        g = self.p.fn(path, crate)
        if g is None:
            raise Unsupported("no function " + path)
        return self.x.run_body(self.st, g, args)

    def on(self, path, recv, *args):
        """call a method taking &self / &mut self; the value returned, references followed"""
        v = self.run(path, [recv] + list(args))
        return self.look(v)

    def look(self, v):
        n = 0
        while isinstance(v, Ref) and n < 8:
            v = self.x.load(self.st, v.root, v.path)
            n += 1
        return v

    def field(self, v, n):
        v = self.look(v)
        if not isinstance(v, Agg):
            raise Unsupported("field %s of %r" % (n, v))
        for k, f in enumerate(self.p.adt(v.d)["variants"][0]["fields"]):
            if f["name"] == n:
                return v.f[k]
        raise Unsupported("%s has no field %s" % (v.d, n))
