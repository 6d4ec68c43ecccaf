"""Gated value-graph construction from extracted MIR.

One pass over the control-flow graph of a function (callees in the crate inlined); at the immediate
post-dominator of a branch the two abstract states are joined with gates (ite terms), so the result is a single DAG
per observable, not a set of paths.  No solver is involved.  Loops are unrolled while their exit test folds to a
constant or up to a stated bound; a state that would need more is marked `cut` and excluded."""
import panics
from terms import *
import terms as TM


class Unsupported(Exception):
    pass


class UndefT:
    def __repr__(self):
        return "UNDEF"


UNDEF = UndefT()


class Agg:
    __slots__ = ("f", "d")

    def __init__(self, f, d=None):
        self.f = tuple(f)
        self.d = d

    def __repr__(self):
        return "%s{%s}" % (self.d or "", ", ".join(map(repr, self.f)))


class En:
    """enum: vidx is a 64-bit term holding the variant index, variants maps index -> fields"""
    __slots__ = ("vidx", "v", "d")

    def __init__(self, vidx, v, d):
        self.vidx = K(vidx, 64) if isinstance(vidx, int) else vidx
        self.v = v
        self.d = d

    def __repr__(self):
        return "%s<%r>%r" % (self.d, self.vidx, self.v)


class Ref:
    __slots__ = ("root", "path", "meta")

    def __init__(self, root, path=(), meta=None):
        self.root = root
        self.path = tuple(path)
        self.meta = meta

    def __repr__(self):
        return "&%r%r" % (self.root, self.path)

    def key(self):
        return (self.root, self.path, self.meta)


class Fn:
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info

    def __repr__(self):
        return "fn " + self.info["path"]


class Clo:
    __slots__ = ("d", "caps")

    def __init__(self, d, caps):
        self.d = d
        self.caps = caps

    def __repr__(self):
        return "closure " + self.d


class Opq:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "opq(%r)" % (self.n,)


class Mux:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "mux(%r,%r,%r)" % (self.c, self.a, self.b)


class SubView:
    """a slice read as a value"""

    def __init__(self, x, v, off):
        self.x, self.v, self.off = x, v, off

    def index(self, x, st, ix):
        return x.walk(st, self.v, (("i", add(self.off, ix)),))


UNIT = Agg(())
RES = "core::result::Result"
OPT = "core::option::Option"


def Ok(v):
    return En(0, {0: (v,)}, RES)


def Err(v):
    return En(1, {1: (v,)}, RES)


def Some(v):
    return En(1, {1: (v,)}, OPT)


def NONE():
    return En(0, {0: ()}, OPT)


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Agg):
        return len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, En):
        return a.vidx is b.vidx and a.v.keys() == b.v.keys() and all(
            len(a.v[k]) == len(b.v[k]) and all(same(x, y) for x, y in zip(a.v[k], b.v[k])) for k in a.v)
    if isinstance(a, Ref):
        return a.key() == b.key()
    if isinstance(a, Fn):
        return a.info["path"] == b.info["path"]
    if isinstance(a, Opq):
        return a.n == b.n
    if isinstance(a, Clo):
        return a.d == b.d and len(a.caps) == len(b.caps) and all(same(x, y) for x, y in zip(a.caps, b.caps))
    if isinstance(a, Mux):
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    return False


def merge(c, a, b):
    if a is b:
        return a
    if isk(c):
        return a if kv(c) else b
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, T) and isinstance(b, T):
        if a.w == b.w:
            return aite(c, a, b) if a.w == 0 else ite(c, a, b)
        raise Unsupported("merge widths")
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
        return Agg([merge(c, x, y) for x, y in zip(a.f, b.f)], a.d)
    if isinstance(a, En) and isinstance(b, En):
        v = {}
        for k in set(a.v) | set(b.v):
            if k not in a.v or not a.v[k]:
                v[k] = b.v[k] if k in b.v else a.v[k]
            elif k not in b.v or not b.v[k]:
                v[k] = a.v[k]
            elif len(a.v[k]) == len(b.v[k]):
                v[k] = tuple(merge(c, x, y) for x, y in zip(a.v[k], b.v[k]))
            else:
                raise Unsupported("enum merge %r / %r" % (a, b))
        return En(ite(c, a.vidx, b.vidx), v, a.d or b.d)
    if hasattr(a, "merge_with") and type(a) is type(b):
        return a.merge_with(c, b)
    if same(a, b):
        return a
    return Mux(c, a, b)


class St:
    __slots__ = ("env", "panic", "cut", "dead", "fin")

    def __init__(self):
        self.env = {}
        self.panic = FALSE
        self.cut = FALSE
        self.dead = False
        self.fin = False       # already at the end of the current body: its paths were followed apart

    def copy(self):
        s = St()
        s.env = dict(self.env)
        s.panic, s.cut, s.dead = self.panic, self.cut, self.dead
        return s

    def become(self, o):
        self.env, self.panic, self.cut, self.dead = o.env, o.panic, o.cut, o.dead


def apart(a, b, n=4):
    """vectors of different known lengths: better followed separately than merged"""
    if a is b or n == 0:
        return False
    if isinstance(a, Agg) and isinstance(b, Agg):
        if len(a.f) != len(b.f):
            return a.d == "Vec" and b.d == "Vec"
        return any(apart(x, y, n - 1) for x, y in zip(a.f, b.f))
    return False


def apart_states(a, b):
    if a.dead or b.dead:
        return False
    eb = b.env
    return any(k in eb and va is not eb[k] and apart(va, eb[k]) for k, va in a.env.items() if isinstance(va, Agg))


def merge_states(c, a, b):
    """a when c else b; a dead state contributes only its panic/cut condition"""
    if isk(c):
        return a if kv(c) else b
    if a.dead and b.dead:
        s = a.copy()
        s.panic = ite(c, a.panic, b.panic)
        s.cut = ite(c, a.cut, b.cut)
        return s
    if a.dead or b.dead:
        al, de = (b, a) if a.dead else (a, b)
        s = al.copy()
        s.panic = ite(c, a.panic, b.panic)
        s.cut = ite(c, a.cut, b.cut)
        return s
    s = St()
    s.panic = ite(c, a.panic, b.panic)
    s.cut = ite(c, a.cut, b.cut)
    ea, eb = a.env, b.env
    env = {}
    for k, va in ea.items():
        vb = eb.get(k, UNDEF)
        env[k] = va if va is vb else merge(c, va, vb)
    for k, vb in eb.items():
        if k not in ea:
            env[k] = vb
    s.env = env
    return s


def _cfg(f):
    """successors (non-cleanup) and immediate post-dominators of a body"""
    if "_ipd" in f:
        return f["_succ"], f["_ipd"]
    bbs = f["bbs"]
    n = len(bbs)
    EXIT = n
    succ = []
    for b in bbs:
        t = b["t"]
        k = t["k"]
        if k == "goto":
            s = [t["t"]]
        elif k == "switch":
            s = [x[1] for x in t["ts"]] + [t["o"]]
            s = [x for x in dict.fromkeys(s)]
        elif k in ("drop", "assert"):
            s = [t["t"]]
        elif k == "call":
            s = [t["t"]] if t["t"] is not None else []
        elif k == "ret":
            s = [EXIT]
        else:
            s = []
        succ.append(s)
    # blocks that cannot reach EXIT are ignored for post-dominance
    reach = {EXIT}
    changed = True
    while changed:
        changed = False
        for i in range(n):
            if i not in reach and any(x in reach for x in succ[i]):
                reach.add(i)
                changed = True
    # forward reachable
    fw = set()
    st = [0]
    while st:
        x = st.pop()
        if x in fw or x == EXIT:
            continue
        fw.add(x)
        st.extend(succ[x])
    nodes = [i for i in fw if i in reach]
    # post-order on the reverse graph from EXIT
    pred = {i: [] for i in list(nodes) + [EXIT]}
    for i in nodes:
        for x in succ[i]:
            if x in pred:
                pred[x].append(i)
    order = []
    seen = set()
    stack = [(EXIT, iter(pred[EXIT]))]
    seen.add(EXIT)
    while stack:
        x, it = stack[-1]
        for y in it:
            if y not in seen:
                seen.add(y)
                stack.append((y, iter(pred[y])))
                break
        else:
            order.append(x)
            stack.pop()
    order.reverse()
    idx = {x: i for i, x in enumerate(order)}
    ipd = {EXIT: EXIT}

    def inter(a, b):
        while a != b:
            while idx[a] > idx[b]:
                a = ipd[a]
            while idx[b] > idx[a]:
                b = ipd[b]
        return a
    changed = True
    while changed:
        changed = False
        for x in order:
            if x == EXIT:
                continue
            new = None
            for s in succ[x]:
                if s in ipd and s in idx:
                    new = s if new is None else inter(new, s)
            if new is not None and ipd.get(x) != new:
                ipd[x] = new
                changed = True
    f["_succ"], f["_ipd"] = succ, ipd
    return succ, ipd


class Exec:
    def __init__(self, prog, hooks=None, unroll=3, consts=None, max_blocks=200000, method_select=None):
        self.p = prog
        self.hooks = hooks or {}
        self.unroll = unroll
        self.splits = 12
        self.regw = 64
        self.frame = 0
        self.heap = 0
        self.blocks = 0
        self.max_blocks = max_blocks
        self.inlined = {}
        self.assumed = {}
        self.trait_consts = consts or {}
        self.method_select = method_select
        self.depth = 0
        self.stackfns = []

    # -------------------------------------------------------------- types
    def opty(self, f, o):
        cr = f["crate"]
        if "c" in o:
            return cr.ty(o["c"]["ty"])
        pl = o.get("cp") or o.get("mv")
        if pl is None:
            return {"k": "bool", "s": "bool"}
        return self.plty(f, pl)

    def plty(self, f, pl):
        cr = f["crate"]
        t = cr.ty(f["locals"][pl[0]])
        for s in pl[1]:
            if s == "*":
                if t["k"] in ("ref", "ptr"):
                    t = cr.ty(t["to"])
                elif t["k"] == "adt" and t["args"]:
                    t = cr.ty(t["args"][0])
            elif s[0] == "f":
                t = cr.ty(s[2])
            elif s[0] in ("i", "ci"):
                if t["k"] in ("array", "slice"):
                    t = cr.ty(t["of"])
        return t

    def width(self, t):
        k = t["k"]
        if k in ("int", "uint"):
            return t["bits"]
        if k == "bool":
            return 1
        if k == "char":
            return 32
        if k in ("param", "alias"):
            return 64
        return None

    def signed(self, t):
        return t["k"] == "int"

    # -------------------------------------------------------------- places
    def load(self, st, root, path):
        if root not in st.env:
            v = self.const_root(root)
        else:
            v = st.env[root]
        return self.walk(st, v, path)

    def const_root(self, root):
        if root[0] == "C":
            return self._croots[root]
        raise Unsupported("no such object %r" % (root,))

    _croots = {}

    def walk(self, st, v, path):
        off = None
        for i, s in enumerate(path):
            if v is UNDEF:
                return UNDEF
            if s[0] == "sub":
                # element offset of a sub-slice: added to the next index
                off = s[1] if off is None else add(off, s[1])
                continue
            if off is not None:
                if s[0] != "i":
                    raise Unsupported("step %r into a slice" % (s,))
                s = ("i", add(off, s[1]))
                off = None
            if isinstance(v, Mux):
                r = path[i:]
                return merge(v.c, self.walk(st, v.a, r), self.walk(st, v.b, r))
            k = s[0]
            if k == "f":
                if isinstance(v, Agg):
                    if s[1] >= len(v.f):
                        raise Unsupported("field %r of %r" % (s, v))
                    v = v.f[s[1]]
                elif isinstance(v, En):
                    # field of a downcast
                    raise Unsupported("field of enum")
                elif isinstance(v, Ref):
                    pass  # Box/NonNull wrappers are transparent
                elif isinstance(v, Clo):
                    v = v.caps[s[1]]
                elif isinstance(v, Opq):
                    v = Opq(("f", v.n, s[1]))
                elif isinstance(v, T):
                    pass  # newtype around a scalar
                else:
                    raise Unsupported("field of %r" % (v,))
            elif k == "d":
                if isinstance(v, En):
                    v = Agg(v.v[s[1]]) if s[1] in v.v else UNDEF
                elif isinstance(v, Opq):
                    v = Opq(("d", v.n, s[1]))
                else:
                    raise Unsupported("downcast of %r" % (v,))
            elif k == "i":
                ix = s[1]
                if isinstance(v, T) and v.w == 0:
                    v = rr(v, ex(4, 0, ix) if ix.w > 5 else ix)
                    if self.regw != 64:
                        v = ex(self.regw - 1, 0, v)
                elif isinstance(v, Agg):
                    if isk(ix):
                        v = v.f[kv(ix)] if kv(ix) < len(v.f) else UNDEF
                    else:
                        r = UNDEF
                        for j, x in enumerate(v.f):
                            r = merge(eq(ix, K(j, ix.w)), x, r)
                        v = r
                elif hasattr(v, "index"):
                    v = v.index(self, st, ix)
                elif isinstance(v, Opq):
                    v = Opq(("i", v.n, ix))
                else:
                    raise Unsupported("index of %r" % (v,))
            else:
                raise Unsupported("step %r" % (s,))
        if off is not None:
            return SubView(self, v, off)
        return v

    def store(self, st, root, path, val):
        if not path:
            st.env[root] = val
            return
        old = st.env.get(root, UNDEF)
        st.env[root] = self.upd(st, old, path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        s = path[0]
        k = s[0]
        if isinstance(v, Mux):
            return merge(v.c, self.upd(st, v.a, path, val), self.upd(st, v.b, path, val))
        if k == "sub":
            off = s[1]
            path = path[1:]
            while path and path[0][0] == "sub":
                off = add(off, path[0][1])
                path = path[1:]
            if not path or path[0][0] != "i":
                raise Unsupported("update of a whole slice")
            return self.upd(st, v, (("i", add(off, path[0][1])),) + tuple(path[1:]), val)
        if k == "f":
            if v is UNDEF:
                fs = [UNDEF] * (s[1] + 1)
                fs[s[1]] = self.upd(st, UNDEF, path[1:], val)
                return Agg(fs)
            if isinstance(v, Agg):
                fs = list(v.f)
                while len(fs) <= s[1]:
                    fs.append(UNDEF)
                fs[s[1]] = self.upd(st, fs[s[1]], path[1:], val)
                return Agg(fs, v.d)
            if isinstance(v, Opq):
                return Opq(("upd", v.n, s[1], repr(val)))
            if isinstance(v, T) and len(path) == 1:
                return val
            if isinstance(v, (T, Ref)):
                return self.upd(st, v, path[1:], val)
            raise Unsupported("update field of %r" % (v,))
        if k == "d":
            if isinstance(v, En):
                d = dict(v.v)
                a = self.upd(st, Agg(d.get(s[1], ())), path[1:], val)
                d[s[1]] = a.f
                return En(v.vidx, d, v.d)
            raise Unsupported("update downcast")
        if k == "i":
            ix = s[1]
            if isinstance(v, T) and v.w == 0:
                return rw(v, ex(4, 0, ix), val)
            if isinstance(v, Agg):
                if isk(ix):
                    fs = list(v.f)
                    if kv(ix) >= len(fs):
                        return v
                    fs[kv(ix)] = self.upd(st, fs[kv(ix)], path[1:], val)
                    return Agg(fs, v.d)
                return Agg([merge(eq(ix, K(j, ix.w)), self.upd(st, x, path[1:], val), x) for j, x in enumerate(v.f)], v.d)
            if hasattr(v, "setindex"):
                return v.setindex(self, st, ix, path[1:], val)
        raise Unsupported("update %r of %r" % (s, v))

    def place(self, st, fr, f, pl):
        """-> (root, path)"""
        root = ("L", fr, pl[0])
        path = []
        for s in pl[1]:
            if s == "*":
                v = self.load(st, root, tuple(path))
                if isinstance(v, Mux):
                    return ("MUX", v), []
                if isinstance(v, Ref):
                    root, path = v.root, list(v.path)
                elif isinstance(v, Opq):
                    root, path = ("OQ", v.n), []
                    if root not in st.env:
                        st.env[root] = Opq(("*", v.n))
                elif isinstance(v, T):
                    h = self.hooks.get("deref_term")
                    r = h and h(self, st, v)
                    if r:
                        root, path = r.root, list(r.path)
                    else:
                        root, path = ("V", v), []
                        st.env[root] = v
                elif v is UNDEF:
                    raise Unsupported("deref of undef")
                else:
                    raise Unsupported("deref of %r" % (v,))
            elif s[0] == "f":
                path.append(("f", s[1]))
            elif s[0] == "i":
                path.append(("i", self.load(st, ("L", fr, s[1]), ())))
            elif s[0] == "ci":
                if s[3]:
                    raise Unsupported("from-end index")
                path.append(("i", K(s[1], 64)))
            elif s[0] == "d":
                path.append(("d", s[1]))
            else:
                raise Unsupported("projection %r" % (s,))
        return root, path

    def read(self, st, fr, f, pl):
        root, path = self.place_m(st, fr, f, pl)
        if isinstance(root, Mux):
            return self.read_mux(st, fr, f, pl)
        return self.load(st, root, tuple(path))

    def place_m(self, st, fr, f, pl):
        r = self.place(st, fr, f, pl)
        if r[0][0] == "MUX":
            return r[0][1], None
        return r

    def read_mux(self, st, fr, f, pl):
        # evaluate the projection on every alternative of the muxed pointer
        def go(v, rest):
            if isinstance(v, Mux):
                return merge(v.c, go(v.a, rest), go(v.b, rest))
            cur = v
            for j, s in enumerate(rest):
                if s == "*":
                    if isinstance(cur, Mux):
                        return go(cur, rest[j:])
                    if isinstance(cur, Ref):
                        cur = self.load(st, cur.root, cur.path)
                    elif isinstance(cur, T):
                        pass
                    else:
                        raise Unsupported("mux deref")
                elif s[0] == "f":
                    cur = self.walk(st, cur, (("f", s[1]),))
                elif s[0] == "d":
                    cur = self.walk(st, cur, (("d", s[1]),))
                elif s[0] == "i":
                    cur = self.walk(st, cur, (("i", self.load(st, ("L", fr, s[1]), ())),))
                else:
                    raise Unsupported("mux proj")
            return cur
        return go(st.env[("L", fr, pl[0])], pl[1])

    def assign(self, st, fr, f, pl, val):
        r = self.place(st, fr, f, pl)
        if r[0][0] == "MUX":
            m = r[0][1]
            # single trailing deref only
            if pl[1] and pl[1][0] == "*" and all(s != "*" for s in pl[1][1:]):
                path = [("f", s[1]) if s[0] == "f" else ("i", self.load(st, ("L", fr, s[1]), ())) if s[0] == "i" else ("d", s[1]) for s in pl[1][1:]]

                def go(v, cond):
                    if isinstance(v, Mux):
                        go(v.a, band(cond, v.c))
                        go(v.b, band(cond, bnot(v.c)))
                    else:
                        old = self.load(st, v.root, tuple(v.path) + tuple(path))
                        self.store(st, v.root, tuple(v.path) + tuple(path), merge(cond, val, old))
                go(m, TRUE)
                return
            raise Unsupported("mux store")
        self.store(st, r[0], tuple(r[1]), val)

    # -------------------------------------------------------------- operands
    def op(self, st, fr, f, o):
        if "cp" in o:
            return self.read(st, fr, f, o["cp"])
        if "mv" in o:
            return self.read(st, fr, f, o["mv"])
        if "rc" in o:
            return FALSE
        return self.const(st, f, o["c"])

    def const(self, st, f, c):
        cr = f["crate"]
        t = cr.ty(c["ty"])
        if "fn" in c:
            return Fn(c["fn"])
        if "bits" in c:
            w = self.width(t)
            b = int(c["bits"])
            if w is not None:
                return K(b, w)
            if t["k"] == "adt":
                return self.scalar_adt(t, b, c["size"])
            if t["k"] in ("ptr", "ref"):
                return Opq(("ptrconst", b))
            return K(b, 8 * c["size"])
        if c.get("zst") and "uneval" not in c:
            return self.zst(t)
        if "utrait" in c:
            key = (c["utrait"], c["uname"])
            if key in self.trait_consts:
                w = self.width(t)
                return K(self.trait_consts[key], w)
        if "promoted" in c and "uneval" in c:
            cc = self.p.crates.get(c["ukrate"])
            g = cc and cc.fns.get(c["uneval"])
            if g:
                body = g["promoted"][c["promoted"]]
                return self.run_const(st, body)
        if "uneval" in c:
            cc = self.p.crates.get(c["ukrate"])
            g = cc and cc.consts.get(c["uneval"])
            if g and not any(x in c for x in ("bits", "slice", "mem", "ptr", "zst")):
                return self.run_const(st, g["body"])
        if c.get("zst"):
            return self.zst(t)
        if "slice" in c and "bytes" in c["slice"]:
            return Opq(("str", bytes.fromhex(c["slice"]["bytes"])))
        if "mem" in c or "ptr" in c:
            src = c.get("mem") or c.get("ptr")
            if "bytes" in src:
                tt = t
                if "ptr" in c and t["k"] in ("ref", "ptr"):
                    tt = cr.ty(t["to"])
                try:
                    v = self.decode(cr, tt, src, c.get("off", 0))
                except Unsupported:
                    v = Opq(("mem", src["bytes"]))
                if "ptr" in c:
                    # constants with equal bytes may differ in what they point to
                    root = ("C", src["bytes"], tt["s"], c.get("off", 0), str(src.get("rel") or ""))
                    Exec._croots[root] = v
                    return Ref(root)
                return v
            if "fn" in src:
                return Fn(src["fn"])
            if "static" in src:
                return Opq(("static", src["static"]))
        return Opq(("const", c.get("uneval") or t["s"]))

    def zst(self, t):
        if t["k"] == "fndef":
            return Fn({"path": t["def"], "krate": ""})
        return UNIT

    def scalar_adt(self, t, b, size):
        a = self.p.adt(t["def"])
        if a and a["kind"] == "enum" and all(not v["fields"] for v in a["variants"]):
            for i, v in enumerate(a["variants"]):
                if int(v["discr"]) & mask(8 * size) == b:
                    return En(i, {i: ()}, t["def"])
        if a and a["kind"] == "struct" and len(a["variants"][0]["fields"]) == 1:
            return Agg((K(b, 8 * size),), t["def"])
        return Opq(("adtconst", t["def"], b))

    def decode(self, cr, t, src, off):
        raw = bytes.fromhex(src["bytes"])
        w = self.width(t)
        if w is not None and t["k"] in ("int", "uint", "bool", "char"):
            n = max(1, w // 8)
            return K(int.from_bytes(raw[off:off + n], "little"), w)
        if t["k"] == "array" and t["len"] is not None:
            e = cr.ty(t["of"])
            ew = self.width(e)
            if ew:
                n = max(1, ew // 8)
                return Agg([self.decode(cr, e, src, off + i * n) for i in range(t["len"])])
        if t["k"] == "tuple" and not t["elems"]:
            return UNIT
        if t["k"] == "fnptr":
            for o, tgt in src["rel"]:
                if o == off and "fn" in tgt:
                    return Fn(tgt["fn"])
        if t["k"] == "array" and t["len"] is not None and cr.ty(t["of"])["k"] == "fnptr":
            return Agg([self.decode(cr, cr.ty(t["of"]), src, off + 8 * i) for i in range(t["len"])])
        if t["k"] in ("ref", "ptr") and cr.ty(t["to"])["k"] == "str":
            for o, tgt in src["rel"]:
                if o == off and "bytes" in tgt:
                    return Opq(("str", bytes.fromhex(tgt["bytes"])[:int.from_bytes(raw[off + 8:off + 16], "little")]))
        if t["k"] == "array" and t["len"] is not None and cr.ty(t["of"])["k"] in ("ref", "ptr"):
            return Agg([self.decode(cr, cr.ty(t["of"]), src, off + 16 * i) for i in range(t["len"])])
        raise Unsupported("decode const " + t["s"])

    def run_const(self, st, body):
        return self.run_body(st, body, [], keep=True)

    # -------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, f, r, dty=None):
        k = r[0]
        if k == "use":
            return self.op(st, fr, f, r[1])
        if k in ("ref", "addr"):
            root, path = self.place_m(st, fr, f, r[2])
            if isinstance(root, Mux):
                pl = r[2]
                if pl[1] == ["*"]:
                    return root
                path = [("f", s[1]) if s[0] == "f" else ("d", s[1]) if s[0] == "d" else ("i", self.load(st, ("L", fr, s[1]), ())) for s in pl[1][1:]]

                def go(v):
                    if isinstance(v, Mux):
                        return Mux(v.c, go(v.a), go(v.b))
                    return Ref(v.root, tuple(v.path) + tuple(path))
                return go(root)
            meta = None
            if r[2][1] and r[2][1][-1] == "*":
                # reborrow keeps metadata
                try:
                    v = self.read(st, fr, f, [r[2][0], r[2][1][:-1]])
                    if isinstance(v, Ref):
                        return v
                    if isinstance(v, (Opq, T)):
                        return v
                except Unsupported:
                    pass
            return Ref(root, path, meta)
        if k == "bin":
            return self.binop(st, fr, f, r[1], r[2], r[3])
        if k == "un":
            v = self.op(st, fr, f, r[2])
            if r[1] == "Not":
                return bnot(v)
            if r[1] == "Neg":
                return neg(v)
            if r[1] == "PtrMetadata":
                return self.metadata(st, v)
            raise Unsupported("un " + r[1])
        if k == "cast":
            return self.cast(st, fr, f, r)
        if k == "discr":
            v = self.read(st, fr, f, r[1])
            return self.discr(v, self.plty(f, r[1]), dty)
        if k == "agg":
            vs = [self.op(st, fr, f, o) for o in r[2]]
            a = r[1]
            if a["k"] == "adt":
                ad = self.p.adt(a["def"])
                if ad and ad["kind"] == "enum":
                    return En(a["vi"], {a["vi"]: tuple(vs)}, a["def"])
                return Agg(vs, a["def"])
            if a["k"] == "closure":
                return Clo(a["def"], tuple(vs))
            if a["k"] == "rawptr":
                return vs[0]
            return Agg(vs)
        if k == "repeat":
            v = self.op(st, fr, f, r[1])
            if r[2] is not None and r[2] > 64 and isinstance(v, T):
                from containers import SArr
                return SArr(K(r[2], 64), lambda ix: v, (), "repeat")
            if r[2] is None or r[2] > 4096:
                return Opq(("repeat", repr(v), r[2]))
            return Agg([v] * r[2])
        raise Unsupported("rvalue %s" % (r,))

    def metadata(self, st, v):
        if isinstance(v, Mux):
            return ite(v.c, self.metadata(st, v.a), self.metadata(st, v.b))
        if isinstance(v, Ref):
            if v.meta is not None:
                return v.meta
            o = self.load(st, v.root, v.path)
            if isinstance(o, T) and o.w == 0:
                return K(32, 64)
            if isinstance(o, Agg):
                return K(len(o.f), 64)
            if hasattr(o, "length"):
                return o.length(self, st)
            if isinstance(o, Opq):
                return uf("len:" + repr(o.n), 64)
        if isinstance(v, Opq):
            if isinstance(v.n, tuple) and v.n[0] == "str":
                return K(len(v.n[1]), 64)
            return uf("len:" + repr(v.n), 64)
        raise Unsupported("metadata of %r" % (v,))

    def discr(self, v, ty, dty):
        w = (dty and self.width(dty)) or 64
        if isinstance(v, Mux):
            return ite(v.c, self.discr(v.a, ty, dty), self.discr(v.b, ty, dty))
        if isinstance(v, En):
            a = self.p.adt(v.d) if v.d else None
            if a:
                ds = [int(x["discr"]) for x in a["variants"]]
                if ds != list(range(len(ds))):
                    r = K(ds[0], w)
                    for i, d in enumerate(ds[1:], 1):
                        r = ite(eq(v.vidx, K(i, 64)), K(d, w), r)
                    return r
            return trunc(v.vidx, w) if w <= 64 else zext(v.vidx, w)
        if isinstance(v, Opq):
            return uf("discr:" + repr(v.n), w)
        raise Unsupported("discriminant of %r" % (v,))

    def scal(self, st, v):
        """auto-deref to a scalar"""
        n = 0
        while isinstance(v, (Ref, Mux)) and n < 8:
            if isinstance(v, Mux):
                return merge(v.c, self.scal(st, v.a), self.scal(st, v.b))
            v = self.load(st, v.root, v.path)
            n += 1
        return v

    def term(self, st, v, w=None):
        v = self.scal(st, v)
        if isinstance(v, T):
            return v
        if isinstance(v, Agg) and len(v.f) == 1:
            return self.term(st, v.f[0], w)
        if isinstance(v, Opq) and w:
            return uf("opq:" + repr(v.n), w)
        raise Unsupported("not a scalar: %r" % (v,))

    def binop(self, st, fr, f, op, a, b):
        ta = self.opty(f, a)
        x, y = self.op(st, fr, f, a), self.op(st, fr, f, b)
        return self.bin(st, op, x, y, ta)

    def bin(self, st, op, x, y, ta):
        if isinstance(x, En) or isinstance(y, En):
            if op in ("Eq", "Ne") and isinstance(x, En) and isinstance(y, En):
                r = eq(x.vidx, y.vidx)
                return r if op == "Eq" else bnot(r)
        if isinstance(x, (Ref, Opq)) or isinstance(y, (Ref, Opq)):
            if op in ("Eq", "Ne"):
                r = uf("ptreq", 1, repr(x), repr(y))
                return r if op == "Eq" else bnot(r)
            if op == "Offset":
                return Opq(("offset", repr(x), repr(y)))
            w = self.width(ta)
            if w:
                x, y = self.term(st, x, w), self.term(st, y, w)
            else:
                raise Unsupported("bin %s on %r %r" % (op, x, y))
        sg = self.signed(ta)
        if op in ("Add", "AddUnchecked"):
            return add(x, y)
        if op in ("Sub", "SubUnchecked"):
            return sub(x, y)
        if op in ("Mul", "MulUnchecked"):
            return mul(x, y)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            return self.withovf(op[:3], x, y, sg)
        if op == "Div":
            return bin2("sdiv" if sg else "udiv", x, y)
        if op == "Rem":
            return self.rem(x, y, sg)
        if op == "BitXor":
            return bxor(x, y)
        if op == "BitAnd":
            return band(x, y)
        if op == "BitOr":
            return bor(x, y)
        if op in ("Shl", "ShlUnchecked"):
            return shift("shl", x, y)
        if op in ("Shr", "ShrUnchecked"):
            return shift("ashr" if sg else "lshr", x, y)
        if op == "Eq":
            return eq(x, y)
        if op == "Ne":
            return ne(x, y)
        lt, le = (slt, sle) if sg else (ult, ule)
        if op == "Lt":
            return lt(x, y)
        if op == "Le":
            return le(x, y)
        if op == "Gt":
            return lt(y, x)
        if op == "Ge":
            return le(y, x)
        if op == "Cmp":
            return En(ite(lt(x, y), K(0, 64), ite(eq(x, y), K(1, 64), K(2, 64))), {0: (), 1: (), 2: ()}, "core::cmp::Ordering")
        raise Unsupported("bin " + op)

    def rem(self, x, y, sg):
        if not sg and isk(y) and kv(y) and kv(y) & (kv(y) - 1) == 0:
            k = kv(y).bit_length() - 1
            return zext(ex(k - 1, 0, x), x.w) if k else K(0, x.w)
        return bin2("srem" if sg else "urem", x, y)

    def withovf(self, op, x, y, sg):
        w = x.w
        e = sext if sg else zext
        f = {"Add": add, "Sub": sub, "Mul": mul}[op]
        r = f(x, y)
        if op == "Add" and not sg:
            o = ult(r, x)
        elif op == "Sub" and not sg:
            o = ult(x, y)
        elif op == "Mul":
            full = mul(e(x, 2 * w), e(y, 2 * w))
            o = ne(ex(2 * w - 1, w, full), K(0, w)) if not sg else ne(ex(2 * w - 1, w, full), sext(ex(w - 1, w - 1, r), w))
        else:
            full = f(sext(x, w + 1), sext(y, w + 1))
            o = ne(ex(w, w, full), ex(w - 1, w - 1, full))
        return Agg((r, o))

    def cast(self, st, fr, f, r):
        kind, o, ti = r[1], r[2], r[3]
        v = self.op(st, fr, f, o)
        t = f["crate"].ty(ti)
        if kind == "IntToInt":
            so = self.opty(f, o)
            w = self.width(t)
            if isinstance(v, En):
                v = self.discr(v, so, {"k": "uint", "bits": 64})
                return trunc(v, w) if w < 64 else v
            v = self.term(st, v, self.width(so))
            if w <= v.w:
                return trunc(v, w)
            return sext(v, w) if self.signed(so) else zext(v, w)
        if kind.startswith("PointerCoercion"):
            if "Unsize" in kind and isinstance(v, Ref):
                try:
                    o2 = self.load(st, v.root, v.path)
                    if isinstance(o2, Agg) and t["k"] in ("ref", "ptr") and f["crate"].ty(t["to"])["k"] == "slice":
                        return Ref(v.root, v.path, K(len(o2.f), 64))
                except Unsupported:
                    pass
            return v
        if kind in ("PtrToPtr", "Transmute", "Subtype", "FnPtrToPtr", "BoxDerefTransmute"):
            if isinstance(v, T):
                w = self.width(t)
                if w and w != v.w:
                    raise Unsupported("transmute width")
            return v
        if isinstance(v, T):
            w = self.width(t)
            if w == v.w or t["k"] == "ptr" and v.w == 64:
                return v
        return Opq(("cast", kind, repr(v)))

    # -------------------------------------------------------------- control
    def run_fn(self, st, path, args, crate="ckb_vm"):
        f = self.p.fn(path, crate)
        if f is None:
            raise Unsupported("no function " + path)
        return self.run_body(st, f, args)

    def run_body(self, st, f, args, keep=False):
        self.frame += 1
        fr = self.frame
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("call depth")
        self.stackfns.append(f["path"])
        self.inlined[f["path"]] = self.inlined.get(f["path"], 0) + 1
        if f.get("kind") == "Closure" and False:
            pass
        for i, a in enumerate(args):
            st.env[("L", fr, i + 1)] = a
        counts = {}
        out = self.region(st, fr, f, 0, len(f["bbs"]), counts)
        self.depth -= 1
        self.stackfns.pop()
        if out is None:
            st.dead = True
            st.panic = FALSE
            return UNDEF
        st.become(out)
        st.fin = False
        if panics.ON and not self.depth:
            panics.note(f, st, self)
        rv = st.env.get(("L", fr, 0), UNIT)
        if not keep:
            for k in [k for k in st.env if k[0] == "L" and k[1] == fr]:
                del st.env[k]
        return rv

    def region(self, st, fr, f, bb, stop, counts):
        succ, ipd = _cfg(f)
        EXIT = len(f["bbs"])
        while bb != stop:
            if st.dead:
                return st
            if bb == EXIT:
                return st
            self.blocks += 1
            if self.blocks > self.max_blocks:
                raise Unsupported("block budget")
            b = f["bbs"][bb]
            for s in b["s"]:
                if s[0] == "=":
                    dty = self.plty(f, s[1]) if s[2][0] == "discr" else None
                    v = self.rvalue(st, fr, f, s[2], dty)
                    self.assign(st, fr, f, s[1], v)
                elif s[0] == "sd":
                    root, path = self.place(st, fr, f, s[1])
                    old = self.load(st, root, tuple(path))
                    if isinstance(old, En):
                        self.store(st, root, tuple(path), En(s[2], old.v, old.d))
                    else:
                        raise Unsupported("set discriminant")
                elif s[0] == "assume":
                    pass
                else:
                    raise Unsupported("stmt " + s[0])
            t = b["t"]
            k = t["k"]
            if k == "goto":
                bb = t["t"]
            elif k == "ret":
                return st
            elif k == "drop":
                h = self.hooks.get("drop")
                if h:
                    h(self, st, fr, f, t)
                bb = t["t"]
            elif k == "assert":
                c = self.op(st, fr, f, t["c"])
                ok = c if t["e"] else bnot(c)
                if isk(ok):
                    if panics.ON:
                        panics.site(f, bb)
                    if not kv(ok):
                        st.panic = TRUE
                        st.dead = True
                        return st
                else:
                    if panics.ON:
                        panics.site(f, bb, bnot(ok))
                    st.panic = bor(st.panic, bnot(ok))
                bb = t["t"]
            elif k == "call":
                if panics.ON:
                    panics.site(f, bb)
                v = self.call(st, fr, f, t)
                if st.dead:
                    return st
                if t["t"] is None:
                    st.panic = TRUE
                    st.dead = True
                    return st
                self.assign(st, fr, f, t["d"], v)
                bb = t["t"]
            elif k == "switch":
                d = self.op(st, fr, f, t["op"])
                if not isinstance(d, T):
                    d = self.term(st, d)
                if isk(d):
                    nb = t["o"]
                    for v, tb in t["ts"]:
                        if int(v) == kv(d):
                            nb = tb
                            break
                    bb = nb
                    continue
                n = counts.get(bb, 0)
                if n >= self.unroll:
                    st.cut = TRUE
                    st.dead = True
                    return st
                counts[bb] = n + 1
                join = ipd.get(bb, EXIT)
                if join != stop and not self._inside(f, bb, join, stop, ipd):
                    join = stop
                arms = []
                rest = TRUE
                for v, tb in t["ts"]:
                    c = eq(d, K(int(v), d.w))
                    if c is FALSE:
                        continue
                    arms.append((c, tb))
                    rest = band(rest, bnot(c))
                if rest is not FALSE and f["bbs"][t["o"]]["t"]["k"] != "unreachable":
                    arms.append((None, t["o"]))
                res = None
                outs = []
                # group arms with the same target
                byt = {}
                for c, tb in arms:
                    if tb in byt and c is not None and byt[tb] is not None:
                        byt[tb] = bor(byt[tb], c)
                    else:
                        byt[tb] = c
                for tb, c in byt.items():
                    if f["bbs"][tb]["t"]["k"] == "unreachable" and not f["bbs"][tb]["s"]:
                        continue
                    s2 = self.region(st.copy(), fr, f, tb, join, dict(counts))
                    if s2 is not None:
                        outs.append((c, s2))
                counts[bb] = n
                if not outs:
                    return None
                fin = any(o[1].fin for o in outs)
                if not fin and len(outs) > 1 and self.splits and join != EXIT and any(
                        apart_states(outs[0][1], o[1]) for o in outs[1:]):
                    self.splits -= 1
                    fin = True
                if fin:
                    nx = []
                    for c, s2 in outs:
                        if not s2.fin and not s2.dead:
                            s2 = self.region(s2, fr, f, join, EXIT, dict(counts))
                        if s2 is not None:
                            s2.fin = True
                            nx.append((c, s2))
                    outs = nx
                    if not outs:
                        return None
                # last one is the default
                res = None
                default = [o for o in outs if o[0] is None]
                outs = [o for o in outs if o[0] is not None]
                if default:
                    res = default[0][1]
                else:
                    res = outs.pop()[1]
                for c, s2 in reversed(outs):
                    res = merge_states(c, s2, res)
                st = res
                if fin:
                    st.fin = True
                    return st
                if st.dead:
                    return st
                bb = join
            elif k == "unreachable":
                return None
            else:
                st.panic = TRUE
                st.dead = True
                return st
        return st

    def _inside(self, f, bb, join, stop, ipd):
        """is `join` on the post-dominator chain before `stop`?"""
        x = bb
        seen = set()
        while x in ipd and x not in seen:
            seen.add(x)
            x = ipd[x]
            if x == join:
                return True
            if x == stop:
                return False
        return False

    # -------------------------------------------------------------- calls
    def call(self, st, fr, f, t):
        fo = t["f"]
        args = [self.op(st, fr, f, a) for a in t["a"]]
        if "c" in fo and "fn" in fo["c"]:
            info = fo["c"]["fn"]
        else:
            v = self.op(st, fr, f, fo)
            return self.call_value(st, v, args, f, t)
        return self.call_info(st, info, args, f, t)

    def call_value(self, st, v, args, f=None, t=None):
        if isinstance(v, Ref):
            v = self.scal(st, v)
        if isinstance(v, Fn):
            return self.call_info(st, v.info, args, f, t)
        if isinstance(v, Clo):
            g = self.p.fn(v.d) or self.p.fn(v.d, "ckb_vm_definitions")
            if g is None:
                raise Unsupported("closure body " + v.d)
            t0 = g["crate"].ty(g["locals"][1])
            if t0["k"] == "ref":
                self.heap += 1
                root = ("H", self.heap)
                st.env[root] = v
                self_arg = Ref(root)
            else:
                self_arg = v
            # closure bodies take the tuple spread
            return self.run_body(st, g, [self_arg] + list(args))
        if isinstance(v, Opq):
            h = self.hooks.get("call_opaque")
            if h:
                return h(self, st, v, args, f, t)
        if isinstance(v, Mux):
            s1, s2 = st.copy(), st.copy()
            r1 = self.call_value(s1, v.a, args, f, t)
            r2 = self.call_value(s2, v.b, args, f, t)
            st.become(merge_states(v.c, s1, s2))
            return merge(v.c, r1, r2)
        raise Unsupported("call of %r" % (v,))

    def cond_call(self, st, c, v, args):
        """call closure v under condition c; returns its value (meaningful when c)"""
        if c is FALSE:
            return UNDEF
        if c is TRUE:
            return self.call_value(st, v, args)
        s2 = st.copy()
        r = self.call_value(s2, v, args)
        st.become(merge_states(c, s2, st.copy()))
        return r

    def call_info(self, st, info, args, f=None, t=None):
        res = info.get("res")
        names = []
        if res:
            names.append(res["path"])
        names.append(info["path"])
        for n in names:
            h = self.hooks.get(n)
            if h is not None:
                r = h(self, st, args, info, f, t)
                if r is not NotImplemented:
                    return r
        if info["path"].startswith("core::ops::function::Fn") and len(args) == 2:
            v = args[0]
            v = self.scal(st, v) if isinstance(v, Ref) else v
            if isinstance(v, (Clo, Fn, Mux)):
                return self.call_value(st, v, list(args[1].f) if isinstance(args[1], Agg) else [args[1]], f, t)
        # in-crate body
        if res and res["kind"] == "item":
            g = self.p.fn(res["path"], res["krate"]) if res["krate"] in self.p.crates else None
            if g is not None and not (info.get("trait") and res["path"] == info["path"] and self.method_select):
                return self.run_body(st, g, args)
        if self.method_select and info.get("trait"):
            g = self.method_select(self, st, info, args, f)
            if g is not None:
                return self.run_body(st, g, args)
        if res and res["kind"] == "item":
            g = self.p.fn(res["path"], res["krate"]) if res["krate"] in self.p.crates else None
            if g is not None:
                return self.run_body(st, g, args)
        h = self.hooks.get("unknown_first")
        if h:
            r = h(self, st, args, info, f, t)
            if r is not NotImplemented:
                return r
        from prims import prim
        r = prim(self, st, info, args, f, t)
        if r is not NotImplemented:
            return r
        h = self.hooks.get("unknown")
        if h:
            r = h(self, st, args, info, f, t)
            if r is not NotImplemented:
                return r
        raise Unsupported("call %s (%s)" % (names[0], info.get("trait")))
