"""Models of std containers used by the analysed code, as hooks for mirexec.

Vec of known length           -> Agg(elements, "Vec")
Vec / boxed slice, symbolic index (or long) -> SArr: a functional array with guarded writes."""
from terms import *
from mirexec import *
import mirexec


class SArr:
    """read(ix) -> value of the initial contents; ws: ((cond, lo, len, f), ...) in program order, f(ix - lo) the value;
    len None is a single element"""

    def __init__(self, n, read, ws=(), name=""):
        self.n = n if isinstance(n, T) else K(n, 64)
        self.rd = read
        self.ws = tuple(ws)
        self.name = name

    def __repr__(self):
        return "SArr(%s,%d writes)" % (self.name, len(self.ws))

    def index(self, x, st, ix):
        k = len(self.ws)
        while k and self.ws[k - 1][0] is TRUE and self.ws[k - 1][2] is None and self.ws[k - 1][1] is not ix:
            # a write that is certainly elsewhere
            if eq(self.ws[k - 1][1], ix) is FALSE:
                k -= 1
            else:
                break
        ws = self.ws[:k]
        if ws and ws[-1][0] is TRUE and ws[-1][2] is None and ws[-1][1] is ix:
            return ws[-1][3](ix)
        v = self.rd(ix)
        for c, lo, ln, fn in ws:
            if ln is None:
                h = band(c, eq(lo, ix))
                v = merge(h, fn(ix), v) if h is not FALSE else v
            else:
                h = band(c, ult(sub(ix, lo), ln))
                v = merge(h, fn(sub(ix, lo)), v) if h is not FALSE else v
        return v

    def setindex(self, x, st, ix, path, val):
        if path:
            val = x.upd(st, self.index(x, st, ix), path, val)
        return SArr(self.n, self.rd, self.ws + ((TRUE, ix, None, lambda i: val),), self.name)

    def setrange(self, lo, ln, fn, cond=TRUE):
        return SArr(self.n, self.rd, self.ws + ((cond, lo, ln, fn),), self.name)

    def push(self, val):
        ix = self.n
        return SArr(add(self.n, K(1, 64)), self.rd, self.ws + ((TRUE, ix, None, lambda i: val),), self.name)

    def length(self, x, st):
        return self.n

    def merge_with(self, c, o):
        k = 0
        while k < len(self.ws) and k < len(o.ws) and self.ws[k] is o.ws[k]:
            k += 1
        if self.rd is not o.rd:
            a, b = self, o
            return SArr(ite(c, self.n, o.n), lambda ix: merge(c, a.index(None, None, ix), b.index(None, None, ix)), (), self.name)
        ws = self.ws[:k] + tuple((band(c, g), i, n, v) for g, i, n, v in self.ws[k:]) + tuple(
            (band(bnot(c), g), i, n, v) for g, i, n, v in o.ws[k:])
        return SArr(ite(c, self.n, o.n), self.rd, ws, self.name)


def _vec(x, st, r):
    """follow a reference to the container"""
    if isinstance(r, Ref):
        return x.load(st, r.root, r.path)
    return r


def vec_new(x, st, a, i, f, t):
    return Agg((), "Vec")


def vec_push(x, st, a, i, f, t):
    r = a[0]
    if not isinstance(r, Ref):
        return NotImplemented
    v = _vec(x, st, r)
    if isinstance(v, Agg) and v.d == "Vec":
        x.store(st, r.root, r.path, Agg(v.f + (a[1],), "Vec"))
        return UNIT
    if isinstance(v, Agg) and v.d is None:
        raise Unsupported("push")
    return NotImplemented


def from_elem(x, st, a, i, f, t):
    v, n = a
    n = x.term(st, n, 64)
    if isk(n) and kv(n) <= 64:
        return Agg([v] * kv(n), "Vec")
    return SArr(n, lambda ix: v, (), "from_elem")


def vec_index(x, st, a, i, f, t):
    r, ix = a
    if isinstance(r, Ref) and isinstance(ix, T):
        v = _vec(x, st, r)
        if isinstance(v, Agg) and v.d == "Vec" or isinstance(v, SArr):
            n = K(len(v.f), 64) if isinstance(v, Agg) else v.n
            bad = bnot(ult(ix, n))
            if bad is TRUE:
                st.panic = TRUE
                st.dead = True
                return UNDEF
            st.panic = bor(st.panic, bad)
            return Ref(r.root, tuple(r.path) + (("i", ix),))
    return NotImplemented


def vec_len(x, st, a, i, f, t):
    v = _vec(x, st, a[0])
    if isinstance(v, Agg) and v.d == "Vec":
        return K(len(v.f), 64)
    if isinstance(v, SArr):
        return v.n
    return NotImplemented


def into_iter(x, st, a, i, f, t):
    r = a[0]
    if isinstance(r, Ref):
        v = _vec(x, st, r)
        if isinstance(v, Agg) and v.d in ("Vec", None) and not (v.d is None and False):
            return Agg((r, K(0, 64), K(len(v.f), 64)), "SliceIter")
    return NotImplemented


def iter_next(x, st, a, i, f, t):
    r = a[0]
    it = _vec(x, st, r)
    if isinstance(it, Agg) and it.d == "SliceIter":
        base, k, n = it.f
        if isk(k) and isk(n):
            if kv(k) >= kv(n):
                return NONE()
            x.store(st, r.root, r.path, Agg((base, K(kv(k) + 1, 64), n), "SliceIter"))
            return Some(Ref(base.root, tuple(base.path) + (("i", k),)))
    return NotImplemented


HOOKS = {
    "alloc::vec::Vec::<T>::new": vec_new,
    "alloc::vec::Vec::<T>::with_capacity": vec_new,
    "alloc::vec::Vec::<T, A>::push": vec_push,
    "alloc::vec::from_elem": from_elem,
    "<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index": vec_index,
    "<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut": vec_index,
    "alloc::vec::Vec::<T, A>::len": vec_len,
    "<&'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter": into_iter,
    "core::slice::<impl [T]>::iter": into_iter,
    "<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::next": iter_next,
}
