"""Loading ELF programs: parse_elf and load_elf on files with 0 to 3 program headers of any content.  The external parser
(goblin) is not analysed: the file header and the program headers it returns are arbitrary values."""
import containers
import memworld
from hostworld import *
from loops import where_of

ME = "memory::Memory::"
HDR = "goblin::elf::header::Header"
PH = "goblin::elf::program_header::ProgramHeader"
CTR = "goblin::container::Container"
FIELDS = {"p_type": 32, "p_flags": 32, "p_offset": 64, "p_vaddr": 64, "p_paddr": 64, "p_filesz": 64, "p_memsz": 64, "p_align": 64}
PLEN = V("program_len", 64)
SEEN = ("O", "seen")
LIM = 1 << 62


def hv(k, n):
    return V("h%d.%s" % (k, n), FIELDS[n])


def fail(c, good, code):
    return En(zext(c, 64), {0: (good,), 1: (En(EVERR, {EVERR: (K(code, 64),)}, "error::Error"),)}, RES)


class ElfHost(Host):
    """types: the kind of each header (None: any)"""

    def __init__(self, p, types, asm=False):
        super().__init__(p, asm, 0, 12)
        self.types = types
        self.seen = {}

    def start(self):
        st = super().start()
        st.env[("O", "program")] = containers.SArr(PLEN, lambda ix: uf("program", 8, ix), (), "program")
        st.env[SEEN] = TRUE
        return st

    def mark(self, st, c):
        st.env[SEEN] = band(st.env[SEEN], c)

    def headers(self):
        return Agg([self.agg(PH, {n: (K(self.types[k], 32) if n == "p_type" and self.types[k] is not None else hv(k, n)) for n in FIELDS})
                    for k in range(len(self.types))], "Vec")

    def hooks(self):
        H = super().hooks()
        uf0 = H["unknown_first"]
        is_prog = lambda x, st, v: getattr(memworld.follow(x, st, v), "root", None) == ("O", "program")

        def whole(x, st, v):
            """v names the whole program"""
            self.mark(st, eq(memworld.length(x, st, v), PLEN))
            self.mark(st, eq(zext(memworld.reader(x, st, v)(V("at", 64)), 64), zext(uf("program", 8, V("at", 64)), 64)))

        def unknown_first(x, st, a, i, f, t):
            path = (i.get("res") or i)["path"]
            nm = i["name"]
            if path.startswith("scroll::") and nm == "pread":
                whole(x, st, a[0])
                self.mark(st, eq(x.term(st, a[1], 64), K(0, 64)))
                e = self.agg(HDR, {"e_entry": V("e_entry", 64), "e_phoff": V("e_phoff", 64), "e_phnum": V("e_phnum", 16)}, lambda n: Opq("header." + n))
                return fail(V("bad_header", 1), e, self.codes["ElfParseError"])
            if path == HDR + "::container":
                return fail(V("bad_container", 1), En(zext(V("big", 1), 64), {0: (), 1: ()}, CTR), 253)
            if path == HDR + "::endianness":
                return fail(V("bad_endian", 1), Opq("endian"), 253)
            if path == CTR + "::is_big":
                v = a[0]
                while isinstance(v, Ref):
                    v = x.load(st, v.root, v.path)
                return eq(v.vidx, K(1, 64))
            if path == "goblin::container::Ctx::new":
                return Agg([a[0], a[1]], "ctx")
            if path == PH + "::parse":
                whole(x, st, a[0])
                self.mark(st, eq(x.term(st, a[1], 64), V("e_phoff", 64)))
                self.mark(st, eq(x.term(st, a[2], 64), zext(V("e_phnum", 16), 64)))
                c = a[3]
                good = isinstance(c, Agg) and c.d == "ctx" and self.oname(c.f[1]) == "endian" and isinstance(c.f[0], En)
                self.mark(st, eq(c.f[0].vidx, zext(V("big", 1), 64)) if good else FALSE)
                return fail(V("bad_table", 1), self.headers(), self.codes["ElfParseError"])
            if i.get("trait") == "core::convert::From" and a and isinstance(a[0], En) and a[0].d == "error::Error":
                return a[0]
            return uf0(x, st, a, i, f, t)
        H["unknown_first"] = unknown_first

        def val(x, st, v, w=64):
            while isinstance(v, Ref):
                v = x.load(st, v.root, v.path)
            return x.term(st, v, w)

        def init(x, st, a, i, f, t):
            s = a[4]
            if isinstance(s, En):
                some = eq(s.vidx, K(1, 64))
                s = s.v.get(1, (None,))[0]
            else:
                raise Unsupported("source %r" % (s,))
            if s is None:
                n, b = K(0, 64), K(0, 8)
            else:
                n, b = memworld.length(x, st, s), memworld.reader(x, st, s)(V("at", 64))
            e = self.fire(x, st, "init_pages", [val(x, st, a[1]), val(x, st, a[2]), zext(val(x, st, a[3], 8), 64), zext(some, 64), n,
                                                zext(ite(ult(V("at", 64), n), b, K(0, 8)), 64), val(x, st, a[5])], False)
            return self.res(e)
        H[ME + "init_pages"] = init

        def store_byte(x, st, a, i, f, t):
            e = self.fire(x, st, "store_byte", [val(x, st, a[1]), val(x, st, a[2]), zext(val(x, st, a[3], 8), 64)], False)
            return self.res(e)
        H[ME + "store_byte"] = store_byte
        return H


class EVal(equiv.Val):
    def __init__(self, rng):
        n = rng.choice((rng.getrandbits(6), rng.getrandbits(14), rng.getrandbits(61)))
        fixed = {"program_len": n, "big": rng.choice((1, 1, 1, 0)), "update": rng.getrandbits(1), "version": rng.randrange(3)}
        for b in ("bad_header", "bad_container", "bad_endian", "bad_table"):
            fixed[b] = int(rng.random() < .05)
        for k in range(4):
            h = "h%d." % k
            fixed[h + "p_type"] = rng.choice((1, 1, 1, 0, 2, 3, 6, 0x6474e551, rng.getrandbits(32)))
            fixed[h + "p_flags"] = rng.choice((4, 5, 6, 4, 5, 6, 7, 1, 2, 0, rng.getrandbits(32), 4 | rng.getrandbits(32), 8 | 4))
            off = rng.choice((0, rng.randrange(n + 1), rng.randrange(n + 1), rng.getrandbits(64)))
            fixed[h + "p_offset"] = off
            left = max(0, n - off)
            fs = rng.choice((left, rng.randrange(left + 1), rng.randrange(left + 1), left + 1, rng.getrandbits(64), (0 - off) & mask(64)))
            fixed[h + "p_filesz"] = fs
            fixed[h + "p_memsz"] = rng.choice((fs, fs + rng.getrandbits(13) & mask(64), rng.getrandbits(14), rng.getrandbits(64), mask(64) - rng.getrandbits(13)))
            fixed[h + "p_vaddr"] = rng.choice((rng.getrandbits(22) & ~4095, rng.getrandbits(22), rng.getrandbits(64), mask(64) - rng.getrandbits(13)))
        fixed["at"] = rng.choice((rng.getrandbits(3), rng.randrange(n + 1), 0))
        super().__init__(rng.getrandbits(32), equiv.Draw(random.Random(rng.getrandbits(64))), fixed)

    def ufval(self, name, args, w):
        if name == "ok":
            return int(super().ufval(name, args, 4) != 0)
        return super().ufval(name, args, w)


def segment(ver, k):
    """(rejected, address, size, flags, start, end, offset, memsz wraps)"""
    pg = K(mask(64) ^ 4095, 64)
    va, fl = hv(k, "p_vaddr"), hv(k, "p_flags")
    addr = band(va, pg)
    off = sub(va, addr)
    ln = add(hv(k, "p_memsz"), off)
    size = band(add(ln, K(4095, 64)), pg)
    wraps = bor(ult(ln, off), ult(add(ln, K(4095, 64)), ln))
    r, w, e = (ex(i, i, fl) for i in (2, 1, 0))
    start, end = hv(k, "p_offset"), add(hv(k, "p_offset"), hv(k, "p_filesz"))
    outside = bor(ult(end, start), ult(PLEN, end))
    badflags = bor(bnot(r), band(w, e))
    # executable pages are frozen; so are read-only ones (and, in version 0, all others)
    flags = ite(e, K(FLAG_X | FLAG_F, 8), ite(w, K(0 if ver else FLAG_F, 8), K(FLAG_F, 8)))
    return outside, badflags, addr, size, flags, start, end, off, wraps


FLAG_F, FLAG_X = 1, 2


def vec_of(x, st, v, n=None):
    """[(condition, list)] of a Vec value"""
    if isinstance(v, Mux):
        return [(band(v.c, c), l) for c, l in vec_of(x, st, v.a)] + [(band(bnot(v.c), c), l) for c, l in vec_of(x, st, v.b)]
    if isinstance(v, Agg) and v.d == "Vec":
        return [(TRUE, v.f)]
    raise Unsupported("list of actions %r" % (v,))


def load(ctx, p, types, ver, trials, asm=False):
    """the whole of load_elf: what is loaded, which error, the program counter"""
    name = "load_elf%s version %d, headers [%s]" % (" (assembly machine)" if asm else "", ver, ", ".join("load" if t == 1 else "type %#x" % t for t in types))
    fn = "machine::SupportMachine::load_elf"
    try:
        h = ElfHost(p, types, asm)
        st = h.start()
        x = h.executor()
        f = h.disp(x, st, {"trait": "machine::SupportMachine", "name": "load_elf"}, [Ref(h.dm[0], h.dm[1])], None)
        if f is None:
            return ctx.und(name, "load_elf not found")
        me = Ref(h.dm[0], h.dm[1])
        r0, pth = h.corepath("version")
        x.store(st, r0, pth, K(ver, 32))
        rv = x.run_body(st, f, [me, Ref(("O", "program")), V("update", 1)])
        r = Ref_(h)
        E = h.codes
        # what must be rejected before anything is loaded
        rej = bor(V("bad_header", 1), V("bad_container", 1), V("bad_endian", 1), bnot(V("big", 1)), V("bad_table", 1))
        segs = []
        wraps = FALSE
        short = FALSE
        for k, t in enumerate(types):
            if t == 1:
                outside, badflags, addr, size, flags, start, end, off, wr = segment(ver, k)
                rej = bor(rej, outside, badflags)
                wraps = bor(wraps, wr)
                segs.append((addr, size, flags, start, end, off))
        total = K(0, 64)
        r.when(rej, lambda s: s.err("Unexpected"))
        for addr, size, flags, start, end, off in segs:
            n = sub(end, start)

            def one(s):
                b = ite(ult(V("at", 64), n), uf("program", 8, add(start, V("at", 64))), K(0, 8))
                s.ev("init_pages", [addr, size, zext(flags, 64), K(1, 64), n, zext(b, 64), off])
                if ver == 0:
                    s.live(lambda s: s.ev("store_byte", [addr, off, K(0, 64)]))
            r.live(one)
            total = add(total, n)
        total_ = total

        def end_(s):
            s.f["pc"] = ite(V("update", 1), V("e_entry", 64), s.f["pc"])
            s.f["next_pc"] = ite(V("update", 1), V("e_entry", 64), s.f["next_pc"])
            s.ok(total_)
        r.live(end_)
        code, pay, val = h.result(x, st, rv)
        under = ult(PLEN, K(LIM, 64))
        f_ = h.fields(x, st)
        accepted = eq(code, K(255, 64))
        obs = [("rejected before loading", band(rej, accepted), FALSE),
               ("success", accepted, eq(r.code, K(255, 64))), ("bytes loaded", val, r.val), ("what is loaded", st.env[TOK], r.tok),
               ("parser arguments", bor(rej, st.env[SEEN]), TRUE), ("panic", st.panic, FALSE)]
        obs += [(n, f_[n], r.f[n]) for n in h.widths] + [("registers", rr(f_["regs"], PROBE), rr(r.f["regs"], PROBE))]
        decide(ctx, name, where_of(p, "elf::parse_elf"), obs, band(under, bnot(st.cut)), trials, EVal)
        if segs and len(types) == 1 and not asm:
            # a segment longer than the address space cannot be placed
            k = "%s/segment size wraps" % name
            bad = band(wraps, accepted, bnot(rej))
            v = next((v for v in (EVal(random.Random(i)) for i in range(60000)) if v.ev(band(under, bad))), None)
            if v is None:
                ctx.ok(k, "random interpretation only")
            else:
                ctx.bad("elf-segment-size-wraps", where_of(p, "elf::parse_elf"), "%s: a segment whose size plus in-page offset exceeds the address space is accepted, its bytes are not loaded; e.g. p_vaddr %#x p_memsz %#x" % (
                    name, v.ev(hv(0, "p_vaddr")), v.ev(hv(0, "p_memsz"))))
    except Unsupported as e:
        ctx.und(name, str(e)[:200])


def parse(ctx, p, n, ver, trials, xl=64):
    """parse_elf with headers of any kind: the list of actions"""
    name = "parse_elf version %d, %d header%s%s" % (ver, n, "" if n == 1 else "s", ", 32-bit machine" if xl == 32 else "")
    fn = "elf::parse_elf"
    try:
        h = ElfHost(p, [None] * n)
        if xl == 32:
            h.disp = memworld.Dispatch(p, "u32")
            h.consts = {**CONSTS, ("instructions::register::Register", "BITS"): 32}
        st = h.start()
        x = h.executor()
        rv = x.run_body(st, p.fn(fn), [Ref(("O", "program")), K(ver, 32)])
        code, pay, val = h.result(x, st, rv)
        rej = bor(V("bad_header", 1), V("bad_container", 1), V("bad_endian", 1), (bnot(V("big", 1)) if xl == 64 else V("big", 1)), V("bad_table", 1))
        segs = []
        cnt = K(0, 8)
        for k in range(n):
            s = segment(ver, k)
            isl = eq(hv(k, "p_type"), K(1, 32))
            rej = bor(rej, band(isl, bor(s[0], s[1])))
            segs.append((isl, cnt) + s[2:])
            cnt = ite(isl, add(cnt, K(1, 8)), cnt)
        good = bnot(rej)
        metas = metadata(h, x, st, rv)
        obs = [("accepted", eq(code, K(255, 64)), good), ("panic", st.panic, FALSE), ("parser arguments", bor(rej, st.env[SEEN]), TRUE)]
        names = ["addr", "size", "flags", "start", "end", "offset_from_addr"]
        got_n = K(0, 8)
        got = [{a: K(0, 64) for a in names} for k in range(n)]
        entry = K(0, 64)
        for c, m in metas:
            fl = dict(zip([f["name"] for f in p.adt("elf::ProgramMetadata")["variants"][0]["fields"]], m.f))
            entry = ite(c, x.term(st, fl["entry"], 64), entry)
            for c2, l in vec_of(x, st, fl["actions"]):
                cc = band(c, c2)
                got_n = ite(cc, K(len(l), 8), got_n)
                for j, el in enumerate(l):
                    for nm, v in action(h, x, st, el).items():
                        if j < n:
                            got[j][nm] = ite(cc, v, got[j][nm])
        m = lambda a: ite(good, a, K(0, a.w))
        obs += [("entry", m(entry), m(V("e_entry", 64))), ("number of actions", m(got_n), m(cnt))]
        for j in range(n):
            want = {a: K(0, 64) for a in names}
            for isl, at, addr, size, flags, start, end, off, _ in segs:
                me = band(isl, eq(at, K(j, 8)))
                for nm, v in zip(names, (addr, size, zext(flags, 64), start, end, off)):
                    want[nm] = ite(me, v, want[nm])
            for nm in names:
                obs.append(("action %d %s" % (j, nm), m(ite(ult(K(j, 8), cnt), got[j][nm], K(0, 64))), m(want[nm])))
        decide(ctx, name, where_of(p, fn), obs, band(ult(PLEN, K(LIM, 64)), bnot(st.cut)), trials, EVal)
    except Unsupported as e:
        ctx.und(name, str(e)[:200])


def metadata(h, x, st, rv, c=TRUE):
    if isinstance(rv, Mux):
        return metadata(h, x, st, rv.a, band(c, rv.c)) + metadata(h, x, st, rv.b, band(c, bnot(rv.c)))
    if isinstance(rv, En):
        v = rv.v.get(0, (UNDEF,))[0]
        return metadata(h, x, st, v, c) if v is not UNDEF else []
    if isinstance(rv, Agg):
        return [(c, rv)]
    raise Unsupported("metadata %r" % (rv,))


def action(h, x, st, el):
    if isinstance(el, Mux):
        a, b = action(h, x, st, el.a), action(h, x, st, el.b)
        return {k: ite(el.c, a[k], b[k]) for k in a}
    d = dict(zip([f["name"] for f in h.p.adt("elf::LoadingAction")["variants"][0]["fields"]], el.f))
    s = d["source"]
    if isinstance(s, Mux):
        s = merge(s.c, s.a, s.b)
    return {"addr": x.term(st, d["addr"], 64), "size": x.term(st, d["size"], 64), "flags": zext(x.term(st, d["flags"], 8), 64),
            "start": x.term(st, s.f[0], 64), "end": x.term(st, s.f[1], 64), "offset_from_addr": x.term(st, d["offset_from_addr"], 64)}
