"""C15: determinism, as an effect analysis over every function of the two crates and the two assembly files."""
import collections
import os
import re

import facts
from facts import Program

LEVEL = "other"

# ---- which callees consult something outside the machine -----------------------------------------------------
SRC = [
    (r"^std::time::|^core::time::Instant|::SystemTime|::Instant\b", "the clock"),
    (r"^std::env::|^std::sys::.*args", "the environment"),
    (r"^std::thread::", "threads"),
    (r"^std::sync::mpsc", "threads"),
    (r"^std::fs::|^std::io::stdio|^std::io::(stdin|Stdin)|^std::net::|^std::process::|^std::os::|^std::sys::", "the operating system"),
    (r"RandomState|^std::hash::random|^std::collections::hash::map::DefaultHasher|^std::hash::DefaultHasher", "the process's random hash keys"),
    (r"^std::thread::local::|LocalKey", "thread-local state"),
    (r"std_detect|is_x86_feature_detected|core::core_arch.*(cpuid|rdtsc|rdrand|rdseed|xgetbv|_rdtscp)", "the host processor"),
    (r"core::arch.*(cpuid|rdtsc|rdrand|rdseed|xgetbv)", "the host processor"),
    (r"^getrandom|^(num_cpus|libc|nix|chrono|time)\b", "the operating system"),
    (r"<.* as core::fmt::Pointer>::fmt|core::fmt::pointer_fmt", "a host address printed into a message"),
]
RAND_NEW = re.compile(r"^(rand|rand_core|rand_chacha|fastrand|oorandom)\b|SeedableRng|ThreadRng|thread_rng|StdRng")
RAND_USE = re.compile(r"RngCore>?::|RngCore::|rand::rng::Rng|Rng::")
OKSTD = re.compile(r"std::collections::hash|std::io::(error|cursor|impls|Read|Write)|std::error|<std::collections|core::|alloc::|std::io::")
OKCRATES = {"core", "alloc", "byteorder", "bytes", "derive_more", "goblin", "scroll", "serde", "serde_core", "thiserror", "ckb_vm",
            "ckb_vm_definitions"}
ADAPT = {"map", "copied", "cloned", "filter", "filter_map", "flat_map", "chain", "into_iter", "by_ref", "iter", "inspect", "flatten",
         "zip", "peekable"}
FREE = {"count", "sum", "min", "max", "all", "any", "is_empty", "len", "size_hint", "contains", "eq", "product", "contains_key", "get"}
SORT = {"sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key"}
HASHITER = {"iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "drain", "into_keys", "into_values", "retain", "extract_if",
            "intersection", "union", "difference", "symmetric_difference"}
GUESTTRAITS = {"machine::CoreMachine", "machine::SupportMachine", "memory::Memory", "machine::Machine"}
HOSTFIELDS = {"memory_ptr", "flags_ptr", "frames_ptr", "threads", "thread"}
MUTSTATIC = re.compile(r"Atomic|Cell|Mutex|Once|Lazy|RwLock|\*mut|LocalKey")
ASMBAD = re.compile(r"\b(rdtscp?|rdrand|rdseed|cpuid|rdpid|syscall|sysenter|int|in[bwl]?|xgetbv|rdfsbase|rdgsbase|svc|hvc|rndr|rndrrs|rdpmc)\b")
ASMSYS = re.compile(r"\bmrs\b\s*[^,]+,\s*(\w+)")


def fnrec(c):
    return c.get("res") or c


def calls(f):
    for i, b in enumerate(f["bbs"]):
        t = b["t"]
        if t["k"] in ("call", "tailcall"):
            fo = t["f"]
            yield i, t, (fo["c"]["fn"] if "c" in fo and "fn" in fo["c"] else None)


def succs(t):
    k = t["k"]
    out = []
    if k == "switch":
        out = [x for _, x in t["ts"]] + [t["o"]]
    elif t.get("t") is not None:
        out = [t["t"]]
    return [x for x in out if isinstance(x, int)]


def where(f, i):
    return "%s, %s" % (f["path"], f["bbs"][i].get("sp", f.get("span", "?")))


def walk_consts(o):
    if isinstance(o, dict):
        yield o
        for v in o.values():
            yield from walk_consts(v)
    elif isinstance(o, list):
        for v in o:
            yield from walk_consts(v)


class An:
    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        self.fns = [f for cr in (p.vm, p.defs) for f in cr.fns.values() if not self.skip(f)]
        self.bypath = {}
        for f in self.fns:
            self.bypath.setdefault((f["crate"].name, f["path"]), f)
        self.callers = collections.defaultdict(list)
        for f in self.fns:
            for i, t, c in calls(f):
                if c is not None:
                    g = self.target(c)
                    if g is not None:
                        self.callers[id(g)].append((f, i))
        self.memo = {}

    @staticmethod
    def skip(f):
        return False

    def target(self, c):
        r = fnrec(c)
        return self.bypath.get((r.get("krate"), r["path"]))

    # ---- types and fields ----------------------------------------------------------------------------------
    def adt(self, cr, name):
        a = cr.adts.get(name)
        return a if a is not None else self.p.adt(name) or self.p.adt(name.replace("ckb_vm_definitions::", ""))

    def place_fields(self, f, pl):
        """[(adt name, field name)] along a place, innermost last"""
        cr = f["crate"]
        ty = cr.ty(f["locals"][pl[0]])
        out, vi = [], 0
        for e in pl[1]:
            if e == "*":
                if ty is not None and ty["k"] in ("ref", "ptr"):
                    ty = cr.ty(ty["to"])
                elif ty is not None and ty["k"] == "adt" and ty["def"].endswith("Box"):
                    ty = cr.ty(ty["args"][0])
                else:
                    ty = None
            elif e[0] == "d":
                vi = e[1]
            elif e[0] == "f":
                nm = None
                if ty is not None and ty["k"] == "adt":
                    a = self.adt(cr, ty["def"])
                    if a is not None:
                        try:
                            nm = a["variants"][vi if len(a["variants"]) > 1 else 0]["fields"][e[1]]["name"]
                        except IndexError:
                            nm = None
                    out.append((ty["def"].split("::")[-1], nm))
                else:
                    out.append((None, str(e[1])))
                ty = cr.ty(e[2])
                vi = 0
            elif e[0] in ("i", "ci"):
                ty = cr.ty(ty["of"]) if ty is not None and ty["k"] in ("array", "slice") else None
            elif e[0] == "ss":
                pass
            else:
                ty = None
        return out, ty

    # ---- 1. callees and statics --------------------------------------------------------------------------------
    def effects(self):
        ctx = self.ctx
        n, indirect = 0, 0
        for f in self.fns:
            clean = True
            for i, t, c in calls(f):
                if c is None:
                    indirect += 1
                    continue
                n += 1
                r = fnrec(c)
                if self.source(f, i, c, r):
                    clean = False
            for o in walk_consts(f["bbs"]):
                if "static" in o and isinstance(o["static"], str):
                    clean = self.static(f, o) and clean
            if clean:
                ctx.ok("%s consults nothing outside the machine" % f["path"], "call inventory")
        for cr in (self.p.vm, self.p.defs):
            for k, c in cr.consts.items():
                kind = str(c.get("kind", ""))
                if "Static" in kind or c.get("static"):
                    mut = "mutability: Mut" in kind or c.get("mut")
                    ty = cr.ty(c["body"]["locals"][0])["s"] if c["body"].get("locals") else "?"
                    if mut or MUTSTATIC.search(ty):
                        ctx.bad("static-%s" % k, k, "`%s` is process-wide mutable state (%s): a second run in the same process sees what the first left" % (k, ty))
                    else:
                        ctx.ok("static %s is immutable" % k, "call inventory")
        ctx.extra["calls_examined"] = n
        ctx.extra["indirect_calls"] = indirect
        ctx.extra["functions_examined"] = len(self.fns)

    def source(self, f, i, c, r):
        ctx = self.ctx
        names = {r["path"], c["path"]}
        args = " ".join(self.tyname(f, a) for a in (c.get("args") or []) + (r.get("args") or []))
        for n in names:
            for rx, what in SRC:
                if re.search(rx, n):
                    if what.startswith("threads") and n.endswith("panicking"):
                        continue
                    ctx.bad("source-%s-%s" % (f["path"], n), where(f, i), "calls `%s`: the result can depend on %s" % (n, what))
                    return True
        for n in names:
            if RAND_NEW.search(n) or r.get("krate") in ("rand", "rand_core", "rand_chacha", "getrandom", "fastrand"):
                if RAND_USE.search(n) and not re.search("SeedableRng", n) and "ThreadRng" not in n and "OsRng" not in n:
                    return False      # draws from a generator; creating one is what is guarded
                v = self.guarded(f, i, set())
                if v is True:
                    ctx.ok("%s creates its generator only in chaos mode" % where(f, i), "dominance by chaos_mode != 0")
                elif v is False:
                    ctx.bad("random-%s" % f["path"], where(f, i), "`%s` is reached without chaos mode having been requested" % n)
                    return True
                else:
                    ctx.und("random source at %s" % where(f, i), v)
                return False
        if r["path"].split("::")[-1] == "retain" and "HashMap" in r["path"]:
            return False
        kr = r.get("krate")
        if kr == "std" and not OKSTD.search(r["path"]):
            ctx.und("call of %s at %s" % (r["path"], where(f, i)), "unknown function of the standard library")
        elif kr not in OKCRATES and kr != "std":
            ctx.und("call of %s at %s" % (r["path"], where(f, i)), "unknown crate %s" % kr)
        m = re.search(r"core::fmt::rt::Argument.*::new_pointer|new_pointer$", r["path"])
        if m:
            ctx.bad("pointer-format-%s" % f["path"], where(f, i), "formats a host address")
            return True
        return False

    def tyname(self, f, a):
        try:
            return f["crate"].ty(a)["s"] if isinstance(a, int) else str(a)
        except Exception:
            return "?"

    def static(self, f, o):
        return True

    # ---- dominance by the chaos-mode branch ---------------------------------------------------------------------
    def defs(self, f):
        k = ("defs", id(f))
        if k not in self.memo:
            d = collections.defaultdict(list)
            for b in f["bbs"]:
                for s in b["s"]:
                    if s[0] == "=" and not s[1][1]:
                        d[s[1][0]].append(s[2])
                t = b["t"]
                if t["k"] == "call" and not t["d"][1]:
                    d[t["d"][0]].append(["call", t])
            self.memo[k] = d
        return self.memo[k]

    def sign(self, f, op, depth=0):
        """+1: nonzero/true iff chaos mode is on; -1: the negation; 0: unrelated"""
        if depth > 12:
            return 0
        pl = op.get("cp") or op.get("mv")
        if pl is None:
            return 0
        if pl[1]:
            fs, _ = self.place_fields(f, pl)
            return 1 if fs and fs[-1][1] == "chaos_mode" else 0
        d = self.defs(f)[pl[0]]
        if len(d) != 1:
            return 0
        r = d[0]
        if r[0] == "use":
            return self.sign(f, r[1], depth + 1)
        if r[0] == "cast" and r[1].startswith("IntToInt"):
            return self.sign(f, r[2], depth + 1)
        if r[0] == "un" and r[1] == "Not":
            return -self.sign(f, r[2], depth + 1)
        if r[0] == "bin":
            op_, a, b = r[1], r[2], r[3]
            for x, y, sw in ((a, b, False), (b, a, True)):
                if "c" in y and y["c"].get("bits") is not None:
                    s = self.sign(f, x, depth + 1)
                    if not s:
                        continue
                    v = int(y["c"]["bits"])
                    o = op_
                    if sw:
                        o = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(o, o)
                    if v == 0:
                        return s if o in ("Ne", "Gt") else -s if o in ("Eq", "Le") else 0
                    if v == 1:
                        return s if o in ("Eq", "Ge") and s > 0 else -s if o == "Lt" else 0
            return 0
        if r[0] == "call":
            c = r[1]["f"].get("c", {}).get("fn")
            g = self.target(c) if c else None
            if g is not None and len(self.defs(g)[0]) == 1:
                rr = self.defs(g)[0][0]
                if rr[0] == "use":
                    return self.sign(g, rr[1], depth + 1)
                if rr[0] in ("bin", "un", "cast"):
                    f2 = dict(g)
                    return self.sign(g, {"cp": [0, []]}, depth + 1)
        return 0

    def unguarded_reach(self, f):
        """blocks reachable from the entry without taking an edge on which chaos mode is known to be on"""
        seen, st = {0}, [0]
        while st:
            i = st.pop()
            t = f["bbs"][i]["t"]
            nx = succs(t)
            if t["k"] == "switch":
                s = self.sign(f, t["op"])
                if s:
                    zero = [x for v, x in t["ts"] if int(v) == 0]
                    nonzero = [x for v, x in t["ts"] if int(v) != 0]
                    oth = t["o"]
                    if zero:
                        on = nonzero + [oth] if s > 0 else zero
                        off = zero if s > 0 else nonzero + [oth]
                    else:
                        on, off = (nonzero, [oth]) if s > 0 else ([], nx)
                    nx = [x for x in off if isinstance(x, int)]
            for x in nx:
                if x not in seen:
                    seen.add(x)
                    st.append(x)
        return seen

    def guarded(self, f, i, stack):
        if i not in self.unguarded_reach(f):
            return True
        if id(f) in stack:
            return True
        if f.get("kind") == "Closure":
            return "inside a closure"
        cs = self.callers[id(f)]
        if not cs:
            return False if f.get("kind") else "no caller known"
        for g, j in cs:
            v = self.guarded(g, j, stack | {id(f)})
            if v is not True:
                return v
        # exported function: callers outside are the assembly's
        if f["path"].endswith("inited_memory"):
            return False
        return True

    # ---- 2. unordered iteration --------------------------------------------------------------------------------
    def hashiter(self):
        ctx = self.ctx
        n = 0
        for f in self.fns:
            for i, t, c in calls(f):
                if c is None:
                    continue
                r = fnrec(c)
                path = r["path"]
                m = path.split("::")[-1]
                if m not in HASHITER:
                    continue
                selfs = " ".join(self.tyname(f, f["locals"][(a.get("cp") or a.get("mv") or [0])[0]]) for a in t["a"] if "c" not in a)
                if not re.search(r"Hash(Map|Set)", path) and not (m == "into_iter" and re.search(r"^(&[^ ]*( mut)? )?[\w:]*Hash(Map|Set)\b", selfs)):
                    continue
                if "hash::map::" in selfs and m == "into_iter" and "HashMap<" not in selfs:
                    continue
                n += 1
                self.follow(f, i, t, m)
        ctx.extra["hash_iterations"] = n

    def locs(self, o):
        pl = o.get("cp") or o.get("mv")
        return pl[0] if pl else None

    def follow(self, f, i0, t0, m0):
        ctx = self.ctx
        key = "hash-order-%s" % f["path"]
        if m0 == "retain":
            ctx.und("retain at %s" % where(f, i0), "the closure runs in hash order")
            return
        it = {t0["d"][0]}          # iterators, and references to them
        vec = set()                # vectors in hash order, and references to them
        sorts, uses = set(), []
        bodies = []
        changed = True
        rounds = 0
        while changed and rounds < 30:
            changed = False
            rounds += 1
            sorts, uses, bodies = set(), [], []
            for i, b in enumerate(f["bbs"]):
                for s in b["s"]:
                    if s[0] != "=":
                        continue
                    src = None
                    if s[2][0] == "use":
                        src = self.locs(s[2][1])
                    elif s[2][0] == "ref":
                        src = s[2][2][0]
                    elif s[2][0] == "cast":
                        src = self.locs(s[2][2])
                    elif s[2][0] == "addr":
                        src = s[2][2][0]
                    dst = s[1][0]
                    if src in it and src is not None and dst not in it:
                        it.add(dst)
                        changed = True
                    if src in vec and src is not None and dst not in vec and s[2][0] in ("ref", "cast", "addr", "use"):
                        vec.add(dst)
                        changed = True
                t = b["t"]
                if t["k"] != "call":
                    continue
                c = t["f"].get("c", {}).get("fn")
                as_ = [self.locs(a) for a in t["a"]]
                if c is None:
                    if any(a in it or a in vec for a in as_):
                        uses.append((i, "an indirect call"))
                    continue
                m = c["name"]
                if i == i0:
                    continue
                if as_ and as_[0] in it and as_[0] is not None:
                    d = t["d"][0]
                    if m == "next" or m == "for_each" or m == "try_for_each" or m == "fold":
                        bodies.append((i, m, t))
                    elif m in ADAPT:
                        if d not in it:
                            it.add(d)
                            changed = True
                    elif m == "collect" or m == "from_iter":
                        ty = f["crate"].ty(f["locals"][d])["s"]
                        if re.search(r"BTree|Hash(Map|Set)|BinaryHeap", ty):
                            pass
                        elif d not in vec:
                            vec.add(d)
                            changed = True
                    elif m in FREE:
                        pass
                    elif m in ("drop", "drop_in_place"):
                        pass
                    else:
                        uses.append((i, "iterator passed to %s" % m))
                elif any(a in it for a in as_ if a is not None):
                    if m in ("extend",):
                        if as_[0] is not None and as_[0] not in vec:
                            vec.add(self.root(f, as_[0]))
                            vec.add(as_[0])
                            changed = True
                    elif m == "from_iter":
                        pass
                    elif m in ADAPT:
                        if t["d"][0] not in it:
                            it.add(t["d"][0])
                            changed = True
                    else:
                        uses.append((i, "iterator passed to %s" % m))
                elif any(a in vec for a in as_ if a is not None):
                    if m in SORT:
                        sorts.add(i)
                    elif m in ("deref_mut", "deref", "as_mut_slice", "as_mut", "as_slice", "borrow_mut") or m in ("branch", "unwrap", "expect"):
                        if t["d"][0] not in vec:
                            vec.add(t["d"][0])
                            changed = True
                    elif m in FREE or m in ("drop", "reserve", "shrink_to_fit", "dedup"):
                        pass
                    else:
                        uses.append((i, "handed to %s" % m))
        # a loop that pushes into a vector: the vector is in hash order
        for i, m, t in bodies:
            self.body(f, i, m, t, key, vec, sorts)
        free = self.reach_without(f, i0, sorts)
        bad = [(i, w) for i, w in uses if i in free]
        if 0 in vec and any(f["bbs"][i]["t"]["k"] == "ret" for i in free):
            bad.append((i0, "returned"))
        if bad:
            for i, w in bad:
                ctx.bad(key, where(f, i), "values in the order of a hash table (random in every process) are %s without having been sorted" % w)
        elif not bodies:
            ctx.ok("%s: what is taken out of the hash table is sorted, counted or collected into an ordered or keyed collection first" % where(f, i0), "order taint")

    def root(self, f, l):
        d = self.defs(f)[l]
        if len(d) == 1 and d[0][0] == "ref" and not d[0][2][1]:
            return self.root(f, d[0][2][0])
        return l

    def reach_without(self, f, start, stop):
        seen, st = set(), [start]
        while st:
            i = st.pop()
            if i in seen or i in stop:
                continue
            seen.add(i)
            st += succs(f["bbs"][i]["t"])
        return seen

    def body(self, f, i, m, t, key, vec, sorts):
        ctx = self.ctx
        if m != "next":
            cl = None
            for a in t["a"][1:]:
                l = self.locs(a)
                ty = f["crate"].ty(f["locals"][l])["s"] if l is not None else str(a)
                mm = re.search(r"\{closure#\d+\}", ty)
                for g in self.fns:
                    if g.get("kind") == "Closure" and g["path"].startswith(f["path"]) and (mm is None or g["path"].endswith(mm.group(0))):
                        cl = g
            blocks = [(cl, j) for j in range(len(cl["bbs"]))] if cl else []
            if not cl:
                ctx.und("%s at %s" % (m, where(f, i)), "closure not found")
                return
        else:
            fw = self.reach_without(f, t["t"], {i}) if t.get("t") is not None else set()
            # blocks that can come back to the `next`
            back = set()
            for j in fw:
                if i in self.reach_set(f, j):
                    back.add(j)
            blocks = [(f, j) for j in sorted(back)]
        verdicts = []
        for g, j in blocks:
            tt = g["bbs"][j]["t"]
            if tt["k"] != "call":
                continue
            c = tt["f"].get("c", {}).get("fn")
            if c is None:
                verdicts.append(("und", j, "an indirect call"))
                continue
            nm = c["name"]
            tr = c.get("trait") or ""
            if nm in ("push", "extend", "append", "extend_from_slice", "push_str", "write_all", "push_back"):
                rt = self.root(g, self.locs(tt["a"][0]))
                srt = False
                if g is f:
                    for k, t2, c2 in calls(f):
                        if c2 is not None and c2["name"] in SORT:
                            l2 = self.locs(t2["a"][0])
                            srt = srt or rt in self.alias_roots(f, l2)
                verdicts.append(("ok", j, nm) if srt else ("bad", j, "`%s` collects" % nm))
            elif any(tr.endswith(x) for x in ("Memory", "CoreMachine", "SupportMachine", "Machine")) and \
                    re.match(r"store|set_|update|clear|init|add_|reset", nm):
                verdicts.append(("und" if nm in ("clear_flag", "set_flag") else "bad", j, "`%s` changes the machine with" % nm))
        for v, j, w in verdicts:
            if v == "bad":
                ctx.bad(key, where(f, i), "%s values in the order of a hash table, which is random in every process" % w)
                return
        und = [w for v, j, w in verdicts if v == "und"]
        if und:
            ctx.und("loop over a hash table at %s" % where(f, i), und[0])
            return
        ctx.ok("loop over a hash table at %s has no ordered effect" % where(f, i), "order taint")

    def alias_roots(self, f, l, depth=0):
        out = {l}
        if depth > 8 or l is None:
            return out
        for d in self.defs(f)[l]:
            if d[0] == "ref":
                out |= self.alias_roots(f, d[2][0], depth + 1)
            elif d[0] == "use":
                x = self.locs(d[1])
                if x is not None:
                    out |= self.alias_roots(f, x, depth + 1)
            elif d[0] == "call":
                for a in d[1]["a"][:1]:
                    x = self.locs(a)
                    if x is not None:
                        out |= self.alias_roots(f, x, depth + 1)
        return out

    def reach_set(self, f, j):
        k = ("rs", id(f), j)
        if k not in self.memo:
            seen, st = set(), list(succs(f["bbs"][j]["t"]))
            while st:
                x = st.pop()
                if x not in seen:
                    seen.add(x)
                    st += succs(f["bbs"][x]["t"])
            self.memo[k] = seen
        return self.memo[k]

    # ---- 3. host addresses -----------------------------------------------------------------------------------
    def hostaddr(self):
        """which integers are host addresses, and do any reach the machine?"""
        ctx = self.ctx
        self.tfield, self.tret, self.tpar = set(), set(), set()
        self.sinks = {}
        nsrc = 0
        for rnd in range(12):
            before = (len(self.tfield), len(self.tret), len(self.tpar), len(self.sinks))
            nsrc = 0
            for f in self.fns:
                nsrc += self.taint(f)
            if before == (len(self.tfield), len(self.tret), len(self.tpar), len(self.sinks)):
                break
        for k, (c, msg) in sorted(self.sinks.items()):
            ctx.bad(k, c, msg)
        for a, n in sorted(self.tfield, key=str):
            if n in HOSTFIELDS or a in ("NonNull", "Unique", "Box"):
                ctx.ok("host addresses are kept in %s::%s" % (a, n), "host-address taint")
            elif a in ("AsmCoreMachine", "DefaultCoreMachine", "Snapshot", "Snapshot2", "DefaultMachine", "Error") or n in (
                    "registers", "pc", "next_pc", "cycles", "max_cycles", "load_reservation_address"):
                if not any(a in k for k in self.sinks):
                    ctx.bad("host-address-field-%s-%s" % (a, n), "%s::%s" % (a, n), "a host address is stored in the guest-visible field `%s`" % n)
            elif n is not None and a is not None:
                ctx.und("host address kept in %s::%s" % (a, n), "field not known to be host-only")
        ctx.extra["pointer_to_integer_sites"] = nsrc
        for f in self.fns:
            ctx.ok("%s lets no host address reach the machine" % f["path"], "host-address taint")

    def isint(self, f, l):
        ty = f["crate"].ty(f["locals"][l])
        return self.carries(ty, f["crate"], 0)

    def carries(self, ty, cr, d):
        """can a value of this type hold an integer by value"""
        k = ty["k"]
        if k in ("int", "uint", "param", "alias", "other", "bool"):
            return k != "bool"
        if k == "adt":
            return True
        if k == "tuple":
            return bool(ty.get("elems"))
        if k == "array":
            return True
        return False

    def taint(self, f):
        """one pass to a local fixpoint; returns number of sources"""
        T, R = set(), set()       # tainted integer locals; references to tainted places
        fid = (f["crate"].name, f["path"])
        for k in range(1, f["argc"] + 1):
            if (fid, k) in self.tpar:
                T.add(k)
            if (fid, -k) in self.tpar:
                R.add(k)
        nsrc = 0

        def place(pl):
            fs, ty = self.place_fields(f, pl)
            if ty is not None and ty["k"] in ("ref", "ptr", "fnptr", "fndef"):
                return False
            named = [x for x in fs if x[1] is not None and x[0] is not None]
            if named:
                if any((a, n) in self.tfield for a, n in named):
                    return True
                if all(a in ("Option", "Result", "ControlFlow", "Range", "Wrapping") for a, n in named) and pl[0] in T and "*" not in pl[1]:
                    return True
                return False
            if "*" in pl[1]:
                return pl[0] in R
            return pl[0] in T

        def op(o):
            pl = o.get("cp") or o.get("mv")
            return place(pl) if pl is not None else False

        changed = True
        rounds = 0
        while changed and rounds < 40:
            changed = False
            rounds += 1
            nsrc = 0
            for i, b in enumerate(f["bbs"]):
                for s in b["s"]:
                    if s[0] != "=":
                        continue
                    rv = s[2]
                    v = False
                    if rv[0] == "use":
                        v = op(rv[1])
                        x = self.locs(rv[1])
                        if x in R and not s[1][1] and s[1][0] not in R:
                            R.add(s[1][0])
                            changed = True
                    elif rv[0] == "repeat":
                        v = op(rv[1])
                    elif rv[0] == "cast":
                        if rv[1] in ("PointerExposeProvenance", "PointerExposeAddress"):
                            v = True
                            nsrc += 1
                        elif rv[1].startswith("Transmute"):
                            x = self.locs(rv[2])
                            st = f["crate"].ty(f["locals"][x]) if x is not None else None
                            pl = rv[2].get("cp") or rv[2].get("mv")
                            if pl is not None:
                                _, st = self.place_fields(f, pl)
                            dt = f["crate"].ty(rv[3])
                            if st is not None and st["k"] in ("ref", "ptr", "fnptr") and dt["k"] in ("int", "uint"):
                                v = True
                                nsrc += 1
                            else:
                                v = op(rv[2])
                        elif rv[1] in ("PointerWithExposedProvenance", "PtrToPtr", "FnPtrToPtr"):
                            v = False
                        else:
                            v = op(rv[2])
                    elif rv[0] == "bin":
                        v = op(rv[2]) or op(rv[3])
                        if rv[1] in ("Offset",):
                            v = False
                        if rv[1] in ("Sub",) and op(rv[2]) and op(rv[3]):
                            v = False          # a difference of two addresses of one object: an offset
                    elif rv[0] == "un":
                        v = op(rv[2])
                    elif rv[0] == "agg":
                        v = any(op(o) for o in rv[2])
                        if v and isinstance(rv[1], dict) and rv[1].get("k") == "adt":
                            nm = rv[1]["def"].split("::")[-1]
                            a = self.adt(f["crate"], rv[1]["def"])
                            if nm == "Error" and rv[1]["def"].startswith(("error", "ckb_vm::error")):
                                self.sinks["host-address-error-%s" % f["path"]] = (where(f, i), "a host address becomes part of the reported error")
                            if nm not in ("Option", "Result", "ControlFlow", "Range", "Wrapping") and a is not None:
                                try:
                                    for k, o in enumerate(rv[2]):
                                        if op(o):
                                            self.tfield.add((nm, a["variants"][rv[1]["vi"]]["fields"][k]["name"]))
                                except (IndexError, KeyError):
                                    pass
                                v = False
                    elif rv[0] in ("ref", "addr"):
                        if place(rv[2]) and s[1][0] not in R:
                            R.add(s[1][0])
                            changed = True
                        v = False
                    if v:
                        dp = s[1]
                        fs, ty = self.place_fields(f, dp)
                        named = [x for x in fs if x[0] is not None and x[1] is not None]
                        if ty is not None and ty["k"] in ("ref", "ptr", "fnptr"):
                            continue
                        if named and named[-1][0] not in ("Option", "Result", "ControlFlow"):
                            a, n = named[0] if len(named) == 1 else named[-1]
                            if n in ("registers", "pc", "next_pc", "cycles", "max_cycles", "load_reservation_address", "reset_signal", "running", "address", "length", "instructions"):
                                self.sinks["host-address-%s-%s" % (f["path"], n)] = (where(f, i), "a host address is stored in the guest-visible field `%s`" % n)
                            else:
                                self.tfield.add((a, n))
                        elif "*" in dp[1]:
                            R.add(dp[0])
                        elif dp[0] not in T:
                            T.add(dp[0])
                            changed = True
                t = b["t"]
                if t["k"] != "call":
                    continue
                c = t["f"].get("c", {}).get("fn")
                args = [op(a) for a in t["a"]]
                rargs = [self.locs(a) in R for a in t["a"]]
                v = False
                if c is None:
                    v = any(args)
                else:
                    r = fnrec(c)
                    nm = c["name"]
                    if nm in ("addr", "expose_provenance", "expose_addr", "to_bits") and re.search(r"core::ptr::", r["path"]):
                        v = True
                        nsrc += 1
                    elif nm == "transmute" and False:
                        pass
                    g = self.target(c)
                    if g is not None:
                        gid = (g["crate"].name, g["path"])
                        for k, (a, ra) in enumerate(zip(args, rargs)):
                            if a and (gid, k + 1) not in self.tpar:
                                self.tpar.add((gid, k + 1))
                            if ra and (gid, -(k + 1)) not in self.tpar:
                                self.tpar.add((gid, -(k + 1)))
                        v = v or gid in self.tret
                    else:
                        for a in t["a"]:
                            x = self.locs(a)
                            ct = f["crate"].ty(f["locals"][x]) if x is not None else f["crate"].ty(a["c"]["ty"]) if "c" in a else None
                            if ct is not None and ct["k"] == "closure" and (f["crate"].name, ct["def"]) in self.tret:
                                v = True
                        v = v or any(args) or (any(rargs) and nm in ("clone", "to_owned", "copied", "into", "read", "get"))
                        if c.get("trait"):
                            v = v or (c["trait"], nm) in self.tret
                    tr = (c.get("trait") or "").replace("ckb_vm::", "")
                    if tr in GUESTTRAITS and any(args[1:]):
                        self.sinks["host-address-%s-%s" % (f["path"], nm)] = (where(f, i), "a host address is passed to `%s::%s`" % (tr, nm))
                dl, dpj = t["d"]
                if v:
                    ty = f["crate"].ty(f["locals"][dl])
                    if dpj:
                        fs, ty = self.place_fields(f, t["d"])
                        named = [x for x in fs if x[0] is not None and x[1] is not None]
                        if named and ty is not None and ty["k"] not in ("ref", "ptr"):
                            a, n = named[-1]
                            if n in ("registers", "pc", "next_pc", "cycles", "address", "length", "instructions"):
                                self.sinks["host-address-%s-%s" % (f["path"], n)] = (where(f, i), "a host address is stored in the guest-visible field `%s`" % n)
                            else:
                                self.tfield.add((a, n))
                    elif self.carries(ty, f["crate"], 0) and dl not in T:
                        T.add(dl)
                        changed = True
        if 0 in T:
            self.tret.add(fid)
            if f.get("impltrait"):
                self.tret.add((f["impltrait"], f["name"]))
        return nsrc

    # ---- 4. uninitialised memory ---------------------------------------------------------------------------
    def uninit(self):
        ctx = self.ctx
        n = 0
        for f in self.fns:
            for i, t, c in calls(f):
                if c is None:
                    continue
                r = fnrec(c)
                nm = c["name"]
                pth = r["path"]
                if pth in ("alloc::alloc::alloc", "alloc::alloc::realloc") or (nm in ("alloc", "allocate") and r.get("krate") in ("alloc", "std")):
                    n += 1
                    self.alloc_site(f, i, t)
                elif nm in ("uninitialized", "assume_init", "assume_init_ref", "assume_init_mut", "set_len", "new_uninit_slice") and r.get("krate") in ("core", "alloc", "std"):
                    n += 1
                    ctx.und("`%s` at %s" % (nm, where(f, i)), "memory that may not be initialised")
        ctx.extra["uninitialised_allocations"] = n

    def alloc_site(self, f, i0, t0):
        ctx = self.ctx
        A = {t0["d"][0]}
        ch = True
        fields, boxed = set(), set()
        unk = set()
        while ch:
            ch = False
            for b in f["bbs"]:
                for s in b["s"]:
                    if s[0] != "=":
                        continue
                    src = []
                    rv = s[2]
                    if rv[0] in ("use", "repeat"):
                        src = [self.locs(rv[1])]
                    elif rv[0] == "cast":
                        src = [self.locs(rv[2])]
                    elif rv[0] == "agg":
                        src = [self.locs(o) for o in rv[2]]
                    if any(x in A for x in src if x is not None):
                        fs, _ = self.place_fields(f, s[1])
                        nmd = [x for x in fs if x[0] is not None and x[1] is not None and x[0] not in ("Box", "Unique", "NonNull")]
                        if nmd:
                            fields.add(nmd[-1])
                        elif not s[1][1] and s[1][0] not in A:
                            A.add(s[1][0])
                            ch = True
                t = b["t"]
                if t["k"] == "call" and any(self.locs(a) in A for a in t["a"] if self.locs(a) is not None):
                    c = t["f"].get("c", {}).get("fn")
                    nm = c["name"] if c else "?"
                    if nm in ("cast", "add", "offset", "from_raw", "into", "new", "unwrap", "from", "expect", "from_raw_parts_mut"):
                        if nm == "from_raw":
                            boxed.add(f["crate"].ty(f["locals"][t["d"][0]])["s"])
                        elif t["d"][0] not in A:
                            A.add(t["d"][0])
                            ch = True
                    elif nm in ("write_bytes", "memset", "fill", "copy_nonoverlapping", "write", "copy_from"):
                        unk.add("filled by %s" % nm)
                    elif nm not in ("is_null",):
                        unk.add(nm)
        w = where(f, i0)
        if any("DynamicTrace" in b for b in boxed):
            unk.discard("filled by write")
        if unk:
            ctx.und("uninitialised allocation at %s" % w, ", ".join(sorted(unk)))
            return
        for a, n in sorted(fields):
            if n in ("memory_ptr",):
                ctx.ok("%s: the uninitialised allocation is the memory image, which every access path initialises by frames first (C11)" % w, "uninitialised allocations")
            elif n in ("flags_ptr", "frames_ptr"):
                ctx.bad("uninit-%s" % n, w, "`%s` starts as uninitialised memory: page permissions and lazy initialisation depend on what the host left there" % n)
            else:
                ctx.und("uninitialised allocation kept in %s::%s" % (a, n), "field unknown")
        for ty in sorted(boxed):
            if "DynamicTrace" in ty:
                ctx.ok("%s: every field of the dynamic trace is written before use (C13)" % w, "uninitialised allocations")
            else:
                ctx.bad("uninit-%s" % f["path"], w, "`%s` is created from uninitialised memory" % ty)
        if not fields and not boxed:
            ctx.und("uninitialised allocation at %s" % w, "where it goes is not seen")

    # ---- 5. assembly ------------------------------------------------------------------------------------------
    def asm(self):
        ctx = self.ctx
        base = os.path.join(facts.REPO, "src/machine/asm")
        n = 0
        for root, _, files in os.walk(base):
            for fn in sorted(files):
                if not fn.endswith(".S"):
                    continue
                path = os.path.join(root, fn)
                bad = False
                txt = re.sub(r"/\*.*?\*/", lambda m: "\n" * m.group(0).count("\n"), open(path).read(), flags=re.S)
                for ln, l in enumerate(txt.split("\n"), 1):
                    l = re.split(r"//|#(?![0-9-])|\s;", l)[0]
                    for ins in l.split(";"):
                        ins = re.sub(r"^\s*[.\w$]+:\s*", "", ins).strip()
                        if not ins:
                            continue
                        n += 1
                        m = re.match(r"([a-z][\w.]*)", ins)
                        if not m:
                            continue
                        if ASMBAD.fullmatch(m.group(1)):
                            ctx.bad("asm-%s-%s" % (fn, m.group(1)), "%s:%d" % (fn, ln), "`%s` makes the result depend on the host" % ins)
                            bad = True
                        m2 = ASMSYS.match(ins)
                        if m2:
                            ctx.bad("asm-%s-mrs" % fn, "%s:%d" % (fn, ln), "`%s` reads the system register %s" % (ins, m2.group(1)))
                            bad = True
                if not bad:
                    ctx.ok("%s has no instruction that reads a clock, counter, random source or processor identity" % fn, "instruction inventory")
        ctx.extra["assembly_lines"] = n


def run(ctx):
    p = Program()
    a = An(ctx, p)
    a.effects()
    a.hashiter()
    a.hostaddr()
    a.uninit()
    a.asm()
    ctx.explanation = (
        "Effect analysis over the compiler's representation of every function of the two crates (assembly feature on) and over both assembly files: "
        "every callee is named and matched against the sources of nondeterminism; random generators may only be created on blocks dominated by the "
        "chaos-mode branch (interprocedurally); whatever is taken out of a hash table in iteration order must be sorted, counted or keyed before anything "
        "else sees it; integers made from pointers are followed through locals, fields, parameters and returns and must not reach a register, memory, "
        "the program counter, the cycle counters or an error; memory allocated uninitialised may only become the lazily initialised memory image or a "
        "trace whose every field is written.")
    ctx.rules = [
        "no call of a clock, environment, thread, file, network, process, random-key or processor-identification function",
        "no mutable or interior-mutable static, no thread-local",
        "random generator creation dominated by chaos_mode != 0",
        "hash-order taint does not reach an ordered effect", "host-address taint does not reach the machine",
        "uninitialised allocations are only the lazily initialised image and dynamic traces",
    ]
    ctx.trusted = ["rustc's MIR", "goblin, scroll, bytes, byteorder, serde, derive_more and the core and alloc crates are deterministic functions of their arguments",
                   "system calls, debugger and the cycle function supplied by the embedder are deterministic"]
    ctx.assumptions = ["conditions on host addresses (implicit flows) are not followed", "the pause flag is the embedder's input"]
