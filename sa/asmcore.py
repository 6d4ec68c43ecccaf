"""Common ground of the two assembly lifters: machine-code state as value graphs, merged at joins (gated SSA)."""
import os
import re
import subprocess
from terms import *
from mirexec import Unsupported

MSZ_BITS = 40          # memory is a whole number of 256 KB frames; 2^58 bytes bounds every possible host allocation


def preprocess(repo, name, defs=()):
    p = subprocess.run(["gcc", "-E", "-P", "-undef", "-I", "src/machine/asm"] + ["-D" + d for d in defs] +
                       ["src/machine/asm/" + name], cwd=repo, capture_output=True, text=True)
    if p.returncode:
        raise Unsupported("preprocessor: " + p.stderr[:300])
    return p.stdout


class Code:
    """instructions: (mnemonic, [operand text], source text); labels: name -> [index]"""

    def __init__(self, text, sep=";"):
        self.ins = []
        self.labels = {}
        self.data = []
        cur = None
        for line in text.splitlines():
            line = re.sub(r"/\*.*?\*/|//.*", "", line)
            if sep == ";":
                parts = line.split(";")
            else:
                parts = re.split(sep, line)
            for s in parts:
                s = s.strip()
                while True:
                    m = re.match(r"([A-Za-z_.$][\w.$]*|\d+)\s*:\s*", s)
                    if not m:
                        break
                    self.labels.setdefault(m.group(1), []).append(len(self.ins))
                    cur = m.group(1)
                    s = s[m.end():]
                if not s:
                    continue
                f = s.split(None, 1)
                if f[0].startswith("."):
                    self.data.append((cur, f[0], f[1] if len(f) > 1 else ""))
                    continue
                self.ins.append((f[0], split_ops(f[1]) if len(f) > 1 else [], s))

    def target(self, name, at):
        m = re.match(r"(\d+)([fb])$", name)
        if m:
            l = self.labels.get(m.group(1), [])
            c = [i for i in l if i > at] if m.group(2) == "f" else [i for i in l if i <= at]
            if not c:
                raise Unsupported("label " + name)
            return c[0] if m.group(2) == "f" else c[-1]
        l = self.labels.get(name)
        if not l:
            raise Unsupported("label " + name)
        return l[0]

    def names_at(self, i):
        return sorted(n for n, l in self.labels.items() if i in l)


def split_ops(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def number(s):
    s = s.strip()
    if not re.fullmatch(r"[\s0-9a-fA-FxX()+\-*<>~|&]+", s):
        raise Unsupported("expression " + s)
    try:
        return int(eval(s, {"__builtins__": {}}))
    except Exception:
        raise Unsupported("expression " + s)


class Layout:
    """offset -> (field, size) of the structures shared with Rust"""

    def __init__(self, prog):
        self.f = {}
        for nm in ("AsmCoreMachine", "FixedTrace", "InvokeData"):
            a = [v for k, v in prog.defs.adts.items() if k.endswith("asm::" + nm)][0]
            offs = a["layout"]["offsets"]
            flds = a["variants"][0]["fields"]
            end = a["layout"]["size"]
            self.f[nm] = {}
            for fl, o in zip(flds, offs):
                ty = prog.defs.types[fl["ty"]] if isinstance(fl["ty"], int) else fl["ty"]
                self.f[nm][o] = (fl["name"], tysize(prog, ty))
            self.f[nm]["size"] = end

    def at(self, struct, off, size):
        d = self.f[struct].get(off)
        return d[0] if d and d[1] == size else None

    def off(self, struct, name):
        for o, v in self.f[struct].items():
            if o != "size" and v[0] == name:
                return o
        raise Unsupported("field %s.%s" % (struct, name))


def tysize(prog, ty):
    k = ty.get("k") if isinstance(ty, dict) else None
    s = str(ty)
    m = re.search(r"'?([ui])(8|16|32|64|128)'?", s)
    if k in ("ref", "ptr", "rawptr") or "ptr" in s.lower()[:12]:
        return 8
    if k == "array" or "array" in s[:14]:
        return None
    return int(m.group(2)) // 8 if m else 8


class AState:
    def __init__(self):
        self.regs = {}
        self.flags = {}
        self.fields = {}
        self.arr = {}
        self.stack = {}
        self.cond = TRUE
        self.acc = []          # (description, condition, must hold)

    def copy(self):
        s = AState()
        s.regs, s.flags, s.fields = dict(self.regs), dict(self.flags), dict(self.fields)
        s.arr, s.stack, s.cond, s.acc = dict(self.arr), dict(self.stack), self.cond, list(self.acc)
        return s

    def need(self, what, t):
        if t is not TRUE:
            self.acc.append((what, self.cond, t))


def merge_d(c, a, b, f, missing=None):
    out = {}
    for k in a:
        if k in b:
            x, y = a[k], b[k]
            if x is None or y is None:
                out[k] = None
            else:
                out[k] = x if x is y else f(c, x, y)
    return out


def merge(a, b):
    s = AState()
    c = a.cond
    s.cond = bor(a.cond, b.cond)
    s.regs = merge_d(c, a.regs, b.regs, ite)
    s.flags = merge_d(c, a.flags, b.flags, ite)
    s.fields = merge_d(c, a.fields, b.fields, ite)
    s.arr = merge_d(c, a.arr, b.arr, aite)
    s.stack = merge_d(c, a.stack, b.stack, ite)
    ids = set()
    for t in a.acc + b.acc:
        k = (t[0], t[1].id, t[2].id)
        if k not in ids:
            ids.add(k)
            s.acc.append(t)
    return s


def summand(t, v):
    """t == v + rest -> rest, else None"""
    if t is v:
        return K(0, t.w)
    if t.op == "sum":
        for k, x in t.a[1]:
            if x is v:
                return sub(t, v) if k == 1 else None
    return None


class Lifter:
    """subclasses provide succ(i), exec(i, st) and terminal classification"""

    def __init__(self, code):
        self.code = code

    def order(self, entry, stops):
        post, seen, onst = [], set(), set()

        def go(i):
            stack = [(i, None)]
            while stack:
                n, it = stack.pop()
                if it is None:
                    if n in seen:
                        continue
                    seen.add(n)
                    onst.add(n)
                    it = iter(self.succ(n) if n not in stops or n == entry else ())
                adv = False
                for m in it:
                    if m in onst:
                        raise Unsupported("loop at " + self.code.ins[m][2])
                    if m not in seen:
                        stack.append((n, it))
                        stack.append((m, None))
                        adv = True
                        break
                if not adv:
                    onst.discard(n)
                    post.append(n)
        go(entry)
        return post[::-1]

    def run(self, entry, st, stops=()):
        """-> list of (kind, index, state)"""
        self.path = []
        try:
            order = self.order(entry, set(stops))
        except Unsupported:
            return self.unrolled(entry, st, set(stops))
        at = {entry: st}
        out = []
        for i in order:
            s = at.pop(i, None)
            if s is None or s.cond is FALSE:
                continue
            if i in stops and i != entry:
                out.append(("label", i, s))
                continue
            self.path.append(i)
            for kind, j, s2 in self.exec(i, s):
                if s2.cond is FALSE:
                    continue
                if kind == "go":
                    at[j] = merge(at[j], s2) if j in at else s2
                else:
                    out.append((kind, i, s2))
        return out

    def unrolled(self, entry, st, stops):
        """code with counted loops: every branch that decides to repeat has to be decided by constants"""
        out = []
        todo = [(entry, st)]
        n = 0
        while todo:
            i, s = todo.pop()
            if s.cond is FALSE:
                continue
            if i in stops and n:
                out.append(("label", i, s))
                continue
            n += 1
            if n > 6000 or len(todo) > 64:
                raise Unsupported("loop not bounded by constants")
            if i not in self.path:
                self.path.append(i)
            for kind, j, s2 in self.exec(i, s):
                if s2.cond is FALSE:
                    continue
                if kind == "go":
                    todo.append((j, s2))
                else:
                    out.append((kind, i, s2))
        return out
