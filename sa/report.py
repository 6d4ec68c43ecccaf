"""Obligation bookkeeping, evidence and verdict lines shared by all checks."""
import ctypes
import json
import os
import sys
import time

import panics

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.json")


class Ctx:
    def __init__(self, prop, level="other"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.counts = {}
        self.obs = []
        self.viol = []
        self.undecided = []
        self.extra = {}
        self.rules = []
        self.trusted = []
        self.assumptions = []
        self.explanation = ""
        self.known = {}
        if os.path.exists(KNOWN):
            for e in json.load(open(KNOWN))["findings"]:
                if e["property"] == prop:
                    self.known[e["key"]] = e["what"]

    @property
    def thorough(self):
        return self.tier == "thorough"

    # one obligation = one fact the rule demands at one construct
    def ok(self, what, how="rule"):
        self.counts[how] = self.counts.get(how, 0) + 1
        self.obs.append((what, how))

    def bad(self, key, construct, msg, data=None):
        """a violation: `key` identifies it stably, `construct` names the place in the source"""
        self.viol.append({"key": key, "construct": construct, "message": msg, "data": data})

    def und(self, what, why):
        self.undecided.append((what, str(why)[:300]))

    def check(self, cond, key, construct, msg, data=None, how="rule"):
        if cond:
            self.ok(key, how)
        else:
            self.bad(key, construct, msg, data)
        return bool(cond)

    def finish(self):
        new, known = [], []
        for v in self.viol:
            (known if v["key"] in self.known else new).append(v)
        n = len(self.obs) + len(self.viol) + len(self.undecided)
        samples = [{"obligation": w, "decided_by": h} for w, h in self.obs[:: max(1, len(self.obs) // 8)][:10]]
        cov = {
            "explanation": self.explanation,
            "obligations": n,
            "discharged": len(self.obs),
            "decided_by": self.counts,
            "undecided": [{"obligation": a, "why": b} for a, b in self.undecided][:50],
            "undecided_count": len(self.undecided),
            "rules": self.rules,
            "samples": samples,
        }
        cov.update(self.extra)
        if self.trusted:
            cov["trusted_base"] = self.trusted
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, self.prop + ".violation.json")
        if os.path.exists(rp):
            os.unlink(rp)
        if self.viol:
            ev["coverage"]["violation_list"] = self.viol[:40]
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        print("%s: %d obligations, %d discharged %s, %d undecided, %.1fs" % (
            self.prop, n, len(self.obs), json.dumps(self.counts), len(self.undecided), ev["wall_s"]))
        for a, b in self.undecided[:20]:
            print("UNDECIDED %s: %s (%s)" % (self.prop, a, b))
        for k in sorted({v["key"] for v in known}):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[k]))
        if new:
            with open(rp, "w") as f:
                json.dump(new, f, indent=1, default=repr)
            for v in new[:25]:
                print("  %s: %s" % (v["construct"], v["message"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0


def sub(ctx, run, prefix, keep=lambda key: True):
    """another property's analysis as part of this one; its known findings stay that property's"""
    c = Ctx(ctx.prop, ctx.level)
    if os.path.exists(KNOWN):
        known = {e["key"] for e in json.load(open(KNOWN))["findings"] if e["property"] == prefix}
    else:
        known = set()
    run(c)
    for w, h in c.obs:
        if keep(w):
            ctx.ok(prefix + ": " + w, h)
    for v in c.viol:
        if keep(v["key"]) and v["key"] not in known:
            ctx.viol.append(dict(v, key=prefix + ": " + v["key"]))
    for w, why in c.undecided:
        if keep(w):
            ctx.und(prefix + ": " + w, why)
    return c


class OutOfTime(Exception):
    """one obligation is given up after ITEM_LIMIT seconds (left open), all that remain after RUN_LIMIT"""


ITEM_LIMIT = int(os.environ.get("VERIF_ITEM_LIMIT", "180"))
RUN_LIMIT = 600
START = time.time()


def pmap(ctx, fn, items, workers=8):
    """run fn(ctx_k, item) for every item in forked workers and merge what they report; order-independent"""
    import multiprocessing as mp
    import threading
    items = list(items)
    if len(items) <= 1:
        for it in items:
            fn(ctx, it)
        return []
    mc = mp.get_context("fork")
    q = mc.Queue()
    nxt = mc.Value("i", 0)

    def worker():
        sys.setrecursionlimit(60000)
        threading.stack_size(512 * 1024 * 1024)
        t = threading.Thread(target=loop)
        t.start()
        while True:
            t.join(1)
            if not t.is_alive():
                return
            b = began[0]
            if b and (time.time() - b > ITEM_LIMIT or time.time() - START > RUN_LIMIT):
                began[0] = time.time() - ITEM_LIMIT + 20
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(OutOfTime))

    began = [None]

    def loop():
        while True:
            with nxt.get_lock():
                i = nxt.value
                nxt.value += 1
            if i >= len(items):
                break
            c = Ctx(ctx.prop, ctx.level)
            panics.clear()
            try:
                if time.time() - START > RUN_LIMIT:
                    raise OutOfTime()
                began[0] = time.time()
                try:
                    r = fn(c, items[i])
                finally:
                    began[0] = None
            except Exception as e:      # a worker that fails decides nothing
                import traceback
                c.und(repr(items[i])[:80], "%s: %s" % (type(e).__name__, e) + traceback.format_exc()[-300:])
                r = None
            panics.flush(c)
            q.put((i, c.counts, c.obs, json.loads(json.dumps(c.viol, default=repr)), c.undecided, c.extra, r))
        q.put(None)
    ps = [mc.Process(target=worker) for _ in range(min(workers, len(items)))]
    for p_ in ps:
        p_.start()
    got = {}
    left = len(ps)
    import queue as _q
    while left:
        try:
            m = q.get(timeout=5)
        except _q.Empty:
            if not any(p_.is_alive() for p_ in ps):
                break
            continue
        if m is None:
            left -= 1
        else:
            got[m[0]] = m
    for p_ in ps:
        p_.join(5)
    out = []
    for i in range(len(items)):
        if i not in got:
            ctx.und(repr(items[i])[:80], "worker died")
            out.append(None)
            continue
        _, counts, obs, viol, und, extra, r = got[i]
        for k, v in counts.items():
            ctx.counts[k] = ctx.counts.get(k, 0) + v
        ctx.obs += [tuple(o) for o in obs]
        ctx.viol += viol
        ctx.undecided += [tuple(u) for u in und]
        for k, v in extra.items():
            if isinstance(v, dict):
                ctx.extra.setdefault(k, {}).update(v)
            elif isinstance(v, list):
                ctx.extra[k] = sorted(set(ctx.extra.get(k, [])) | set(v))
            else:
                ctx.extra[k] = v
        out.append(r)
    return out
