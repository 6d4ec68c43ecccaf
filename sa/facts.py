"""Extraction of the type-checked program from /repo's working tree.

Builds the rustc_private driver (../mirdump), runs it as RUSTC_WRAPPER under `cargo +nightly check`
with the release profile, and loads the JSON it writes.  Keyed by the content of every source file,
so that no stale facts can be used; cargo's freshness cache is bypassed by dropping the fingerprints of the two
analysed crates."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
ENV = dict(os.environ)
ENV.update({
    "HOME": "/root", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never",
    "PATH": "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
})
for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)


class ExtractError(Exception):
    pass


def _sh(cmd, env=None, cwd=None, timeout=800):
    p = subprocess.run(cmd, env=env or ENV, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise ExtractError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def source_files():
    out = []
    for pat in ("Cargo.toml", "Cargo.lock", "build.rs", "rust-toolchain", "src/**/*", "definitions/Cargo.toml", "definitions/src/**/*"):
        out += [f for f in glob.glob(os.path.join(REPO, pat), recursive=True) if os.path.isfile(f)]
    return sorted(set(out))


def source_hash():
    h = hashlib.sha256()
    for f in source_files() + sorted(glob.glob(os.path.join(VERIF, "mirdump/src/*.rs"))):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            b = fh.read()
        h.update(str(len(b)).encode() + b"\0" + b)
    return h.hexdigest()[:24]


def build_driver():
    _sh(["cargo", "+nightly", "build", "--offline", "--manifest-path", os.path.join(VERIF, "mirdump/Cargo.toml"),
         "--target-dir", os.path.join(CACHE, "mirdump")])
    return os.path.join(CACHE, "mirdump/debug/mirdump")


OVERFLOW_CHECKS = False     # extract the program as built with overflow checks


def extract(features="asm"):
    os.makedirs(CACHE, exist_ok=True)
    kind = (features.replace(",", "+") or "plain") + ("+ovf" if OVERFLOW_CHECKS else "")
    out = os.path.join(CACHE, "facts-%s-%s" % (kind, source_hash()))
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "ok")):
            return out
        drv = build_driver()
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        tgt = os.path.join(CACHE, "target-" + kind)
        for pat in ("*/.fingerprint/ckb-vm*", "*/build/ckb-vm*"):
            for d in glob.glob(os.path.join(tgt, pat)):
                shutil.rmtree(d)
        env = dict(ENV)
        sysroot = _sh(["rustc", "+nightly", "--print", "sysroot"]).strip()
        env.update({"LD_LIBRARY_PATH": sysroot + "/lib", "RUSTC_WRAPPER": drv, "MIRDUMP_OUT": out,
                    "MIRDUMP_CRATES": "ckb_vm,ckb_vm_definitions", "CARGO_TARGET_DIR": tgt})
        if OVERFLOW_CHECKS:
            env["CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS"] = "true"
        _sh(["cargo", "+nightly", "check", "--release", "--offline", "--locked", "--lib", "--features", features], env=env, cwd=REPO)
        for c in ("ckb_vm", "ckb_vm_definitions"):
            if not os.path.exists(os.path.join(out, c + ".json")):
                raise ExtractError("driver produced no facts for " + c)
        open(os.path.join(out, "ok"), "w").close()
        # keep the cache small
        olds = sorted(glob.glob(os.path.join(CACHE, "facts-*")), key=os.path.getmtime)
        for o in olds[:-6]:
            shutil.rmtree(o, ignore_errors=True)
        return out


class Crate:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.name = d["crate"]
        self.fns = d["fns"]
        self.consts = d["consts"]
        self.impls = d["impls"]
        self.adts = d["adts"]
        self.types = d["types"]
        for k, f in self.fns.items():
            f["path"] = k
            f["crate"] = self
            for p in f["promoted"]:
                p["crate"] = self
                p["path"] = k + "::promoted"
        for k, c in self.consts.items():
            c["body"]["crate"] = self
            c["body"]["path"] = k
            c["path"] = k

    def ty(self, i):
        return self.types[i]


class Program:
    def __init__(self, features="asm"):
        self.features = features
        self.dir = extract(features)
        self.vm = Crate(os.path.join(self.dir, "ckb_vm.json"))
        self.defs = Crate(os.path.join(self.dir, "ckb_vm_definitions.json"))
        self.crates = {"ckb_vm": self.vm, "ckb_vm_definitions": self.defs}
        # methods implementing traits: (trait, self type string, method) -> fn
        self.impl_methods = {}
        self.trait_defaults = {}
        for cr in (self.vm, self.defs):
            for k, f in cr.fns.items():
                if f.get("kind") == "Closure":
                    continue
                if "impltrait" in f:
                    st = cr.ty(f["implself"])["s"]
                    self.impl_methods.setdefault((f["impltrait"], f["name"]), []).append((st, f))
                if "traitdefault" in f:
                    self.trait_defaults[(f["traitdefault"], f["name"])] = f

    def fn(self, path, crate="ckb_vm"):
        fns = self.crates[crate].fns
        g = fns.get(path)
        if g is None and path.startswith(crate + "::"):
            g = fns.get(path[len(crate) + 2:])
        if g is None and crate + "::" in path:
            g = fns.get(path.replace(crate + "::", ""))
        return g

    def fns_where(self, pred):
        return [f for f in self.vm.fns.values() if pred(f)]

    def adt(self, name):
        for c in (self.vm, self.defs):
            if name in c.adts:
                return c.adts[name]
        return None


if __name__ == "__main__":
    print(extract(sys.argv[1] if len(sys.argv) > 1 else "asm"))
