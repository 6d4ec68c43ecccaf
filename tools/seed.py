#!/usr/bin/env python3
"""seed.py new ID PROPERTY  : take the diff in /tmp/wt, make seeded/ID from it (main.rs, meta text read from /tmp/seed/)
seed.py test ID            : tests + demo with and without the patch, in /tmp/wt
seed.py checks ID [PROP..] : apply to /tmp/wt and run the checks on it (VERIF_REPO=/tmp/wt)"""
import json, os, shutil, subprocess, sys
V = "/verif"; WT = "/tmp/wt"
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           RUSTUP_TOOLCHAIN="1.81.0", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
def sh(*a, **k): return subprocess.run(a, **k)
def reset():
    if not os.path.isdir(WT): sh("cp", "-a", "/repo", WT, check=True)
    sh("git", "-C", WT, "checkout", "-q", "--", ".", check=True)
def apply(i): reset(); sh("git", "-C", WT, "apply", "%s/seeded/%s/patch.diff" % (V, i), check=True)
def demo(i):
    p = sh("bash", "%s/seeded/%s/demo.sh" % (V, i), cwd=WT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout[-600:]
def tests():
    bad = []
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("tests", [])) if False else None
    for name, man, tgt, feat in (("plain", "Cargo.toml", "target", ""), ("asm", "Cargo.toml", "target", "asm"),
                                 ("chaos", "Cargo.toml", "target", "asm,enable-chaos-mode-by-default"), ("definitions", "definitions/Cargo.toml", "definitions/target", "")):
        p = sh("cargo", "nextest", "run", "--manifest-path", man, "--target-dir", WT + "/" + tgt, "--workspace", "--features", feat,
               "--locked", "--offline", "--tool-config-file", "vp:/opt/vp/nextest.toml", "--profile", "vp", "--no-fail-fast", "--test-threads", "8",
               cwd=WT, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode not in (0, 4): bad.append((name, "\n".join(l for l in p.stdout.splitlines() if "FAIL" in l or "error" in l)[:1500]))
    return bad
cmd, i = sys.argv[1], sys.argv[2]
if cmd == "new":
    d = "%s/seeded/%s" % (V, i); os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", WT, "diff"], text=True)
    assert diff.strip()
    open(d + "/patch.diff", "w").write(diff)
    for f in ("demo.sh", "vmkit.rs"): shutil.copy(V + "/tools/seedkit/" + f, d)
    shutil.copy("/tmp/seed/main.rs", d)
    m = json.load(open("/tmp/seed/meta.json")); m["property"] = sys.argv[3]
    json.dump(m, open(d + "/meta.json", "w"), indent=1)
    cmd = "test"
if cmd == "test":
    reset(); rc, out = demo(i); print("demo clean:", rc, out if rc else "")
    apply(i); rc2, out2 = demo(i); print("demo patched:", rc2, out2.strip()[-300:])
    b = tests(); print("tests:", b or "all pass")
    reset()
    print("VALID" if rc == 0 and rc2 != 0 and not b else "INVALID", i)
if cmd == "checks":
    apply(i)
    props = sys.argv[3:] or [json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]]
    for q in props:
        p = sh("python3", V + "/sa/run.py", q, env=dict(os.environ, VERIF_REPO=WT), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("\n".join(p.stdout.splitlines()[-8:])); print("exit", p.returncode)
    reset()
