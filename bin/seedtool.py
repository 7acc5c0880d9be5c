#!/usr/bin/env python3
"""Development tool (no check uses it): make and try planted bugs.
 seedtool.py add SPEC.py      SPEC defines SEEDS = [dict(id, property, file, old, new | edits=[(file,old,new)], needs, breaks, main)]
 seedtool.py try ID [PROP..]  run the check(s) against the bug, in a private mount namespace with a patched copy on /repo
"""
import sys, os, json, subprocess, shutil
V = "/verif/seeded"; SCR = "/tmp/scr"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
DEMO = '''#!/bin/bash
# run in the repository: exit 0 = the property's instance holds, non-zero = broken
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
t=/tmp/svd-demo-@ID@; rm -rf /tmp/svd-demo-@ID@; mkdir -p $t/src; cp "$here/main.rs" $t/src/main.rs; cp "$here/deps.lock" $t/Cargo.lock
cat > $t/Cargo.toml <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
svd-rs = { path = "$repo/svd-rs", features = ["derive-from", "serde"] }
svd-parser = { path = "$repo/svd-parser", features = ["derive-from", "expand"] }
svd-encoder = { path = "$repo/svd-encoder" }
serde_json = { version = "1.0", features = ["preserve_order"] }
[profile.dev]
debug = 0
EOT
timeout 250 cargo run -q --offline --manifest-path $t/Cargo.toml --target-dir $t/target; rc=$?
rm -rf /tmp/svd-demo-@ID@; exit $rc
'''
def sh(c, **k): return subprocess.run(c, shell=True, env=ENV, capture_output=True, text=True, errors="replace", **k)
def reset(): 
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=SCR)
def add(specf):
    if not os.path.exists(SCR): sh(f"mkdir -p {SCR} && cp -a /repo/. {SCR}/")
    g = {}; exec(open(specf).read(), g)
    for s in g["SEEDS"]:
        if len(sys.argv) > 3 and s["id"] not in sys.argv[3:]: continue
        reset(); ok = True
        for f, o, n in s.get("edits") or [(s["file"], s["old"], s["new"])]:
            p = f"{SCR}/{f}"; t = open(p).read()
            if t.count(o) != 1: print(s["id"], "EDIT does not match once:", f, t.count(o)); ok = False; break
            open(p, "w").write(t.replace(o, n))
        if not ok: continue
        d = f"{V}/{s['id']}"; os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=SCR).stdout)
        r = sh("cargo check -q -p svd-rs --offline && cargo check -q -p svd-parser --offline && cargo check -q -p svd-encoder --offline", cwd=SCR)
        if r.returncode: print(s["id"], "BUILD FAILED", r.stderr[-1500:]); shutil.rmtree(d); continue
        r = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", cwd=SCR)
        if r.returncode: print(s["id"], "TESTS FAIL", [l for l in r.stdout.split("\n") if "FAILED" in l or "failed" in l][:6], r.stderr[-800:]); shutil.rmtree(d); continue
        open(d + "/main.rs", "w").write(s["main"]); open(d + "/demo.sh", "w").write(DEMO.replace("@ID@", s["id"])); os.chmod(d + "/demo.sh", 0o755)
        shutil.copy("/verif/harness/Cargo.lock", d + "/deps.lock")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        b = sh(f"bash {d}/demo.sh", cwd=SCR); reset(); a = sh(f"bash {d}/demo.sh", cwd=SCR)
        good = a.returncode == 0 and b.returncode != 0
        print(s["id"], "OK" if good else "DEMO BAD", "clean", a.returncode, "patched", b.returncode, "" if good else (a.stderr[-1500:] + a.stdout[-300:] + "|||" + b.stderr[-700:]), flush=True)
        if not good: shutil.rmtree(d)
def tryit(id, props):
    meta = json.load(open(f"{V}/{id}/meta.json")); props = props or [meta["property"]]
    base = f"/tmp/try-{id}"; shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    sh(f"git clone -q /repo {base}/repo && mkdir {base}/verif && cp -a /verif/bin /verif/engine /verif/harness /verif/checks.json /verif/known_findings.json {base}/verif/")
    r = sh(f"git apply {V}/{id}/patch.diff", cwd=base + "/repo")
    if r.returncode: print(id, "PATCH DOES NOT APPLY", r.stderr); return
    for p in props:
        r = sh(f"unshare -rm sh -c 'mount --bind {base}/repo /repo && mount --bind {base}/verif /verif && cd /verif && python3 bin/check.py {p} quick'")
        out = [l for l in r.stdout.split("\n") if l.strip()]
        print(id, p, "CAUGHT" if r.returncode == 1 and any(l.startswith("VIOLATION property=" + p) for l in out) else "MISSED" if r.returncode == 0 else f"NO ANSWER rc={r.returncode}", " | ".join(x[:160] for x in out[:3]), flush=True)
    shutil.rmtree(base, ignore_errors=True)
if sys.argv[1] == "add": add(sys.argv[2])
else: tryit(sys.argv[2], sys.argv[3:])
