#!/usr/bin/env python3
"""Development helper (no check uses it): create and try out planted bugs.
  seed.py new <spec.py>     spec: ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN (demo source), [EXTRA cargo deps]
  seed.py verify <id>...    builds + stable tests + demo, in the scratch copy /tmp/sw
  seed.py catch <id>...     runs the property's quick check against /repo with the patch applied, then undoes it
"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = "/tmp/sw"
DEMO = r'''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
coerce = { path = "$repo/coerce", features = ["full"] }
tokio = { version = "1", features = ["full"] }
async-trait = "0.1"
futures = "0.3"
chrono = "0.4"
uuid = "1"
bytes = "1"
protobuf = "=3.2.0"
anyhow = "1"
parking_lot = "0.12"
[workspace]
[profile.dev]
debug = false
EOF
t=${DEMO_TARGET:-$w/target}
cargo build --offline --quiet --manifest-path "$w/Cargo.toml" --target-dir "$t" > "$w/log" 2>&1 || { tail -30 "$w/log"; exit 3; }
timeout 60 "$t/debug/demo"
'''
def sh(c, **kw): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
def new(spec):
    g = {}
    exec(open(spec).read(), g)
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (SW, SW, SW))
    for f, a, b in g["EDITS"]:
        p = os.path.join(SW, f); s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    d = os.path.join(V, "seeded", g["ID"]); os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(sh("git -C %s diff" % SW).stdout)
    open(d + "/main.rs", "w").write(g["MAIN"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    sh("git -C %s checkout -q -- ." % SW)
    return g["ID"]
def demo(i, repo, tgt):
    r = sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd=repo, env=dict(os.environ, DEMO_TARGET=tgt))
    return r.returncode, r.stdout.decode()[-600:]
def verify(i, tests=True):
    c, o = demo(i, "/repo", "/tmp/dt_clean")
    print(i, "clean demo:", c, "" if c == 0 else o)
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (SW, SW, SW))
    r = sh("git -C %s apply %s/seeded/%s/patch.diff" % (SW, V, i))
    if r.returncode: print(i, "APPLY FAILED", r.stdout.decode()); return False
    c2, o2 = demo(i, SW, "/tmp/dt_sw")
    print(i, "patched demo:", c2, o2.strip().splitlines()[-1:] if c2 else "NOT DETECTED")
    ok = True
    if tests:
        t = open("/opt/vp/test.sh").read().replace("/repo", SW)
        b = open("/opt/vp/build.sh").read().replace("/repo", SW)
        open("/tmp/sw_build.sh", "w").write(b); open("/tmp/sw_test.sh", "w").write(t)
        r = sh("bash /tmp/sw_build.sh"); 
        if r.returncode: print(i, "BUILD FAILED", r.stdout.decode()[-2000:]); return False
        sh("bash /tmp/sw_test.sh /tmp/sw_out.json")
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]; out = json.load(open("/tmp/sw_out.json"))
        passed = set(out.get("passed", []) if isinstance(out.get("passed"), list) else [k for k,v in out.items() if v=="passed"])
        miss = [x for x in base if x not in passed]
        print(i, "tests:", "ok" if not miss else "FAIL %s" % miss); ok = not miss
    sh("git -C %s checkout -q -- ." % SW)
    return c == 0 and c2 not in (0, 3) and ok
def catch(i, tier="quick"):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    r = sh("git -C /repo apply %s/seeded/%s/patch.diff" % (V, i))
    if r.returncode: print(i, "APPLY FAILED"); return
    try:
        r = sh("python3 check.py %s --tier %s" % (m["property"], tier), cwd=V)
    finally:
        sh("git -C /repo checkout -q -- .")
    o = r.stdout.decode()
    print(i, m["property"], "rc=%d" % r.returncode, [l for l in o.splitlines() if l.startswith(("VIOLATION", "NO-VERDICT", "  finding"))][:6])
if __name__ == "__main__":
    for a in sys.argv[2:]:
        if sys.argv[1] == "new": print(new(a))
        if sys.argv[1] == "verify": print(a, "VERIFIED" if verify(a) else "*** NOT OK")
        if sys.argv[1] == "demo": print(a, "VERIFIED" if verify(a, False) else "*** NOT OK")
        if sys.argv[1] == "catch": catch(a)
