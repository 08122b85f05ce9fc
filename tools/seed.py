#!/usr/bin/env python3
"""Maintenance: make and confirm a planted bug.  seed.py FILE.py [--no-tests]

FILE.py defines ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (a Rust main). The change is confirmed in a
scratch copy of /repo: it compiles, the stable tests pass, the demonstration fails with it and passes without it.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seed/repo"
SH = r'''#!/bin/bash
# cwd: the repository. Builds main.rs beside this file against it, in a scratch directory, and runs it.
exec python3 - "$(cd "$(dirname "$0")" && pwd)" "$PWD" <<'PY'
import os, shutil, subprocess, sys, tempfile
here, repo = sys.argv[1:]
with tempfile.TemporaryDirectory() as t:
    os.mkdir(t + "/src")
    shutil.copy(here + "/main.rs", t + "/src/main.rs")
    shutil.copy(here + "/Cargo.lock", t + "/Cargo.lock")
    open(t + "/Cargo.toml", "w").write("""[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
relp = { path = "%s" }
relp-num = "=0.1.13"
num-traits = "0.2.19"
index-utils = { version = "2.2.3", features = ["num-traits"] }
[workspace]
[profile.dev]
debug = false
incremental = false
""" % repo)
    e = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="nightly-2025-03-01", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=t + "/target", RUSTFLAGS="--cfg relp_verif --check-cfg=cfg(relp_verif) -Awarnings", PATH="/root/.cargo/bin:" + os.environ["PATH"])
    if subprocess.call(["cargo", "build", "--offline", "-q"], cwd=t, env=e) != 0:
        sys.exit(3)
    sys.exit(1 if subprocess.call(["timeout", "120", t + "/target/debug/demo"]) != 0 else 0)
PY
'''

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    d = f"{V}/seeded/{g['ID']}"
    os.makedirs("/tmp/seed", exist_ok=True)
    if not os.path.exists(S):
        sh(f"cp -a /repo {S}")
    sh("git reset -q --hard; git clean -fdq", cwd=S)
    sh(f"git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=S)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(SH)
    open(d + "/main.rs", "w").write(g["DEMO"].lstrip("\n"))
    lock = open(f"{V}/harness/Cargo.lock").read().replace('name = "harness"', 'name = "demo"')
    open(d + "/Cargo.lock", "w").write(lock)
    r = sh(f"bash {d}/demo.sh", cwd=S)
    if r.returncode != 0:
        print(g["ID"], "demo fails on the unchanged tree", r.returncode, (r.stdout + r.stderr)[-1500:]); sys.exit(1)
    for f, old, new in g["EDITS"]:
        p = f"{S}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            print(g["ID"], "edit matches", s.count(old), "times in", f); sys.exit(1)
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git diff", cwd=S).stdout)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh(f"bash {d}/demo.sh", cwd=S)
    if r.returncode != 1:
        print(g["ID"], "demo exit with the change:", r.returncode, (r.stdout + r.stderr)[-1500:]); sh("git checkout -q .", cwd=S); sys.exit(1)
    print(g["ID"], "demo:", (r.stdout + r.stderr).strip()[-200:])
    if "--no-tests" not in sys.argv:
        env = open("/opt/vp/env.sh").read().replace("/repo", S)
        open("/tmp/seed/env.sh", "w").write(env)
        for n in ("build.sh", "test.sh"):
            open("/tmp/seed/" + n, "w").write(open("/opt/vp/" + n).read().replace("/opt/vp/env.sh", "/tmp/seed/env.sh").replace("/repo", S))
        r = sh("bash /tmp/seed/build.sh")
        if r.returncode != 0:
            print(g["ID"], "does not build", r.stderr[-1500:]); sh("git checkout -q .", cwd=S); sys.exit(1)
        sh("bash /tmp/seed/test.sh /tmp/seed/t.json")
        st, ps = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]), set(json.load(open("/tmp/seed/t.json"))["passed"])
        if st - ps:
            print(g["ID"], "breaks tests:", sorted(st - ps)); sh("git checkout -q .", cwd=S); sys.exit(1)
    sh("git checkout -q .", cwd=S)
    print(g["ID"], "confirmed")
main()
