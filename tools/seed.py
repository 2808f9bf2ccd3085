#!/usr/bin/env python3
"""seed.py ID...: (re)creates /verif/seeded/<ID> from tools/seeds/<ID>.py and confirms it in a scratch copy:
the patch applies and builds, the stable tests pass, the demo exits 0 without and nonzero with it.
seed.py --keep only creates.  A seed file defines: property, needs, breaks, edits=[(file, old, new)], demo (Rust main), deps."""
import json
import os
import shutil
import subprocess
import sys

V = "/verif"
DEPS = {
    "unreal_helpers": 'unreal_helpers = { path = "@REPO@/unreal_helpers", features = ["bitvec", "guid", "path", "read_write", "serde"] }',
    "unreal_asset_base": 'unreal_asset_base = { path = "@REPO@/unreal_asset/unreal_asset_base" }',
    "unreal_asset": 'unreal_asset = { path = "@REPO@/unreal_asset" }',
    "unreal_asset_registry": 'unreal_asset_registry = { path = "@REPO@/unreal_asset/unreal_asset_registry" }',
    "unreal_asset_kismet": 'unreal_asset_kismet = { path = "@REPO@/unreal_asset/unreal_asset_kismet" }',
    "unreal_asset_exports": 'unreal_asset_exports = { path = "@REPO@/unreal_asset/unreal_asset_exports" }',
    "unreal_asset_properties": 'unreal_asset_properties = { path = "@REPO@/unreal_asset/unreal_asset_properties" }',
    "unreal_pak": 'unreal_pak = { path = "@REPO@/unreal_pak" }',
    "unreal_mod_metadata": 'unreal_mod_metadata = { path = "@REPO@/unreal_mod_metadata" }',
    "byteorder": 'byteorder = "1.4.3"', "serde_json": 'serde_json = "1.0.104"', "semver": 'semver = "1.0.18"',
    "bitvec": 'bitvec = "1.0.1"', "ordered-float": 'ordered-float = "3.7.0"', "sha-1": 'sha-1 = "0.10.1"', "flate2": 'flate2 = "1.0.25"',
}
DEMO = """#!/bin/bash
# exit 0: the property holds on the demonstrated input; nonzero: it does not
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXXXX)
trap 'find "$w" -delete' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$here/Cargo.lock.demo" "$w/Cargo.lock"
sed "s#@REPO@#$repo#g" "$here/Cargo.toml.demo" > "$w/Cargo.toml"
cd "$w"
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" cargo build --offline --quiet
REPO="$repo" timeout 60 "$w/target/debug/demo"
"""
TOML = """[package]
name = "demo"
version = "0.0.1"
edition = "2021"

[workspace]

[dependencies]
%s

[profile.dev]
debug = false
incremental = false

[profile.dev.package.naive-cityhash]
overflow-checks = false
"""


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def create(i):
    ns = {}
    exec(open(f"{V}/tools/seeds/{i}.py").read(), ns)
    d = f"{V}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    w = f"/tmp/seedmk_{i}"
    shutil.rmtree(w, ignore_errors=True)
    r = sh(f"git -C /repo worktree prune; git clone -q /repo {w}")
    assert r.returncode == 0, r.stderr
    for f, old, new in ns["edits"]:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    open(f"{d}/patch.diff", "w").write(sh("git diff", cwd=w).stdout)
    shutil.rmtree(w)
    deps = [DEPS[x] for x in ns["deps"]]
    # the unused entry keeps cityhash in the graph so that its profile section is valid
    if not any(x.startswith("unreal_asset") for x in ns["deps"]):
        t = TOML[:TOML.index("[profile.dev.package")]
    else:
        t = TOML
    open(f"{d}/Cargo.toml.demo", "w").write(t % "\n".join(deps))
    shutil.copy(f"{V}/harness/Cargo.lock", f"{d}/Cargo.lock.demo")
    open(f"{d}/main.rs", "w").write(ns["demo"].lstrip("\n"))
    open(f"{d}/demo.sh", "w").write(DEMO)
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)


def confirm(i):
    d = f"{V}/seeded/{i}"
    out = []
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    out.append(("demo clean", r.returncode, (r.stdout + r.stderr)[-600:]))
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
    try:
        a = sh(f"git -C /repo apply {d}/patch.diff")
        out.append(("apply", a.returncode, a.stderr))
        b = sh("bash /opt/vp/build.sh")
        out.append(("build", b.returncode, b.stderr[-600:] if b.returncode else ""))
        t = sh("bash /opt/vp/test.sh /tmp/seed_test.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        got = json.load(open("/tmp/seed_test.json"))
        bp = set(base.get("passed") or base.get("stable") or base.get("tests") or [])
        gp = set(got.get("passed", []))
        out.append(("tests", 0 if bp and bp <= gp else 1, str(sorted(bp - gp))[:400]))
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        out.append(("demo patched (want nonzero)", 0 if r.returncode else 1, (r.stdout + r.stderr)[-600:]))
    finally:
        sh("git -C /repo checkout -- .")
    ok = all(c == 0 for _, c, _ in out)
    print(i, "OK" if ok else "BAD")
    for n, c, m in out:
        if c or n.startswith("demo patched"):
            print("  ", n, c, m.replace("\n", "\n      "))
    return ok


ids = [a for a in sys.argv[1:] if not a.startswith("-")]
for i in ids:
    create(i)
    if "--keep" not in sys.argv:
        confirm(i)
sh("bash /opt/vp/build.sh")
