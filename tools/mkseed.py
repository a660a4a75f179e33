#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ for the planted changes in tools/seeds.py and confirm each in a scratch clone:
it builds, the crate's own tests pass, demo.sh passes without and fails with the change.
usage: mkseed.py [--no-tests] [id ...]"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from seeds import SEEDS, PRELUDE
SCR = "/tmp/seedscratch"
def run(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# exit 0: behaves; nonzero: the property is broken
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)" || exit 9
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$D/main.rs" "$W/src/main.rs"
cp "$D/Cargo.lock" "$W/Cargo.lock"
sed "s#@REPO@#$PWD#" "$D/Cargo.toml.in" >"$W/Cargo.toml"
cd "$W" && CARGO_TARGET_DIR="${DEMO_TARGET:-$W/target}" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings timeout 280 cargo run --offline --release -q
'''
TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
ebi = { path = "@REPO@/ebi", default-features = false }
roaring = "0.10"
[workspace]
'''
TOOL = '''#!/bin/bash
# exit 0: behaves; nonzero: the property is broken
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)" || exit 9
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/data" "$W/crate"
cp "$D/Cargo.lock" "$W/crate/Cargo.lock"
sed "s#@REPO@#$PWD#" "$D/Cargo.toml.in" >"$W/crate/Cargo.toml"
export CARGO_TARGET_DIR="${DEMO_TARGET:-$W/target}" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
cd "$W/crate" && timeout 280 cargo build --offline --release -q || exit 8
BIN="$CARGO_TARGET_DIR/release"
'''
TOOL_TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
autobins = false
[[bin]]
name = "@NAME@"
path = "@REPO@/tools/src/@NAME@.rs"
[dependencies]
anyhow = "1.0.86"
glob = "0.3.1"
serde = { version = "1", features = ["derive"] }
serde_json = "1.0.124"
[workspace]
'''
XPDEMO = '''#!/bin/bash
# exit 0: behaves; nonzero: the property is broken
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)" || exit 9
export W
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/data"
cp -r "$D/crate" "$W/crate"
for f in Cargo.toml ebi/Cargo.toml; do sed "s#@REPO@#$PWD#" "$D/crate/$f" >"$W/crate/$f"; done
cc -shared -fPIC -O1 -o "$W/shim.so" "$W/crate/shim.c" -ldl || exit 9
export CARGO_TARGET_DIR="${DEMO_TARGET:-$W/target}" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
cd "$W/crate" && timeout 290 cargo build --offline --release -q --bin demo @EXTRA@ || exit 8
"$CARGO_TARGET_DIR/release/demo"
'''
def write_demo(s, d):
    kind = s["kind"]
    if kind in ("ebi", "dbg", "portable"):
        open(d + "/main.rs", "w").write(PRELUDE + s["demo"])
        open(d + "/Cargo.toml.in", "w").write(TOML)
        shutil.copy(V + "/tools/demo.Cargo.lock", d + "/Cargo.lock")
        sh = DEMO.replace("RUSTFLAGS=-Awarnings", {"ebi": "RUSTFLAGS=-Awarnings",
            "dbg": 'RUSTFLAGS="-Awarnings -Coverflow-checks=on -Cdebug-assertions=on"',
            "portable": 'RUSTFLAGS="-Awarnings --cfg miri"'}[kind])
    elif kind.startswith("tool:"):
        open(d + "/Cargo.toml.in", "w").write(TOOL_TOML.replace("@NAME@", kind[5:]))
        shutil.copy(V + "/xp/Cargo.lock", d + "/Cargo.lock")
        sh = TOOL + s["demo"]
    else:
        c = d + "/crate"
        shutil.rmtree(c, ignore_errors=True)
        os.makedirs(c + "/ebi"); os.makedirs(c + "/src")
        t = open(V + "/xp/Cargo.toml").read().replace("/repo/", "@REPO@/").replace('name = "xp"\npath = "src/xp.rs"', 'name = "demo"\npath = "src/demo.rs"')
        assert "demo.rs" in t
        t = t.replace('codegen-units = 16', 'codegen-units = 64').replace("opt-level = 3", "opt-level = 0").replace("opt-level = 1", "opt-level = 0")
        open(c + "/Cargo.toml", "w").write(t)
        open(c + "/ebi/Cargo.toml", "w").write(open(V + "/xp/ebi/Cargo.toml").read().replace("/repo/", "@REPO@/"))
        for x in ("alp", "tqdm"): shutil.copytree(V + "/xp/" + x, c + "/" + x)
        for x in ("Cargo.lock", "shim.c"): shutil.copy(V + "/xp/" + x, c)
        open(c + "/src/demo.rs", "w").write(s["demo"])
        sh = XPDEMO.replace("@EXTRA@", "--bin experimenter" if "experimenter\")" in s["demo"] else "")
    open(d + "/demo.sh", "w").write(sh); os.chmod(d + "/demo.sh", 0o755)
def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    tests = "--no-tests" not in sys.argv
    shutil.rmtree(SCR, ignore_errors=True)
    r = run(["git", "clone", "-q", "/repo", SCR]); assert r.returncode == 0, r.stdout
    ok = True
    for s in SEEDS:
        if a and s["id"] not in a: continue
        run("git checkout -q -- .", cwd=SCR)
        for e in s["edits"]:
            f, old, new = e[:3]
            p = SCR + "/" + f
            t = open(p).read()
            if len(e) == 3:
                assert t.count(old) == 1, (s["id"], f, t.count(old))
                t = t.replace(old, new)
            else:
                ps = t.split(old); n = e[3]
                assert len(ps) > n + 1, (s["id"], f, len(ps))
                t = old.join(ps[:n + 1]) + new + old.join(ps[n + 1:])
            open(p, "w").write(t)
        diff = run("git diff", cwd=SCR).stdout
        d = f"{V}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        write_demo(s, d)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        env = dict(os.environ, DEMO_TARGET="/tmp/seeddemo_target" + ("" if s["kind"] == "ebi" else "_" + s["kind"].replace(":", "_")))
        bad = run([d + "/demo.sh"], cwd=SCR, env=env)
        tr = None
        if tests:
            tr = run("cargo test -p ebi --no-default-features --release --offline --locked", cwd=SCR, env=dict(os.environ, CARGO_TARGET_DIR="/tmp/seedtest_target"))
        run("git checkout -q -- .", cwd=SCR)
        good = run([d + "/demo.sh"], cwd=SCR, env=env)
        st = (bad.returncode != 0 and good.returncode == 0)
        comp = "error[" in bad.stdout or "could not compile" in bad.stdout
        print(s["id"], s["property"], "demo", "OK" if st and not comp else f"BAD with={bad.returncode} without={good.returncode}",
              "" if tr is None else ("tests pass" if tr.returncode == 0 else "TESTS FAIL"), flush=True)
        if not st or comp: print(bad.stdout[-1500:], good.stdout[-800:]); ok = False
        if tr is not None and tr.returncode != 0: print("\n".join(l for l in tr.stdout.splitlines() if "FAILED" in l or "error" in l)[:800]); ok = False
    shutil.rmtree(SCR, ignore_errors=True)
    sys.exit(0 if ok else 1)
main()
