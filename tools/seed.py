"""Plants the bugs listed in tools/seeds.py in a scratch copy of /repo, validates each and writes seeded/<id>/.

usage: python3 seed.py [id ...]
Each seed: dict(id, prop, file, edits=[(old, new)], demo=<rust main body>, needs, breaks, features=[..])
"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from seeds import SEEDS, PRELUDE

W = "/tmp/seedw"
REPO = W + "/repo"
VP = W + "/vp"
DEMO = """#!/bin/bash
# exits 0 when the demonstrated property holds, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
w=$(mktemp -d "${TMPDIR:-/tmp}/fxdemo.XXXXXX") || exit 3
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
fixnum = { path = "$repo", default-features = false, features = [FEATURES] }
DEPS
[profile.dev]
debug = false
T
export CARGO_TARGET_DIR="$w/target"
cd "$w" || exit 3
cargo build --offline --quiet || exit 4
timeout 60 "$w/target/debug/demo"
"""


def sh(cmd, cwd=REPO, env=None, check=True):
    p = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if check and p.returncode:
        raise SystemExit(f"{cmd}: {p.returncode}\n{p.stdout[-3000:]}")
    return p


def setup():
    if not os.path.isdir(REPO):
        os.makedirs(W)
        sh(["cp", "-a", "/repo", REPO], cwd="/")
        shutil.copytree("/opt/vp", VP)
        for f in os.listdir(VP):
            p = os.path.join(VP, f)
            if os.path.isfile(p) and f.endswith((".sh", ".py")):
                t = open(p).read().replace("/opt/vp", VP).replace("/repo", REPO)
                open(p, "w").write(t)
    sh(["git", "fetch", "-q", "/repo", "HEAD"])
    sh(["git", "checkout", "-q", "--", "."])
    sh(["git", "reset", "-q", "--hard", "FETCH_HEAD"])


def orig_lines():
    """lines of the original repository (not added by our commits), per file"""
    pass


def main(ids):
    setup()
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for s in SEEDS:
        if ids and s["id"] not in ids:
            continue
        sh(["git", "checkout", "-q", "--", "."])
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(REPO, f)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                print(s["id"], f"edit does not match exactly once ({n}) in {f}")
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        diff = sh(["git", "diff"]).stdout
        # removed lines must be original ones
        d = os.path.join(HERE, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        feats = ", ".join(f'"{x}"' for x in s.get("features", ["std", "i16", "i32", "i64", "i128"]))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("FEATURES", feats).replace("DEPS", s.get("deps", "")))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "main.rs"), "w").write(PRELUDE + s["demo"] if not s.get("raw") else s["demo"])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        demo = os.path.join(d, "demo.sh")
        p1 = sh(["bash", demo], cwd="/repo", check=False)
        p2 = sh(["bash", demo], check=False)
        b = sh(["bash", VP + "/build.sh"], check=False)
        out = W + "/out.json"
        sh(["bash", VP + "/test.sh", out], check=False)
        passed = set(json.load(open(out))["passed"])
        miss = stable - passed
        good = p1.returncode == 0 and p2.returncode not in ((0, 3) if s.get("compile") else (0, 3, 4)) and b.returncode == 0 and not miss
        print(s["id"], "OK" if good else "BAD", "clean", p1.returncode, "patched", p2.returncode, "build", b.returncode, "missing", sorted(miss)[:4], flush=True)
        if p1.returncode or p2.returncode in (3, 4):
            print(p1.stdout[-1500:], p2.stdout[-800:])
        if not good:
            shutil.rmtree(d)
    sh(["git", "checkout", "-q", "--", "."])


main(sys.argv[1:])
