#!/usr/bin/env python3
"""Development aid (no check uses it).
seed.py new ID PROP NEEDS BREAKS FILE OLD NEW [FILE OLD NEW ...] < main.rs   create seeded/ID
seed.py test ID...    apply to /repo, build, stable tests, demo, the property's check; undo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory, in a scratch directory, and runs it.
set -u
source /opt/vp/env.sh 2>/dev/null
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp "$D/Cargo.lock.txt" "$T/Cargo.lock" 2>/dev/null
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rdf-types = { path = "$R", features = ["contextual", "serde"] }
iref = { version = "3.2.2", features = ["macros"] }
langtag = "0.4.0"
contextual = "0.1.6"
serde_json = "1"
EOF
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo run --offline -q 2>&1
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
REPO = os.environ.get("SEED_REPO", "/repo")   # a clone for development while /repo is in use
VC = os.environ.get("SEED_VERIF", V)
def clean():
    sh(f"git -C {REPO} checkout -- .")
def new(id, prop, needs, breaks, *edits):
    assert not sh(f"git -C {REPO} status --porcelain").stdout
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, nw in zip(edits[::3], edits[1::3], edits[2::3]):
            s = open(REPO + "/" + f).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(REPO + "/" + f, "w").write(s.replace(old, nw))
        diff = sh(f"git -C {REPO} diff").stdout
    finally:
        clean()
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(sys.stdin.read())
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
def stable():
    sh("bash /opt/vp/test.sh /tmp/t.json")
    t = json.load(open("/tmp/t.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    return t, b
def test(id, checks=None):
    d = os.path.join(V, "seeded", id)
    prop = json.load(open(d + "/meta.json"))["property"]
    base = sh(f"bash {d}/demo.sh", cwd=REPO)
    out = [f"{id} {prop}: demo on HEAD {base.returncode}"]
    if base.returncode: out.append(base.stdout[-1500:])
    try:
        a = sh(f"git -C {REPO} apply {d}/patch.diff")
        if a.returncode: return out + ["DOES NOT APPLY " + a.stdout]
        b = sh(f". /opt/vp/env.sh; cd {REPO} && cargo test $ARGS --no-run")
        out.append(f"build {b.returncode}")
        if b.returncode: return out + [b.stdout[-2000:]]
        J = f"/tmp/t-{os.getpid()}.json"
        t = sh(f". /opt/vp/env.sh; cd {REPO} && cargo test $ARGS --no-fail-fast -- --test-threads 8 > {J}.log 2>&1; python3 /opt/vp/results.py {J} cargo:{J}.log")
        T, B = json.load(open(J)), json.load(open("/opt/vp/BASELINE.json"))
        def passed(x):
            for k in ("passed", "stable", "pass", "tests"):
                if k in x: return set(x[k]) if isinstance(x[k], list) else {n for n, v in x[k].items() if v in ("passed", True, "ok")}
        miss = passed(B) - passed(T)
        out.append(f"tests lost {len(miss)}")
        dm = sh(f"bash {d}/demo.sh", cwd=REPO)
        out.append(f"demo with patch {dm.returncode}")
        for c in checks or [prop]:
            r = sh(f"VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py {c}", cwd=VC)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append(f"check {c}: exit {r.returncode} {len(v)} violation(s)" + ("" if r.returncode == 1 and v else " <<<<<< MISSED"))
    finally:
        clean()
    return out
if __name__ == "__main__":
    if sys.argv[1] == "new": new(*sys.argv[2:])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded")))
        for i in ids: print(" | ".join(test(i)), flush=True)
