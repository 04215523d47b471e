#!/usr/bin/env python3
"""tools/seed.py new ID     : lay out seeded/ID (demo.sh, Cargo.toml, mkws.py) round main.rs, write patch.diff
                              from /repo's uncommitted changes if there are any (and undo them).
tools/seed.py try ID [--notest]: confirm a seed: demo passes clean, patch builds, tests pass, demo fails,
                              then run this property's check with the patch applied. /repo is restored."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO = '''#!/bin/bash
# Builds the demonstration (main.rs, a user program of the crates) against /repo in a scratch folder and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
unset CARGO_INCREMENTAL
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
export VERIF_REPO=/repo VERIF_WS="$scratch/ws" CARGO_TARGET_DIR="$scratch/target"
python3 "$here/mkws.py" 2>/dev/null || exit 2
mkdir -p "$scratch/demo/src"
cp "$here"/*.rs "$scratch/demo/src/"
cp "$here/Cargo.toml.in" "$scratch/demo/Cargo.toml"
cp /repo/Cargo.lock "$scratch/demo/Cargo.lock" 2>/dev/null || cp /opt/vp/ws/Cargo.lock "$scratch/demo/Cargo.lock"
cd "$scratch/demo" && cargo build --offline -q 2>"$scratch/err" || { tail -20 "$scratch/err"; exit 3; }
timeout 120 "$scratch/target/debug/demo"
'''
BASE = {"costs": "grovedb-costs", "path": "grovedb-path", "grovedb-query": "grovedb-query",
        "grovedb-element": "grovedb-element", "grovedb-version": "grovedb-version", "storage": "grovedb-storage",
        "grovedb-merkle-mountain-range": "grovedb-merkle-mountain-range",
        "grovedb-dense-fixed-sized-merkle-tree": "grovedb-dense-fixed-sized-merkle-tree",
        "grovedb-bulk-append-tree": "grovedb-bulk-append-tree",
        "grovedb-epoch-based-storage-flags": "grovedb-epoch-based-storage-flags", "merk": "grovedb-merk",
        "grovedb": "grovedb"}


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def lay(sid):
    d = f"{V}/seeded/{sid}"
    meta = json.load(open(f"{d}/meta.json"))
    deps = meta.pop("deps", None)
    if deps is not None:
        out = '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2024"\n[workspace]\n[dependencies]\n'
        for k, v in deps.items():
            if k in BASE:
                out += f'{BASE[k]} = {{ path = "../ws/{k}"{", " + v if v else ""} }}\n'
            else:
                out += f'{k} = {v}\n'
        open(f"{d}/Cargo.toml.in", "w").write(out)
        json.dump(meta, open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/demo.sh", "w").write(DEMO)
    os.chmod(f"{d}/demo.sh", 0o755)
    subprocess.run(["cp", f"{V}/tools/mkws.py", f"{d}/mkws.py"], check=True)
    diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
    if diff:
        open(f"{d}/patch.diff", "w").write(diff)
        sh(f"git -C {REPO} checkout -- .")


def main():
    cmd, sid = sys.argv[1:3]
    d = f"{V}/seeded/{sid}"
    if cmd == "new":
        lay(sid)
        cmd = "try"
    if cmd == "try":
        assert not sh(f"git -C {REPO} status --porcelain").stdout.strip(), "/repo not clean"
        prop = json.load(open(f"{d}/meta.json"))["property"]
        r = sh(f"bash {d}/demo.sh", cwd=REPO)
        print("demo clean:", r.returncode, r.stdout[-300:] if r.returncode else "")
        try:
            r = sh(f"git -C {REPO} apply {d}/patch.diff")
            print("apply:", r.returncode, r.stdout)
            if "--notest" not in sys.argv:
                r = sh("bash /opt/vp/build.sh")
                print("build:", r.returncode, r.stdout[-400:] if r.returncode else "")
                sh("bash /opt/vp/test.sh /tmp/seed-test.json")
                t = json.load(open("/tmp/seed-test.json"))
                base = json.load(open("/opt/vp/BASELINE.json"))
                want = set(base if isinstance(base, list) else base["stable"])
                print("tests: missing from baseline:", sorted(want - set(t["passed"]))[:5])
            r = sh(f"bash {d}/demo.sh", cwd=REPO)
            print("demo patched:", r.returncode, r.stdout[-300:])
            r = sh(f"python3 {V}/check.py {prop}", cwd=V, env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            print("check:", r.returncode, "\n".join(l for l in r.stdout.splitlines() if "VIOLATION" in l or "KNOWN" in l or "undecided" in l)[-600:])
        finally:
            sh(f"git -C {REPO} checkout -- .")


main()
