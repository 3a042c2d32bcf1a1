#!/usr/bin/env python3
"""Makes and confirms a planted bug: tools/mkseed.py DEF.py [ID...]

DEF.py defines SEEDS: a list of dicts id, property, edits [(file, old, new)], demo (Rust main.rs), needs, what_it_breaks.
Each is applied in a scratch copy of /repo; it has to change original lines only, build, keep the stable
tests passing, and its demo has to pass on the unchanged tree and fail with the change.
"""
import json, os, re, shutil, subprocess, sys, runpy
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
SW = "/tmp/seedwork/repo"
BASE = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()

DEMO_SH = """#!/bin/bash
# Runs the demonstration against the tree in the current directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
protofish = { path = "$repo" }
bytes = "1"
EOF
cd "$d"
export RUSTFLAGS="-A warnings -A bindings_with_variant_name"
export CARGO_TARGET_DIR="$d/target"
cargo build --offline -q
timeout 120 "$d/target/debug/demo"
"""


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def tests_ok():
    env = dict(os.environ, RUSTFLAGS="-A bindings_with_variant_name", CARGO_TARGET_DIR="/tmp/seedwork/target")
    r = sh(["cargo", "test", "--workspace", "--offline"], cwd=SW, env=env)
    return r.returncode == 0, (r.stdout + r.stderr)[-1500:]


def demo(d):
    env = {k: v for k, v in os.environ.items()}
    return sh(["bash", os.path.join(d, "demo.sh")], cwd=SW, env=env)


def main():
    defs = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    os.makedirs("/tmp/seedwork", exist_ok=True)
    shutil.rmtree(SW, ignore_errors=True)
    sh(["git", "clone", "-q", "/repo", SW])
    shutil.copy("/repo/Cargo.lock", SW)
    for s in defs:
        if only and s["id"] not in only:
            continue
        sh(["git", "checkout", "-q", "--", "."], cwd=SW)
        bad = None
        for f, old, new in s["edits"]:
            p = os.path.join(SW, f)
            t = open(p, newline="").read()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1:
                bad = "edit matches %d times in %s: %s" % (t.count(old), f, old[:60])
                break
            open(p, "w", newline="").write(t.replace(old, new))
        if bad:
            print(s["id"], "REFUSED", bad)
            continue
        diff = subprocess.check_output(["git", "diff"], cwd=SW)
        # Lines removed by the patch must come from the original repository.
        foreign = []
        cur = None
        for line in sh(["git", "diff", "-U0"], cwd=SW).stdout.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
            if m and int(m.group(2) or 1) > 0:
                a, n = int(m.group(1)), int(m.group(2) or 1)
                bl = sh(["git", "blame", "-l", "-s", "-L", "%d,%d" % (a, a + n - 1), "HEAD", "--", cur], cwd=SW).stdout
                foreign += [b for b in bl.splitlines() if not b.lstrip("^").startswith(BASE[:30])]
        ok, log = tests_ok()
        if not ok:
            print(s["id"], "REFUSED tests fail", log)
            continue
        d = os.path.join("/tmp/seedwork", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "main.rs"), "w").write(s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        with_bug = demo(d)
        sh(["git", "checkout", "-q", "--", "."], cwd=SW)
        without = demo(d)
        if without.returncode != 0 or with_bug.returncode == 0:
            print(s["id"], "REFUSED demo: without=%d with=%d\n%s\n%s" % (without.returncode, with_bug.returncode, without.stderr[-800:], with_bug.stderr[-800:]))
            continue
        out = os.path.join(SEEDED, s["id"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(os.path.join(out, "patch.diff"), "wb").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        print(s["id"], "kept", ("(touches %d lines of own commits!)" % len(foreign)) if foreign else "")
    shutil.rmtree("/tmp/seedwork", ignore_errors=True)


main()
