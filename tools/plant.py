"""plant.py FILE [names]: turn planted-bug descriptions into seeded/<id>/ after confirming each of them.

FILE is Python defining B = [dict(id, property, file, edits=[(old, new)..] or files={file: edits}, main, needs, breaks)].
Every change is tried in a scratch copy of /repo under /tmp: it must build, pass the tests, and its
demonstration must pass without and fail with it. Lines it removes must be those of the original repository.
"""
import json, os, runpy, shutil, subprocess, sys

BASE = "26d11ee"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant/work"
TARGET = "/tmp/plant/target"

PRELUDE = open(os.path.join(V, "tools", "plant_prelude.rs")).read()

DEMO = """#!/bin/bash
# Builds main.rs against the tree in the current directory and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
lokky = { path = "$repo" }

[profile.dev]
debug = 0
incremental = false
%s
[workspace]
EOF
cd "$d" || exit 2
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
%s
timeout 200 "$d/target/debug/demo"
"""
BUILD = 'cargo build --offline -q || exit 3'


def sh(cmd, cwd=None, timeout=600, env=None):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, env=e, capture_output=True, text=True)


def demo(d, repo):
    r = sh("bash %s/demo.sh" % d, cwd=repo, timeout=400)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def main():
    B = runpy.run_path(sys.argv[1])["B"]
    names = sys.argv[2:]
    for b in B:
        if names and b["id"] not in names:
            continue
        os.makedirs("/tmp/plant", exist_ok=True)
        shutil.rmtree(W, ignore_errors=True)
        sh("git clone -q /repo %s && cp /repo/Cargo.lock %s/ 2>/dev/null" % (W, W))
        out = os.path.join("/tmp/plant", "out", b["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        with open(out + "/demo.sh", "w") as f:
            f.write(b.get("demo") or DEMO % (b.get("profile", ""), b.get("build", BUILD)))
        open(out + "/main.rs", "w").write((PRELUDE if b.get("prelude", True) else "") + b["main"])
        bad = None
        rc, o = demo(out, W)
        if rc != 0:
            print(b["id"], "DEMO FAILS ON CLEAN TREE", rc, o); continue
        files = b.get("files") or {b["file"]: b["edits"]}
        for fn, edits in files.items():
            p = os.path.join(W, "src", fn)
            s = open(p).read()
            for old, new in edits:
                if s.count(old) != 1:
                    bad = "edit matches %d times: %r" % (s.count(old), old[:80]); break
                s = s.replace(old, new)
            open(p, "w").write(s)
        if bad:
            print(b["id"], bad); continue
        diff = sh("git diff", cwd=W).stdout
        # Which removed lines are original?
        n_orig = n_ours = 0
        for fn in files:
            bl = sh("git blame -s %s~0 -- src/%s" % ("HEAD", fn), cwd=W).stdout.split("\n")
            cur = None
            d1 = sh("git diff -U0 -- src/%s" % fn, cwd=W).stdout
            import re
            for m in re.finditer(r"@@ -(\d+)(?:,(\d+))? ", d1):
                a, c = int(m.group(1)), int(m.group(2) or 1)
                for l in range(a, a + c):
                    if bl[l - 1].lstrip("^").startswith(BASE):
                        n_orig += 1
                    else:
                        n_ours += 1
        r = sh("cargo test --offline 2>&1 | tail -30", cwd=W, env={"CARGO_TARGET_DIR": TARGET}, timeout=600)
        ok = "test result: ok. 50 passed" in r.stdout
        rc, o = demo(out, W)
        good = ok and rc != 0 and rc != 3 and n_orig > 0 and n_ours == 0
        print("%s %s: tests %s, demo with patch rc=%d, original lines changed %d, ours %d%s" % (
            "OK " if good else "BAD", b["id"], "pass" if ok else "FAIL", rc, n_orig, n_ours,
            "" if good else "\n" + r.stdout[-1500:] * (not ok) + o), flush=True)
        if good or (b.get("force") and ok and rc not in (0, 3)):
            open(out + "/patch.diff", "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(out + "/meta.json", "w"), indent=1)
            dst = os.path.join(V, "seeded", b["id"])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(out, dst)


main()
