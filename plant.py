#!/usr/bin/env python3
"""Development tool, not a check: makes and tries planted bugs.

plant.py make FILE [ID..]   FILE defines S = [dict(id, prop, file, edits=[(old, new)..], needs, breaks, demo)]; a bug is kept
                            under seeded/ only if it builds, passes the stable tests and its demo tells the two trees apart
plant.py try [ID..]         runs the bug's own check against /repo with the patch applied (and undoes it)
"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.abspath(__file__))
W = "/tmp/plant"
DEMO = r'''#!/bin/bash
# Builds demo.rs against the nanoserde in the current directory; it panics (or hangs, or grows without bound) when the property is broken.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 3
printf '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\nnanoserde = { path = "%s" }\n[workspace]\n' "$repo" > "$d/Cargo.toml"
cd "$d" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
cargo build -q --offline 2>"$d/log" || { cat "$d/log"; exit 3; }
ulimit -v 4000000
timeout 60 "$d/target/debug/demo"
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def make(path, ids):
    ns = {}
    exec(open(path).read(), ns)
    if not os.path.exists(W):
        sh(f"cp -a /repo {W}")
        sh("for f in build.sh test.sh env.sh results.py BASELINE.json; do sed 's#/repo#/tmp/plant#g; s#\\. /opt/vp/env.sh#. /tmp/plant.vp/env.sh#' /opt/vp/$f > /tmp/plant.vp/$f; done" if not os.makedirs("/tmp/plant.vp", exist_ok=True) else "")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for s in ns["S"]:
        if ids and s["id"] not in ids:
            continue
        out = f"{V}/seeded/{s['id']}"
        sh("git checkout -q --detach && git reset -q --hard && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=W)
        bad = None
        edits = s["edits"]
        for e in edits:
            f, old, new = e if len(e) == 3 else (s["file"], *e)
            t = open(f"{W}/{f}").read()
            if t.count(old) != 1:
                bad = f"edit matches {t.count(old)} times: {old[:60]!r}"
                break
            # every removed line must be an original one
            open(f"{W}/{f}", "w").write(t.replace(old, new))
        if bad:
            print(s["id"], "EDIT", bad); continue
        diff = sh("git diff", cwd=W).stdout
        mine = orig = 0
        for l in sh("git diff -U0 --no-color", cwd=W).stdout.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
                blame = sh(f"git blame -s --abbrev=7 HEAD -- {cur}", cwd=W).stdout.splitlines()
            elif l.startswith("@@"):
                n = l.split()[1][1:].split(",")
                a, c = int(n[0]), int(n[1]) if len(n) > 1 else 1
                for k in range(a, a + c):
                    if "6d264be" in blame[k - 1][:10]: orig += 1
                    else: mine += 1
        if not orig or mine:
            print(s["id"], "LINES", orig, "original", mine, "mine")
        r = sh("bash /tmp/plant.vp/build.sh")
        if r.returncode:
            print(s["id"], "BUILD", r.stderr[-1500:]); continue
        r = sh("bash /tmp/plant.vp/test.sh /tmp/plant.json")
        miss = stable - set(json.load(open("/tmp/plant.json"))["passed"])
        if miss:
            print(s["id"], "TESTS", sorted(miss)[:5]); continue
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(f"{out}/patch.diff", "w").write(diff)
        open(f"{out}/demo.sh", "w").write(DEMO); os.chmod(f"{out}/demo.sh", 0o755)
        open(f"{out}/demo.rs", "w").write(s["demo"])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
        a = sh(f"bash {out}/demo.sh", cwd=W)
        sh("git checkout -q -- .", cwd=W)
        b = sh(f"bash {out}/demo.sh", cwd=W)
        ok = b.returncode == 0 and a.returncode not in (0, 3)
        print(s["id"], "KEPT" if ok else "DEMO", "patched", a.returncode, "clean", b.returncode, "" if ok else (a.stdout + a.stderr)[-800:] + (b.stdout + b.stderr)[-800:])
        if not ok:
            shutil.rmtree(out)


def attempt(ids):
    for i in sorted(os.listdir(f"{V}/seeded")):
        if ids and i not in ids:
            continue
        m = json.load(open(f"{V}/seeded/{i}/meta.json"))
        assert not sh("git status --porcelain", cwd="/repo").stdout, "repo not clean"
        r = sh(f"git apply {V}/seeded/{i}/patch.diff", cwd="/repo")
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stderr); continue
        try:
            r = sh(f"python3 check.py {m['property']} quick", cwd=V)
        finally:
            sh("git checkout -q -- .", cwd="/repo")
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        print(i, m["property"], "CAUGHT" if r.returncode == 1 and v else f"MISSED rc={r.returncode}", (v[:1] or r.stdout.splitlines()[-2:]), flush=True)


{"make": lambda a: make(a[0], a[1:]), "try": attempt}[sys.argv[1]](sys.argv[2:])
