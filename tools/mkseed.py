#!/usr/bin/env python3
"""Builds and confirms the planted bugs in seeded/ from tools/seeds.py: mkseed.py [ID ...]
Works in a scratch copy of /repo under /tmp/seedrepo; never touches /repo.
--check also applies the patch to /repo, runs the property's check, and undoes the patch."""
import re, json, os, subprocess, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
from seeds import SEEDS
W = "/tmp/seedrepo"
DEMO = '''#!/bin/bash
# Builds and runs demo.rs against the crates in the current directory.
set -u
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "${T:?}"' EXIT
mkdir -p "$T/src"; sed "s|@R@|$R|" "$D/demo.rs" > "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/" 2>/dev/null
{ printf '[package]\\nname="demo"\\nversion="0.0.0"\\nedition="2024"\\n[workspace]\\n[dependencies]\\n'
  for c in @DEPS@; do printf '%s = { path = "%s/%s" }\\n' "$c" "$R" "$c"; done; } > "$T/Cargo.toml"
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo run --offline -q @REL@
'''
def sh(c, cwd=W, **k): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
if not os.path.exists(W): sh("cp -a /repo " + W, cwd="/")
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
for s in SEEDS:
    if ids and s["id"] not in ids: continue
    d = f"{ROOT}/seeded/{s['id']}"
    if not ids and os.path.exists(d + "/meta.json"): continue
    sh("git checkout -q -- . && git clean -fdq && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
    edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
    bad = False
    for f, o, n in edits:
        t = open(f"{W}/{f}").read()
        if t.count(o) != 1: print(s["id"], f, "old text occurs", t.count(o), "times"); bad = True; break
        open(f"{W}/{f}", "w").write(t.replace(o, n))
    if bad: continue
    diff = sh("git diff").stdout
    # the replaced lines have to be lines of the original repository, not of a fix
    first = sh("git log --format=%H --grep=^fix: -n 100").stdout.split()
    own = 0
    for f, o, n in edits:
        cur = None
        for l in sh(f"git diff -U0 {f}").stdout.splitlines():
            m = re.match(r"@@ -(\d+)(?:,(\d+))?", l)
            if m:
                a, k = int(m[1]), int(m[2] or 1)
                if k: own += sum(b.split()[0].lstrip("^") in "".join(first) for b in sh(f"git blame -l -s HEAD -L{a},+{k} -- {f}").stdout.splitlines())
    if own: print(s["id"], "changes", own, "lines of a fix commit")
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    # modules of the compression crate, which does not build as a whole
    mods = "".join('#[path = "@R@/keramics-compression/src/%s.rs"]\n#[allow(dead_code)]\nmod %s;\n' % (m, m) for m in s.get("mods", []))
    open(d + "/demo.rs", "w").write(mods + s["demo"].lstrip())
    open(d + "/demo.sh", "w").write(s["sh"] if "sh" in s else DEMO.replace("@DEPS@", " ".join(s["deps"])).replace(" @REL@", " --release" if s.get("release") else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    # build + stable tests with the patch, in the scratch copy
    if "--notest" not in sys.argv:
        r = sh("cargo test --offline --no-fail-fast -q 2>&1 " + " ".join("-p " + c for c in s.get("test", s["deps"])), timeout=1200)
        if "FAILED" in r.stdout or "could not compile" in r.stdout: print(s["id"], "TESTS FAIL WITH PATCH", [l for l in r.stdout.splitlines() if "failed" in l.lower() or "error" in l][:4]); shutil.rmtree(d); continue
    bad = sh(f"bash {d}/demo.sh")
    sh("git checkout -q -- .")
    good = sh(f"bash {d}/demo.sh")
    ok = bad.returncode != 0 and good.returncode == 0 and "could not compile" not in bad.stdout
    print(s["id"], "OK" if ok else f"DEMO bad={bad.returncode} good={good.returncode} {bad.stdout[-300:]} {good.stdout[-300:]}", flush=True)
    if not ok: shutil.rmtree(d); continue
    if "--check" in sys.argv:
        assert not sh("git status --porcelain", cwd="/repo").stdout.strip()
        a = sh(f"git apply {d}/patch.diff", cwd="/repo")
        r = sh(f"python3 check.py {s['prop']} --tier quick", cwd=ROOT)
        sh("git checkout -q -- .", cwd="/repo")
        print("   check exit", r.returncode, [l[:150] for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "CHECK-ERROR"))][:2], flush=True)
