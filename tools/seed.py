#!/usr/bin/env python3
"""seed.py ID... : confirm planted bugs /verif/seeded/<ID> in a copy of /repo
bind-mounted over /repo in a private mount namespace: builds, stable tests
pass, demo.sh exits 0 without and nonzero with the patch, and report whether
the property's check catches it.  Development aid."""
import json, os, shutil, subprocess, sys, tempfile
INNER = r'''
mount --bind "$1" /repo || exit 90
cd /repo
bash /opt/vp/build.sh >/tmp/seedlog.$$ 2>&1 || { echo "BASE BUILD FAILS"; exit 1; }
timeout 300 bash "$2/demo.sh" >"$1.demo0" 2>&1; r=$?; echo "demo unpatched: $r"
git apply "$3" || { echo "PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >"$1.log" 2>&1 || { echo "PATCHED BUILD FAILS"; tail -5 "$1.log"; exit 1; }
bash /opt/vp/test.sh "$1.json" >"$1.log" 2>&1
timeout 300 bash "$2/demo.sh" >"$1.demo1" 2>&1; r=$?; echo "demo patched: $r"; tail -2 "$1.demo1"
'''
for sid in sys.argv[1:]:
    if sid.startswith("-"): continue
    src = os.path.join("/verif/seeded", sid)
    meta = json.load(open(os.path.join(src, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed")
    r = os.path.join(tmp, "r"); d = os.path.join(tmp, "demo")
    shutil.copytree("/repo", r, symlinks=True)
    shutil.copytree(src, d, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", INNER, "x", r, d, os.path.join(src, "patch.diff")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("==", sid, meta["property"]); print(p.stdout.strip())
    try:
        b = set(json.load(open("/opt/vp/BASELINE.json"))["passed"]) if "passed" in json.load(open("/opt/vp/BASELINE.json")) else None
        t = set(json.load(open(r + ".json"))["passed"])
        base = b if b is not None else set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []))
        print("tests: baseline %d missing %s" % (len(base), sorted(base - t)[:4]))
    except Exception as e: print("tests?", e)
    if "--nocheck" not in sys.argv:
        p = subprocess.run(["python3", "/verif/check.py", meta["property"]], env=dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("check exit", p.returncode, [l for l in p.stdout.split("\n") if "VIOLATION" in l or "KNOWN" in l][:2])
    shutil.rmtree(tmp)
