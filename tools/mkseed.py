#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE < python-literal list of (old,new) edits;
writes seeded/ID/patch.diff."""
import os, subprocess, sys, tempfile, shutil, ast
sid, f = sys.argv[1], sys.argv[2]
edits = ast.literal_eval(sys.stdin.read())
tmp = tempfile.mkdtemp(prefix="mks"); r = tmp + "/r"
subprocess.check_call(["git", "clone", "-q", "/repo", r])
p = os.path.join(r, f); s = open(p).read()
for o, n in edits:
    assert s.count(o) == 1, (s.count(o), o)
    s = s.replace(o, n)
open(p, "w").write(s)
d = os.path.join("/verif/seeded", sid); os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", r, "diff"], text=True))
shutil.rmtree(tmp)
