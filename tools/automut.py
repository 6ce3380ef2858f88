#!/usr/bin/env python3
"""automut.py ID FILE [START-END ...]: mutate single tokens of FILE (path under
/repo) in the given line ranges, run the check on each, list the survivors.
A development aid: nothing registered in MANIFEST.json uses it."""
import os, re, shutil, subprocess, sys, tempfile, random
ID, FILE = sys.argv[1], sys.argv[2]
rng = [tuple(map(int, a.split("-"))) for a in sys.argv[3:] if re.match(r"\d+-\d+$", a)]
cap = int(os.environ.get("MUT_MAX", "60"))
tmp = tempfile.mkdtemp(prefix="automut")
root = os.path.join(tmp, "r")

shutil.copytree("/repo", root, symlinks=True, ignore=shutil.ignore_patterns("_build", ".git"))
path = os.path.join(root, FILE)
orig = open(path).read().split("\n")
def ok(i):
    return not rng or any(a <= i + 1 <= b for a, b in rng)
SW = [(r"(?<![+\w(,=<>&|?:*/-] )(?<!\+)\+(?![+=])", "-"), (r"(?<=[\w)\]] )-(?= )", "+"), (r"<=", "<"), (r"(?<![<-])<(?![<=a-z])", "<="),
      (r">=", ">"), (r"(?<![>-])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
      (r"\+=", "-="), (r"-=", "+="), (r"(?<= )\*(?= )", "/"), (r"(?<= )/(?= )", "*"), (r"<<", ">>"), (r">>", "<<"),
      (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bsin\b", "cos"), (r"\bcos\b", "sin"),
      (r"!(?=[a-z])", "")]
muts = []
incomment = False
for i, l in enumerate(orig):
    s = l.strip()
    if s.startswith("/*"): incomment = True
    c = incomment
    if "*/" in s: incomment = False
    if c or s.startswith("//") or s.startswith("#") or not ok(i) or not s: continue
    if "assert(" in s or "log_" in s: continue
    for a, b in SW:
        for m in re.finditer(a, l):
            muts.append((i, l[:m.start()] + b + l[m.end():]))
    for m in re.finditer(r"(?<![\w.\"])(\d+)(?![\w.])", l):
        muts.append((i, l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():]))
    for m in re.finditer(r"(?<![\w.])(\d+\.\d*)(?![\w.])", l):
        muts.append((i, l[:m.start()] + "(1.001*%s+1e-9)" % m.group(1) + l[m.end():]))
    if re.match(r"\s*[\w>\-\[\].*&+ ]+( [-+*/|&^]?= |\()[^{]*;$", l) and not re.match(r"\s*(static |const )?(double|float|u\d+|s\d+|int|bool|size_t|return|gps_time_t)\b", l):
        muts.append((i, re.match(r"\s*", l).group(0) + ";"))
random.seed(int(os.environ.get("MUT_SEED", "1")))
if len(muts) > cap:
    muts = sorted(random.sample(muts, cap))
killed = surv = bad = 0
env = dict(os.environ, VERIF_REPO=root)
for i, new in muts:
    if new == orig[i]: continue
    t = list(orig); t[i] = new
    open(path, "w").write("\n".join(t))
    if subprocess.call(["gcc", "-fsyntax-only", "-I", root + "/include", "-I", "/repo/_build/include", "-I", "/repo/_build/src", "-I", "/opt/vp/build/src", "-w", path], stderr=subprocess.DEVNULL) != 0 and os.environ.get("MUT_SYNTAX"):
        bad += 1; continue
    for one in ID.split(","):
     r = subprocess.Popen(["python3", "./check.py", one], cwd=os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
     try:
        r.stdout, r.stderr = r.communicate(timeout=int(os.environ.get("MUT_TIMEOUT", "60")))[0], ""
     except subprocess.TimeoutExpired:
        os.killpg(r.pid, 9); r.wait(); r.returncode = 1; r.stdout = r.stderr = ""; print("timeout %d %s" % (i + 1, new.strip()))
     if r.returncode != 0: break
    if r.returncode == 1: killed += 1
    elif r.returncode == 0:
        surv += 1; print("SURVIVED %s:%d: %s\n      was: %s" % (FILE, i + 1, new.strip(), orig[i].strip())); sys.stdout.flush()
    else:
        bad += 1
        if "error:" not in (r.stdout + r.stderr): print("rc=2 without compile error: %d %s" % (i + 1, new.strip()))
print("%s %s: killed %d survived %d invalid %d" % (ID, FILE, killed, surv, bad))
shutil.rmtree(tmp)
