#!/usr/bin/env python3
"""Build the libswiftnav sources of /repo's working tree together with one
harness, explore every space the harness enumerates, write the evidence file.

usage: check.py <PROPERTY-ID> [--tier quick|thorough] [--replay FILE]
exit 0: the property held on everything explored (known findings are printed)
exit 1: VIOLATION line printed
exit 2: the machinery could not decide (build failure, time cap)
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CC = "clang"
CXX = "clang++"

FLAVOURS = {
    # sanitizers turn memory errors and undefined behaviour into violations
    "san": ["-O1", "-g", "-fno-omit-frame-pointer", "-DMC_SAN=1",
            "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=alignment,shift-base",
            "-fno-sanitize-recover=all"],
    "opt": ["-O2", "-g"],
    "O0": ["-O0", "-g"],
    # reads of uninitialised memory that influence control flow or output
    "msan": ["-O1", "-g", "-DMC_MSAN=1", "-fsanitize=memory",
             "-fno-sanitize-recover=all"],
}


def die(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def repo_config():
    text = open(os.path.join(REPO, "CMakeLists.txt")).read()
    nocomment = re.sub(r"#[^\n]*", "", text)
    m = re.search(r"set\(SRCS([^)]*)\)", nocomment)
    c = re.search(r'set\(MAX_CHANNELS\s+"(\d+)"', nocomment)
    if not m or not c:
        die("cannot read SRCS / MAX_CHANNELS from CMakeLists.txt")
    return m.group(1).split(), c.group(1)


def directives(path):
    d = {"flavours": ["san"], "cflags": [], "lang": "c", "libflags": [],
         "libonly": None, "ldflags": [], "exclude": []}
    for line in open(path):
        m = re.match(r"\s*(?://|\*|/\*)?\s*MC-(\w+):\s*(.*?)\s*(\*/)?$", line)
        if m:
            k, v = m.group(1), m.group(2)
            if k == "lang":
                d[k] = v
            else:
                d[k] = v.split()
        if "MC-END" in line:
            break
    return d


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    return p.returncode, p.stdout


# what gcc takes with a warning must not stop the check: clang makes errors of it
LAX = ["-Wno-error=implicit-function-declaration", "-Wno-error=implicit-int",
       "-Wno-error=int-conversion", "-Wno-error=return-type",
       "-Wno-error=incompatible-function-pointer-types"]


def compile_lib(job):
    """Compiles one library source; what clang refuses in gnu99 is tried in
    gnu17 and then with the compiler of the repository's own build."""
    rc, out = run(job)
    if rc != 0:
        rc, _ = run([a if a != "-std=gnu99" else "-std=gnu17" for a in job])
    if rc != 0:
        rc, _ = run(["gcc"] + [a for a in job[2:] if not a.startswith(("-fsanitize", "-fno-sanitize"))
                               and a not in LAX])
    return rc, out


def build(harness, d, flavour, bdir, full=False):
    srcs, maxch = repo_config()
    gen = os.path.join(bdir, "gen")
    os.makedirs(gen, exist_ok=True)
    tmpl = open(os.path.join(REPO, "src/max_channels.h.in")).read()
    tmpl = re.sub(r"\$\{MAX_CHANNELS\}|@MAX_CHANNELS@", maxch, tmpl)
    with open(os.path.join(gen, "max_channels.h"), "w") as f:
        f.write(tmpl)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + gen, "-I" + REPO]
    base = FLAVOURS[flavour] + ["-UNDEBUG", "-w"]
    if d["libonly"] and not full:
        srcs = [s for s in srcs if os.path.basename(s) in d["libonly"]]
        missing = set(d["libonly"]) - {os.path.basename(s) for s in srcs}
        if missing:
            return build(harness, d, flavour, bdir, True)
    srcs = [s for s in srcs if os.path.basename(s) not in d["exclude"]]
    jobs = []
    objs = []
    for s in srcs:
        o = os.path.join(bdir, os.path.basename(s) + ".o")
        objs.append(o)
        jobs.append([CC, "-std=gnu99"] + base + LAX + d["libflags"] + inc +
                    ["-DLIBSWIFTNAV_ENABLE_STDERR_LOGGING", "-c",
                     os.path.join(REPO, s), "-o", o])
    ho = os.path.join(bdir, "harness.o")
    if d["lang"] == "c":
        comp = [CC, "-std=gnu11"] + LAX
    else:
        comp = [CXX, "-std=gnu++17"]
    hbase = [f for f in base]
    jobs.append(comp + hbase + d["cflags"] + inc + ["-I" + os.path.dirname(harness),
                "-c", harness, "-o", ho])
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for rc, out in ex.map(compile_lib, jobs):
            if rc != 0:
                die("build failed:\n" + out)
    exe = os.path.join(bdir, "harness-" + flavour)
    link = [CC if d["lang"] == "c" else CXX] + FLAVOURS[flavour] + [ho] + objs + \
        ["-o", exe, "-lm"] + d["ldflags"]
    rc, out = run(link)
    if rc != 0 and d["libonly"] and not full:
        # the code under test now uses other parts of the library
        return build(harness, d, flavour, bdir, True)
    if rc != 0:
        die("link failed:\n" + out)
    return exe


def known_findings(prop):
    path = os.path.join(HERE, "known_findings.txt")
    res = {}
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    return res


def execute(exe, bdir, tier, knownf, extra, workers):
    resf = os.path.join(bdir, "result.json")
    if os.path.exists(resf):
        os.remove(resf)
    out = os.path.join(bdir, "run")
    os.makedirs(out, exist_ok=True)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:"
                           "allocator_may_return_null=1:handle_abort=0:"
                           "detect_stack_use_after_return=0")
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:exitcode=98"
    env["MSAN_OPTIONS"] = "exitcode=97"
    env["TZ"] = "UTC"
    cmd = [exe, "--tier", tier, "--out", out, "--result", resf, "--known",
           knownf, "--workers", str(workers)] + extra
    p = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL)
    if not os.path.exists(resf):
        die("harness gave no result (rc %d)" % p.returncode)
    with open(resf) as f:
        res = json.load(f)
    return p.returncode, res


def main():
    args = sys.argv[1:]
    if not args:
        die("usage: check.py ID [--tier quick|thorough] [--replay FILE]")
    if args[0] == "--selftest":
        for c in (CC, CXX):
            rc, out = run([c, "--version"])
            if rc:
                die("%s does not run" % c)
        print("toolchain ok,", len(repo_config()[0]), "library sources")
        return 0
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    for i, a in enumerate(args):
        if a == "--tier":
            tier = args[i + 1]
        if a == "--replay":
            replay = args[i + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    hdir = os.path.join(HERE, "harness")
    harness = None
    for fn in sorted(os.listdir(hdir)):
        if re.match(re.escape(prop) + r"_.*\.(c|cc)$", fn):
            harness = os.path.join(hdir, fn)
    if not harness:
        die("no harness for " + prop)
    d = directives(harness)
    known = known_findings(prop)
    workers = 8
    top = tempfile.mkdtemp(prefix="vmc-%s-" % prop)
    code = 0
    try:
        knownf = os.path.join(top, "known")
        with open(knownf, "w") as f:
            f.write("\n".join(known) + "\n")
        if replay:
            r = json.load(open(replay))
            bdir = os.path.join(top, r["flavour"])
            os.makedirs(bdir)
            exe = build(harness, d, r["flavour"], bdir)
            rc, res = execute(exe, bdir, r["tier"], os.devnull,
                              ["--space", str(r["space_idx"]), "--shard",
                               str(r["shard"])], r["nshards"])
            hit = [v for v in res["violations"] if v["key"] == r["key"]]
            for v in res["violations"]:
                print("%s: %s\n   at %s" % (v["key"], v["msg"], v["point"]))
            print("REPRODUCED" if hit else "NOT REPRODUCED")
            return 1 if hit else 0
        allspaces, viols, capped = [], [], False
        for fl in d["flavours"]:
            bdir = os.path.join(top, fl)
            os.makedirs(bdir)
            exe = build(harness, d, fl, bdir)
            left = (840 if tier == "quick" else 6 * 3600) - (time.time() - t0)
            rc, res = execute(exe, bdir, tier, knownf,
                              ["--total", "%d" % max(30, left)], workers)
            capped = capped or res["timeout"]
            for s in res["spaces"]:
                s["flavour"] = fl
                allspaces.append(s)
            newv = [v for v in res["violations"] if not v["known"]]
            for v in res["violations"]:
                v["flavour"] = fl
                viols.append(v)
            if newv:
                # replay the failing shard alone before reporting it
                v = newv[0]
                if not v["key"].startswith("hang:"):
                    _, r2 = execute(exe, bdir, tier, knownf,
                                    ["--space", str(v["space_idx"]), "--shard",
                                     str(v["shard"])], workers)
                    v["replayed"] = any(x["key"] == v["key"]
                                        for x in r2["violations"])
                break
        wall = time.time() - t0
        ev = {
            "property": prop, "tier": tier, "seed": seed,
            "level": "model_checking",
            "coverage": {
                "states": sum(s["points"] for s in allspaces),
                "transitions": sum(s["calls"] for s in allspaces),
                "traces_validated_against_impl":
                    sum(s["histories"] or s["points"] for s in allspaces),
                "oracle_comparisons": sum(s["checks"] for s in allspaces),
                "samples": [x for s in allspaces for x in
                            ["%s: %s" % (s["name"], y) for y in s["samples"][:2]]],
                "rule": "; ".join("%s: %s" % (s["name"], s["rule"])
                                  for s in allspaces
                                  if s["flavour"] == d["flavours"][0]),
                "exhaustive": (not capped) and not [v for v in viols
                                                   if not v["known"]],
                "spaces": [{k: s[k] for k in
                            ("name", "flavour", "points", "calls", "checks",
                             "histories", "outcomes", "maxdepth", "secs")}
                           for s in allspaces],
            },
            "assumptions": [
                "the enumeration is complete within the bounds in `rule`; "
                "values outside them are not covered",
                "the reference models in harness/%s are right"
                % os.path.basename(harness)],
            "wall_s": round(wall, 3),
            "violations": len({v["key"] for v in viols if not v["known"]}),
        }
        edir = os.path.join(HERE, "evidence")
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for s in allspaces:
            print("  [%s] %-28s points=%d calls=%d checks=%d histories=%d "
                  "outcomes=%d %.1fs" % (s["flavour"], s["name"], s["points"],
                                         s["calls"], s["checks"],
                                         s["histories"], s["outcomes"],
                                         s["secs"]))
        hit = {v["key"] for v in viols if v["known"]}
        for k in known:
            if k in hit:
                print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
            elif not [v for v in viols if not v["known"]]:
                print("note: known finding %s did not occur" % k)
        new = [v for v in viols if not v["known"]]
        if new:
            rdir = os.path.join(edir, "replays")
            os.makedirs(rdir, exist_ok=True)
            seen = set()
            for v in new:
                if v["key"] in seen:
                    continue
                seen.add(v["key"])
                v["property"] = prop
                v["tier"] = tier
                v["how"] = "./check.py %s --replay <this file>" % prop
                path = os.path.join(rdir, "%s-%s.json" % (
                    prop, hashlib.sha1(v["key"].encode()).hexdigest()[:8]))
                with open(path, "w") as f:
                    json.dump(v, f, indent=1)
                print("  %s: %s" % (v["key"], v["msg"]))
                print("     at %s (space %s)" % (v["point"], v["space"]))
                print("VIOLATION property=%s replay=%s" % (prop, path))
            code = 1
        elif capped:
            print("ERROR: time cap reached before the enumeration was complete")
            code = 2
        print("%s %s wall=%.1fs" % (prop, tier, time.time() - t0))
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", top)
        else:
            shutil.rmtree(top, ignore_errors=True)
    return code


if __name__ == "__main__":
    sys.exit(main())
