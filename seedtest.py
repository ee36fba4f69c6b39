#!/usr/bin/env python3
"""seedtest.py ID... | all : apply each seeded bug to /repo, build, test, run its demo and the check of its property, undo. Development tool only."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
def run(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def build():
    return run("bash /opt/vp/build.sh")
ids = sys.argv[1:]
nocheck = "--no-check" in ids
ids = [i for i in ids if not i.startswith("--")]
if ids == ["all"]:
    ids = sorted(os.listdir(V + "/seeded"))
if run("git -C /repo status --porcelain").stdout.strip():
    sys.exit("/repo is not clean")
for i in ids:
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    res = []
    r = build(); assert r.returncode == 0, r.stdout[-2000:]
    t = time.time()
    r = run("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    res.append("clean demo %d (%.0fs)" % (r.returncode, time.time() - t))
    if r.returncode: print(r.stdout[-1500:])
    r = run("git -C /repo apply %s/patch.diff" % d)
    if r.returncode: print(i, "patch does not apply", r.stdout); continue
    try:
        r = run("bash /opt/vp/test.sh /tmp/seedtest.json")
        o = json.load(open("/tmp/seedtest.json"))
        res.append("tests %d/%d" % (len(o["passed"]), len(o["passed"]) + len(o["failed"])))
        if not o["passed"]: print(r.stdout[-2500:])
        r = run("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
        res.append("bug demo %d" % r.returncode)
        if not nocheck:
            t = time.time()
            r = run("python3 %s/vrun.py check %s" % (V, prop))
            viol = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res.append("check %s rc %d viol %d (%.0fs)" % (prop, r.returncode, len(viol), time.time() - t))
            if r.returncode != 1: print(r.stdout[-1500:])
            else:
                ls = r.stdout.splitlines(); k = [n for n, l in enumerate(ls) if l.startswith("VIOLATION")]
                res.append("\n      " + " | ".join(x[:220] for x in ls[k[0] + 1:k[0] + 2]))
    finally:
        run("git -C /repo checkout -- .")
    print("%-28s %s" % (i, "; ".join(res)), flush=True)
build()
