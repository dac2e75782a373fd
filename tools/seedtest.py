#!/usr/bin/env python3
"""Authoring helper: confirms planted bugs in the scratch copy /tmp/sr (made and built
by hand with /tmp/srvp/build.sh) and runs this framework's checks against them.
usage: seedtest.py [--tests] [--nocheck] [--checks C01,C02] ID..."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SR = "/tmp/sr"
a = sys.argv[1:]
tests = "--tests" in a; nocheck = "--nocheck" in a
extra = a[a.index("--checks") + 1].split(",") if "--checks" in a else None
ids = [x for x in a if os.path.isdir(os.path.join(V, "seeded", x))]
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for i in ids:
    d = os.path.join(V, "seeded", i); meta = json.load(open(d + "/meta.json")); r = [i, meta["property"]]
    sh("git -C %s checkout -q -- . && git -C %s pull -q" % (SR, SR))
    p = sh("git -C %s apply --check %s/patch.diff" % (SR, d))
    if p.returncode: print(i, "patch does not apply", p.stdout); continue
    if "--clean" in a:
        sh("bash /tmp/srvp/build.sh"); p = sh("bash %s/demo.sh" % d, cwd=SR); r.append("clean-demo=%d" % p.returncode)
        if p.returncode: print(p.stdout[-1500:])
    sh("git -C %s apply %s/patch.diff" % (SR, d))
    try:
        p = sh("bash /tmp/srvp/build.sh")
        if p.returncode: print(i, "does not build", p.stdout[-1500:]); continue
        p = sh("bash %s/demo.sh" % d, cwd=SR); r.append("patched-demo=%d (%s)" % (p.returncode, p.stdout.strip().splitlines()[-1][:100] if p.stdout.strip() else ""))
        if tests:
            sh("bash /tmp/srvp/test.sh /tmp/srvp/out.json")
            o = json.load(open("/tmp/srvp/out.json")); r.append("stable-tests-lost=%s" % sorted(stable - set(o["passed"]))[:4])
        if not nocheck:
            for c in extra or [meta["property"]]:
                t = time.time()
                e = dict(os.environ, VERIF_REPO=SR, VERIF_BUILD="/tmp/srbuild")
                p = sh("/usr/bin/python3.12 %s/checks/%s.py" % (V, c), env=e)
                l = [x for x in p.stdout.splitlines() if x.startswith("  [")]
                r.append("%s: exit %d %.0fs %s" % (c, p.returncode, time.time() - t, l[0][:160] if l else p.stdout[-200:]))
    finally:
        sh("git -C %s checkout -q -- ." % SR)
    print(" | ".join(r), flush=True)
