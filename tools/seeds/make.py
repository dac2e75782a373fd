#!/usr/bin/env python3
"""Authoring helper: writes /verif/seeded/<id>/ from the specifications in batch*.py
(old text -> new text in /tmp/sr, a scratch clone of /repo)."""
import json, os, shutil, subprocess, sys, glob, runpy
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H)); SR = "/tmp/sr"
only = sys.argv[1:]
S = {}
def seed(id, prop, edits, demo, needs, breaks, files=None): S[id] = (prop, edits, demo, needs, breaks, files or {})
for b in sorted(glob.glob(H + "/batch*.py")): exec(open(b).read())
for id, (prop, edits, demo, needs, breaks, files) in S.items():
    if only and id not in only: continue
    d = os.path.join(V, "seeded", id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run("git -C %s checkout -q -- . && git -C %s pull -q" % (SR, SR), shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(SR, f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", SR, "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    subprocess.run("git -C %s checkout -q -- ." % SR, shell=True, check=True)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /usr/bin/python3.12 "$(dirname "$0")/demo.py"\n')
    open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom alsdemo import *\n" + demo.lstrip("\n"))
    shutil.copy(H + "/alsdemo.py", d)
    for n, c in files.items(): open(os.path.join(d, n), "w").write(c)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)
