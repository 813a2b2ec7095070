#!/usr/bin/env python3
"""Applies each planted bug to a scratch worktree and runs the check of its property against it.
   seeded.py WORKTREE [id...]   (WORKTREE is a throw-away worktree of /repo, never /repo itself)"""
import json, os, subprocess, sys, glob, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
wt = sys.argv[1]
ids = sys.argv[2:] or sorted(os.path.basename(d) for d in glob.glob(V + "/seeded/*"))
assert os.path.realpath(wt) != "/repo"
res = {}
for i in ids:
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."], check=True)
    subprocess.run(["git", "-C", wt, "apply", d + "/patch.diff"], check=True)
    t = time.time()
    r = subprocess.run(["python3", V + "/run.py", prop], env=dict(os.environ, VERIF_REPO=wt, VERIF_SEED="1", VERIF_TIER="quick"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."], check=True)
    first = r.stdout.splitlines()[0][:200] if r.stdout else ""
    print("%-36s %s rc=%d %.0fs %s" % (i, {1: "caught", 0: "MISSED"}.get(r.returncode, "BROKEN"), r.returncode, time.time() - t, first), flush=True)
