#!/usr/bin/env python3
"""Runs the check of each planted bug's property against a scratch copy with the bug: try_seeds.py [ID...]"""
import json, os, subprocess, sys
S = "/verif/seeded"
WT = "/tmp/trywt"
R = "/verif/tools/seed_results.json"
known = json.load(open(R)) if os.path.exists(R) else {}
ids = sys.argv[1:] or sorted(os.listdir(S))
subprocess.run("rm -rf /tmp/trywt && mkdir /tmp/trywt && cp -a /repo/include /repo/.git /tmp/trywt/ && cd /tmp/trywt && git checkout -q -- . ", shell=True, check=True)
for i in ids:
    m = json.load(open("%s/%s/meta.json" % (S, i)))
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=WT)
    a = subprocess.run(["git", "apply", "%s/%s/patch.diff" % (S, i)], cwd=WT)
    if a.returncode: print(i, "DOES NOT APPLY"); continue
    seeds = [os.environ.get("VERIF_SEED", "1")]
    r = subprocess.run(["python3", "/verif/run.py", m["property"], os.environ.get("TIER", "quick")], env=dict(os.environ, VERIF_REPO=WT, VERIF_SEED=seeds[0], VERIF_SCRATCH_EVIDENCE="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    hit = "VIOLATION property=" + m["property"] in r.stdout
    lines = [l for l in r.stdout.splitlines() if l.strip()]
    known[i] = m["property"] if hit else "MISSED"
    print("%-34s %s exit %d %s  %s" % (i, m["property"], r.returncode, "CAUGHT" if hit else "MISSED", (lines[-2] if len(lines) > 1 else "")[:150]), flush=True)
json.dump({k: known[k] for k in sorted(known) if os.path.isdir(S + "/" + k)}, open(R, "w"), indent=0)
subprocess.run("rm -rf /tmp/trywt", shell=True)
