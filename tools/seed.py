#!/usr/bin/env python3
"""Plants a bug: seed.py SPEC.py, where SPEC.py defines
ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (C++ source; exit 0 = fine), optional FLAGS, EXTRA = {name: text}, SCRIPT.
The change is tried in the scratch copy /tmp/seedwt (built there beforehand) and kept in /verif/seeded/<ID> when
it builds, passes the stable tests and the demonstration tells it from the unchanged tree."""
import json, os, re, subprocess, sys, shutil
WT = "/tmp/seedwt"
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
spec = {}
exec(open(sys.argv[1]).read(), spec)
keep = True
subprocess.run("rm -rf /tmp/seedwt/include && cp -a /repo/include /tmp/seedwt/include && git -C /tmp/seedwt fetch -q /repo && git -C /tmp/seedwt reset -q --hard FETCH_HEAD", shell=True, check=True)
d = "/verif/seeded/" + spec["ID"]
os.makedirs(d, exist_ok=True)
if "SCRIPT" in spec: script = spec["SCRIPT"]
else: script = '''#!/bin/bash
# Exit 0 when the behaviour is right. Run in the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -g -w %s -I"$PWD/include" "$here/demo.cpp" -o "$tmp/demo" -pthread %s || exit 3
cd "$tmp" && timeout 120 ./demo
''' % (spec.get("FLAGS", ""), spec.get("LIBS", ""))
open(d + "/demo.sh", "w").write(script)
os.chmod(d + "/demo.sh", 0o755)
if "DEMO" in spec: open(d + "/demo.cpp", "w").write(spec["DEMO"].lstrip())
for n, t in spec.get("EXTRA", {}).items(): open(d + "/" + n, "w").write(t)
json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
r = sh("bash %s/demo.sh" % d, cwd=WT)
print("unpatched demo exit", r.returncode, r.stdout[-500:] if r.returncode else "")
bad = r.returncode != 0
for f, old, new in spec["EDITS"]:
    p = WT + "/" + f
    s = open(p).read()
    if s.count(old) < 1: sys.exit("edit not found in %s: %r" % (f, old))
    if s.count(old) > 1 and not spec.get("ALL"): sys.exit("edit ambiguous (%d) in %s: %r" % (s.count(old), f, old))
    open(p, "w").write(s.replace(old, new))
patch = sh("git diff", cwd=WT).stdout
open(d + "/patch.diff", "w").write(patch)
# lines removed must be original ones
orig = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
removed = [l[1:] for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
base = "\n".join(sh("git show %s:%s" % (orig, f), cwd="/repo").stdout for f in sorted({e[0] for e in spec["EDITS"]}))
if removed and not any(l in base.splitlines() for l in removed): print("WARNING: no removed line is original")
if not removed: print("WARNING: only adds lines")
r = sh("ninja -C _build -j8", cwd=WT)
if r.returncode: print("DOES NOT BUILD", r.stdout[-2000:]); bad = True
else:
    r = sh("rm -rf /tmp/seedwt/reports; python3 /opt/vp/run_tests.py /tmp/seedwt/_build/Debug/pluto_tests /tmp/seedwt/reports; python3 /opt/vp/results.py /tmp/seedwt/o.json 'junit:/tmp/seedwt/reports/*.xml'")
    o = json.load(open("/tmp/seedwt/o.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    stable = b if isinstance(b, list) else b.get("stable") or b.get("passed") or b.get("tests")
    missing = [t for t in stable if t not in o["passed"]]
    print("tests passed", len(o["passed"]), "of", len(stable), "missing", missing[:5])
    bad = bad or bool(missing)
    for k in range(3):
        r = sh("bash %s/demo.sh" % d, cwd=WT)
        print("patched demo exit", r.returncode, r.stdout[-300:])
        bad = bad or r.returncode == 0
sh("git checkout -q -- .", cwd=WT)
if bad:
    print("REJECTED", spec["ID"]); shutil.rmtree(d)
    sys.exit(1)
print("KEPT", spec["ID"])
