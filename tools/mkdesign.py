#!/usr/bin/env python3
"""Writes DESIGN.md: text below plus the tables of repaired defects and planted bugs."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)["id"]: json.loads(l) for l in open(HERE + "/properties.jsonl")}
HEAD = open(HERE + "/tools/design_head.md").read()
TAIL = open(HERE + "/tools/design_tail.md").read()
out = [HEAD.rstrip(), ""]
text = open(HERE + "/tools/design_props.md").read()
parts = {}
cur = None
for line in text.splitlines():
    if line.startswith("## P"):
        cur = line[3:].strip()
        parts[cur] = []
    elif cur:
        parts[cur].append(line)
out.append("# The properties, one by one\n")
for i in sorted(props):
    out.append("## %s %s\n" % (i, props[i]["title"]))
    out.append("\n".join(parts[i]).strip() + "\n")
out.append(TAIL.rstrip() + "\n")
out.append("# Defects found and repaired\n")
out.append("Each was a violation reported by the check of its property on the tree as it was; the check is quiet since and reports it again if the repair is undone.\n")
out.append("| property | commit | what failed |\n|---|---|---|")
for l in open(HERE + "/known_findings.txt"):
    if l.startswith("fixed: "):
        _, p, c, t = l.split(" ", 3)
        out.append("| %s | %s | %s |" % (p.split("=")[1], c, t.strip().replace("|", "\\|")))
out.append("\nThere are no known findings that are not repaired.\n")
out.append("# Planted bugs\n")
out.append("Every bug below builds, passes the repository's tests and has a demonstration of its own. The check named is that of the bug's property, quick tier, seed 1 (see tools/try_seeds.py).\n")
caught = {}
try: caught = json.load(open(HERE + "/tools/seed_results.json"))
except FileNotFoundError: pass
out.append("| bug | property | breaks | needs | caught by |\n|---|---|---|---|---|")
S = HERE + "/seeded"
for i in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open("%s/%s/meta.json" % (S, i)))
    out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"), caught.get(i, "?")))
open(HERE + "/DESIGN.md", "w").write("\n".join(out) + "\n")
