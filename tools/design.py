#!/usr/bin/env python3
"""DESIGN.md from notes/design.head.md, the checks' own rules, their evidence, the known findings and the results of the planted bugs"""
import glob, importlib, json, os, re, sys
V = "/verif"
sys.path[:0] = [V + "/analysis", V + "/analysis/checks", V + "/tools"]
props = {}
for l in open(V + "/properties.jsonl"):
    d = json.loads(l); props[d["id"]] = d
man = json.load(open(V + "/MANIFEST.json"))
out = [open(V + "/notes/design.head.md").read(), "## Properties\n"]
notes = json.load(open(V + "/notes/bounds.json"))
find = [l.strip() for l in open(V + "/known-findings.txt") if l.strip()]
sizes = json.load(open(V + "/notes/sizes.json"))
for pid, d in props.items():
    out.append(f"### {pid} {d['title']}\n")
    na = [x for x in man["not_applicable"] if x["property"] == pid]
    if na:
        out.append("Not applicable: " + na[0]["reason"] + "\n")
        continue
    m = importlib.import_module(pid.lower())
    out.append(f"*Method:* {getattr(m, 'TECHNIQUE', 'abstract interpretation of the MIR (template extraction) against a specification table')}.\n")
    out.append(m.RULE + "\n")
    if getattr(m, "NOTE", None): out.append("*Extent:* " + m.NOTE + "\n")
    if pid in notes: out.append("*Oracle, bounds:* " + notes[pid] + "\n")
    if m.ASSUMPTIONS: out.append("*Assumes:* " + "; ".join(m.ASSUMPTIONS) + ".\n")
    if pid in sizes: out.append(f"*Size:* {sizes[pid][1]} obligations, about {sizes[pid][0]} s.\n")
    f = [x for x in find if x.startswith("finding: property=" + pid)]
    if f: out.append(f"*Known findings:* {len(f)} (below).\n")
out.append("## Genuine defects\n\nEach was shown on the real compiler (a program whose behaviour differs from gcc's, or that is rejected or crashes), and then repaired where the repair is small. "
           "`known-findings.txt` is what the checks read.\n\n### Repaired (commits in /repo)\n")
for l in find:
    m = re.match(r"fixed: property=(C\d\d) (\w+) (.*)", l)
    if m: out.append(f"* {m[1]} `{m[2]}` {m[3]}")
out.append("\n### Recorded, not repaired\n")
for l in find:
    m = re.match(r"finding: property=(C\d\d) key=(\S+) :: (.*)", l)
    if m: out.append(f"* {m[1]} `{m[2]}`: {m[3]}")
out.append("\n" + open(V + "/notes/design.tail.md").read())
res = json.load(open(V + "/notes/seeds.json"))
out.append("\n## Planted bugs and the checks that catch them\n\n| bug | breaks | needs | caught by |\n|---|---|---|---|")
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    sid = os.path.basename(os.path.dirname(p)); m = json.load(open(p))
    r = res.get(sid)
    out.append(f"| {sid} | {m['what_it_breaks']} | {m['needs']} | {(m['property'] + ': `' + r.split(':')[0] + '`') if r else 'not caught'} |")
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
