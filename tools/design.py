#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(here, p)).read() if os.path.exists(os.path.join(here, p)) else ""
catch = {}
for l in rd("tools/catches.txt").splitlines():
    if l.strip() and not l.startswith("#"):
        k, _, v = l.partition(" "); catch[k] = v.strip()
seeds = {}
for m in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); seeds[os.path.basename(os.path.dirname(m))] = d
out = []
for line in open(os.path.join(here, "properties.jsonl")):
    d = json.loads(line); pid = d["id"]; head = rd(f"src/{pid}.cpp")[:4000]
    g = lambda k: re.findall(r"^// %s: (.*)" % k, head, re.M)
    out.append(f"### {pid} {d['title']}\n")
    out.append("*Workload and oracle:* " + " ".join(g("RULE")) + "\n")
    if g("ASSUME"): out.append("*Assumed of the caller:* " + "; ".join(g("ASSUME")) + ".\n")
    if g("MIN"): out.append("*Least a run must observe:* " + ", ".join(g("MIN")) + ".\n")
    out.append("*Why tests cannot:* " + d["why_tests_cant"] + "\n")
    s = [k for k, v in seeds.items() if v["property"] == pid]
    if s: out.append("*Planted bugs:* " + ", ".join(s) + ".\n")
fixed = [re.match(r"fixed: property=(\S+) (\S+) (.*)", l) for l in rd("known_findings.txt").splitlines()]
fx = "\n".join(f"* {m[1]}, {m[2]}: {m[3]}" for m in fixed if m) + "\n"
sd = "| planted bug | needs | breaks | caught by |\n|---|---|---|---|\n" + "".join(f"| {k} | {v['needs']} | {v['what_it_breaks']} | {catch.get(k, '?')} |\n" for k, v in seeds.items())
t = rd("tools/design.md").replace("@PROPERTIES@", "\n".join(out)).replace("@FIXED@", fx).replace("@SEEDED@", sd).replace("@MISSES@", rd("tools/misses.txt").strip()).replace("@MEASURE@", rd("tools/measure.txt").strip())
open(os.path.join(here, "DESIGN.md"), "w").write(t.rstrip() + "\n")
