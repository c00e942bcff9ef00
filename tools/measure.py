#!/usr/bin/env python3
"""measure.py SEED...: runs every quick check with each seed and writes tools/measure.txt."""
import json, os, re, subprocess, sys, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeds = sys.argv[1:] or ["1"]
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
rows, bad = [], []
for pid in ids:
    tot = dist = 0; comp = wall = 0.0; obs = {}
    for s in seeds:
        r = subprocess.run(["python3", "check.py", pid, "quick"], cwd=here, text=True, errors="replace", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_SEED=s, VERIF_TIER="quick"))
        m = re.search(r"(\d+) cases, (\d+) distinct non-trivial, compile ([\d.]+)s, wall ([\d.]+)s, observed (\{.*\})", r.stdout)
        if r.returncode or not m: bad.append((pid, s, r.returncode, r.stdout[-600:])); print("BAD", pid, s, r.stdout[-600:], flush=True); continue
        tot += int(m[1]); dist += int(m[2]); comp = max(comp, float(m[3])); wall = max(wall, float(m[4]))
        for k, v in json.loads(m[5]).items(): obs[k] = obs.get(k, 0) + v
    top = sorted(obs.items(), key=lambda x: -x[1])[:4]
    rows.append(f"| {pid} | {tot} | {dist} | {comp:.0f} s | {wall:.0f} s | " + ", ".join(f"{k} {v}" for k, v in top) + " |"); print(rows[-1], flush=True)
with open(os.path.join(here, "tools", "measure.txt"), "w") as f:
    f.write(f"Quick runs with VERIF_SEED {', '.join(seeds)} (cases and observations are totals, times the slowest run, compilation included in the wall time):\n\n| check | cases | distinct, non-trivial | compile | wall | most frequent observations |\n|---|---|---|---|---|---|\n" + "\n".join(rows) + "\n")
sys.exit(1 if bad else 0)
