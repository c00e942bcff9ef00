#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present in src/."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = {"K04": "ThreadSanitizer over concurrent readers, with per-thread result comparison",
        "K05": "fault injection at every allocation/callback point under AddressSanitizer and LeakSanitizer, with instance-counting values",
        "K06": "call log of user-written graph types checked against the documented precedence, under AddressSanitizer/UBSan",
        "K07": "differential monitoring: several builds of one program (compilers, NDEBUG, optimisation, debug library, memory patterns) record every result and the records are compared; base build under AddressSanitizer/UBSan",
        "K08": "compiler instrumentation counting basic blocks, bytes moved and allocations of every single operation, judged against the documented complexity at two sizes",
        "K09": "address-equality and write-through monitor over every accessor of every stored element, under AddressSanitizer/UBSan",
        "K10": "differential monitoring of narrow-id graphs at capacity against 32-bit-id ones, under AddressSanitizer/UBSan",
        "A21": "execution on a small fixed stack, with result oracle", "A22": "operation-counting graph type judged against a bound"}
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    d = json.loads(line); pid = d["id"]; src = os.path.join(here, "src", pid + ".cpp")
    if not os.path.exists(src):
        na.append(dict(property=pid, reason=NA.get(pid, "not built yet"))); continue
    head = open(src).read(3000); san = re.search(r"// SAN: (\w+)", head); san = san.group(1) if san else "asan"
    note = " ".join(re.findall(r"// RULE: (.*)", head)) or "random and hostile inputs judged by an independent oracle"
    checks.append(dict(property=pid, quick_cmd=f"python3 check.py {pid} quick", thorough_cmd=f"python3 check.py {pid} thorough",
                       technique=TECH.get(pid, "runtime monitoring: recorded executions judged by an independent oracle" + {"asan": ", under AddressSanitizer/UBSan", "tsan": ", under ThreadSanitizer", "none": ""}[san]),
                       level="exploration", level_note=note))
m = dict(version=1, setup_cmd="python3 -c \"import shutil,sys; sys.exit(0 if shutil.which('g++') else 1)\"", checks=checks,
         hooks=dict(guard="none", enable="no hooks were needed: the library is header-only and is compiled from /repo/include into each monitor", source_commits=[]),
         not_applicable=na, notes="Each check compiles its harness in src/ against /repo/include, runs it on 8 processes and judges what it observed; see DESIGN.md.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
