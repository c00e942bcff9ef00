#!/usr/bin/env python3
"""Run one property's monitor against /repo's working tree.

  check.py <ID> quick|thorough            compile src/<ID>.cpp against /repo/include and run it
  check.py <ID> replay <suite> <idx> [tier]   run one case again

Exit 0: no violation observed.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken.
Exit 2: the check itself could not run (never reported as a violation).
Directives read from the head of src/<ID>.cpp:
  // PARTS: n      compile n objects with -DPART=0..n-1 (parallel) and link them
  // SAN: asan|tsan|none      // FLAGS: extra compiler flags   // SHARDS: n
  // RULE: ...     how cases are made / what is non-trivial    // ASSUME: ...
  // MIN: counter=n  the run must have observed at least n (else the check is in error)
  // VARIANT: name compiler flags...   (TVARIANT: thorough only)  another build of the same program, whose
  //                                   recorded trace must equal that of the first build
"""
import json, os, re, resource, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SAN = {"asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
       "tsan": ["-fsanitize=thread"], "none": ["-D_GLIBCXX_ASSERTIONS"], "plain": []}
SANITY = "#include <tl/expected.hpp>\n#include <ranges>\n#include <vector>\nint main(){std::vector<int> v{1};return v[0]-1;}\n"


def die(msg):
    print("check error: " + msg, flush=True)
    sys.exit(2)


def directives(src):
    d = {"PARTS": "1", "SAN": "asan", "FLAGS": "", "SHARDS": "8", "RULE": "", "ASSUME": [], "MIN": [], "VARIANT": [], "TVARIANT": []}
    for line in open(src):
        m = re.match(r"//\s*([A-Z]+):\s*(.*)", line)
        if not m:
            if line.startswith("//") or not line.strip():
                continue
            break
        k, v = m.group(1), m.group(2).strip()
        if k in ("ASSUME", "MIN", "VARIANT", "TVARIANT"):
            d[k].append(v)
        elif k == "RULE":
            d[k] = (d[k] + " " + v).strip()
        elif k in d:
            d[k] = v
    return d


def known(pid):
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_(pid, d, bdir, tier):
    """Returns (binary, None) or (None, log).  quick: clang -O0 (compiles fastest), g++ when clang rejects
    the code; thorough: g++ -O1.  Only g++, the compiler the repository is built with here, decides that
    something does not compile."""
    if tier == "quick" and shutil.which("clang++"):
        exe, log = compile_with(["clang++", "-std=c++20", "-O0"], pid, d, bdir, 1)
        if exe:
            return exe, None
    return compile_with(["g++", "-std=c++20", "-O1"], pid, d, bdir, 2)


def compile_with(cc, pid, d, bdir, tries):
    src = os.path.join(ROOT, "src", pid + ".cpp")
    base = cc + ["-g1", "-w", "-I" + REPO + "/include", "-I" + ROOT + "/src"] + SAN[d["SAN"]] + d["FLAGS"].split()
    n = int(d["PARTS"])

    def one(k):
        o = f"{bdir}/p{k}.o"
        for attempt in range(tries):
            r = run(base + [f"-DPART={k}", "-c", src, "-o", o])
            if r.returncode == 0:
                return None
            if attempt + 1 < tries:
                time.sleep(1)
        return r.stdout
    with ThreadPoolExecutor(8) as ex:
        logs = [l for l in ex.map(one, range(n)) if l]
    exe = f"{bdir}/h"
    if not logs:
        r = run(base + [f"{bdir}/p{k}.o" for k in range(n)] + ["-o", exe, "-pthread"])
        if r.returncode == 0:
            return exe, None
        logs = [r.stdout]
    if tries == 1:
        return None, logs[0]
    s = f"{bdir}/sanity.cpp"
    open(s, "w").write(SANITY)
    r = run(["g++", "-std=c++20", s, "-o", f"{bdir}/sanity"] + SAN[d["SAN"]])
    if r.returncode != 0 or run([f"{bdir}/sanity"]).returncode != 0:
        die("the toolchain does not work here:\n" + r.stdout[-2000:])
    if re.search(r"Killed signal|virtual memory exhausted|out of memory|No space left", logs[0]):
        die("compiler ran out of resources:\n" + logs[0][-2000:])
    return None, "\n".join(logs)


def read_trace(prefixes):
    t = {}
    for p in prefixes:
        try:
            for line in open(p + ".trace", errors="replace"):
                f = line.rstrip("\n").split("\t")
                if len(f) == 5:
                    t[(f[0], int(f[1]))] = (f[2], f[3], f[4])
        except OSError:
            pass
    return t


def variants(pid, d, tier, seed, bdir, n, only=None):
    """Builds the program in every configuration, runs the same cases in each and compares what they recorded.
    Returns (violations, counters, distinct)."""
    cfgs = [("base", None, SAN[d["SAN"]])]
    for v in d["VARIANT"] + (d["TVARIANT"] if tier == "thorough" else []):
        name, cc, *flags = v.split()
        cfgs.append((name, [cc] + flags, []))
    viol, cnt, keys = [], {"builds": 0}, {}

    def build(c):
        b = f"{bdir}/{c[0]}"
        os.makedirs(b, exist_ok=True)
        if c[1] is None:
            return compile_(pid, d, b, "quick")
        return compile_with(c[1], pid, dict(d, SAN="plain"), b, 1)
    jobs = []
    with ThreadPoolExecutor(2) as ex:
        exes = list(ex.map(build, cfgs))
    traces = {}
    for (name, cc, _), (exe, log) in zip(cfgs, exes):
        if not exe:
            if name != "base" and cc[0] != "g++":
                cnt["builds_skipped"] = cnt.get("builds_skipped", 0) + 1  # only g++ decides what compiles
                continue
            m = re.search(r"error: (.{0,200})", log)
            viol.append(dict(key="does-not-compile:" + name, suite="-", idx=0, what=f"does not compile as {name}: " + (m.group(1) if m else ""), input=log[:6000]))
            continue
        jobs.append((name, exe))
        cnt["builds"] += 1
    lim = 300 if tier == "quick" else 3 * 3600
    with ThreadPoolExecutor(8) as ex:
        rcs = dict(zip([(nm, k) for nm, _ in jobs for k in range(n)],
                       ex.map(lambda a: shard(a[1], seed, a[2], n, tier, f"{bdir}/{a[0]}/s{a[2]}", lim, only or ()), [(nm, e, k) for nm, e in jobs for k in range(n)])))
    crashed = {}
    for (nm, k), rc in rcs.items():
        if rc == 3:
            die("harness usage/IO error")
        if rc != 0:
            out = f"{bdir}/{nm}/s{k}"
            s, i, inp = cur(out)
            err = open(out + ".err", errors="replace").read()
            m = re.search(r"(==\d+==ERROR.*|\S+: runtime error.*|.*Assertion.*|.*Error: .*|terminate called.*)", err)
            crashed[(nm, s, i)] = ((m.group(1) if m else "")[:300] + f" (exit {rc})", inp + "\n" + err[:4000], k)
    for nm, _ in jobs:
        traces[nm] = read_trace([f"{bdir}/{nm}/s{k}" for k in range(n)])
    cc_of = {nm: ("clang" if nm.startswith("clang") or nm == "base" and "clang" in " ".join(["clang" if shutil.which("clang++") else ""]) else "gcc") for nm, _ in jobs}
    names = [nm for nm, _ in jobs]
    allkeys = sorted(set().union(*[set(t) for t in traces.values()])) if traces else []
    # a build that stopped in a case ran nothing of its shard after it: the case itself is judged, the rest is not compared
    for (nm, s, i), (what, inp, k) in crashed.items():
        same = [o for o in names if (o, s, i) in crashed]
        if len(same) < len(names):
            alone = [o for o in names if (s, i) in traces[o]]
            if alone:
                viol.append(dict(key="stops-in-one-build:" + str(s), suite=str(s), idx=i or 0, what=f"build {nm} stops with {what}; build {alone[0]} completes the case", input=inp))
    distinct, across, compared, refused = set(), 0, 0, 0
    for key in allkeys:
        have = [nm for nm in names if key in traces[nm]]
        ok = len(have) == len(names)
        for x, a in enumerate(have):
            for b in have[x + 1:]:
                ta, tb = traces[a][key], traces[b][key]
                if cc_of[a] != cc_of[b]:
                    if ta[0] != tb[0]:
                        cnt["inputs_differ_across_compilers"] = cnt.get("inputs_differ_across_compilers", 0) + 1
                        continue
                    across += 1
                compared += 1
                if ta != tb:
                    fa, fb = ta[2].split(" "), tb[2].split(" ")
                    diff = [f"{p} / {q}" for p, q in zip(fa, fb) if p != q][:4]
                    viol.append(dict(key="differs-between-builds:" + key[0], suite=key[0], idx=key[1], what=f"{a} and {b} disagree: outcome {ta[1]} / {tb[1]}, records {', '.join(diff)}", input=f"record of {a}: {ta}\nrecord of {b}: {tb}"))
                    ok = False
        if ok:
            distinct.add(f"{key[0]}:{traces[have[0]][key][0]}")
            if key[0].startswith("refused"):
                refused += 1
    cnt.update(compared=compared, compared_across_compilers=across, cases=len(allkeys), refused_calls_compared=refused)
    for nm in names:
        cnt["cases_of_" + nm] = len(traces[nm])
    return viol, cnt, distinct, jobs


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=66:hard_rss_limit_mb=3000:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=66"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:second_deadlock_stack=1"
    e["LSAN_OPTIONS"] = "exitcode=66"
    return e


def shard(exe, seed, k, n, tier, out, limit, only=()):
    cmd = [exe, str(seed), str(k), str(n), tier, out] + [str(x) for x in only]
    with open(out + ".err", "w") as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=ef, env=env(), start_new_session=True,
                             preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = 77
    return rc


def cur(out):
    try:
        t = open(out + ".cur", errors="replace").read().split("\0")[0]
        head, _, rest = t.partition("\n")
        s, i = head.split()
        return s, int(i), rest
    except Exception:
        return None, None, ""


def crash_key(err, rc):
    m = re.search(r"(AddressSanitizer|LeakSanitizer|ThreadSanitizer): ?([A-Za-z0-9-]+(?: [a-z]+)?)", err)
    if m:
        return f"{m.group(1)}:{m.group(2).replace(' ', '-')}"
    m = re.search(r"runtime error: (.{0,60})", err)
    if m:
        return "UBSan:" + re.sub(r"[^A-Za-z-]+", "-", m.group(1))
    if "Assertion" in err:
        m = re.search(r"Assertion [`'](.{0,80}?)' failed", err)
        return "assert:" + re.sub(r"\s+", "", m.group(1) if m else "")
    if "terminate called" in err:
        return "terminate"
    return f"crash:rc{rc}"


def main():
    if len(sys.argv) < 3:
        die("usage")
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    src = os.path.join(ROOT, "src", pid + ".cpp")
    d = directives(src)
    bdir = os.path.join(ROOT, "build", pid)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    rdir = os.path.join(ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    viol = []  # dicts: key, suite, idx, what, input
    if d["VARIANT"]:
        only = sys.argv[3:5] if tier == "replay" else None
        vt = tier if tier != "replay" else sys.argv[5] if len(sys.argv) > 5 else "quick"
        n = 1 if only else int(d["SHARDS"])
        viol, cnt, distinct, jobs = variants(pid, d, vt, seed, bdir, n, only)
        if tier == "replay":
            for nm, _ in jobs:
                print(nm, read_trace([f"{bdir}/{nm}/s0"])); print(open(f"{bdir}/{nm}/s0.err").read()[-2000:])
            for v in viol:
                print(v["what"])
            sys.exit(1 if viol else 0)
        return report(pid, tier, seed, d, t0, viol, dict(evals=sum(v for k, v in cnt.items() if k.startswith("cases_of_")), counters=cnt,
                      samples=sorted(distinct, key=hash_)[:6], distinct=distinct), 0.0, "base build: " + " ".join(SAN[d["SAN"]]) + "; others as listed by VARIANT in src/" + pid + ".cpp")
    exe, log = compile_(pid, d, bdir, sys.argv[5] if tier == 'replay' and len(sys.argv) > 5 else 'quick' if tier == 'replay' else tier)
    ct = time.time() - t0
    if tier == "replay":
        if not exe:
            print(log[-4000:]); sys.exit(1)
        t = sys.argv[5] if len(sys.argv) > 5 else "quick"
        rc = shard(exe, seed, 0, 1, t, f"{bdir}/r", 600, sys.argv[3:5])
        print(open(f"{bdir}/r.err").read()[-6000:]); print(open(f"{bdir}/r.viol").read())
        sys.exit(1 if rc or os.path.getsize(f"{bdir}/r.viol") else 0)
    n = int(d["SHARDS"])
    limit = 400 if tier == "quick" else 4 * 3600
    tot = {"evals": 0, "counters": {}, "samples": [], "distinct": set()}
    if not exe:
        m = re.search(r"error: (.{0,200})", log)
        viol.append(dict(key="does-not-compile", suite="-", idx=0, what="public API use no longer compiles: " + (m.group(1) if m else ""), input=log[:6000]))
    else:
        with ThreadPoolExecutor(n) as ex:
            rcs = list(ex.map(lambda k: shard(exe, seed, k, n, tier, f"{bdir}/s{k}", limit), range(n)))
        for k, rc in enumerate(rcs):
            out = f"{bdir}/s{k}"
            if rc == 3:
                die("harness usage/IO error")
            if rc != 0:
                err = open(out + ".err", errors="replace").read()
                s, i, inp = cur(out)
                if rc == 77:  # no answer within the case's budget: run that case once more, alone
                    rc2 = shard(exe, seed, 0, 1, tier, f"{bdir}/again{k}", 150, (s, i)) if s and s != "done" else 0
                    if rc2 == 77:
                        viol.append(dict(key="hang:" + s, suite=s, idx=i, what="no answer within the CPU budget, twice", input=inp))
                    elif rc2 == 0:
                        rc = shard(exe, seed, k, n, tier, out, limit)
                        if rc == 77:
                            s, i, inp = cur(out)
                            viol.append(dict(key="hang:" + str(s), suite=s, idx=i, what="no answer within the CPU budget", input=inp))
                    else:
                        rc, err = rc2, open(f"{bdir}/again{k}.err", errors="replace").read()
                elif not re.search(r"Sanitizer|runtime error|Assertion|terminate called", err):
                    rc = shard(exe, seed, k, n, tier, out, limit)  # killed from outside?
                    err = open(out + ".err", errors="replace").read()
                    s, i, inp = cur(out)
                    if rc == 77:
                        viol.append(dict(key="hang:" + str(s), suite=s, idx=i, what="no answer within the CPU budget", input=inp))
                if rc not in (0, 77):
                    m = re.search(r"(==\d+==ERROR.*|WARNING: ThreadSanitizer.*|\S+: runtime error.*|.*Assertion.*|terminate called.*)", err)
                    viol.append(dict(key=crash_key(err, rc), suite=s or "-", idx=i or 0, what=(m.group(1) if m else "")[:400] + f" (exit {rc})", input=inp + "\n" + err[:5000]))
            try:
                r = json.load(open(out + ".json"))
                tot["evals"] += r["evals"]
                for a, b in r["counters"].items():
                    tot["counters"][a] = max(tot["counters"].get(a, 0), b) if a.startswith("max_") else tot["counters"].get(a, 0) + b
                tot["samples"] += r["samples"]
                tot["distinct"].update(r["distinct"])
            except Exception:
                pass
            if os.path.exists(out + ".viol"):
                for line in open(out + ".viol", errors="replace"):
                    try:
                        viol.append(json.loads(line))
                    except Exception:
                        viol.append(dict(key="unparsed", suite="-", idx=0, what=line[:500], input=""))
    report(pid, tier, seed, d, t0, viol, tot, ct, " ".join(SAN[d["SAN"]]))


def report(pid, tier, seed, d, t0, viol, tot, ct, san):
    rdir = os.path.join(ROOT, "replays")
    kf = known(pid)
    fresh = [v for v in viol if v["key"] not in kf]
    if not fresh:
        for m in d["MIN"]:
            a, b = m.split("=")
            if tot["counters"].get(a, 0) < int(b):
                die(f"vacuous run: counter {a} is {tot['counters'].get(a, 0)}, expected at least {b}")
        if tot["evals"] == 0:
            die("vacuous run: no case was executed")
    wall = time.time() - t0
    samples = sorted(set(tot["samples"]), key=lambda s: hash_(s))[:6]
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2), violations=len(fresh),
              coverage=dict(evaluations=tot["evals"], distinct_nontrivial=len(tot["distinct"]), rule=d["RULE"],
                            samples=samples or ["(none recorded)"], observed=tot["counters"], compile_s=round(ct, 2),
                            sanitizer=san, known_findings_seen=sorted({v["key"] for v in viol if v["key"] in kf})),
              assumptions=d["ASSUME"])
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for k, what in kf.items():
        print(f"KNOWN-FINDING: property={pid} {what}")
    print(f"{pid} {tier} seed={seed}: {tot['evals']} cases, {len(tot['distinct'])} distinct non-trivial, compile {ct:.1f}s, wall {wall:.1f}s, observed {json.dumps(tot['counters'])}")
    if not fresh:
        sys.exit(0)
    seen = {}
    for v in fresh:
        seen.setdefault(v["key"], v)
    for j, (k, v) in enumerate(list(seen.items())[:5]):
        path = os.path.join(rdir, f"{pid}-{j}.json")
        json.dump(dict(property=pid, seed=seed, tier=tier, replay=f"VERIF_SEED={seed} python3 check.py {pid} replay {v['suite']} {v['idx']} {tier}", **v), open(path, "w"), indent=1)
        print(f"  [{v['key']}] suite={v['suite']} case={v['idx']}: {v['what'][:600]}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
    sys.exit(1)


def hash_(s):
    h = 1469598103934665603
    for ch in s.encode(errors="replace"):
        h = ((h ^ ch) * 1099511628211) & (2**64 - 1)
    return h


if __name__ == "__main__":
    main()
