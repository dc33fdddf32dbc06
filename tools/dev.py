#!/usr/bin/env python3
"""dev.py <harness> [-b budget] [-t] [-r] [case...] : run single cases and print their statistics (-r: replay counterexamples natively)"""
import sys, os, re, json, subprocess, tempfile, time, argparse
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import build, checks
ap = argparse.ArgumentParser(); ap.add_argument("h"); ap.add_argument("-b", type=int, default=20); ap.add_argument("-t", action="store_true"); ap.add_argument("-r", action="store_true"); ap.add_argument("cases", nargs="*")
a = ap.parse_intermixed_args()
srcs, extra = checks.ALL, ()
for c in checks.CHECKS.values():
    for h, s, e in c["builds"]:
        if h == a.h + ".cc": srcs, extra = s, e
try: exe, fm = build.build_symbolic(a.h + ".cc", srcs, extra)
except build.BuildError as e: sys.exit(str(e)[-3500:])
rep = build.build_replay(a.h + ".cc", srcs, extra) if a.r else None
cases = a.cases or re.findall(r"^SYM_CASE(?:_THOROUGH)?\((\w+)", open(build.VERIF + "/harness/" + a.h + ".cc").read(), re.M)
for c in cases:
    d = tempfile.mkdtemp(prefix="dev-", dir="/tmp")
    cmd = [exe, "--case", c, "--budget", str(a.b), "--jobs", "8", "--scratch", d, "--repo", "/repo", "--out", d + "/o.json"] + (["--thorough"] if a.t else [])
    t = time.time()
    log = open(d + "/log", "w")
    subprocess.run(cmd, stdout=log, stderr=log, timeout=a.b * 10 + 60)
    for r in json.load(open(d + "/o.json"))["cases"]:
        print("%-16s %5.1fs" % (c, time.time() - t), {k: r[k] for k in r if k not in ("name", "bounds", "violations", "samples", "wall_s", "forks", "steps", "unsat") and r[k] not in (0, "", [])})
        for v in r["violations"]:
            print("   V:", v["msg"], v["model"].replace("\n", " ")[:600])
            if a.r:
                open(d + "/v", "w").write(v["model"])
                p = subprocess.run([rep, "--case", c, "--values", d + "/v", "--scratch", d, "--repo", "/repo"] + (["--thorough"] if a.t else []), stderr=subprocess.PIPE, stdout=subprocess.DEVNULL, text=True, errors="replace", env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_odr_violation=0:alloc_dealloc_mismatch=0"))
                print("   native: rc", p.returncode, [l for l in p.stderr.split("\n") if "REPLAY" in l or "ERROR" in l or "ssert" in l][:3])
