#!/usr/bin/env python3
"""mkseeds.py [-c] [-n] id... : (re)creates seeded/<id> from spec.py in a scratch copy of /repo and confirms it (build, tests, demonstration); -c also runs the property's check; -n only new ones"""
import sys, os, subprocess, json, shutil, argparse
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
from spec import SEEDS
ap = argparse.ArgumentParser(); ap.add_argument("-c", action="store_true"); ap.add_argument("-n", action="store_true"); ap.add_argument("-w", default="/tmp/wt"); ap.add_argument("ids", nargs="*")
a = ap.parse_args(); WT = a.w
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def fresh():
    if not os.path.isdir(WT): sh("cp -a /repo %s" % WT)
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh("cd %s && git checkout -q -f . && git fetch -q /repo && git reset -q --hard %s" % (WT, head))
def build():
    b = sh("bash %s/build.sh" % HERE, env=dict(os.environ, R=WT)); return b.returncode, b.stdout[-1500:]
bsh = open("/opt/vp/build.sh").read().replace("/repo", WT); tsh = open("/opt/vp/test.sh").read().replace("/repo", WT)
os.makedirs("/tmp/mk", exist_ok=True); tag = WT.replace("/", "_")
open("/tmp/mk/b%s.sh" % tag, "w").write(bsh); open("/tmp/mk/t%s.sh" % tag, "w").write(tsh)
def build(): b = sh("bash /tmp/mk/b%s.sh" % tag); return b.returncode, b.stdout[-1500:]
ok = lambda r: "ok" if r else "NOT OK"
for s in SEEDS:
    d = VERIF + "/seeded/" + s["id"]
    if a.ids and s["id"] not in a.ids: continue
    if a.n and os.path.exists(d + "/meta.json"): continue
    fresh()
    tmp = "/tmp/mk/d%s" % tag; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    if "sh" in s: open(tmp + "/demo.sh", "w").write(s["sh"])
    else: shutil.copy(HERE + "/demo.sh", tmp); shutil.copy(HERE + "/dh.h", tmp); open(tmp + "/demo.cc", "w").write('#include "dh.h"\n' + s["demo"])
    rc, out = build()
    if rc: print(s["id"], "unpatched build failed", out); continue
    d0 = sh("bash %s/demo.sh" % tmp, cwd=WT, timeout=400)
    bad = False
    for f, old, new in s["edits"]:
        p = WT + "/" + f; t = open(p).read()
        if t.count(old) < 1 or (t.count(old) > 1 and not s.get("first")): print(s["id"], "edit does not apply uniquely:", f, t.count(old)); bad = True; break
        open(p, "w").write(t.replace(old, new, 1))
    if bad: continue
    diff = sh("git -C %s diff" % WT).stdout
    rc, out = build()
    if rc: print(s["id"], "patched build failed", out); continue
    t = sh("bash /tmp/mk/t%s.sh /tmp/mk/t%s.json" % (tag, tag)); tj = json.load(open("/tmp/mk/t%s.json" % tag))
    d1 = sh("bash %s/demo.sh" % tmp, cwd=WT, timeout=400)
    good = d0.returncode == 0 and d1.returncode != 0 and d1.returncode != 3 and not tj["failed"]
    print(s["id"], "demo unpatched rc", d0.returncode, "patched rc", d1.returncode, "failed tests", tj["failed"], "=>", "KEEP" if good else "REJECT")
    if d0.returncode: print(d0.stdout[-800:])
    if d1.returncode in (0, 3): print(d1.stdout[-800:])
    if good:
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if a.c:
        c = sh("python3 %s/check.py %s quick" % (VERIF, s["property"]), env=dict(os.environ, ZMDP_REPO=WT))
        print("   check", s["property"], "rc", c.returncode, [l[:160] for l in c.stdout.split("\n") if l.startswith(("VIOLATION", "  case", "note"))][:3])
    sys.stdout.flush()
    sh("git -C %s checkout -q -f ." % WT)
