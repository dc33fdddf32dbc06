#!/usr/bin/env python3
"""mutants.py [-w DIR] [-p Pxx,..] [-n name,..]: quick one-edit mutants, each run only against its property's quick check in a scratch copy of /repo; prints which are missed"""
import sys, os, subprocess, argparse, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(os.path.dirname(HERE))
S = "src/"
M = []  # (name, properties, file, old, new)
def m(name, props, f, old, new): M.append((name, props.split(), S + f, old, new))
exec(open(HERE + "/mutantlist.py").read())
if __name__ == "__main__":
    ap = argparse.ArgumentParser(); ap.add_argument("-w", default="/tmp/wm"); ap.add_argument("-p", default=""); ap.add_argument("-n", default="")
    a = ap.parse_args(); WT = a.w
    sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
    if not os.path.isdir(WT): sh("git clone -q /repo %s" % WT)
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh("cd %s && git checkout -q -f . && git fetch -q /repo && git reset -q --hard %s" % (WT, head))
    miss = []
    for name, props, f, old, new in M:
        if a.n and name not in a.n.split(","): continue
        if a.p and not set(a.p.split(",")) & set(props): continue
        p = WT + "/" + f; t = open(p).read()
        if t.count(old) != 1: print("%-28s EDIT COUNT %d" % (name, t.count(old)), flush=True); continue
        open(p, "w").write(t.replace(old, new))
        res = []
        for q in props:
            t0 = time.time()
            c = sh("python3 %s/check.py %s quick" % (VERIF, q), env=dict(os.environ, ZMDP_REPO=WT))
            why = [l[:110] for l in c.stdout.split("\n") if l.startswith(("VIOLATION", "  case", "  violation"))][:2]
            res.append("%s rc=%d %ds %s" % (q, c.returncode, time.time() - t0, why if c.returncode else ""))
            if c.returncode not in (0, 1): res.append(c.stdout[-300:])
        caught = any(" rc=1 " in r for r in res)
        if not caught: miss.append(name)
        print("%-28s %s %s" % (name, "caught" if caught else "MISSED", " | ".join(res)), flush=True)
        open(p, "w").write(t)
    print("missed:", miss)
