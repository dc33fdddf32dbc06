#!/usr/bin/env python3
"""automut.py -w DIR -s SEED -n COUNT [-f file,..]: random small edits of the source (operators, constants, dropped statements), each run
against the quick checks of the properties anchored in that file, in a scratch copy of /repo; prints those no check reports"""
import sys, os, re, random, subprocess, argparse, time, json
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(os.path.dirname(HERE))
ap = argparse.ArgumentParser(); ap.add_argument("-w", default="/tmp/wa"); ap.add_argument("-s", type=int, default=1); ap.add_argument("-n", type=int, default=10); ap.add_argument("-f", default=""); ap.add_argument("-l", action="store_true")
a = ap.parse_args(); WT = a.w; rnd = random.Random(a.s)
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
OWN = {}
for l in open(VERIF + "/properties.jsonl"):
    d = json.loads(l)
    for f in d["anchors"]["files"]: OWN.setdefault(f, []).append(d["id"])
FIRST = {"src/parsers/FastParser.cc": ["P16", "P17"], "src/common/MatrixUtils.h": ["P15", "P24", "P19", "P09"], "src/pomdpBounds/MaxPlanesLowerBound.cc": ["P06", "P12", "P05", "P02", "P04", "P36", "P33"],
         "src/pomdpBounds/SawtoothUpperBound.cc": ["P07", "P05", "P02", "P04", "P36"], "src/search/RTDPCore.cc": ["P10", "P29", "P36", "P15", "P35"], "src/main/zmdp.cc": ["P29", "P33", "P35", "P22"], "src/main/TestDriver.cc": ["P36", "P29", "P11"],
         "src/exec/PolicyEvaluator.cc": ["P14", "P33", "P36", "P29"], "src/main/solverUtils.cc": ["P22", "P29", "P33"]}
SKIP = ("pomdp_spec", )
OPS = [(r"(?<![<>=!\-])<(?![<=a-zA-Z])", "<="), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
       (r" && ", " || "), (r" \|\| ", " && "), (r"\b0\b(?!\.|x)", "1"), (r"(?<![\w.])1\b(?!\.|e)", "2"), (r"(?<![\w.])1\b(?!\.|e)", "0"), (r"std::min\(", "std::max("), (r"std::max\(", "std::min("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r" \+= ", " -= "), (r" -= ", " += "), (r" \+= ", " = "), (r"\+\+;", "--;"), (r"\bif \((?!NULL)", "if (!"), (r"^\s*(?!return|delete|const|using|typedef|case|default)[\w\->.\[\]()*]+\s*(=|\+=|\()[^;{}]*;$", ""), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"fabs\(", "("), (r"1\.0\b", "0.0"), (r"0\.0\b", "1.0")]
def lines(f):
    t = open(WT + "/" + f).read().split("\n"); out = []; off = 0; blk = False
    for i, l in enumerate(t):
        s = l.strip()
        if s.startswith("#if 0"): off = 1
        elif off and s.startswith("#if"): off += 1
        elif off and s.startswith(("#endif", "#else")): off -= 1 if s.startswith("#endif") or off == 1 else 0
        if "/*" in s and "*/" not in s: blk = True
        dead = off or blk or not s or s.startswith(("//", "#", "*", "assert", "cerr", "cout", "printf", "fprintf", "<<", "}", "using", "namespace", "static const char", '"'))
        if "*/" in s: blk = False
        if not dead and "DEBUG" not in s: out.append(i)
    return t, out
if not os.path.isdir(WT): sh("git clone -q /repo %s" % WT)
sh("cd %s && git checkout -q -f . && git fetch -q /repo && git reset -q --hard %s" % (WT, sh("git -C /repo rev-parse HEAD").stdout.strip()))
files = [f for f in OWN if not any(k in f for k in SKIP)]
if a.f: files = [f for f in files if any(x in f for x in a.f.split(","))]
pool = [(f, i) for f in files for i in lines(f)[1]]; done = 0; miss = []
while done < a.n:
    f, i = rnd.choice(pool); t, _ = lines(f); l = t[i]; code = l.split("//")[0]
    c = [(m.start(), m.end(), new) for p, new in OPS for m in re.finditer(p, code) if code[:m.start()].count('"') % 2 == 0]
    if not c: continue
    s, e, new = rnd.choice(c); n = l[:s] + new + l[e:]
    if new == "if (!": n = re.sub(r"\bif \((.*)\) \{$", r"if (!(\1)) {", l)
    if n == l: continue
    p = WT + "/" + f; open(p, "w").write("\n".join(t[:i] + [n] + t[i + 1:])); done += 1
    desc = "%s:%d  %s  ->  %s" % (f[4:], i + 1, l.strip()[:90], n.strip()[:90])
    try:
        if a.l: print(desc); continue
        res = ""
        for q in FIRST.get(f, OWN[f]):
            t0 = time.time(); c = sh("python3 %s/check.py %s quick" % (VERIF, q), env=dict(os.environ, ZMDP_REPO=WT)); res += " %s rc=%d %ds" % (q, c.returncode, time.time() - t0)
            if c.returncode != 0: res += " " + ([x[:120] for x in c.stdout.split("\n") if x.startswith("  case")] or [c.stdout[-150:].replace("\n", " ")])[0]; break
        else: miss.append(desc)
        print(("MISSED " if miss and miss[-1] == desc else "caught ") + desc + "\n       " + res, flush=True)
    finally: open(p, "w").write("\n".join(t))
print("missed %d of %d" % (len(miss), done)); print("\n".join(miss))
